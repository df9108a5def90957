"""Nothing is built: make sure that the interpreter, the solvers and the code under test can be loaded."""
import os, sys, shutil, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, root)
sys.path.insert(0, "/repo")
d = tempfile.mkdtemp(prefix="verif_setup_")
os.chdir(d)
try:
    import torch  # noqa: F401
    import artist  # noqa: F401
    from symex import harness  # noqa: F401
    os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
    print("ok")
finally:
    os.chdir(root)
    shutil.rmtree(d, ignore_errors=True)
