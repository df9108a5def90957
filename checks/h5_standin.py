"""Stand-in for h5py.File that keeps symbolic values. On replay the real h5py is used instead."""

import builtins
import contextlib
import pathlib
import tempfile
from unittest import mock

import h5py
import numpy as np
import torch

from symex.tensor import SymTensor

_FILES = {}


class Data:
    def __init__(self, value):
        self.value = value

    def __getitem__(self, key):
        v = self.value
        if isinstance(v, str):
            v = v.encode("utf-8")
        if isinstance(v, torch.Tensor):
            v = v.clone()
        if isinstance(v, (list, tuple)):
            v = np.asarray(v)
        return v if key == () else v[key]


class Node:
    def __init__(self):
        self.items_ = {}

    def _find(self, path):
        n = self
        for p in str(path).strip("/").split("/"):
            if not isinstance(n, Node) or p not in n.items_:
                raise KeyError(f"Unable to open object (object '{p}' doesn't exist)")
            n = n.items_[p]
        return n

    def __getitem__(self, path):
        return self._find(path)

    def get(self, path, default=None):
        try:
            return self._find(path)
        except KeyError:
            return default

    def keys(self):
        return sorted(self.items_)

    def values(self):
        return [self.items_[k] for k in self.keys()]

    def items(self):
        return [(k, self.items_[k]) for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.items_)

    def __contains__(self, path):
        return self.get(path) is not None

    def __bool__(self):
        return True

    def __setitem__(self, path, value):
        *head, last = str(path).strip("/").split("/")
        n = self
        for p in head:
            n = n.items_.setdefault(p, Node())
        if last in n.items_:
            raise OSError("Unable to create dataset (name already exists)")
        n.items_[last] = Data(value)

    def create_dataset(self, name, data=None, **kw):
        self[name] = data

    def create_group(self, name):
        return self.items_.setdefault(name, Node())

    require_group = create_group


class File(Node):
    def __new__(cls, name, mode="r", *a, **k):
        key = str(name)
        if mode == "w":
            _FILES[key] = object.__new__(cls)
            Node.__init__(_FILES[key])
            _FILES[key].attrs = {}
        return _FILES[key]

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def number(x=0.0):
    """float(), except that symbolic numbers stay symbolic."""
    return x if isinstance(x, SymTensor) else builtins.float(x)


@contextlib.contextmanager
def h5(h, modules):
    """A folder for scenario files; symbolic runs keep their contents in memory."""
    with tempfile.TemporaryDirectory() as folder, contextlib.ExitStack() as stack:
        if h.sym:
            _FILES.clear()
            stack.enter_context(mock.patch.object(h5py, "File", File))
            for m in modules:
                stack.enter_context(mock.patch.object(m, "float", number, create=True))
        yield pathlib.Path(folder)
