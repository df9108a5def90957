"""P19: early stopping: exactly after `patience` consecutive windows without enough improvement."""

from checks.common import *
from artist.optim.training import EarlyStopping

PROPERTY = "P19"
ASSUMPTIONS = [REALS]
HARNESSES = Registry()


def reference(losses, window, patience, least, relative, eps):
    """Stopping decision after each epoch, from the definition; symbolic truth values."""
    bad, out = [], []
    for k in range(len(losses)):
        if k + 1 < window:
            out.append(torch.tensor(False))
            continue
        first = losses[k + 1 - window]
        gain = first - losses[k]
        # gain / max(|first|, eps) > least without the division
        need = least * torch.maximum(first.abs(), torch.as_tensor(eps)) if relative else least
        bad.append(gain <= need)
        stop = torch.tensor(len(bad) >= patience)
        for b in bad[-patience:] if patience else []:
            stop = stop & b
        out.append(stop)
    return out


def run(h, epochs, window, patience, relative, default_eps=True):
    losses = h.real("loss", (epochs,), -10, 10)
    least, eps = h.real("least", (), 0, 0.5), h.real("eps", (), 1e-3, 1)
    s = EarlyStopping(window_size=window, patience=patience, min_improvement=least, relative=bool(relative), eps=eps)
    want = reference(losses, window, patience, least, relative, eps)
    for k in range(epochs):
        got = s.step(losses[k])
        h.check(want[k] == torch.tensor(bool(got)), "stops exactly after the given number of windows in a row without enough improvement")


@HARNESSES("4 epochs, any losses, thresholds and stability constant; windows of 2 or 3 epochs, patience 1 or 2, relative and absolute improvement", max_paths=4000)
def short(h):
    run(h, 4, 2 + h.choice("window", 2), 1 + h.choice("patience", 2), h.choice("relative", 2))


@HARNESSES("6 epochs, any losses, window of 2 epochs, patience 3, absolute improvement", max_paths=4000)
def reset(h):
    run(h, 6, 2, 3, 0)


@HARNESSES("5 epochs, any losses, window of 1 epoch: never an improvement; patience 3", max_paths=4000)
def window_one(h):
    run(h, 5, 1, 3, h.choice("relative", 2))


@HARNESSES("7 epochs, any losses, windows of 2 to 4 epochs, patience 2 or 4, relative and absolute", tier="thorough", max_paths=20000, budget_s=800)
def long(h):
    run(h, 7, 2 + h.choice("window", 3), 2 + 2 * h.choice("patience", 2), h.choice("relative", 2))
