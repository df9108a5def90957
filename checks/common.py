"""Shared by the check modules."""

import torch

import artist.raytracing  # noqa: F401  (first: some sub-packages cannot be imported on their own)

from symex.harness import *  # noqa: F401,F403
from symex.tensor import SymTensor  # noqa: F401

CPU = torch.device("cpu")

REALS = "floating point values are treated as reals (rounding, overflow and NaN arithmetic are outside the claim); tolerance in replay absorbs rounding"


class Registry(list):
    def __call__(self, bounds, tier="quick", name=None, **opts):
        def deco(fn):
            self.append({"name": name or fn.__name__, "fn": fn, "tier": tier, "bounds": bounds, "opts": {"budget_s": 200, **opts}})
            return fn

        return deco
