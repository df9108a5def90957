"""Path exploration, proof obligations, replay, evidence."""

from __future__ import annotations

import contextlib
import io
import json
import logging
import math
import os
import random
import sys
import time
import traceback
import warnings

import numpy as np
import torch

from . import linear, norm, solve, tensor
from . import terms as tm
from .solve import z3
from .terms import BOOL, INT, REAL, T, Unsupported
from .tensor import S, SymTensor, as0


class PathAbort(BaseException):
    """The current path is infeasible (or deliberately cut)."""


class Inconclusive(BaseException):
    pass


class Budget(BaseException):
    pass


class UndefinedValue(Exception):
    """A division by zero, root of a negative number, ... is reachable (harness option `defined`)."""


class Violated(Exception):
    """Concrete replay: an obligation failed."""


class Explorer:
    def __init__(self, cfg, stats):
        self.cfg = cfg
        self.stats = stats
        self.deadline = time.time() + cfg.budget_s
        self.emitter = solve.Emitter(bv=cfg.bv)
        self.rng = random.Random(cfg.seed)
        self.notes = set()
        self.total_paths = 0
        self.aborted = 0
        self.worklist = [[]]
        self.env = None
        self.implied_cache = {}

    # -------- path state
    def start(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.pcset = set()
        self.fresh_count = 0
        self.names = {}
        self.env = None
        tensor.RNG.seed = ("default",)
        tensor.RNG.count = 0
        self.side = []
        self.linear = linear.Linear()
        self.linear.trusted = self.pcset
        tm.Ctx.var_squares = {}
        tm.Ctx.roots = {}
        tm.Ctx.eager = self.cfg.eager
        tm.Ctx.tiny = None if self.cfg.tiny is None else tm.const(self.cfg.tiny)
        tm.Ctx.atan2_hook = None
        tm.Ctx.arc_hook = None
        tm.Ctx.simplify = None
        if self.cfg.simplify:
            nn = norm.Normalizer(limit=3000)
            cache = {}

            def simplify(x):
                r = cache.get(x.id)
                if r is None:
                    saved, tm.Ctx.simplify = tm.Ctx.simplify, None
                    try:
                        y = nn.term(nn.of(x))
                        if isinstance(y, T):
                            if len(tm.postorder([y])) >= len(tm.postorder([x])):
                                y = x
                        r = y
                    except norm.TooBig:
                        r = x
                    finally:
                        tm.Ctx.simplify = saved
                    cache[x.id] = r
                return r

            tm.Ctx.simplify = simplify
            tm.Ctx.atan2_hook = lambda y, x: self.polar_angle(nn, y, x)
            tm.Ctx.arc_hook = lambda f, x: self.arc_angle(nn, f, x)

    def polar_angle(self, nn, y, x):
        """atan2(k sin(w t + m pi/2), k cos(w t + m pi/2)) with k > 0, w = +-1 and t in [-pi, pi]: w t + m pi/2, wrapped."""
        try:
            ny, dy = nn.of(y)
            nx, dx = nn.of(x)
        except norm.TooBig:
            return None
        if dy != dx or not ny or not nx:
            return None
        sgn = self.linear.sign_of_in(nn, dy) if dy != norm.ONE else 1
        if sgn is None:
            return None
        angles = {}
        for i, (key, rep) in enumerate(nn.atoms):
            if key[0] in ("cos", "sin"):
                angles.setdefault(key[1], {})[key[0]] = (i, rep)
        for k, d in angles.items():
            if len(d) != 2:
                continue
            ci, si = {((d["cos"][0], 1),): 1}, {((d["sin"][0], 1),): 1}
            nc, ns = nn.pscale(ci, -1), nn.pscale(si, -1)
            turns = [(1, m, xy) for m, xy in enumerate(((ci, si), (ns, ci), (nc, ns), (si, nc)))]
            turns += [(-1, m, xy) for m, xy in enumerate(((ci, ns), (si, ci), (nc, si), (ns, nc)))]
            for way, m, (px, py) in turns:
                a = nn.exact_div(nx, px)
                if a is None:
                    continue
                b = nn.exact_div(ny, py)
                if b is None or a != b:
                    continue
                s = self.linear.sign_of_in(nn, a)
                if s is None:
                    kt = nn.poly_term(a)
                    s = 1 if self.implied(tm.gt(kt, 0)) else -1 if self.implied(tm.lt(kt, 0)) else None
                if s is None:
                    continue
                if s * sgn < 0:
                    m = (m + 2) % 4
                t = tm.mul(way, d["cos"][1].args[0])
                P = tm.pi()
                if not (self.quick_implied(tm.le(t, P)) and self.quick_implied(tm.gt(t, tm.neg(P)))):
                    continue
                r = tm.add(t, tm.mul(tm.Fraction(m, 2), P)) if m else t
                if m and tm.Ctx.eager == "keep-abs":
                    if not self.quick_implied(tm.le(r, P)):
                        tm.Ctx.eager = False
                        r = tm.ite(tm.le(r, P), r, tm.sub(r, tm.mul(2, P)))
                        tm.Ctx.eager = "keep-abs"
                elif m and not self.decide(tm.le(r, P)):
                    r = tm.sub(r, tm.mul(2, P))
                return r
        return None

    def arc_angle(self, nn, f, x):
        """asin(+-sin t), acos(+-cos t) with t known to lie in one monotone piece."""
        try:
            p, d = nn.of(x)
        except norm.TooBig:
            return None
        if d != norm.ONE or len(p) != 1:
            return None
        for i, (key, rep) in enumerate(nn.atoms):
            if key[0] != f:
                continue
            a = {((i, 1),): 1}
            s = 1 if p == a else -1 if p == nn.pscale(a, -1) else 0
            if not s:
                continue
            t, P = rep.args[0], tm.pi()
            inside = lambda lo, hi: self.quick_implied(tm.ge(t, tm.mul(lo, P))) and self.quick_implied(tm.le(t, tm.mul(hi, P)))
            h = tm.Fraction(1, 2)
            if f == "sin":
                for m in (0, 1, -1):  # t in [m pi - pi/2, m pi + pi/2]
                    if inside(m - h, m + h):
                        r = tm.sub(t, tm.mul(m, P)) if m else t
                        return tm.mul(s * (-1) ** m, r)
            else:
                r = t if inside(0, 1) else tm.neg(t) if inside(-1, 0) else None
                if r is not None:
                    return r if s > 0 else tm.sub(P, r)
        return None

    def fresh(self, kind, sort):
        self.fresh_count += 1
        return tm.var(f"{kind}!{self.fresh_count}", sort)

    def named(self, name, sort):
        return tm.var(name, sort)

    def push(self, c):
        if not isinstance(c, T):
            if not c:
                raise PathAbort
            return
        if c.id in self.pcset:
            return
        if c.op == "and":
            for a in c.args:
                self.push(a)
            return
        self.pcset.add(c.id)
        self.pc.append(c)
        if self.env is not None:
            v = self._eval(c)
            if v is not True:
                self.env = None

    def _eval(self, c):
        try:
            v = tm.evaluate([c], self.env)[0]
        except Exception:
            return None
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        return None

    def time_left(self):
        left = self.deadline - time.time()
        if left <= 0:
            raise Budget("time budget of the harness exhausted")
        return left

    def query(self, assertions, timeout=None, nra=None):
        t = min(timeout or self.cfg.branch_ms, 1000 * self.time_left())
        self.stats.branch_queries += 1
        return solve.check(assertions, max(50, t), self.stats, self.emitter, nra=self.cfg.nra if nra is None else nra)

    def feasible(self, c):
        """Is pc and c satisfiable (unknown counts as feasible)?"""
        if self.env is not None:
            v = self._eval(c)
            if v is True:
                return True
        if not self.cfg.bv and self.linear.unsat(self.pc + [c], self.stats):
            return False
        r, m = self.query(self.pc + [c])
        if r == "sat":
            if self.env is None:
                try:
                    self.env = solve.extract_env(m, self.emitter, self.pc + [c])
                    for a in self.pc:
                        if self._eval(a) is not True:
                            self.env = None
                            break
                except Exception:
                    self.env = None
            return True
        return r != "unsat"

    def quick_implied(self, c):
        """Sound but incomplete: implied by the path condition according to the linear abstraction."""
        if not isinstance(c, T):
            return bool(c)
        if c.id in self.pcset:
            return True
        if self.env is not None and self._eval(c) is False:
            return False
        return self.linear.unsat(self.pc + [tm.not_(c)], self.stats)

    def implied(self, c):
        if not isinstance(c, T):
            return bool(c)
        if c.id in self.pcset:
            return True
        if self.env is not None and self._eval(c) is False:
            return False
        return self.query(self.pc + [tm.not_(c)])[0] == "unsat"

    def maybe(self, c):
        if not isinstance(c, T):
            return bool(c)
        return self.feasible(c)

    def decide(self, c):
        c = tm.as_bool(c)
        if not isinstance(c, T):
            return c
        n = tm.not_(c)
        if c.id in self.pcset:
            return True
        if isinstance(n, T) and n.id in self.pcset:
            return False
        # conditions decided by the path alone are not branch points
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.trace.append(v)
            if v in (True, False):
                self.push(c if v else n)
                return v
            # forced decisions: recorded without pushing
            return v == "T"
        self.time_left()
        ft = self.feasible(c)
        if not ft:
            self.trace.append("F")
            return False
        ff = self.feasible(n)
        if not ff:
            self.trace.append("T")
            return True
        self.worklist.append(self.trace + [False])
        self.trace.append(True)
        self.push(c)
        return True

    def choose_int(self, t):
        if not isinstance(t, T):
            return int(t)
        # collect the leaves of a constant-leaf ITE, otherwise ask the solver
        for _ in range(self.cfg.max_values):
            if t.op == "ite" and tm._const_leaves(t):
                leaves = []

                def walk(x):
                    if isinstance(x, T):
                        walk(x.args[1])
                        walk(x.args[2])
                    elif x not in leaves:
                        leaves.append(x)

                walk(t)
                for v in leaves:
                    if self.decide(tm.eq(t, v)):
                        return int(v)
                raise PathAbort
            k = len(self.trace)
            if k < len(self.prefix) and isinstance(self.prefix[k], tuple):
                v = self.prefix[k][1]
                self.trace.append(self.prefix[k])
            else:
                r, m = self.query(self.pc + [tm.eq(t, t)] if False else self.pc, timeout=self.cfg.branch_ms)
                v = None
                if r == "sat":
                    e = self.emitter.emit(t)
                    v = solve.model_value(m, e)
                if r == "unsat":
                    raise PathAbort
                if v is None:
                    raise Inconclusive("could not enumerate the values of an integer")
                self.trace.append(("v", v))
            if self.decide(tm.eq(t, v)):
                return int(v)
        raise Budget("too many values of one integer")

    def side_condition(self, c, why):
        c = tm.as_bool(c)
        if not isinstance(c, T):
            if not c:
                self.notes.add("cut (undefined real operation): " + why)
                if self.cfg.total:
                    return
                if self.cfg.defined:
                    raise UndefinedValue("not guaranteed: " + why)
                raise PathAbort
            return
        if c.id in self.pcset:
            return
        if self.cfg.total:
            self.notes.add("undefined values are arbitrary reals: " + why)
            return
        if self.cfg.defined:
            if not self.decide(c):
                raise UndefinedValue("not guaranteed: " + why)
            return
        self.side.append((c, why))
        self.notes.add("assumed defined: " + why)
        self.push(c)


class Cfg:
    def __init__(self, seed=1, budget_s=300, bv=False, nra=None, total=False, max_paths=2000, branch_ms=4000, prove_ms=20000, max_values=64, tol=1e-6, simplify=False, eager=False, tiny=None, defined=False):
        self.__dict__.update(locals())
        del self.__dict__["self"]


class Obligation:
    __slots__ = ("label", "status", "how")


class H:
    """Harness handle: symbolic mode builds obligations, concrete mode replays them."""

    def __init__(self, mode, ex=None, env=None, cfg=None, double=False, rand=None):
        self.sym = mode == "sym"
        self.double = double
        self.rand = rand
        self.ex = ex
        self.env = env
        self.cfg = cfg
        self.inputs = {}
        self.failures = []
        self.checked = 0
        self.labels = {}
        self.observed = []
        self.cex = []
        self.norm = None
        self.reached = set()
        self.chosen = {}

    # ---- inputs
    def _input(self, name, shape, sort, dtype, lo, hi):
        shape = tuple(shape)
        names = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            names[ix] = name + ("" if not shape else "[" + ",".join(map(str, ix)) + "]")
        if self.sym:
            a = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                v = tm.var(names[ix], sort)
                a[ix] = v
                if lo is not None:
                    self.ex.push(tm.ge(v, tm.const(lo)))
                if hi is not None:
                    self.ex.push(tm.le(v, tm.const(hi)))
            return SymTensor(a, dtype)
        vals = np.zeros(shape, dtype=np.float64 if sort == REAL else (np.int64 if sort == INT else bool))
        for ix in np.ndindex(*shape):
            d = lo if lo is not None else (hi if hi is not None else 0)
            if sort == BOOL:
                d = False
            v = self.env.get(names[ix], d)
            if self.rand is not None and (names[ix] not in self.env or self.rand.random() < self.loose):
                v = self._draw(sort, lo, hi)
            if sort == REAL:
                v = float(v)
            vals[ix] = v
            self.inputs[names[ix]] = v if not isinstance(v, np.generic) else v.item()
        return torch.tensor(vals).to(torch.float64 if self.double and dtype == torch.float32 else dtype)

    def _draw(self, sort, lo, hi):
        r = self.rand
        if sort == BOOL:
            return r.random() < 0.5
        if sort == INT:
            a = lo if lo is not None else (hi - 8 if hi is not None else -4)
            return r.randint(int(a), int(hi if hi is not None else a + 8))
        a = float(lo) if lo is not None else (float(hi) - 6 if hi is not None else -3.0)
        b = float(hi) if hi is not None else a + 6
        k = r.random()
        if k < 0.6:
            return r.uniform(a, b)
        if k < 0.75:
            return a + (b - a) * r.randint(0, 8) / 8
        if k < 0.85:
            return a + (b - a) * r.randint(0, 1)
        return min(max(r.choice([0.0, 1.0, -1.0, r.uniform(-1, 1)]), a), b)

    def real(self, name, shape=(), lo=None, hi=None, dtype=torch.float32):
        return self._input(name, shape, REAL, dtype, lo, hi)

    def int(self, name, shape=(), lo=None, hi=None, dtype=torch.int64):
        return self._input(name, shape, INT, dtype, lo, hi)

    def bool(self, name, shape=()):
        return self._input(name, shape, BOOL, torch.bool, None, None)

    def unit(self, name, n=3, batch=(), dtype=torch.float32):
        """Unit vectors: symbolic components constrained to norm one."""
        v = self.real(name, tuple(batch) + (n,), -1, 1, dtype)
        if self.sym:
            a = v._a.reshape(-1, n)
            for row in a:
                s = 0
                for x in row:
                    s = tm.add(s, tm.mul(x, x))
                self.ex.push(tm.eq(s, 1))
                s = 1
                for x in row[:-1]:
                    s = tm.sub(s, tm.mul(x, x))
                tm.Ctx.var_squares[row[-1].meta] = s
            return v
        nv = torch.linalg.vector_norm(v, dim=-1, keepdim=True)
        return torch.where(nv > 0, v / torch.where(nv > 0, nv, torch.ones_like(nv)), v)

    def sphere(self, name, batch=()):
        """Unit vectors given by two angles each (every direction), with two orthogonal unit companions."""
        a, b = self.real(name + "_a", batch, -4, 4), self.real(name + "_b", batch, -4, 4)
        ca, sa, cb, sb = torch.cos(a), torch.sin(a), torch.cos(b), torch.sin(b)
        z = torch.zeros_like(ca)
        return torch.stack([ca * cb, sa * cb, sb], -1), torch.stack([-sa, ca, z], -1), torch.stack([-ca * sb, -sa * sb, cb], -1)

    # ---- assumptions
    def assume(self, c):
        if self.sym:
            for x in np.asarray(self._b(c)).reshape(-1):
                self.ex.push(tm.as_bool(x))
        else:
            ok = bool(torch.as_tensor(c).all())
            if not ok:
                raise PathAbort

    def _b(self, c):
        if isinstance(c, torch.Tensor):
            return S(c)._a
        return as0(c)

    def branch(self, c):
        """Case split on a (possibly symbolic) truth value."""
        return bool(c)

    def root(self, t):
        """Offer a term as a candidate square root (used only where its square is verified to match)."""
        if self.sym:
            for x in S(t)._a.reshape(-1):
                if isinstance(x, T):
                    if self.ex.quick_implied(tm.ge(x, 0)) or self.ex.implied(tm.ge(x, 0)):
                        tm.Ctx.roots[x.id] = x
                    elif self.ex.implied(tm.le(x, 0)):
                        tm.Ctx.roots[x.id] = tm.neg(x)

    # ---- obligations
    def check(self, c, label):
        self.reached.add(label)
        if not self.sym:
            self.checked += 1
            if not bool(torch.as_tensor(c).all()):
                self.failures.append(label)
            return
        for x in np.asarray(self._b(c)).reshape(-1):
            self._prove(tm.as_bool(x), label)

    def eq(self, a, b, label, tol=None, rtol=None):
        """Element-wise equality (exact over the reals; tolerance ladder on failure)."""
        self.reached.add(label)
        if not self.sym:
            self.checked += 1
            a, b = torch.as_tensor(a).detach().double(), torch.as_tensor(b).detach().double()
            if tuple(a.shape) != tuple(b.shape):
                try:
                    a, b = torch.broadcast_tensors(a, b)
                except RuntimeError:
                    self.failures.append(f"{label}: shapes {tuple(a.shape)} and {tuple(b.shape)}")
                    return
            std = 1e-5 if self.double else 2e-3
            t = tol if tol is not None else std
            bad = ~((a - b).abs() <= t + (rtol if rtol is not None and not self.double else std) * torch.maximum(a.abs(), b.abs()))
            same = (a == b) | (a.isnan() & b.isnan() & False)
            bad &= ~same
            if bad.any():
                i = int(torch.nonzero(bad.reshape(-1))[0, 0]) if bad.dim() else 0
                self.failures.append(f"{label}: got {a.reshape(-1)[i].item():.9g}, expected {b.reshape(-1)[i].item():.9g}")
            return
        x, y = self._b(a), self._b(b)
        if x.shape != y.shape:
            try:
                x, y = np.broadcast_arrays(x, y)
            except ValueError:
                self._prove(False, f"{label}: shapes {x.shape} and {y.shape}")
                return
        for p, q in zip(x.reshape(-1), y.reshape(-1)):
            self._prove_eq(p, q, label, tol)

    def le(self, a, b, label, slack=0.0):
        """a <= b (+ slack)."""
        self.reached.add(label)
        if not self.sym:
            self.checked += 1
            a, b = torch.as_tensor(a).detach().double(), torch.as_tensor(b).detach().double()
            t = max(slack, 1e-5)
            ok = a <= b + t + 1e-5 * torch.maximum(a.abs(), b.abs())
            if not ok.all():
                self.failures.append(f"{label}: {a.flatten().tolist()[:4]} > {b.flatten().tolist()[:4]}")
            return
        x, y = np.broadcast_arrays(self._b(a), self._b(b))
        for p, q in zip(x.reshape(-1), y.reshape(-1)):
            g = tm.le(p, tm.add(q, tm.const(slack)))
            self._prove(g, label, margin=lambda d, p=p, q=q: tm.ge(tm.sub(p, tm.add(q, tm.const(slack))), d))

    def choice(self, name, n):
        """An arbitrary index 0..n-1, decided per path."""
        if self.sym:
            v = tm.var(name, INT)
            self.ex.push(tm.ge(v, 0))
            self.ex.push(tm.lt(v, n))
            for k in range(n - 1):
                if self.ex.decide(tm.eq(v, k)):
                    self.chosen[name] = k
                    return k
            self.chosen[name] = n - 1
            return n - 1
        k = int(self.env.get(name, 0))
        if self.rand is not None and (name not in self.env or self.rand.random() < self.loose):
            k = self.rand.randrange(n)
        self.inputs[name] = k
        if not 0 <= k < n:
            raise PathAbort
        return k

    def fail(self, label):
        """Reaching this point is a violation."""
        self.reached.add(label)
        if not self.sym:
            self.failures.append(label)
            return
        self._prove(False, label)

    def note_checked(self, label):
        self.reached.add(label)

    # ---- proof engine
    def _norm(self):
        if self.norm is None:
            self.norm = norm.Normalizer(limit=40000)
        return self.norm

    def _done(self, label, how):
        self.labels.setdefault(label, {}).setdefault(how, 0)
        self.labels[label][how] += 1

    def _prove_eq(self, p, q, label, tol):
        if not isinstance(p, T) and not isinstance(q, T):
            if (p == q) or (isinstance(p, (int, float, bool)) or True) and not tm.special(p) and not tm.special(q) and abs(float(p) - float(q)) <= (tol if tol is not None else 1e-6) * max(1.0, abs(float(p))):
                self._done(label, "constant")
                return
        if p is q:
            self._done(label, "identical")
            return
        if tm.sort_of(p) == BOOL or tm.sort_of(q) == BOOL:
            self._prove(tm.eq(p, q), label)
            return
        if tm.special(p) or tm.special(q) or tm.has_special(p) or tm.has_special(q):
            self._prove(tm.eq(p, q), label)
            return
        if not self.cfg.bv:
            p, q = self._pathsub([p, q])
            if p is q or (not isinstance(p, T) and not isinstance(q, T) and p == q):
                self._done(label, "identical")
                return
            try:
                if self._norm().diff_is_zero(p, q):
                    self._solver_true(p, q)
                    self._done(label, "normal form")
                    return
            except norm.TooBig:
                pass
        d = tm.sub(p, q)
        t = tol if tol is not None else self.cfg.tol

        def margin(delta, d=d):
            return tm.or_(tm.ge(d, delta), tm.le(d, -delta))

        self._prove(tm.eq(p, q), label, margin=margin, tolgoal=tm.not_(margin(tm.const(t))) if t else None, pair=(p, q))

    def _pathsub(self, ts):
        """Resolve conditions that are literals of the path condition."""
        ex = self.ex
        roots = [t for t in ts if isinstance(t, T)]
        if not roots or not any(t.op in ("ite", "lt", "le", "eq", "and", "or") for t in tm.postorder(roots)):
            return ts
        mp = {}
        for c in ex.pc:
            if c.op == "not":
                mp[c.args[0].id] = False
            elif c.op == "eq" and c.sort == BOOL:
                a, b = c.args
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, T) and x.op == "var" and not isinstance(y, T):
                        mp[x.id] = y
            if c.op in ("lt", "le", "eq", "var", "iff", "or", "and"):
                if c.op == "var" and c.sort != BOOL:
                    continue
                mp.setdefault(c.id, True)
                n = tm.not_(c)
                if isinstance(n, T):
                    mp.setdefault(n.id, False)
                if c.op == "lt":
                    for x, v in ((tm.le(*c.args), True), (tm.le(c.args[1], c.args[0]), False), (tm.eq(*c.args), False)):
                        if isinstance(x, T):
                            mp.setdefault(x.id, v)
        ids = {t.id for t in tm.postorder(roots)}
        mp = {k: v for k, v in mp.items() if k in ids}
        if not mp:
            return ts
        return tm.substitute(ts, mp)

    def _solver_true(self, p=None, q=None):
        """Rewriting left a trivially true goal; have the solver confirm a sample of them independently."""
        ex = self.ex
        ex.stats.rewritten += 1
        if p is None or ex.stats.rewritten > 24 or ex.deadline - time.time() < 20:
            return
        r, _ = solve.check(ex.pc + [tm.not_(tm.eq(p, q))], 300, ex.stats, ex.emitter, nra=self.cfg.nra)
        if r == "unsat":
            ex.stats.confirmed += 1
        elif r == "sat":
            raise Inconclusive("normal form and solver disagree")

    def _split_conds(self, goal, pair):
        """ite conditions below the goal, innermost first."""
        conds = []
        seen = set()
        for t in tm.postorder([goal] if isinstance(goal, T) else []):
            if t.op == "ite" and t.args[0].id not in seen:
                seen.add(t.args[0].id)
                conds.append(t.args[0])
        return conds

    def _prove(self, goal, label, margin=None, tolgoal=None, pair=None):
        ex = self.ex
        if not isinstance(goal, T):
            if goal:
                self._done(label, "constant")
                return
            # reachable failure: need a witness of the path condition
            if tolgoal is not None:
                if not isinstance(tolgoal, T):
                    within = tolgoal
                else:
                    within = self._q(ex.pc + [tm.not_(tolgoal)], self.cfg.prove_ms)[0] == "unsat"
                if within:
                    self._done(label, "solver (within tolerance)")
                    return
            self._counterexample(label, True, margin)
            return
        if goal.id in ex.pcset:
            self._done(label, "assumed/branch")
            return
        if goal.op == "and":
            for a in goal.args:
                self._prove(a, label, margin)
            return
        if not ex.cfg.bv:
            g2 = self._pathsub([goal])[0]
            if g2 is not goal:
                if not isinstance(g2, T):
                    if g2:
                        self._done(label, "path literals")
                        return
                else:
                    goal = g2
                    if goal.id in ex.pcset:
                        self._done(label, "path literals")
                        return
                    if goal.op == "and":
                        for a in goal.args:
                            self._prove(a, label, margin)
                        return
        n = tm.not_(goal)
        if ex.env is not None and ex._eval(goal) is False and margin is None:
            self._counterexample(label, n, margin)
            return
        # 0. linear abstraction
        if not self.cfg.bv and ex.linear.unsat(ex.pc + [n], ex.stats):
            self._done(label, "linear abstraction")
            return
        # 1. direct query, short
        r, m = self._q(ex.pc + [n], self.cfg.prove_ms * 0.08)
        if r == "unsat":
            self._done(label, "solver")
            return
        if r == "sat":
            if tolgoal is not None:
                # violated exactly: is it violated beyond the tolerance?
                r2, m2 = self._q(ex.pc + [tm.not_(tolgoal)], self.cfg.prove_ms)
                if r2 == "unsat":
                    self._done(label, "solver (within tolerance)")
                    return
            self._counterexample(label, n, margin, m)
            return
        # 2. case split over ite conditions with normal forms
        r = self._split_prove(goal, pair, 0, list(ex.pc))
        if r == "unsat":
            self._done(label, "case split")
            return
        # 3. relevance-filtered query, cvc5, longer z3
        r, m = self._q(self._relevant(ex.pc, [n]) + [n], self.cfg.prove_ms)
        if r == "unsat":
            self._done(label, "solver")
            return
        if r == "unknown":
            r, _ = solve.cvc5_check(ex.pc + [n], min(self.cfg.prove_ms, 1000 * ex.time_left()), ex.stats, ex.emitter)
            if r == "unsat":
                self._done(label, "cvc5")
                return
        if tolgoal is not None:
            r, m = self._q(ex.pc + [tm.not_(tolgoal)], self.cfg.prove_ms)
            if r == "unsat":
                self._done(label, "solver (within tolerance)")
                return
        # 4. look for a counterexample by fixing some inputs
        if self._counterexample(label, n, margin, None, quiet=True):
            return
        raise Inconclusive(f"{label}: solver gave no answer")

    def _q(self, assertions, ms):
        ex = self.ex
        ms = min(ms, 1000 * ex.time_left())
        r, m = solve.check(assertions, ms, ex.stats, ex.emitter, nra=self.cfg.nra)
        if r == "unknown" and self.cfg.nra is None:
            r, m = solve.check(assertions, ms, ex.stats, ex.emitter, who="z3-nra", nra=True)
        return r, m

    def _relevant(self, pc, goals):
        """Assumptions connected to the goal by shared variables."""
        want = set()
        for g in goals:
            for t in tm.postorder([g]):
                if t.op == "var":
                    want.add(t.id)
        items = [(c, {t.id for t in tm.postorder([c]) if t.op == "var"}) for c in pc]
        out = []
        changed = True
        while changed:
            changed = False
            for k, (c, vs) in enumerate(items):
                if c is not None and vs & want:
                    out.append(c)
                    if not vs <= want:
                        want |= vs
                    items[k] = (None, set())
                    changed = True
        return out

    def _split_prove(self, goal, pair, depth, pc):
        """Prove goal under pc by splitting its ite conditions; returns 'unsat' or 'unknown'."""
        ex = self.ex
        ex.time_left()
        conds = self._split_conds(goal, pair)
        if not conds:
            if pair is not None:
                try:
                    nn = norm.Normalizer(limit=40000)
                    if nn.diff_is_zero(*pair):
                        self._solver_true()
                        return "unsat"
                    num, den = nn.diff(*pair)
                    g2 = tm.eq(nn.poly_term(num), 0)
                    if not isinstance(g2, T):
                        return "unsat" if g2 else "unknown"
                    r, _ = self._q(self._relevant(pc, [g2]) + [tm.not_(g2)], self.cfg.prove_ms * 0.5)
                    if r == "unsat":
                        return "unsat"
                except norm.TooBig:
                    pass
            if not isinstance(goal, T):
                return "unsat" if goal else "unknown"
            r, _ = self._q(pc + [tm.not_(goal)], self.cfg.prove_ms * 0.5)
            return "unsat" if r == "unsat" else "unknown"
        if depth > 24:
            return "unknown"
        c = conds[0]
        for v, lit in ((True, c), (False, tm.not_(c))):
            if c.id in ex.pcset and not v:
                continue
            if ex.linear.unsat(pc + [lit], ex.stats):
                continue
            r, _ = self._q(pc + [lit], self.cfg.branch_ms)
            if r == "unsat":
                continue
            roots = [goal] + (list(pair) if pair else [])
            new = tm.substitute(roots, {c.id: v, tm.not_(c).id if isinstance(tm.not_(c), T) else -1: not v})
            g = new[0]
            p2 = tuple(new[1:]) if pair else None
            if not isinstance(g, T):
                if g:
                    continue
                r, _ = self._q(pc + [lit], self.cfg.prove_ms * 0.5)
                if r == "unsat":
                    continue
                return "unknown"
            if p2 is not None:
                try:
                    if norm.Normalizer(limit=40000).diff_is_zero(*p2):
                        self._solver_true()
                        continue
                except norm.TooBig:
                    pass
            if self._split_prove(g, p2, depth + 1, pc + [lit]) != "unsat":
                return "unknown"
        return "unsat"

    def _counterexample(self, label, neg, margin=None, model=None, quiet=False):
        """Find an input violating the obligation that is robust enough to replay."""
        ex = self.ex
        base = ex.pc + ([neg] if isinstance(neg, T) else [])
        cands = []
        if margin is not None:
            for d in (1, 0.05, 0.005):
                r, m = self._q(ex.pc + [margin(tm.const(d))], self.cfg.branch_ms)
                if r == "sat":
                    cands.append((m, ex.pc + [margin(tm.const(d))]))
                    break
        if model is not None:
            cands.append((model, base))
        elif not cands:
            r, m = self._q(base, self.cfg.prove_ms)
            if r == "sat":
                cands.append((m, base))
            elif r == "unsat":
                if not isinstance(neg, T):
                    raise PathAbort  # the path itself is infeasible
                self._done(label, "solver")
                return True
        found = False
        for m, roots in cands:
            env = solve.extract_env(m, ex.emitter, roots)
            self.cex.append((label, env))
            found = True
        # candidates with several inputs fixed (also robust against algebraic corner models)
        extra = self._fixed_search(base, margin, tries=6 if found else 40)
        for env in extra:
            self.cex.append((label, env))
            found = True
        if found:
            raise CounterexampleFound
        if quiet:
            return False
        raise Inconclusive(f"{label}: not provable and no counterexample found")

    def _fixed_search(self, base, margin, tries):
        ex = self.ex
        roots = [b for b in base if isinstance(b, T)]
        vs = [t for t in tm.postorder(roots) if t.op == "var" and t.meta != tm.PI_NAME and t.sort == REAL and not str(t.meta).startswith(("uninit", "rng_"))]
        trig = {t.args[0].id for t in tm.postorder(roots) if t.op in ("cos", "sin") and isinstance(t.args[0], T)}
        out = []
        if not vs:
            return out
        bounds = {}
        for c in ex.pc:
            if c.op == "le":
                a, b = c.args
                if isinstance(a, T) and a.op == "var" and not isinstance(b, T):
                    bounds.setdefault(a.id, [None, None])[1] = float(b)
                if isinstance(b, T) and b.op == "var" and not isinstance(a, T):
                    bounds.setdefault(b.id, [None, None])[0] = float(a)
        rnd = ex.rng
        for k in range(tries):
            if ex.deadline - time.time() < 5:
                break
            env = {}
            assigns = []
            frac = rnd.choice([0.5, 0.8, 1.0]) if k % 2 else rnd.choice([0.3, 0.6])
            fixed = []
            for v in vs:
                if rnd.random() > frac:
                    continue
                lo, hi = bounds.get(v.id, (None, None))
                lo = -3 if lo is None else lo
                hi = max(3, lo + 4) if hi is None else hi
                q = rnd.randint(0, 24)
                from fractions import Fraction

                val = Fraction(str(lo)) + (Fraction(str(hi)) - Fraction(str(lo))) * Fraction(q, 24)
                fixed.append((v, val))
            extra = []
            for v, val in fixed:
                if v.id in trig:
                    t2 = Fraction(rnd.randint(-6, 6), 4)
                    c = (1 - t2 * t2) / (1 + t2 * t2)
                    s = 2 * t2 / (1 + t2 * t2)
                    if v.id in ex.emitter.trig:
                        zc, zs, _ = ex.emitter.trig[v.id]
                        extra += [zc == ex.emitter.num(c, REAL), zs == ex.emitter.num(s, REAL)]
                    continue
                extra.append(ex.emitter.emit(v) == ex.emitter.num(val, REAL))
            goals = [margin(tm.const(0.05))] if margin is not None and k % 3 else []
            goals = [g for g in goals if isinstance(g, T)]
            r, m = solve.check(roots + goals, min(1500, 1000 * ex.time_left()), ex.stats, ex.emitter, nra=self.cfg.nra, extra=extra, who="z3-fixed")
            if r == "sat":
                out.append(solve.extract_env(m, ex.emitter, roots))
                if len(out) >= 3:
                    break
        return out


class CounterexampleFound(BaseException):
    pass


# ------------------------------------------------------------------------------------------------


class Result:
    def __init__(self, name):
        self.name = name
        self.status = "ok"  # ok | violation | known | error
        self.messages = []
        self.paths = 0
        self.labels = {}
        self.stats = None
        self.validated = 0
        self.samples = []
        self.notes = []
        self.wall = 0.0
        self.fallbacks = []
        self.functions = []
        self.cex = None


def quiet_logs():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


@contextlib.contextmanager
def nan_empty():
    """Concrete replay: uninitialised memory is filled with NaN so that reading it is visible."""
    names = ("empty", "empty_like")
    saved = {n: getattr(torch, n) for n in names}

    def wrap(f):
        def g(*a, **k):
            t = f(*a, **k)
            if t.is_floating_point():
                with torch.no_grad():
                    t.fill_(float("nan"))
            return t

        return g

    for n in names:
        setattr(torch, n, wrap(saved[n]))
    try:
        yield
    finally:
        for n in names:
            setattr(torch, n, saved[n])


def run_concrete(fn, env, cfg, double=False, rand=None, loose=0.0):
    """Replay the harness on the real code with concrete tensors. Returns (failures, handle, exception)."""
    saved, tm.Ctx.explorer = tm.Ctx.explorer, None
    h = H("conc", env=env, cfg=cfg, double=double, rand=rand)
    h.loose = loose
    if double:
        torch.set_default_dtype(torch.float64)
    exc = None
    try:
        with nan_empty():
            fn(h)
    except PathAbort:
        return None, h, None
    except Exception as e:  # an exception of the code under test
        exc = e
        h.failures.append(f"raised {type(e).__name__}: {str(e)[:200]}")
    finally:
        tm.Ctx.explorer = saved
        torch.set_default_dtype(torch.float32)
    return h.failures, h, exc


def replay(fn, env, cfg):
    """Replay on the real code in single precision; a difference hidden by its rounding is looked for in double precision."""
    fails, hh, exc = run_concrete(fn, env, cfg)
    if fails == [] and exc is None:
        f2, h2, e2 = run_concrete(fn, env, cfg, double=True)
        if f2 and e2 is None:
            return f2, h2, e2
    return fails, hh, exc


def search_replay(fn, cfg, bases, seconds, seed=1):
    """The solver refuted an obligation or could not decide it, and its own models did not replay:
    look for an input near them that fails on the real code, in single and in double precision."""
    rnd = random.Random(seed)
    t0 = time.time()
    n = 0
    while time.time() - t0 < seconds and n < 4000:
        base = bases[n % len(bases)] if bases and n % 3 else {}
        n += 1
        fails, hh, exc = run_concrete(fn, base, cfg, rand=rnd, loose=rnd.choice([0.05, 0.3, 1.0]))
        if fails is None:
            continue
        env = dict(hh.inputs)
        f2, h2, e2 = run_concrete(fn, env, cfg, double=True)
        if f2 is None:
            continue
        if fails and exc is None and f2 and e2 is None:
            return fails[0], env
        if fails and exc is not None and e2 is not None and type(exc) is type(e2) and str(exc) == str(e2) and "dtype" not in str(exc):
            return fails[0], env
        if not fails and exc is None and f2 and e2 is None:
            return f2[0], env
    return None


def random_witness(fn, cfg, seconds=20, seed=1):
    """An input that satisfies the assumptions and on which the real code fulfils every obligation."""
    rnd = random.Random(seed)
    t0 = time.time()
    while time.time() - t0 < seconds:
        fails, hh, exc = run_concrete(fn, {}, cfg, rand=rnd, loose=1.0)
        if fails == []:
            return hh
    return None


class Tracer:
    """Records which functions of the repository were executed symbolically."""

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        def prof(frame, event, arg):
            if event == "call":
                fn = frame.f_code.co_filename
                i = fn.find("/artist/")
                if i >= 0 and "/repo/" in fn:
                    self.seen.add(fn[i + 1 :] + ":" + frame.f_code.co_qualname)

        sys.setprofile(prof)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


def explore(name, fn, cfg, known=lambda label, env: None):
    """Symbolically execute a harness over all paths; decide every obligation; replay what fails."""
    quiet_logs()
    res = Result(name)
    t0 = time.time()
    stats = solve.Stats()
    res.stats = stats
    ex = Explorer(cfg, stats)
    tm.Ctx.explorer = ex
    tracer = Tracer()
    witness_done = 0
    unproved = []
    any_label = set()
    try:
        while ex.worklist:
            prefix = ex.worklist.pop()
            ex.total_paths += 1
            if ex.total_paths > cfg.max_paths:
                raise Budget(f"more than {cfg.max_paths} paths")
            ex.start(prefix)
            tensor.clear_shadows()
            h = H("sym", ex=ex, cfg=cfg)
            exc = None
            aborted = False
            try:
                with tracer, tensor.Patches(), tensor.SymMode():
                    fn(h)
            except PathAbort:
                aborted = True
            except CounterexampleFound:
                pass
            except Exception as e:
                exc = e
            for k, v in h.labels.items():
                for a, b in v.items():
                    res.labels.setdefault(k, {}).setdefault(a, 0)
                    res.labels[k][a] += b
            if exc is not None:
                # the code raised on this path: is the path feasible, and does the real code raise too?
                r, m = ex.query(ex.pc, timeout=cfg.prove_ms)
                if r == "unsat":
                    ex.aborted += 1
                    continue
                tb = "".join(traceback.format_exception(exc)[-24:])
                if r == "sat":
                    h.cex.append((f"raised {type(exc).__name__}", solve.extract_env(m, ex.emitter, ex.pc)))
                else:
                    raise Inconclusive(f"path raises {type(exc).__name__}: {exc}; feasibility unknown\n{tb}")
            if h.cex:
                ok = False
                kn = None
                msgs = []
                for label, env in h.cex:
                    fails, hh, cexc = replay(fn, env, cfg)
                    if fails is None:
                        msgs.append(f"{label}: replay input outside the assumptions after rounding")
                        continue
                    if exc is not None and cexc is None and not fails:
                        msgs.append(f"{label}: replay does not raise ({tb[-6000:]})")
                        continue
                    if not fails:
                        msgs.append(f"{label}: replay on the real code holds")
                        continue
                    kn = known(fails[0], hh.inputs)
                    if kn:
                        res.messages.append(("known", kn, fails[0], hh.inputs))
                    else:
                        res.messages.append(("violation", label, fails[0], hh.inputs))
                        res.status = "violation"
                    ok = True
                    break
                if not ok:
                    unproved.append((h.cex[0][0], msgs[:3], h.cex[0][1]))
                if res.status == "violation":
                    break
                continue
            if aborted:
                ex.aborted += 1
                continue
            any_label |= h.reached
            res.paths += 1
            # reachability twin: the end of the path with `False` must be violated, and the witness must replay
            if witness_done < 12:
                env = ex.env
                hit = False
                if env is None:
                    # most assumptions are easily met: try a few arbitrary inputs first
                    for k in range(3):
                        fails, hh, _ = run_concrete(fn, dict(h.chosen), cfg, rand=random.Random(1000 * witness_done + k))
                        if fails == []:
                            hit = True
                            env = dict(hh.inputs)
                            break
                if env is None and not hit:
                    r, m = ex.query(ex.pc, timeout=min(cfg.prove_ms, 1500) if witness_done else cfg.prove_ms)
                    if r == "sat":
                        env = solve.extract_env(m, ex.emitter, ex.pc)
                    elif r == "unsat":
                        ex.aborted += 1
                        res.paths -= 1
                        continue
                if env is None and not witness_done:
                    for e2 in h._fixed_search(list(ex.pc), None, 12):
                        env = e2
                        break
                if env is not None:
                    fails, hh, _ = run_concrete(fn, env, cfg)
                    if fails is not None and not fails:
                        witness_done += 1
                        res.validated += 1
                        if len(res.samples) < 2:
                            res.samples.append({"harness": name, "path": res.paths, "witness": {k: hh.inputs[k] for k in list(hh.inputs)[:12]}, "obligations_checked_concretely": hh.checked})
                    elif fails:
                        # the concrete run disagrees with the proof: float effects or an encoder bug
                        res.notes.append(f"witness replay disagreed: {fails[0]} on {dict(list(hh.inputs.items())[:8])}")
        if unproved:
            raise Inconclusive("; ".join(f"{l}: {m} {dict(list(e.items())[:20])}" for l, m, e in unproved[:3]))
        if res.status == "ok" and (res.paths == 0 or not any_label):
            if not any(m[0] == "known" for m in res.messages):
                raise Inconclusive("vacuous: no path reached an obligation")
        if res.status == "ok" and res.validated == 0 and not any(m[0] == "known" for m in res.messages):
            hh = random_witness(fn, cfg)
            if hh is not None:
                res.validated += 1
                res.samples.append({"harness": name, "path": "any", "witness": {k: hh.inputs[k] for k in list(hh.inputs)[:12]}, "obligations_checked_concretely": hh.checked})
        if res.status == "ok" and res.validated == 0 and not any(m[0] == "known" for m in res.messages):
            raise Inconclusive(f"vacuity: no witness of the assumptions could be replayed {res.notes[:2]}")
    except (Inconclusive, Budget, Unsupported) as e:
        if res.status != "violation":
            res.status = "error"
            res.messages.append(("error", type(e).__name__, str(e)[:1500], {}))
            if isinstance(e, Unsupported):
                res.messages.append(("error", "trace", "".join(traceback.format_exception(e)[-6:])[-1500:], {}))
    except Exception as e:
        if res.status != "violation":
            res.status = "error"
            res.messages.append(("error", type(e).__name__, "".join(traceback.format_exception(e)[-6:])[-2500:], {}))
    finally:
        tm.Ctx.explorer = None
    if res.status == "error" and res.messages[-1][1] in ("Inconclusive", "Budget") and "vacu" not in res.messages[-1][2]:
        hit = search_replay(fn, cfg, [e for _, _, e in unproved], 40)
        if hit:
            res.status = "violation"
            res.messages.append(("violation", hit[0], hit[0], hit[1]))
    res.functions = sorted(tracer.seen)
    res.fallbacks = sorted(tensor._FALLBACK_LOG)
    res.notes += sorted(ex.notes)
    res.explored = ex.total_paths
    res.wall = time.time() - t0
    return res
