"""SMT back end: emission of terms to z3 (and cvc5), queries, models."""

from __future__ import annotations

import math
import os
import sys
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from . import terms as tm  # noqa: E402
from .terms import BOOL, INT, REAL, T  # noqa: E402

BVW = 64


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.branch_queries = 0
        self.rewritten = 0
        self.confirmed = 0
        self.by = {}

    def add(self, res, dt, who):
        self.queries += 1
        self.solver_s += dt
        setattr(self, res, getattr(self, res) + 1)
        self.by[who] = self.by.get(who, 0) + 1


class Emitter:
    """Translate terms to z3; collects axioms of the atoms that occur."""

    def __init__(self, bv=False):
        self.bv = bv
        self.memo = {}
        self.axioms_of = {}  # term id -> list of z3 axioms
        self.groups = {}  # kind -> list of (arg z3, value z3, term)
        self.trig = {}
        self.nvars = {}
        self.hasint = False

    def num(self, x, sort):
        if isinstance(x, bool):
            if sort == BOOL:
                return z3.BoolVal(x)
            x = int(x)
        if sort == INT:
            return z3.BitVecVal(int(x), BVW) if self.bv else z3.IntVal(int(x))
        x = Fraction(x)
        return z3.RealVal(f"{x.numerator}/{x.denominator}" if x.denominator != 1 else str(x.numerator))

    def arg(self, a, sort):
        if isinstance(a, T):
            e = self.memo[a.id]
            if sort == REAL and a.sort == INT:
                e = self.int_to_real(e)
            return e
        return self.num(a, sort)

    def int_to_real(self, e):
        if self.bv:
            return z3.ToReal(z3.BV2Int(e, True))
        return z3.ToReal(e)

    def emit(self, t):
        if not isinstance(t, T):
            return self.num(t, BOOL if isinstance(t, bool) else (INT if isinstance(t, int) else REAL))
        if t.id in self.memo:
            return self.memo[t.id]
        for s in tm.postorder([t]):
            if s.id not in self.memo:
                self.memo[s.id] = self._one(s)
        return self.memo[t.id]

    def _ax(self, t, *axs):
        self.axioms_of.setdefault(t.id, []).extend(axs)

    def _one(self, t):
        op = t.op
        A = self.arg
        if t.sort == INT or any(isinstance(a, T) and a.sort == INT for a in t.args):
            self.hasint = True
        if op == "var":
            if t.sort == BOOL:
                return z3.Bool(str(t.meta))
            if t.sort == INT:
                return z3.BitVec(str(t.meta), BVW) if self.bv else z3.Int(str(t.meta))
            v = z3.Real(str(t.meta))
            if t.meta == tm.PI_NAME:
                self._ax(t, v > z3.RealVal("3.14159265358979"), v < z3.RealVal("3.14159265358980"))
            return v
        if op in ("add", "mul"):
            x, y = A(t.args[0], t.sort), A(t.args[1], t.sort)
            return x + y if op == "add" else x * y
        if op == "div":
            x, y = A(t.args[0], REAL), A(t.args[1], REAL)
            q = z3.Real(f"div!{t.id}")
            self._ax(t, z3.Implies(y != 0, q * y == x))
            return q
        if op == "idiv":
            x, y = A(t.args[0], INT), A(t.args[1], INT)
            if self.bv:
                # floor division for positive divisors
                q = x / y
                return z3.If(z3.And(x < 0, z3.SRem(x, y) != 0), q - 1, q)
            return x / y
        if op == "toreal":
            return self.int_to_real(self.memo[t.args[0].id])
        if op == "toint":
            x = A(t.args[0], REAL)
            if self.bv:
                k = z3.BitVec(f"floor!{t.id}", BVW)
                r = z3.Sum([z3.If(z3.Extract(i, i, k) == 1, z3.RealVal(2**i), z3.RealVal(0)) for i in range(16)])
                self._ax(t, z3.Implies(z3.And(x >= 0, x < 65536), z3.And(z3.ULT(k, 65536), r <= x, x < r + 1)))
                return k
            k = z3.Int(f"floor!{t.id}")
            self._ax(t, z3.ToReal(k) <= x, x < z3.ToReal(k) + 1)
            return k
        if op == "ite":
            s = t.sort
            return z3.If(self.arg(t.args[0], BOOL), A(t.args[1], s), A(t.args[2], s))
        if op == "not":
            return z3.Not(A(t.args[0], BOOL))
        if op == "and":
            return z3.And(A(t.args[0], BOOL), A(t.args[1], BOOL))
        if op == "or":
            return z3.Or(A(t.args[0], BOOL), A(t.args[1], BOOL))
        if op == "iff":
            return A(t.args[0], BOOL) == A(t.args[1], BOOL)
        if op in ("lt", "le", "eq"):
            s = REAL if REAL in (tm.sort_of(t.args[0]), tm.sort_of(t.args[1])) else INT
            x, y = A(t.args[0], s), A(t.args[1], s)
            return x < y if op == "lt" else (x <= y if op == "le" else x == y)
        if op.startswith("bit"):
            x, y = A(t.args[0], INT), A(t.args[1], INT)
            if not self.bv:
                x, y = z3.Int2BV(x, BVW), z3.Int2BV(y, BVW)
            r = {"bitand": lambda: x & y, "bitor": lambda: x | y, "bitxor": lambda: x ^ y, "bitshl": lambda: x << y, "bitshr": lambda: x >> y}[op]()
            return r if self.bv else z3.BV2Int(r, True)
        if op == "sqrt":
            x = A(t.args[0], REAL)
            r = z3.Real(f"sqrt!{t.id}")
            self._ax(t, r >= 0, z3.Implies(x >= 0, r * r == x))
            return r
        if op in ("cos", "sin"):
            x = A(t.args[0], REAL)
            key = t.args[0].id if isinstance(t.args[0], T) else ("c", t.args[0])
            if key not in self.trig:
                c, s = z3.Real(f"cos!{key}"), z3.Real(f"sin!{key}")
                self.trig[key] = (c, s, t.args[0])
            c, s, _ = self.trig[key]
            self._ax(t, c * c + s * s == 1)
            self.groups.setdefault("trig", {})[key] = (x, c, s)
            return c if op == "cos" else s
        if op in ("acos", "asin", "atan2", "sigmoid", "exp", "log", "tanh", "atanh", "softplus"):
            v = z3.Real(f"{op}!{t.id}")
            xs = [A(a, REAL) for a in t.args]
            self.groups.setdefault(op, {})[t.id] = (xs, v)
            pi = self.emit(tm.pi())
            if op == "acos":
                u = xs[0]
                self._ax(t, v >= 0, v <= pi, *self.axioms_of.get(tm.pi().id, []), z3.Implies(u >= 0, v <= pi / 2), z3.Implies(u <= 0, v >= pi / 2), z3.Implies(u == 1, v == 0), z3.Implies(u == -1, v == pi), z3.Implies(v == 0, u == 1), z3.Implies(v == pi, u == -1))
            elif op == "asin":
                u = xs[0]
                self._ax(t, v >= -pi / 2, v <= pi / 2, *self.axioms_of.get(tm.pi().id, []), z3.Implies(u >= 0, v >= 0), z3.Implies(u <= 0, v <= 0), z3.Implies(u == 0, v == 0))
            elif op == "atan2":
                y, x = xs
                self._ax(
                    t, v > -pi, v <= pi, *self.axioms_of.get(tm.pi().id, []),
                    z3.Implies(y > 0, z3.And(v > 0, v < pi)), z3.Implies(y < 0, v < 0),
                    z3.Implies(z3.And(y == 0, x >= 0), v == 0), z3.Implies(z3.And(y == 0, x < 0), v == pi),
                    z3.Implies(x > 0, z3.And(v > -pi / 2, v < pi / 2)), z3.Implies(z3.And(x < 0, y > 0), v > pi / 2), z3.Implies(z3.And(x < 0, y < 0), v < -pi / 2),
                    z3.Implies(z3.And(x == 0, y > 0), v == pi / 2), z3.Implies(z3.And(x == 0, y < 0), v == -pi / 2),
                    z3.Implies(z3.And(y > 0, x > 0), z3.And(z3.Implies(y <= x, v <= pi / 4), z3.Implies(y >= x, v >= pi / 4))),
                )
            elif op == "sigmoid":
                u = xs[0]
                self._ax(t, v > 0, v < 1, z3.Implies(u >= 0, v >= z3.RealVal("1/2")), z3.Implies(u <= 0, v <= z3.RealVal("1/2")), z3.Implies(u >= 10, v >= z3.RealVal("0.9999")), z3.Implies(u <= -10, v <= z3.RealVal("0.0001")), z3.Implies(u >= 20, v >= z3.RealVal("0.99999999")), z3.Implies(u <= -20, v <= z3.RealVal("0.00000001")), z3.Implies(u >= 4, v >= z3.RealVal("0.98")), z3.Implies(u <= -4, v <= z3.RealVal("0.02")))
            elif op == "exp":
                u = xs[0]
                self._ax(t, v > 0, v >= 1 + u, z3.Implies(u <= 0, v <= 1), z3.Implies(u == 0, v == 1), z3.Implies(u < 0, z3.And(v < 1, v * (1 - u) <= 1)), z3.Implies(u <= -1, v <= z3.RealVal("0.37")), z3.Implies(u <= -5, v <= z3.RealVal("0.0068")), z3.Implies(u <= -10, v <= z3.RealVal("0.000046")), z3.Implies(u <= -20, v <= z3.RealVal("0.0000000021")), z3.Implies(u >= -10, v >= z3.RealVal("0.000045")), z3.Implies(u >= z3.RealVal("-0.01"), v >= z3.RealVal("0.99")))
            elif op == "log":
                u = xs[0]
                self._ax(t, z3.Implies(u > 0, z3.And(v <= u - 1, u * v >= u - 1)), z3.Implies(u == 1, v == 0), z3.Implies(z3.And(u > 0, u != 1), z3.And(v < u - 1, u * v > u - 1)))
            elif op == "tanh":
                u = xs[0]
                self._ax(t, v > -1, v < 1, z3.Implies(u > 0, z3.And(v > 0, v < u)), z3.Implies(u < 0, z3.And(v < 0, v > u)), z3.Implies(u == 0, v == 0), z3.Implies(u >= 3, v >= z3.RealVal("0.99")), z3.Implies(u <= -3, v <= z3.RealVal("-0.99")))
            elif op == "atanh":
                u = xs[0]
                self._ax(t, z3.Implies(u > 0, v >= u), z3.Implies(u < 0, v <= u), z3.Implies(u == 0, v == 0))
            elif op == "softplus":
                u, b = xs
                self._ax(t, v > 0, v > u, z3.Implies(u <= 0, v * b <= z3.RealVal("0.6932")), z3.Implies(u >= 0, v <= u + z3.RealVal("0.6932") / b))
            return v
        if op == "junk":
            return z3.Real(f"junk!{t.id}") if t.sort == REAL else (z3.BitVec(f"junk!{t.id}", BVW) if self.bv else z3.Int(f"junk!{t.id}"))
        if op.startswith("uf:"):
            srt = {REAL: z3.RealSort(), INT: z3.BitVecSort(BVW) if self.bv else z3.IntSort(), BOOL: z3.BoolSort()}
            f = z3.Function(op[3:], *[srt[tm.sort_of(a)] for a in t.args], srt[t.sort])
            return f(*[A(a, tm.sort_of(a)) for a in t.args])
        raise tm.Unsupported(f"emit {op}")

    def closure(self, roots, rich=True):
        """Axioms for every atom below the given terms."""
        out = []
        seen = tm.postorder([r for r in roots if isinstance(r, T)])
        ids = {t.id for t in seen}
        for t in seen:
            self.emit(t)
        work = list(seen)
        for t in work:
            out.extend(self.axioms_of.get(t.id, []))
        if rich:
            # link raw angles and their cosine/sine where the raw angle matters
            raw = self._raw_used(roots)
            pi = self.emit(tm.pi())
            for key, (x, c, s) in self.groups.get("trig", {}).items():
                if key in ids and key in raw:
                    out.extend(self.axioms_of.get(tm.pi().id, []))
                    out += [
                        z3.And(c <= 1, c >= -1, s <= 1, s >= -1),
                        c >= 1 - x * x / 2,
                        z3.Implies(z3.And(x >= 0, x <= pi), z3.And(s >= 0, s <= x, s >= x - x * x * x / 6)),
                        z3.Implies(z3.And(x <= 0, x >= -pi), z3.And(s <= 0, s >= x, s <= x - x * x * x / 6)),
                        z3.Implies(z3.And(x > -pi / 2, x < pi / 2), c > 0),
                        z3.Implies(z3.And(x > pi / 2, x <= pi), c < 0),
                        z3.Implies(z3.And(x < -pi / 2, x >= -pi), c < 0),
                        z3.Implies(x == 0, z3.And(c == 1, s == 0)),
                        z3.Implies(z3.And(x > 0, x < pi), s > 0),
                        z3.Implies(z3.And(x < 0, x > -pi), s < 0),
                    ]
            for kind in ("sigmoid", "exp", "log", "tanh", "atanh", "softplus", "acos", "asin"):
                g = [(k, v) for k, v in self.groups.get(kind, {}).items() if k in ids]
                if len(g) > 14:
                    g = g[:14]
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        (xi, vi), (xj, vj) = g[i][1], g[j][1]
                        if kind == "softplus":
                            out.append(z3.Implies(xi[1] == xj[1], z3.And((xi[0] < xj[0]) == (vi < vj), (xi[0] == xj[0]) == (vi == vj))))
                        elif kind == "acos":
                            out.append(z3.And((xi[0] < xj[0]) == (vi > vj), (xi[0] == xj[0]) == (vi == vj)))
                        else:
                            out.append(z3.And((xi[0] < xj[0]) == (vi < vj), (xi[0] == xj[0]) == (vi == vj)))
                        if kind == "sigmoid":
                            out.append(z3.Implies(xi[0] == -xj[0], vi + vj == 1))
        return out

    def _raw_used(self, roots):
        """ids of angle terms that occur outside cos/sin."""
        used = set()
        for t in tm.postorder([r for r in roots if isinstance(r, T)]):
            if t.op in ("cos", "sin"):
                continue
            for a in t.args:
                if isinstance(a, T):
                    used.add(a.id)
        return used


def check(assertions, timeout_ms, stats, emitter, who="z3", nra=None, extra=()):
    """Returns ('sat', model) / ('unsat', None) / ('unknown', None)."""
    zs = [emitter.emit(a) if not isinstance(a, bool) else z3.BoolVal(a) for a in assertions]
    ax = emitter.closure([a for a in assertions if isinstance(a, T)])
    t0 = time.time()
    if nra and not emitter.hasint and not emitter.bv:
        s = z3.SolverFor("QF_NRA")
    else:
        s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.add(*ax)
    s.add(*zs)
    s.add(*extra)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    res = "sat" if r == z3.sat else ("unsat" if r == z3.unsat else "unknown")
    m = s.model() if res == "sat" else None
    stats.add(res, time.time() - t0, who)
    return res, m


def cvc5_check(assertions, timeout_ms, stats, emitter):
    """Second opinion: pass the same problem to cvc5 through SMT-LIB text."""
    try:
        import cvc5
    except ImportError:
        return "unknown", None
    zs = [emitter.emit(a) if not isinstance(a, bool) else z3.BoolVal(a) for a in assertions]
    ax = emitter.closure([a for a in assertions if isinstance(a, T)])
    s = z3.Solver()
    s.add(*ax)
    s.add(*zs)
    text = s.to_smt2()
    t0 = time.time()
    res = "unknown"
    try:
        tmn = cvc5.TermManager()
        sv = cvc5.Solver(tmn)
        sv.setOption("tlimit-per", str(int(timeout_ms)))
        sv.setLogic("ALL")
        p = cvc5.InputParser(sv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(sv, sm)
            if "unsat" in out:
                res = "unsat"
            elif out.strip() == "sat":
                res = "sat"
    except Exception:
        res = "unknown"
    if res == "sat":
        res = "unknown"  # models are taken from z3 only
    stats.add(res, time.time() - t0, "cvc5")
    return res, None


def model_value(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_bool(x):
        return z3.is_true(x)
    if z3.is_bv_value(x):
        return x.as_signed_long()
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        a = x.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def extract_env(m, emitter, roots):
    """Concrete values (float/int/bool) of all variables below roots."""
    env = {}
    raw = emitter._raw_used(roots)
    angles = {}
    for t in tm.postorder([r for r in roots if isinstance(r, T)]):
        if t.op == "var":
            if t.meta == tm.PI_NAME:
                continue
            v = model_value(m, emitter.emit(t))
            env[t.meta] = float(v) if t.sort == REAL and v is not None else v
    for key, (c, s, arg) in emitter.trig.items():
        if isinstance(arg, T) and arg.op == "var" and arg.meta in env:
            cv, sv = model_value(m, c), model_value(m, s)
            a = math.atan2(float(sv), float(cv))
            if arg.id in raw:
                r = env[arg.meta]
                a = a + 2 * math.pi * round((r - a) / (2 * math.pi))
                if abs(a - r) > 0.3:
                    angles[arg.meta] = (a, r)
                    a = a
            env[arg.meta] = a
    return env
