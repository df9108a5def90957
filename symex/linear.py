"""Linear abstraction: every monomial of the normal form becomes a variable; decided by z3's simplex core.

``unsat`` of the abstraction implies ``unsat`` of the original (the abstraction only forgets relations between
monomials), so it is used as a cheap first stage; ``sat`` means nothing.
"""

from __future__ import annotations

import time
from fractions import Fraction

from . import norm
from . import terms as tm
from .solve import z3
from .terms import BOOL, T

_POS = {"exp", "sigmoid", "softplus"}


class Linear:
    def __init__(self, limit=4000):
        self.trusted = set()  # ids of the conditions of the current path (facts may be learnt from them)
        self.nz = norm.Normalizer(limit=limit)
        self.monos = {}
        self.memo = {}
        self.ax = {}  # z3 formula id deps: term id -> list
        self.side = []
        self.done_atoms = set()
        self.bad = set()
        self.facts = []  # (polynomial, sign) known from the path condition; the polynomial may vanish
        self.fact_keys = {}
        self.fact_ids = set()
        self.weak = set()
        self.weak_seen = 0

    def q(self, x):
        x = Fraction(x)
        return z3.RealVal(f"{x.numerator}/{x.denominator}")

    def mono(self, m):
        v = self.monos.get(m)
        if v is None:
            v = z3.Real(f"m{len(self.monos)}")
            self.monos[m] = v
            nonneg, pos = True, True
            for a, e in m:
                key, rep = self.nz.atoms[a]
                k = key[0]
                if k == "sqrt" or k == "sqrtq":
                    pos = False
                elif k in _POS:
                    pass
                elif e % 2 == 0:
                    pos = False
                else:
                    nonneg = pos = False
            if nonneg:
                self.side.append(v >= 0 if not pos else v > 0)
            if len(m) == 1 and m[0][1] == 1:
                self.atom_axioms(m[0][0], v)
            else:
                # bound monomials by bounded factors where all others are non-negative: x * s <= x for 0 <= s <= 1
                pass
        return v

    def atom_axioms(self, a, v):
        key, rep = self.nz.atoms[a]
        k = key[0]
        if k in ("cos", "sin", "tanh"):
            self.side += [v <= 1, v >= -1]
        elif k == "sigmoid":
            self.side += [v > 0, v < 1]
        elif k == "acos":
            self.side += [v >= 0, v <= self.q("3.1415926535898")]
        elif k == "var" and key[1] == tm.PI_NAME:
            self.side += [v > self.q("3.1415926535897"), v < self.q("3.1415926535898")]
        elif k == "ite":
            c, x, y = rep.args
            try:
                zc = self.form(c)
                self.side += [z3.Implies(zc, v == self.expr(x)), z3.Implies(z3.Not(zc), v == self.expr(y))]
            except norm.TooBig:
                pass
        elif k == "toint":
            try:
                x = self.expr(rep.args[0])
                self.side += [v <= x, x < v + 1]
            except norm.TooBig:
                pass
        elif k == "idiv" and not isinstance(rep.args[1], T):
            x = self.expr(rep.args[0])
            d = rep.args[1]
            self.side += [v * d <= x, x <= v * d + (d - 1)]

    def lin(self, p):
        r = []
        for m, c in p.items():
            r.append(self.q(c) if not m else self.q(c) * self.mono(m))
        return z3.Sum(r) if r else z3.RealVal(0)

    def expr(self, t):
        """Linear expression equal to the real term (fresh variable if it has a denominator)."""
        n, d = self.nz.of(t)
        if d == norm.ONE:
            return self.lin(n)
        key = ("q", self.nz.rkey((n, d)))
        v = self.monos.get(key)
        if v is None:
            v = z3.Real(f"q{len(self.monos)}")
            self.monos[key] = v
        return v

    def posden(self, d):
        """Is the denominator certainly positive (given that it is non-zero)?"""
        for m, c in d.items():
            if c <= 0:
                return False
            for a, e in m:
                k = self.nz.atoms[a][0][0]
                if not (k in ("sqrt", "sqrtq") or k in _POS or e % 2 == 0):
                    return False
        return True

    # ---- signs known from the path condition
    def learn(self, c):
        if c.id in self.fact_ids or c.op not in ("lt", "le"):
            return
        self.fact_ids.add(c.id)
        nz = self.nz
        try:
            n, d = nz.radd(nz.of(c.args[1]), nz.rmul(({(): -1}, norm.ONE), nz.of(c.args[0])))  # b - a >= 0
        except norm.TooBig:
            return
        if d != norm.ONE:
            sd = self.sign_of(d)
            if sd is None:
                return
            if sd < 0:
                n = nz.pscale(n, -1)
        if not n or len(n) > 400:
            return
        cst = n.get((), 0)
        if len(n) == 2 and cst != 0:
            # c*m + k >= 0 with k < 0: c*m is positive
            rest = {m: v for m, v in n.items() if m != ()}
            if cst < 0:
                self.fact(rest)
            self.fact(n)
            return
        self.fact(n)

    def fact(self, n):
        lead = Fraction(n[max(n)])
        k = self.nz.pkey(self.nz.pscale(n, 1 / lead))
        if k not in self.fact_keys:
            self.fact_keys[k] = 1 if lead > 0 else -1
            self.facts.append((self.nz.pscale(n, 1 / lead), 1 if lead > 0 else -1))

    def sign_of(self, d):
        """Sign of a polynomial assumed non-zero, or None."""
        nz = self.nz
        sign = 1
        common = None
        for m in d:
            md = dict(m)
            common = md if common is None else {a: min(e, md.get(a, 0)) for a, e in common.items() if md.get(a, 0)}
            if not common:
                break
        for a, e in (common or {}).items():
            if e % 2 == 0:
                continue
            k = nz.atoms[a][0][0]
            if k in ("sqrt", "sqrtq") or k in _POS or (k == "var" and nz.atoms[a][0][1] == tm.PI_NAME):
                continue
            s = self.fact_keys.get(nz.pkey({((a, 1),): 1}))
            if s is None:
                return None
            sign *= s
        if common:
            out = {}
            for m, v in d.items():
                mm = tuple((a, e - common.get(a, 0)) for a, e in m if e - common.get(a, 0) > 0)
                out[mm] = v
            d = out
        for _ in range(6):
            if len(d) == 1 and () in d:
                return sign * (1 if d[()] > 0 else -1)
            if self.posden(d):
                return sign
            if self.posden(nz.pscale(d, -1)):
                return -sign
            lead = Fraction(d[max(d)])
            k = nz.pkey(nz.pscale(d, 1 / lead))
            s = self.fact_keys.get(k)
            if s is not None:
                return sign * s * (1 if lead > 0 else -1)
            for p, s in self.facts:
                if len(p) < 2 or len(p) > len(d):
                    continue
                q = nz.exact_div(d, p)
                if q is not None:
                    d = q
                    sign *= s
                    break
            else:
                return None
        return None

    def sign_of_in(self, nn, poly):
        """sign_of for a polynomial of another normaliser."""
        t = nn.poly_term(poly)
        if not isinstance(t, T):
            return 1 if t > 0 else -1
        try:
            n, d = self.nz.of(t)
        except norm.TooBig:
            return None
        return self.sign_of(n) if d == norm.ONE else None

    def form(self, c):
        if not isinstance(c, T):
            return z3.BoolVal(bool(c))
        r = self.memo.get(c.id)
        if r is None:
            r = self._form(c)
            self.memo[c.id] = r
        return r

    def _form(self, c):
        op = c.op
        if op in ("lt", "le", "eq"):
            nz = self.nz
            try:
                n, d = nz.radd(nz.of(c.args[0]), nz.rmul(({(): -1}, norm.ONE), nz.of(c.args[1])))
            except norm.TooBig:
                return z3.Bool(f"b{c.id}")
            if d != norm.ONE:
                sd = 1 if op == "eq" else self.sign_of(d)
                if sd == 1:
                    pass
                elif sd == -1:
                    n = nz.pscale(n, -1)
                else:
                    self.weak.add(c.id)
                    try:
                        n = nz.pmul(n, d)
                    except norm.TooBig:
                        return z3.Bool(f"b{c.id}")
            e = self.lin(n)
            return e < 0 if op == "lt" else (e <= 0 if op == "le" else e == 0)
        if op == "not":
            return z3.Not(self.form(c.args[0]))
        if op == "and":
            return z3.And(self.form(c.args[0]), self.form(c.args[1]))
        if op == "or":
            return z3.Or(self.form(c.args[0]), self.form(c.args[1]))
        if op == "iff":
            return self.form(c.args[0]) == self.form(c.args[1])
        if op == "ite":
            return z3.If(self.form(c.args[0]), self.form(c.args[1]), self.form(c.args[2]))
        return z3.Bool(f"b{c.id}")

    def unsat(self, conds, stats, timeout_ms=1500):
        t0 = time.time()
        if True:
            for c in conds:
                self.learn(c) if isinstance(c, T) and c.id in self.trusted else None
            if self.weak and len(self.facts) != self.weak_seen:
                self.memo = {}
                self.weak = set()
                self.weak_seen = len(self.facts)
        try:
            fs = [self.form(c) for c in conds]
        except norm.TooBig:
            return False
        s = z3.SimpleSolver()
        s.set("timeout", timeout_ms)
        s.add(*self.side)
        s.add(*fs)
        r = s.check()
        res = "unsat" if r == z3.unsat else "unknown"
        stats.add(res, time.time() - t0, "z3-linear")
        return r == z3.unsat
