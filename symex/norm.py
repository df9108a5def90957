"""Rational-function normal form of symbolic terms, modulo sin^2 = 1 - cos^2 and sqrt(x)^2 = x.

Used as a rewriting front end for the solver: a difference of two terms that normalises to the zero
polynomial is handed to the solver as the literal ``0 != 0``; everything else is handed over either raw or in
normal form.
"""

from __future__ import annotations

from fractions import Fraction

from . import terms as tm
from .terms import T


class TooBig(Exception):
    pass


ONE = {(): 1}
ZERO: dict = {}


class Normalizer:
    busy = False

    def __init__(self, limit=60000):
        self.limit = limit
        self.atoms = []  # index -> (op, payload, representative T)
        self.index = {}
        self.square = {}  # atom index -> polynomial equal to its square
        self.cache = {}
        self.ccache = {}

    # ---- atoms
    def atom(self, key, rep, square=None):
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.index[key] = i
            self.atoms.append((key, rep))
            if square is not None:
                self.square[i] = square
        return i

    # ---- polynomials
    def padd(self, p, q, c=1):
        if not q:
            return p
        r = dict(p)
        for m, v in q.items():
            w = r.get(m, 0) + c * v
            if w == 0:
                r.pop(m, None)
            else:
                r[m] = w
        if len(r) > self.limit:
            raise TooBig
        return r

    def pscale(self, p, c):
        if c == 0:
            return {}
        if c == 1:
            return p
        return {m: v * c for m, v in p.items()}

    @staticmethod
    def mmul(m, n):
        if not m:
            return n
        if not n:
            return m
        i = j = 0
        out = []
        while i < len(m) and j < len(n):
            a, b = m[i], n[j]
            if a[0] == b[0]:
                out.append((a[0], a[1] + b[1]))
                i += 1
                j += 1
            elif a[0] < b[0]:
                out.append(a)
                i += 1
            else:
                out.append(b)
                j += 1
        out.extend(m[i:])
        out.extend(n[j:])
        return tuple(out)

    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) * len(q) > 40 * self.limit:
            raise TooBig
        if len(p) > len(q):
            p, q = q, p
        r: dict = {}
        todo = []
        sq = self.square
        for m, v in p.items():
            for n, w in q.items():
                k = self.mmul(m, n)
                c = v * w
                if any(e >= 2 and a in sq for a, e in k):
                    todo.append((k, c))
                    continue
                x = r.get(k, 0) + c
                if x == 0:
                    r.pop(k, None)
                else:
                    r[k] = x
        if len(r) > self.limit:
            raise TooBig
        for k, c in todo:
            red = self.reduce_mono(k)
            for n, w in red.items():
                x = r.get(n, 0) + c * w
                if x == 0:
                    r.pop(n, None)
                else:
                    r[n] = x
            if len(r) > self.limit:
                raise TooBig
        return r

    def reduce_mono(self, k):
        keep = []
        factors = []
        for a, e in k:
            if e >= 2 and a in self.square:
                if e % 2:
                    keep.append((a, 1))
                factors.append((self.square[a], e // 2))
            else:
                keep.append((a, e))
        r = {tuple(keep): 1}
        for poly, e in factors:
            for _ in range(e):
                r = self.pmul(r, poly)
        return r

    # ---- rational functions
    def simp(self, n, d):
        if not n:
            return ZERO, ONE
        if d is ONE or (len(d) == 1 and () in d):
            c = d[()]
            return (n if c == 1 else self.pscale(n, Fraction(1) / c)), ONE
        # common monomial factor
        common = None
        for p in (n, d):
            for m in p:
                md = dict(m)
                if common is None:
                    common = md
                else:
                    common = {a: min(e, md.get(a, 0)) for a, e in common.items() if md.get(a, 0)}
                if not common:
                    break
            if not common:
                break
        if common:
            def strip(p):
                out = {}
                for m, v in p.items():
                    mm = tuple((a, e - common.get(a, 0)) for a, e in m if e - common.get(a, 0) > 0)
                    out[mm] = v
                return out

            n, d = strip(n), strip(d)
            if len(d) == 1 and () in d:
                return self.simp(n, d)
        if len(n) == len(d) and n.keys() == d.keys():
            it = iter(n)
            k = next(it)
            c = Fraction(n[k]) / d[k]
            if all(n[m] == c * d[m] for m in n):
                return ({(): c} if c != 1 else ONE), ONE
        if len(d) > 1 and len(n) >= len(d) and len(n) < 3000:
            q = self.exact_div(n, d)
            if q is not None:
                return q, ONE
        if len(n) > 1 and len(d) > len(n) and len(d) < 3000:
            q = self.exact_div(d, n)
            if q is not None:
                return self.simp(ONE, q) if q is not ONE else (ONE, ONE)
        # normalise leading coefficient of d
        lead = d[max(d)]
        if lead != 1:
            inv = Fraction(1) / lead
            n, d = self.pscale(n, inv), self.pscale(d, inv)
        return n, d

    def exact_div(self, n, d):
        """Exact polynomial division n/d or None; treats atoms as free unless reduction interferes."""

        def key(m):
            return (sum(e for _, e in m), tuple((-a, e) for a, e in m))

        ld = max(d, key=key)
        ldd = dict(ld)
        cd = d[ld]
        r = dict(n)
        q: dict = {}
        for _ in range(400):
            if not r:
                return q
            lm = max(r, key=key)
            lmd = dict(lm)
            if any(lmd.get(a, 0) < e for a, e in ldd.items()):
                return None
            mm = tuple(sorted((a, e - ldd.get(a, 0)) for a, e in lmd.items() if e - ldd.get(a, 0) > 0))
            c = Fraction(r[lm]) / cd
            if mm in q:
                return None
            q[mm] = c
            r = self.padd(r, self.pmul({mm: c}, d), -1)
        return None

    def radd(self, x, y):
        (n1, d1), (n2, d2) = x, y
        if d1 == d2:
            return self.simp(self.padd(n1, n2), d1)
        if d1 is ONE or d1 == ONE:
            return self.simp(self.padd(self.pmul(n1, d2), n2), d2)
        if d2 is ONE or d2 == ONE:
            return self.simp(self.padd(n1, self.pmul(n2, d1)), d1)
        # try divisibility of the denominators
        q = self.exact_div(d1, d2) if len(d1) >= len(d2) else None
        if q is not None:
            return self.simp(self.padd(n1, self.pmul(n2, q)), d1)
        q = self.exact_div(d2, d1) if len(d2) >= len(d1) else None
        if q is not None:
            return self.simp(self.padd(self.pmul(n1, q), n2), d2)
        return self.simp(self.padd(self.pmul(n1, d2), self.pmul(n2, d1)), self.pmul(d1, d2))

    def rmul(self, x, y):
        (n1, d1), (n2, d2) = x, y
        if not n1 or not n2:
            return ZERO, ONE
        # cross-cancel
        if d1 != ONE and d1 == n2:
            return self.simp(n1, d2)
        if d2 != ONE and d2 == n1:
            return self.simp(n2, d1)
        d = d2 if d1 == ONE else (d1 if d2 == ONE else self.pmul(d1, d2))
        return self.simp(self.pmul(n1, n2), d)

    # ---- conversion
    def pkey(self, p):
        return tuple(sorted((m, Fraction(v)) for m, v in p.items()))

    def rkey(self, nd):
        return (self.pkey(nd[0]), self.pkey(nd[1]))

    def of(self, t):
        if not isinstance(t, T):
            if tm.special(t):
                raise TooBig
            t = tm._num(t)
            return ({(): t} if t != 0 else ZERO), ONE
        r = self.cache.get(t.id)
        if r is not None:
            return r
        for s in tm.postorder([t]):
            if s.id not in self.cache and s.sort != tm.BOOL:
                self.cache[s.id] = self._one(s)
        return self.cache[t.id]

    def _g(self, a):
        if isinstance(a, T):
            r = self.cache.get(a.id)
            return r if r is not None else self.of(a)
        return self.of(a)

    def _avar(self, i):
        return {((i, 1),): 1}, ONE

    def _one(self, t):
        op = t.op
        if op == "add":
            return self.radd(self._g(t.args[0]), self._g(t.args[1]))
        if op == "mul":
            return self.rmul(self._g(t.args[0]), self._g(t.args[1]))
        if op == "div":
            n, d = self._g(t.args[1])
            if not n:
                raise TooBig
            return self.rmul(self._g(t.args[0]), self.simp(d, n))
        if op == "toreal":
            return self._g(t.args[0])
        if op == "var":
            key = ("var", t.meta)
            sq = tm.Ctx.var_squares.get(t.meta)
            if sq is not None and key not in self.index:
                i = self.atom(key, t)
                n, d = self.of(sq)
                self.square[i] = n
            return self._avar(self.atom(key, t))
        if op in ("cos", "sin"):
            k = self.rkey(self._g(t.args[0]))
            ci = self.atom(("cos", k), tm._mk("cos", t.args, tm.REAL))
            if op == "cos":
                return self._avar(ci)
            si = self.atom(("sin", k), t, square={(): 1, ((ci, 2),): -1})
            return self._avar(si)
        if op == "sqrt":
            n, d = self._g(t.args[0])
            if d == ONE:
                return self._sqrt_poly(n, t)
            den = ONE
            for i in list(self.square):
                if self.atoms[i][0][0] != "sqrt":
                    continue
                p = self.square[i]
                for _ in range(4):
                    q = self.exact_div(d, p) if len(d) >= len(p) else None
                    if q is None:
                        break
                    d = q
                    den = self.pmul(den, {((i, 1),): 1})
            if len(d) == 1:
                # d is now a single monomial: accept even powers and positive content
                (m, c), = d.items()
                if c > 0 and all(e % 2 == 0 for _, e in m) and all(self.atoms[a][0][0] == "sqrt" for a, _ in m):
                    den = self.pmul(den, {tuple((a, e // 2) for a, e in m): 1})
                    n = self.pscale(n, Fraction(1) / c)
                    return self.rmul(self._sqrt_poly(n, t), self.simp(ONE, den))
            i = self.atom(("sqrtq", self.rkey(self._g(t.args[0]))), t)
            return self._avar(i)
        if op == "ite":
            k = ("ite", self.cond_key(t.args[0]), self.rkey(self._g(t.args[1])), self.rkey(self._g(t.args[2])))
            if k[2] == k[3]:
                return self._g(t.args[1])
            return self._avar(self.atom(k, t))
        k = (op, t.meta) + tuple(self.rkey(self._g(a)) if tm.sort_of(a) != tm.BOOL else self.cond_key(a) for a in t.args)
        return self._avar(self.atom(k, t))

    def absolute(self, rep):
        ex = tm.Ctx.explorer
        if ex is not None and not Normalizer.busy:
            Normalizer.busy = True
            try:
                if ex.quick_implied(tm.ge(rep, 0)):
                    return rep
                if ex.quick_implied(tm.le(rep, 0)):
                    return tm.neg(rep)
            finally:
                Normalizer.busy = False
        eager, tm.Ctx.eager = tm.Ctx.eager, False
        try:
            return tm.absv(rep)
        finally:
            tm.Ctx.eager = eager

    def term(self, nd):
        n, d = nd
        if not n:
            return 0
        t = self.poly_term(n)
        if d is ONE or d == ONE:
            return t
        return tm._mk("div", (tm.to_real(t), tm.to_real(self.poly_term(d))), tm.REAL)

    def _sqrt_poly(self, n, t):
        """sqrt of a non-negative polynomial, pulling out known square roots."""
        if not n:
            return ZERO, ONE
        if len(n) == 1 and () in n:
            e = tm._exact_sqrt(n[()]) if n[()] >= 0 else None
            if e is not None:
                return {(): e}, ONE
        key = ("sqrt", self.pkey(n))
        if key in self.index:
            return self._avar(self.index[key])
        out = ONE
        for i in list(self.square):
            if self.atoms[i][0][0] != "sqrt":
                continue
            p = self.square[i]
            for _ in range(4):
                q = self.exact_div(n, p) if len(n) >= len(p) else None
                if q is None:
                    break
                n = q
                out = self.pmul(out, {((i, 1),): 1})
        if len(n) == 1:
            (m, c), = n.items()
            e = tm._exact_sqrt(c) if c >= 0 else None
            if e is not None and not m:
                return self.pscale(out, e), ONE
            if e is not None and all(x % 2 == 0 for _, x in m):
                r = (self.pscale(out, e), ONE)
                for a, x in m:
                    rep = self.atoms[a][1]
                    v = tm.power(rep, x // 2) if (x // 2) % 2 == 0 else tm.mul(tm.power(rep, x // 2 - 1), self.absolute(rep))
                    r = self.rmul(r, self.of(v))
                return r
        for rid, rt in tm.Ctx.roots.items():
            # candidate roots offered by the harness, accepted only when their square is this polynomial
            rn, rd = self.of(rt)
            if rd != ONE:
                continue
            p2 = self.pmul(rn, rn)
            if p2 and len(p2) == len(n) and set(p2) == set(n):
                k0 = next(iter(p2))
                c = Fraction(n[k0]) / Fraction(p2[k0])
                e = tm._exact_sqrt(c) if c > 0 else None
                if e is not None and all(Fraction(n[m]) == c * p2[m] for m in n):
                    return self.rmul((self.pscale(out, e), ONE), (rn, rd))
        # a perfect power of an existing square: p^2 -> p (p = r^2 >= 0) is covered by the division loop
        key = ("sqrt", self.pkey(n))
        rep = tm._mk("sqrt", (self.poly_term(n),), tm.REAL) if out is not ONE else t
        i = self.atom(key, rep, square=n)
        return self.pmul(out, {((i, 1),): 1}), ONE

    def cond_key(self, c):
        if not isinstance(c, T):
            return c
        k = self.ccache.get(c.id)
        if k is not None:
            return k
        if c.op in ("lt", "le", "eq"):
            k = (c.op, self.rkey(self.radd(self._g(c.args[0]), self.rmul(({(): -1}, ONE), self._g(c.args[1])))))
        elif c.op in ("not", "and", "or", "iff"):
            k = (c.op,) + tuple(self.cond_key(a) for a in c.args)
        else:
            k = ("t", c.id)
        self.ccache[c.id] = k
        return k

    # ---- back to terms
    def poly_term(self, p):
        r = 0
        for m, v in sorted(p.items()):
            x = tm._norm_c(Fraction(v))
            for a, e in m:
                x = tm.mul(x, tm.power(self.atoms[a][1], e))
            r = tm.add(r, x)
        return r

    def diff_is_zero(self, a, b):
        n, _ = self.radd(self.of(a), self.rmul(({(): -1}, ONE), self.of(b)))
        return not n

    def diff(self, a, b):
        return self.radd(self.of(a), self.rmul(({(): -1}, ONE), self.of(b)))
