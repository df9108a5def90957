"""Hash-consed symbolic terms over Real, Int, Bool (and bit-vectors).

Array elements are either plain Python constants (``bool``, ``int``, ``fractions.Fraction``, and the
floats ``inf``/``-inf``/``nan``) or instances of :class:`T`.  Floating point numbers of the program are
interpreted as mathematical reals; every literal is read as the decimal the programmer wrote (shortest
representation that round-trips) and multiples of pi are recognised exactly.
"""

from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

REAL, INT, BOOL = "R", "I", "B"


class Unsupported(BaseException):
    """Raised when the code under test needs something the encoder cannot represent."""


class T:
    __slots__ = ("op", "args", "sort", "id", "meta", "__weakref__")

    def __init__(self, op, args, sort, ident, meta=None):
        self.op = op
        self.args = args
        self.sort = sort
        self.id = ident
        self.meta = meta

    def __repr__(self):
        return to_str(self, 4)

    __hash__ = object.__hash__

    def __bool__(self):
        raise Unsupported("truth value of a symbolic term outside the explorer")

    # numpy object-array arithmetic falls back to these.
    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    def __rmul__(self, o):
        return mul(o, self)

    def __neg__(self):
        return neg(self)


_table: dict = {}
_counter = [0]
_var_table: dict = {}
PIVAL = Fraction(math.pi)


def reset():
    _table.clear()
    _var_table.clear()


def _mk(op, args, sort, meta=None):
    key = (op, tuple(a.id if isinstance(a, T) else ("c", type(a) is bool, a) for a in args), sort, meta)
    t = _table.get(key)
    if t is None:
        _counter[0] += 1
        t = T(op, tuple(args), sort, _counter[0], meta)
        _table[key] = t
    return t


def var(name, sort=REAL):
    return _mk("var", (), sort, name)


PI_NAME = "__pi"


def pi():
    return _mk("var", (), REAL, PI_NAME)


def is_t(x):
    return isinstance(x, T)


def isnum(x):
    return not isinstance(x, T)


def sort_of(x):
    if isinstance(x, T):
        return x.sort
    if isinstance(x, (bool, np.bool_)):
        return BOOL
    if isinstance(x, (int, np.integer)):
        return INT
    return REAL


def special(x):
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


_PI_MULT = {}
for _d in (1, 2, 3, 4, 6, 8, 12):
    for _n in range(-8 * _d, 8 * _d + 1):
        if _n == 0:
            continue
        _fr = Fraction(_n, _d)
        _v = math.pi * _n / _d
        _PI_MULT[_v] = _fr
        _PI_MULT[float(np.float32(_v))] = _fr
for _v, _fr in ((math.pi / 180, Fraction(1, 180)), (float(np.float32(math.pi / 180)), Fraction(1, 180))):
    _PI_MULT[_v] = _fr


def const(x, single=False):
    """Convert a Python/numpy scalar into an element."""
    if isinstance(x, T):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 else x
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        return x
    if x == int(x) and abs(x) < 2**53:
        return int(x)
    m = _PI_MULT.get(x)
    if m is not None:
        return mul(m, pi())
    if single or float(np.float32(x)) == x:
        s = repr(np.float32(x).item()) if not single else None
        s = np.format_float_positional(np.float32(x), unique=True, trim="-") if abs(x) > 1e-30 else repr(x)
        return Fraction(s)
    return Fraction(repr(x))


def to_py(x):
    """Constant element -> Python float/int/bool."""
    if isinstance(x, Fraction):
        return float(x)
    return x


def _num(x):
    return int(x) if isinstance(x, bool) else x


def _norm_c(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def _sp(a, b):
    return special(a) or special(b)


def _arith_sort(a, b):
    sa, sb = sort_of(a), sort_of(b)
    if sa == REAL or sb == REAL:
        return REAL
    return INT


def b2i(x):
    """Boolean element to numeric element."""
    if isinstance(x, T):
        if x.sort == BOOL:
            return ite(x, 1, 0, sort=INT)
        return x
    return int(x) if isinstance(x, bool) else x


def _lin_parts(t):
    """Split t = coeff * rest (rest a term or None)."""
    if not isinstance(t, T):
        return t, None
    if t.op == "mul" and not isinstance(t.args[0], T):
        return t.args[0], t.args[1]
    return 1, t


def add(a, b):
    a, b = b2i(a), b2i(b)
    ta, tb = isinstance(a, T), isinstance(b, T)
    if not ta and not tb:
        if _sp(a, b):
            return float(a) + float(b)
        if Ctx.tiny is not None and a != 0 and b != 0 and (abs(a) < Ctx.tiny or abs(b) < Ctx.tiny):
            return a if abs(a) > abs(b) else b
        return _norm_c(a + b)
    if not ta:
        a, b = b, a
        ta, tb = tb, ta
    # a symbolic
    if not tb:
        if special(b):
            return b
        if b == 0:
            return a
        if Ctx.tiny is not None and abs(b) < Ctx.tiny:
            if Ctx.explorer is not None:
                Ctx.explorer.notes.add(f"additive constants below {float(Ctx.tiny)} are read as zero")
            return a
        if a.op == "add" and not isinstance(a.args[1], T):
            return add(a.args[0], _norm_c(a.args[1] + b))
        return _mk("add", (a, b), _arith_sort(a, b))
    # both symbolic
    if a.op == "add" and not isinstance(a.args[1], T):
        return add(add(a.args[0], b), a.args[1])
    if b.op == "add" and not isinstance(b.args[1], T):
        return add(add(a, b.args[0]), b.args[1])
    ca, ra = _lin_parts(a)
    cb, rb = _lin_parts(b)
    if ra is rb:
        return mul(_norm_c(ca + cb), ra)
    # cancel x + (-x) inside one-level sums
    if b.op == "mul" and cb == -1 and a.op == "add":
        if a.args[0] is rb:
            return a.args[1]
        if a.args[1] is rb:
            return a.args[0]
    if a.id > b.id:
        a, b = b, a
    return _mk("add", (a, b), _arith_sort(a, b))


def neg(a):
    return mul(-1, a)


def sub(a, b):
    return add(a, mul(-1, b))


def mul(a, b):
    a, b = b2i(a), b2i(b)
    ta, tb = isinstance(a, T), isinstance(b, T)
    if not ta and not tb:
        if _sp(a, b):
            return float(a) * float(b)
        return _norm_c(a * b)
    if ta and not tb:
        a, b = b, a
        ta, tb = False, True
    if not ta:
        if special(a):
            raise Unsupported("infinity times a symbolic value")
        if a == 0:
            return 0
        if a == 1:
            return b
        if b.op == "mul" and not isinstance(b.args[0], T):
            return mul(_norm_c(b.args[0] * a), b.args[1])
        if b.op == "add" and not isinstance(b.args[1], T):
            return add(mul(a, b.args[0]), _norm_c(a * b.args[1]))
        if b.op == "ite" and not isinstance(b.args[1], T) and not isinstance(b.args[2], T) and not _sp(b.args[1], b.args[2]):
            return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
        return _mk("mul", (a, b), _arith_sort(a, b))
    # products with 0/1 indicator terms
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and not isinstance(x.args[1], T) and not isinstance(x.args[2], T):
            p, q = x.args[1], x.args[2]
            if p in (0, 1) and q in (0, 1):
                return ite(x.args[0], y if p == 1 else 0, y if q == 1 else 0)
    ca, ra = _lin_parts(a)
    cb, rb = _lin_parts(b)
    c = _norm_c(ca * cb)
    if ra.id > rb.id:
        ra, rb = rb, ra
    m = _mk("mul", (ra, rb), _arith_sort(ra, rb))
    return m if c == 1 else mul(c, m)


class Ctx:
    """Hooks the explorer installs: definedness conditions and truth decisions."""

    explorer = None
    eager = False  # decide every numeric case distinction when it is built
    roots = {}  # candidate square roots offered by the harness (verified before use)
    tiny = None  # additive constants below this bound are read as zero
    atan2_hook = None
    arc_hook = None
    simplify = None  # optional normal-form rewriting of sqrt/acos arguments and comparisons
    var_squares = {}  # name -> term equal to the square of that variable (unit vectors)


def _simp(x):
    if Ctx.simplify is not None and isinstance(x, T) and x.sort == REAL:
        return Ctx.simplify(x)
    return x


def _simp_cmp(a, b):
    """Normal form of the difference when it is simpler: returns (diff, 0) or the pair unchanged."""
    if Ctx.simplify is None or not (isinstance(a, T) or isinstance(b, T)):
        return a, b
    if _arith_sort(a, b) != REAL:
        return a, b
    a2, b2 = _simp(a), _simp(b)
    d = sub(a2, b2)
    e = _simp(d)
    if not isinstance(e, T):
        return e, 0
    return a2, b2


def side_condition(cond, why):
    if Ctx.explorer is not None:
        Ctx.explorer.side_condition(cond, why)


def div(a, b):
    """True division."""
    a, b = b2i(a), b2i(b)
    if not isinstance(b, T):
        if special(b):
            return 0 if math.isinf(b) and not special(a) else float("nan")
        if b == 0:
            if not isinstance(a, T):
                if special(a) or a == 0:
                    return float("nan")
                return float("inf") if a > 0 else float("-inf")
            # sign-dependent infinity
            side_condition(False, "division of a symbolic value by constant zero")
            raise Unsupported("division by constant zero")
        if not isinstance(a, T):
            if special(a):
                return a if b > 0 else -a
            return _norm_c(Fraction(a) / Fraction(b))
        return mul(Fraction(1) / Fraction(b), to_real(a))
    if not isinstance(a, T):
        if special(a):
            raise Unsupported("infinity divided by symbolic")
        if a == 0:
            side_condition(ne(b, 0), "divisor is non-zero")
            return 0
    if b.op == "ite" and _const_leaves(b):
        c, p, q = b.args
        return ite(c, div_or_junk(a, p), div_or_junk(a, q))
    side_condition(ne(b, 0), "divisor is non-zero")
    if a is b:
        return 1
    return _mk("div", (to_real(a), to_real(b)), REAL)


def _const_leaves(t):
    if not isinstance(t, T):
        return not special(t)
    return t.op == "ite" and _const_leaves(t.args[1]) and _const_leaves(t.args[2])


def div_or_junk(a, b):
    if not isinstance(b, T) and b == 0:
        return _mk("junk", (a,), REAL) if isinstance(a, T) else div(a, b)
    return div(a, b)


def to_real(x):
    if isinstance(x, T):
        if x.sort == BOOL:
            x = ite(x, 1, 0)
        if x.sort == INT:
            return _mk("toreal", (x,), REAL)
        return x
    return _num(x)


def floor_real(x):
    """Real -> Int floor."""
    if not isinstance(x, T):
        if special(x):
            return x
        return math.floor(x)
    if x.sort == INT:
        return x
    if x.op == "toreal":
        return x.args[0]
    if x.op == "ite":
        return ite(x.args[0], floor_real(x.args[1]), floor_real(x.args[2]))
    if x.op == "add" and isinstance(x.args[1], int):
        return add(floor_real(x.args[0]), x.args[1])
    return _mk("toint", (x,), INT)


def trunc_int(x):
    if not isinstance(x, T):
        if special(x):
            return 0
        return int(x)
    if x.sort == BOOL:
        return b2i(x)
    if x.sort == INT:
        return x
    if x.op == "ite":
        return ite(x.args[0], trunc_int(x.args[1]), trunc_int(x.args[2]))
    if x.op == "toreal":
        return x.args[0]
    return ite(ge(x, 0), floor_real(x), neg(floor_real(neg(x))))


def idiv_floor(a, b):
    a, b = b2i(a), b2i(b)
    if not isinstance(a, T) and not isinstance(b, T):
        return a // b
    if sort_of(a) == REAL or sort_of(b) == REAL:
        return floor_real(div(a, b))
    if isinstance(b, T):
        side_condition(ne(b, 0), "divisor is non-zero")
        # smt div is euclidean; floor differs for negative divisors
        return ite(gt(b, 0), _mk("idiv", (a, b), INT), _mk("idiv", (neg(a), neg(b)), INT))
    if b < 0:
        a, b = neg(a), -b
    if b == 1:
        return a
    return _mk("idiv", (a, b), INT)


def mod_floor(a, b):
    a, b = b2i(a), b2i(b)
    if not isinstance(a, T) and not isinstance(b, T):
        return _norm_c(a % b)
    if sort_of(a) == REAL or sort_of(b) == REAL:
        return sub(a, mul(b, to_real(floor_real(div(a, b)))))
    return sub(a, mul(b, idiv_floor(a, b)))


def power(a, n):
    if not isinstance(n, T) and not special(n):
        n = _norm_c(Fraction(n))
        if isinstance(n, int):
            if n == 0:
                return 1
            if n < 0:
                return div(1, power(a, -n))
            r = None
            base = a
            while n:
                if n & 1:
                    r = base if r is None else mul(r, base)
                n >>= 1
                if n:
                    base = mul(base, base)
            return r
        if n.denominator == 2:
            s = sqrt(a)
            return power(s, n.numerator)
    if not isinstance(a, T) and not isinstance(n, T):
        return const(float(a) ** float(n))
    raise Unsupported("symbolic exponent")


# --- booleans ---------------------------------------------------------------------------------


def not_(a):
    a = as_bool(a)
    if not isinstance(a, T):
        return not a
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return _mk("le", (a.args[1], a.args[0]), BOOL)
    if a.op == "le":
        return _mk("lt", (a.args[1], a.args[0]), BOOL)
    return _mk("not", (a,), BOOL)


def as_bool(a):
    if isinstance(a, T):
        return a if a.sort == BOOL else ne(a, 0)
    return bool(a)


def and_(a, b):
    a, b = as_bool(a), as_bool(b)
    if not isinstance(a, T):
        return b if a else False
    if not isinstance(b, T):
        return a if b else False
    if a is b:
        return a
    if not_(a) is b:
        return False
    if a.id > b.id:
        a, b = b, a
    return _mk("and", (a, b), BOOL)


def or_(a, b):
    a, b = as_bool(a), as_bool(b)
    if not isinstance(a, T):
        return True if a else b
    if not isinstance(b, T):
        return True if b else a
    if a is b:
        return a
    if not_(a) is b:
        return True
    if a.id > b.id:
        a, b = b, a
    return _mk("or", (a, b), BOOL)


def xor_b(a, b):
    a, b = as_bool(a), as_bool(b)
    if not isinstance(a, T):
        return not_(b) if a else b
    if not isinstance(b, T):
        return not_(a) if b else a
    return _mk("not", (_mk("iff", (a, b), BOOL),), BOOL)


def conj(xs):
    r = True
    for x in xs:
        r = and_(r, x)
    return r


def disj(xs):
    r = False
    for x in xs:
        r = or_(r, x)
    return r


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b, sort=None):
    c = as_bool(c)
    if not isinstance(c, T):
        return a if c else b
    if a is b or (not isinstance(a, T) and not isinstance(b, T) and type(a) is type(b) and a == b):
        return a
    sa, sb = sort_of(a), sort_of(b)
    if sa == BOOL and sb == BOOL:
        if a is True:
            return or_(c, b)
        if a is False:
            return and_(not_(c), b)
        if b is True:
            return or_(not_(c), a)
        if b is False:
            return and_(c, a)
        return or_(and_(c, a), and_(not_(c), b))
    if sa == BOOL:
        a = b2i(a)
    if sb == BOOL:
        b = b2i(b)
    if Ctx.eager and Ctx.explorer is not None:
        return a if Ctx.explorer.decide(c) else b
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if isinstance(a, T) and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, T) and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b or (not isinstance(a, T) and not isinstance(b, T) and a == b):
        return a
    if special(a) or special(b):
        return _mk("ite", (c, a, b), REAL)
    s = _arith_sort(a, b)
    if s == REAL:
        a, b = to_real(a), to_real(b)
    return _mk("ite", (c, a, b), s)


def has_special(t):
    if not isinstance(t, T):
        return special(t)
    return t.op == "ite" and (has_special(t.args[1]) or has_special(t.args[2]))


def _cmp_ite_const(op, a, b):
    """Comparison distributing over ite with infinite or all-constant leaves."""
    if isinstance(a, T) and a.op == "ite" and (has_special(a) or (_const_leaves(a) and not isinstance(b, T))):
        return ite(a.args[0], op(a.args[1], b), op(a.args[2], b))
    if isinstance(b, T) and b.op == "ite" and (has_special(b) or (_const_leaves(b) and not isinstance(a, T))):
        return ite(b.args[0], op(a, b.args[1]), op(a, b.args[2]))
    return None


def _prep(a, b):
    a, b = b2i(a), b2i(b)
    return a, b


def lt(a, b):
    a, b = _prep(a, b)
    if not isinstance(a, T) and not isinstance(b, T):
        return bool(a < b)
    if a is b:
        return False
    if special(a):
        return a == float("-inf") if not math.isnan(a) else False
    if special(b):
        return b == float("inf") if not math.isnan(b) else False
    r = _cmp_ite_const(lt, a, b)
    if r is not None:
        return r
    a, b = _simp_cmp(a, b)
    if not isinstance(a, T) and not isinstance(b, T):
        return bool(a < b)
    r = _sign_simpl(a, b, lt)
    if r is not None:
        return r
    if _arith_sort(a, b) == REAL:
        a, b = to_real(a), to_real(b)
    return _mk("lt", (a, b), BOOL)


def le(a, b):
    a, b = _prep(a, b)
    if not isinstance(a, T) and not isinstance(b, T):
        return bool(a <= b)
    if a is b:
        return True
    if special(a):
        return a == float("-inf") if not math.isnan(a) else False
    if special(b):
        return b == float("inf") if not math.isnan(b) else False
    r = _cmp_ite_const(le, a, b)
    if r is not None:
        return r
    a, b = _simp_cmp(a, b)
    if not isinstance(a, T) and not isinstance(b, T):
        return bool(a <= b)
    r = _sign_simpl(a, b, le)
    if r is not None:
        return r
    if _arith_sort(a, b) == REAL:
        a, b = to_real(a), to_real(b)
    return _mk("le", (a, b), BOOL)


_NONNEG_OPS = {"sqrt", "acos"}
_POS_OPS = {"softplus", "sigmoid", "exp"}


def _sign_simpl(a, b, op):
    """Cheap facts about atoms with known range."""
    if isinstance(a, T) and not isinstance(b, T):
        if a.op in _POS_OPS and b <= 0:
            return False
        if a.op in _NONNEG_OPS and (b < 0 or (b == 0 and op is lt)):
            return False
        if a.op == "sigmoid" and b >= 1:
            return True
        if a.op in ("cos", "sin"):
            if b > 1 or (b == 1 and op is le):
                return True
            if b < -1 or (b == -1 and op is lt):
                return False
        if a.op == "tanh" and b >= 1:
            return True
        if a.op == "tanh" and b <= -1:
            return False
    if isinstance(b, T) and not isinstance(a, T):
        if b.op in _POS_OPS and a <= 0:
            return True
        if b.op in _NONNEG_OPS and (a < 0 or (a == 0 and op is le)):
            return True
        if b.op == "sigmoid" and a >= 1:
            return False
        if b.op in ("cos", "sin"):
            if a < -1 or (a == -1 and op is le):
                return True
            if a > 1 or (a == 1 and op is lt):
                return False
        if b.op == "tanh" and a >= 1:
            return False
        if b.op == "tanh" and a <= -1:
            return True
    return None


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if sort_of(a) == BOOL and sort_of(b) == BOOL:
        if not isinstance(a, T):
            return b if a else not_(b)
        if not isinstance(b, T):
            return a if b else not_(a)
        if a is b:
            return True
        return _mk("iff", (a, b), BOOL)
    a, b = _prep(a, b)
    if not isinstance(a, T) and not isinstance(b, T):
        return bool(a == b)
    if a is b:
        return True
    if special(a) or special(b):
        if isinstance(a, T) and has_special(a):
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if isinstance(b, T) and has_special(b):
            return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
        return False
    r = _cmp_ite_const(eq, a, b)
    if r is not None:
        return r
    a, b = _simp_cmp(a, b)
    if not isinstance(a, T) and not isinstance(b, T):
        return bool(a == b)
    if isinstance(a, T) and a.op in _POS_OPS and not isinstance(b, T) and b <= 0:
        return False
    if _arith_sort(a, b) == REAL:
        a, b = to_real(a), to_real(b)
    if isinstance(b, T) and (not isinstance(a, T) or a.id > b.id):
        a, b = b, a
    return _mk("eq", (a, b), BOOL)


def ne(a, b):
    return not_(eq(a, b))


def tmin(a, b):
    a, b = _prep(a, b)
    if not isinstance(a, T) and not isinstance(b, T):
        return a if a <= b else b
    return ite(le(a, b), a, b)


def tmax(a, b):
    a, b = _prep(a, b)
    if not isinstance(a, T) and not isinstance(b, T):
        return a if a >= b else b
    for x, y in ((a, b), (b, a)):
        # norm clamped from below by a tiny constant: a case split keeps the terms rational
        if isinstance(x, T) and x.op == "sqrt" and not isinstance(y, T) and not special(y) and 0 < y <= Fraction(1, 1000) and Ctx.explorer is not None:
            return x if Ctx.explorer.decide(ge(x, y)) else y
    return ite(ge(a, b), a, b)


def absv(a):
    a = b2i(a)
    if not isinstance(a, T):
        return abs(a)
    if a.op in _NONNEG_OPS or a.op in _POS_OPS:
        return a
    if Ctx.eager == "keep-abs":
        Ctx.eager, e = False, Ctx.eager
        try:
            return ite(ge(a, 0), a, neg(a))
        finally:
            Ctx.eager = e
    return ite(ge(a, 0), a, neg(a))


def sign(a):
    a = b2i(a)
    if not isinstance(a, T):
        return 0 if a == 0 else (1 if a > 0 else -1)
    return ite(gt(a, 0), 1, ite(eq(a, 0), 0, -1))


# --- transcendental atoms ------------------------------------------------------------------------


def _exact_sqrt(x):
    x = Fraction(x)
    if x < 0:
        return None
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if n * n == x.numerator and d * d == x.denominator:
        return _norm_c(Fraction(n, d))
    return None


def sqrt(x):
    x = _simp(b2i(x))
    if not isinstance(x, T):
        if special(x):
            return math.sqrt(x) if not math.isnan(x) and x > 0 else float("nan")
        if x < 0:
            return float("nan")
        e = _exact_sqrt(x)
        if e is not None:
            return e
        return _mk("sqrt", (_norm_c(Fraction(x)),), REAL)
    side_condition(ge(x, 0), "square root argument is non-negative")
    return _mk("sqrt", (to_real(x),), REAL)


def pi_multiple(x):
    """x == q*pi exactly -> q else None."""
    if not isinstance(x, T):
        return Fraction(0) if x == 0 else None
    if x.op == "var" and x.meta == PI_NAME:
        return Fraction(1)
    if x.op == "mul" and not isinstance(x.args[0], T) and isinstance(x.args[1], T) and x.args[1].op == "var" and x.args[1].meta == PI_NAME:
        return Fraction(x.args[0])
    return None


def _trig_const(q):
    """(cos, sin) of q*pi for exact cases."""
    q = q % 2
    tab = {
        Fraction(0): (1, 0),
        Fraction(1, 2): (0, 1),
        Fraction(1): (-1, 0),
        Fraction(3, 2): (0, -1),
        Fraction(1, 3): (Fraction(1, 2), "s3"),
        Fraction(2, 3): (Fraction(-1, 2), "s3"),
        Fraction(1, 6): ("s3", Fraction(1, 2)),
        Fraction(5, 6): ("-s3", Fraction(1, 2)),
        Fraction(1, 4): ("s2", "s2"),
        Fraction(3, 4): ("-s2", "s2"),
    }
    r = tab.get(q)
    if r is None:
        return None
    conv = {"s3": div(sqrt(3), 2), "-s3": div(neg(sqrt(3)), 2), "s2": div(sqrt(2), 2), "-s2": div(neg(sqrt(2)), 2)}
    return tuple(conv.get(v, v) if isinstance(v, str) else v for v in r)


def cos_sin(x):
    """Terms for cos(x), sin(x), algebraised where x is a sum of angle atoms."""
    x = b2i(x)
    if not isinstance(x, T):
        if x == 0:
            return 1, 0
        return const(math.cos(float(x))), const(math.sin(float(x)))
    q = pi_multiple(x)
    if q is not None:
        r = _trig_const(q)
        if r is not None:
            return r
    if x.op == "add":
        c1, s1 = cos_sin(x.args[0])
        c2, s2 = cos_sin(x.args[1])
        return sub(mul(c1, c2), mul(s1, s2)), add(mul(s1, c2), mul(c1, s2))
    if x.op == "mul" and not isinstance(x.args[0], T):
        k = x.args[0]
        y = x.args[1]
        if isinstance(k, int) and k % 2 == 0 and y.op == "mul":
            f = [z for z in y.args]
            if any(isinstance(z, T) and z.op == "var" and z.meta == PI_NAME for z in f) and any(isinstance(z, T) and z.op == "toreal" for z in f):
                return 1, 0  # whole turns
        if isinstance(k, int) and abs(k) <= 4:
            if k < 0:
                c, s = cos_sin(mul(-k, x.args[1]))
                return c, neg(s)
            c1, s1 = cos_sin(x.args[1])
            c, s = c1, s1
            for _ in range(k - 1):
                c, s = sub(mul(c, c1), mul(s, s1)), add(mul(s, c1), mul(c, s1))
            return c, s
        if k < 0:
            c, s = cos_sin(mul(-k, x.args[1]))
            return c, neg(s)
    if x.op == "ite":
        c1, s1 = cos_sin(x.args[1])
        c2, s2 = cos_sin(x.args[2])
        return ite(x.args[0], c1, c2), ite(x.args[0], s1, s2)
    if x.op == "acos":
        u = x.args[0]
        return u, sqrt(sub(1, mul(u, u)))
    if x.op == "asin":
        u = x.args[0]
        return sqrt(sub(1, mul(u, u))), u
    if x.op == "atan2":
        y, xx = x.args
        r = sqrt(add(mul(y, y), mul(xx, xx)))
        z = eq(r, 0)
        if z is True:
            return 1, 0
        return div(xx, r), div(y, r)
    return _mk("cos", (x,), REAL), _mk("sin", (x,), REAL)


def cos(x):
    return cos_sin(x)[0]


def sin(x):
    return cos_sin(x)[1]


def acos(x):
    x = _simp(b2i(x))
    if not isinstance(x, T):
        tab = {1: 0, -1: pi(), 0: mul(Fraction(1, 2), pi())}
        if x in tab:
            return tab[x]
        return const(math.acos(float(x))) if -1 <= x <= 1 else float("nan")
    if Ctx.arc_hook is not None:
        r = Ctx.arc_hook("cos", x)
        if r is not None:
            return r
    side_condition(and_(ge(x, -1), le(x, 1)), "arccos argument is in [-1, 1]")
    return _mk("acos", (to_real(x),), REAL)


def asin(x):
    x = _simp(b2i(x))
    if not isinstance(x, T):
        tab = {1: mul(Fraction(1, 2), pi()), -1: mul(Fraction(-1, 2), pi()), 0: 0}
        if x in tab:
            return tab[x]
        return const(math.asin(float(x))) if -1 <= x <= 1 else float("nan")
    if Ctx.arc_hook is not None:
        r = Ctx.arc_hook("sin", x)
        if r is not None:
            return r
    side_condition(and_(ge(x, -1), le(x, 1)), "arcsin argument is in [-1, 1]")
    return _mk("asin", (to_real(x),), REAL)


def atan2(y, x):
    y, x = b2i(y), b2i(x)
    if not isinstance(y, T) and not isinstance(x, T):
        tab = {(0, 1): 0, (1, 0): mul(Fraction(1, 2), pi()), (-1, 0): mul(Fraction(-1, 2), pi()), (0, -1): pi(), (0, 0): 0}
        k = (0 if y == 0 else (1 if y > 0 else -1), 0 if x == 0 else (1 if x > 0 else -1))
        if 0 in k:
            return tab[k]
        if abs(x) == abs(y):
            return mul(Fraction(1, 4) if x > 0 and y > 0 else Fraction(3, 4) if y > 0 else Fraction(-1, 4) if x > 0 else Fraction(-3, 4), pi())
        return const(math.atan2(float(y), float(x)))
    if Ctx.atan2_hook is not None:
        r = Ctx.atan2_hook(y, x)
        if r is not None:
            return r
    return _mk("atan2", (to_real(y), to_real(x)), REAL)


def _uf(name, fn):
    def f(x):
        x = b2i(x)
        if not isinstance(x, T):
            v = fn(float(x))
            return const(v)
        if x.op == "ite" and has_special(x):
            return ite(x.args[0], f(x.args[1]), f(x.args[2]))
        x = _simp(x)
        if not isinstance(x, T):
            return const(fn(float(x)))
        return _mk(name, (to_real(x),), REAL)

    return f


def _sig(x):
    return 1 / (1 + math.exp(-x)) if x > -700 else 0.0


sigmoid = _uf("sigmoid", _sig)
_exp0 = _uf("exp", lambda x: math.exp(x) if x < 700 else float("inf"))


def exp(x):
    if not isinstance(x, T) and x == 0:
        return 1
    if isinstance(x, T) and x.op == "log":
        return x.args[0]
    return _exp0(x)


_log0 = _uf("log", lambda x: math.log(x) if x > 0 else (float("-inf") if x == 0 else float("nan")))


def log(x):
    if isinstance(x, T):
        side_condition(gt(x, 0), "logarithm argument is positive")
        if x.op == "exp":
            return x.args[0]
    return _log0(x)


tanh = _uf("tanh", math.tanh)
atanh = _uf("atanh", lambda x: math.atanh(x) if -1 < x < 1 else math.copysign(float("inf"), x))


def softplus(x, beta):
    """softplus with parameter beta as an atom of (beta*x); positive, and above x."""
    x = b2i(x)
    if not isinstance(x, T):
        b = float(beta)
        v = float(x)
        return const(v if v * b > 20 else math.log1p(math.exp(b * v)) / b)
    return _mk("softplus", (to_real(x), const(beta)), REAL)


def uf(name, args, sort=REAL):
    return _mk("uf:" + name, tuple(args), sort)


# --- bit operations on integers -------------------------------------------------------------------
# Symbolic ints that take part in bit operations carry the sort INT and are converted to 64-bit vectors.


def _bitop(name, fn):
    def f(a, b):
        if sort_of(a) == BOOL and sort_of(b) == BOOL:
            return {"and": and_, "or": or_, "xor": xor_b}[name](a, b)
        a, b = b2i(a), b2i(b)
        if not isinstance(a, T) and not isinstance(b, T):
            return fn(a, b)
        if name == "and" and ((isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0)):
            return 0
        if name in ("or", "xor", "shl", "shr") and not isinstance(b, T) and b == 0:
            return a
        if name in ("or", "xor") and not isinstance(a, T) and a == 0:
            return b
        return _mk("bit" + name, (a, b), INT)

    return f


bit_and = _bitop("and", lambda a, b: a & b)
bit_or = _bitop("or", lambda a, b: a | b)
bit_xor = _bitop("xor", lambda a, b: a ^ b)
shl = _bitop("shl", lambda a, b: a << b)
shr = _bitop("shr", lambda a, b: a >> b)


# --- utilities -----------------------------------------------------------------------------------


def to_str(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if t.op == "var":
        return str(t.meta)
    if depth == 0:
        return "…"
    return f"{t.op}({', '.join(to_str(a, depth - 1) for a in t.args)})"


def children(t):
    return [a for a in t.args if isinstance(a, T)]


def postorder(roots):
    seen = set()
    out = []
    stack = [(r, False) for r in roots if isinstance(r, T)]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if isinstance(a, T) and a.id not in seen:
                stack.append((a, False))
    return out


def evaluate(roots, env):
    """Numeric evaluation with floats; env: var name -> float/int/bool."""
    cache = {}

    def val(a):
        if isinstance(a, T):
            return cache[a.id]
        if isinstance(a, Fraction):
            return float(a)
        return a

    for t in postorder(roots):
        a = [val(x) for x in t.args]
        op = t.op
        try:
            if op == "var":
                v = math.pi if t.meta == PI_NAME else env[t.meta]
            elif op == "add":
                v = a[0] + a[1]
            elif op == "mul":
                v = a[0] * a[1]
            elif op == "div":
                v = a[0] / a[1]
            elif op == "idiv":
                v = a[0] // a[1]
            elif op == "toreal":
                v = float(a[0])
            elif op == "toint":
                v = math.floor(a[0])
            elif op == "ite":
                v = a[1] if a[0] else a[2]
            elif op == "not":
                v = not a[0]
            elif op == "and":
                v = a[0] and a[1]
            elif op == "or":
                v = a[0] or a[1]
            elif op == "iff":
                v = bool(a[0]) == bool(a[1])
            elif op == "lt":
                v = a[0] < a[1]
            elif op == "le":
                v = a[0] <= a[1]
            elif op == "eq":
                v = a[0] == a[1]
            elif op == "sqrt":
                v = math.sqrt(a[0])
            elif op == "cos":
                v = math.cos(a[0])
            elif op == "sin":
                v = math.sin(a[0])
            elif op == "acos":
                v = math.acos(min(1.0, max(-1.0, a[0])))
            elif op == "asin":
                v = math.asin(min(1.0, max(-1.0, a[0])))
            elif op == "atan2":
                v = math.atan2(a[0], a[1])
            elif op == "sigmoid":
                v = _sig(a[0])
            elif op == "exp":
                v = math.exp(a[0]) if a[0] < 700 else float("inf")
            elif op == "log":
                v = math.log(a[0])
            elif op == "tanh":
                v = math.tanh(a[0])
            elif op == "atanh":
                v = math.atanh(a[0])
            elif op == "softplus":
                v = a[0] if a[0] * a[1] > 20 else math.log1p(math.exp(a[1] * a[0])) / a[1]
            elif op == "bitand":
                v = a[0] & a[1]
            elif op == "bitor":
                v = a[0] | a[1]
            elif op == "bitxor":
                v = a[0] ^ a[1]
            elif op == "bitshl":
                v = a[0] << a[1]
            elif op == "bitshr":
                v = a[0] >> a[1]
            else:
                v = float("nan")
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            v = float("nan")
        cache[t.id] = v
    return [val(r) for r in roots]


def substitute(roots, mapping):
    """Rebuild terms replacing (by id) some sub-terms; mapping: id -> element."""
    cache = dict(mapping)

    def val(a):
        return cache[a.id] if isinstance(a, T) else a

    saved, Ctx.explorer = Ctx.explorer, None
    try:
        for t in postorder(roots):
            if t.id in cache:
                continue
            if not t.args:
                cache[t.id] = t
                continue
            a = [val(x) for x in t.args]
            if all(x is y for x, y in zip(a, t.args)):
                cache[t.id] = t
                continue
            cache[t.id] = rebuild(t, a)
    finally:
        Ctx.explorer = saved
    return [val(r) for r in roots]


def rebuild(t, a):
    op = t.op
    f = _REBUILD.get(op)
    if f is not None:
        return f(*a)
    return _mk(op, tuple(a), t.sort, t.meta)


def _safe_div(a, b):
    if not isinstance(b, T) and b == 0:
        return _mk("junk", (a,), REAL) if isinstance(a, T) else _mk("junk", (var("__junk"),), REAL)
    return div(a, b)


def _safe(f):
    def g(x):
        r = f(x)
        if special(r):
            return _mk("junk", (var("__junk"),), REAL)
        return r

    return g


_REBUILD = {
    "add": add,
    "mul": mul,
    "div": _safe_div,
    "idiv": lambda a, b: idiv_floor(a, b) if not (isinstance(b, int) and b == 0) else _mk("junk", (var("__junk"),), INT),
    "toreal": to_real,
    "toint": floor_real,
    "ite": ite,
    "not": not_,
    "and": and_,
    "or": or_,
    "iff": eq,
    "lt": lt,
    "le": le,
    "eq": eq,
    "sqrt": _safe(sqrt),
    "cos": cos,
    "sin": sin,
    "acos": _safe(acos),
    "asin": _safe(asin),
    "atan2": atan2,
    "sigmoid": sigmoid,
    "exp": exp,
    "log": _safe(log),
    "tanh": tanh,
    "atanh": _safe(atanh),
    "softplus": softplus,
    "bitand": bit_and,
    "bitor": bit_or,
    "bitxor": bit_xor,
    "bitshl": shl,
    "bitshr": shr,
}
