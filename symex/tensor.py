"""Symbolic tensors: a torch wrapper subclass whose storage is a numpy object array of terms.

The real code of /repo runs unmodified; a TorchDispatchMode receives every ATen operation it performs (after
torch's own decomposition of composite functions) and evaluates it over terms.
"""

from __future__ import annotations

import itertools
import math
from fractions import Fraction

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils.weak import WeakTensorKeyDictionary

from . import terms as tm
from .terms import T, Unsupported

FLOATS = (torch.float16, torch.bfloat16, torch.float32, torch.float64)
INTS = (torch.int8, torch.int16, torch.int32, torch.int64, torch.uint8)


def obj(shape, fill=0):
    a = np.empty(shape, dtype=object)
    a.fill(fill)
    return a


def as0(x):
    """Ensure a numpy object ndarray."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    if isinstance(x, np.ndarray):
        return x.astype(object)
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _ex():
    return tm.Ctx.explorer


class SymTensor(torch.Tensor):
    __torch_function__ = torch._C._disabled_torch_function_impl

    @staticmethod
    def __new__(cls, arr, dtype, requires_grad=False):
        arr = as0(arr)
        t = torch.Tensor._make_wrapper_subclass(cls, arr.shape, dtype=dtype, device="cpu", requires_grad=requires_grad)
        t._a = arr
        return t

    def __init__(self, *a, **k):
        pass

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return run_op(func, args, kwargs or {})

    def __repr__(self, *a, **k):
        return f"SymTensor(shape={tuple(self.shape)}, dtype={self.dtype})"

    def __format__(self, spec):
        return "<sym>"

    def __deepcopy__(self, memo):
        r = SymTensor(self._a.copy(), self.dtype, requires_grad=self.requires_grad)
        return r

    def _scalar(self):
        if self._a.size != 1:
            raise RuntimeError("a Tensor with more than one element cannot be converted to Scalar")
        return self._a.reshape(())[()]

    def item(self):
        v = self._scalar()
        if not isinstance(v, T):
            return tm.to_py(v)
        if self.dtype == torch.bool:
            return _ex().decide(tm.as_bool(v))
        if self.dtype in INTS:
            return _ex().choose_int(v)
        return SymTensor(as0(v), self.dtype)

    def __bool__(self):
        v = self._scalar()
        return _ex().decide(tm.as_bool(v)) if isinstance(v, T) else bool(v)

    def __int__(self):
        v = self._scalar()
        if not isinstance(v, T):
            return int(v)
        return _ex().choose_int(tm.trunc_int(v))

    def __index__(self):
        return self.__int__()

    def __float__(self):
        v = self._scalar()
        if not isinstance(v, T):
            return float(v)
        raise Unsupported("float() of a symbolic value")

    def tolist(self):
        def rec(a):
            if a.ndim == 0:
                return SymTensor(a, self.dtype).item()
            return [rec(as0(x)) for x in a]

        return rec(self._a)

    def numpy(self, *a, **k):
        return to_real_tensor(self, f32=True).numpy()

    def __hash__(self):
        return id(self)


_shadows = WeakTensorKeyDictionary()


def clear_shadows():
    _shadows.clear()


def from_real(t, share=True):
    """Shadow of an ordinary tensor."""
    s = _shadows.get(t)
    if s is not None:
        return s
    n = t.detach().numpy() if not t.is_meta else None
    arr = np.empty(n.shape, dtype=object)
    flat = arr.reshape(-1)
    single = t.dtype == torch.float32
    if t.dtype in FLOATS:
        vals = [tm.const(float(v), single) for v in n.reshape(-1)]
    elif t.dtype == torch.bool:
        vals = [bool(v) for v in n.reshape(-1)]
    else:
        vals = [int(v) for v in n.reshape(-1)]
    for i, v in enumerate(vals):
        flat[i] = v
    arr = flat.reshape(n.shape)
    s = SymTensor(arr, t.dtype)
    if share:
        _shadows[t] = s
    return s


def is_const(a):
    for x in a.flat:
        if isinstance(x, T):
            return False
    return True


PI_F = math.pi


def to_real_tensor(s, f32=False):
    a = s._a
    if s.dtype in FLOATS:
        vals = np.empty(a.shape, dtype=np.float64)
        it = vals.reshape(-1)
        for i, x in enumerate(a.flat):
            if isinstance(x, T):
                v = tm.evaluate([x], _ConstEnv())[0]
                if not isinstance(v, (int, float)) or v != v:
                    raise Unsupported("symbolic value reaches an operation that is only modelled for constants")
                it[i] = v
            else:
                it[i] = float(x)
        t = torch.from_numpy(vals.reshape(a.shape).copy())
        return t.to(s.dtype) if f32 else t
    if s.dtype == torch.bool:
        return torch.tensor(np.array([bool(x) for x in a.flat], dtype=bool).reshape(a.shape))
    if not is_const(a):
        raise Unsupported("symbolic integer reaches an operation that is only modelled for constants")
    return torch.tensor(np.array([int(x) for x in a.flat], dtype=np.int64).reshape(a.shape)).to(s.dtype)


class _ConstEnv(dict):
    def __missing__(self, k):
        raise ValueError("symbolic")


def S(x):
    """Any tensor argument -> SymTensor."""
    if isinstance(x, SymTensor):
        return x
    if isinstance(x, torch.Tensor):
        return from_real(x)
    raise TypeError(type(x))


def arr(x):
    if isinstance(x, torch.Tensor):
        return S(x)._a
    return as0(tm.const(x))


def _meta(x):
    if isinstance(x, torch.Tensor):
        return torch.empty([1] * x.dim(), dtype=x.dtype, device="meta")
    return x


def rtype(*xs):
    xs = [_meta(x) for x in xs]
    d = None
    ts = [x for x in xs if isinstance(x, torch.Tensor)]
    if len(xs) == 1:
        return xs[0].dtype
    # torch.result_type is binary; combine respecting dimension categories
    cur = xs[0]
    for x in xs[1:]:
        d = torch.result_type(cur, x)
        nd = max(c.dim() if isinstance(c, torch.Tensor) else 0 for c in (cur, x))
        cur = torch.empty([1] * nd, dtype=d, device="meta")
    return d if d is not None else ts[0].dtype


def floaty(d):
    return d if d in FLOATS else torch.get_default_dtype()


def U(f, n=1):
    g = np.frompyfunc(f, n, 1)

    def call(*a):
        return as0(g(*a))

    return call


v_add, v_sub, v_mul, v_div = U(tm.add, 2), U(tm.sub, 2), U(tm.mul, 2), U(tm.div, 2)
v_lt, v_le, v_gt, v_ge, v_eq, v_ne = (U(f, 2) for f in (tm.lt, tm.le, tm.gt, tm.ge, tm.eq, tm.ne))
v_and, v_or, v_xor, v_not = U(tm.and_, 2), U(tm.or_, 2), U(tm.xor_b, 2), U(tm.not_)
v_ite = U(tm.ite, 3)
v_min, v_max = U(tm.tmin, 2), U(tm.tmax, 2)
v_real, v_trunc, v_bool = U(tm.to_real), U(tm.trunc_int), U(tm.as_bool)
v_b2i = U(tm.b2i)
v_sqrt = U(tm.sqrt)


def cast(a, src, dst):
    if dst == src:
        return a
    if dst in FLOATS:
        return v_real(a) if src not in FLOATS else a
    if dst == torch.bool:
        return v_bool(a)
    if src == torch.bool:
        return v_b2i(a)
    if src in FLOATS:
        return v_trunc(a)
    return a


def mk(a, dtype):
    return SymTensor(a, dtype)


OPS = {}


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f

    return deco


def fix_int(a, dtype):
    return a


# ---------------------------------------------------------------- element-wise


def binary(name, f, out=None):
    @op(name)
    def g(x, y, *rest, alpha=1, **kw):
        d = rtype(x, y)
        a, b = arr(x), arr(y)
        if alpha != 1:
            b = v_mul(b, as0(tm.const(alpha)))
        r = f(a, b)
        return mk(r, out or d)

    return g


def _add_any(x, y):
    return tm.add(x, y)


binary("add", v_add)
binary("sub", v_sub)
binary("mul", U(lambda x, y: tm.and_(x, y) if isinstance(x, bool) and isinstance(y, bool) else tm.mul(x, y), 2))
for _n, _f in (("lt", v_lt), ("le", v_le), ("gt", v_gt), ("ge", v_ge), ("eq", v_eq), ("ne", v_ne)):
    binary(_n, _f, torch.bool)
binary("logical_and", v_and, torch.bool)
binary("logical_or", v_or, torch.bool)
binary("logical_xor", v_xor, torch.bool)
binary("maximum", v_max)
binary("minimum", v_min)
binary("fmax", v_max)
binary("fmin", v_min)
binary("remainder", U(tm.mod_floor, 2))
binary("floor_divide", U(lambda a, b: tm.idiv_floor(a, b), 2))


@op("fmod")
def _fmod(x, y):
    f = lambda a, b: tm.sub(a, tm.mul(b, tm.trunc_int(tm.div(a, b))))
    return mk(U(f, 2)(arr(x), arr(y)), rtype(x, y))


@op("rsub")
def _rsub(x, y, alpha=1):
    return mk(v_sub(arr(y), v_mul(arr(x), as0(alpha))), rtype(x, y))


@op("div", "true_divide")
def _div(x, y, rounding_mode=None):
    d = rtype(x, y)
    a, b = arr(x), arr(y)
    if rounding_mode == "floor":
        return mk(U(tm.idiv_floor, 2)(a, b), d)
    r = v_div(a, b)
    if rounding_mode == "trunc":
        return mk(v_trunc(r), d)
    return mk(r, floaty(d))


@op("reciprocal")
def _recip(x):
    return mk(v_div(as0(1), arr(x)), floaty(x.dtype))


@op("pow")
def _pow(x, y):
    d = rtype(x, y)
    return mk(U(tm.power, 2)(arr(x), arr(y)), d)


@op("square")
def _square(x):
    return mk(U(lambda v: tm.mul(v, v))(arr(x)), x.dtype)


@op("bitwise_and", "__and__")
def _band(x, y):
    return mk(U(tm.bit_and, 2)(arr(x), arr(y)), rtype(x, y))


@op("bitwise_or", "__or__")
def _bor(x, y):
    return mk(U(tm.bit_or, 2)(arr(x), arr(y)), rtype(x, y))


@op("bitwise_xor", "__xor__")
def _bxor(x, y):
    return mk(U(tm.bit_xor, 2)(arr(x), arr(y)), rtype(x, y))


def wrap32(v):
    if not isinstance(v, T):
        return ((v + 2**31) & (2**32 - 1)) - 2**31
    return tm.sub(tm.bit_and(tm.add(v, 2**31), 2**32 - 1), 2**31)


@op("bitwise_left_shift", "__lshift__")
def _shl(x, y):
    d = rtype(x, y)
    r = U(tm.shl, 2)(arr(x), arr(y))
    if d == torch.int32:
        r = U(wrap32)(r)
    return mk(r, d)


@op("bitwise_right_shift", "__rshift__")
def _shr(x, y):
    return mk(U(tm.shr, 2)(arr(x), arr(y)), rtype(x, y))


@op("bitwise_not")
def _bnot(x):
    if x.dtype == torch.bool:
        return mk(v_not(arr(x)), torch.bool)
    return mk(U(lambda v: tm.sub(-1, v))(arr(x)), x.dtype)


@op("logical_not")
def _lnot(x):
    return mk(v_not(arr(x)), torch.bool)


def unary(name, f, fl=True):
    @op(name)
    def g(x, **kw):
        return mk(U(f)(arr(x)), floaty(x.dtype) if fl else x.dtype)

    return g


unary("neg", tm.neg, False)
unary("abs", tm.absv, False)
unary("sign", tm.sign, False)
unary("sgn", tm.sign, False)
unary("sqrt", tm.sqrt)
unary("rsqrt", lambda v: tm.div(1, tm.sqrt(v)))
unary("sin", tm.sin)
unary("cos", tm.cos)
unary("tan", lambda v: tm.div(tm.sin(v), tm.cos(v)))
unary("acos", tm.acos)
unary("arccos", tm.acos)
unary("asin", tm.asin)
unary("arcsin", tm.asin)
unary("atan", lambda v: tm.atan2(v, 1))
unary("tanh", tm.tanh)
unary("atanh", tm.atanh)
unary("sigmoid", tm.sigmoid)
unary("exp", tm.exp)
unary("log", tm.log)
unary("log1p", lambda v: tm.log(tm.add(1, v)))
unary("expm1", lambda v: tm.sub(tm.exp(v), 1))
unary("relu", lambda v: tm.tmax(v, 0), False)
unary("deg2rad", lambda v: tm.mul(v, tm.mul(Fraction(1, 180), tm.pi())))
unary("rad2deg", lambda v: tm.div(tm.mul(180, v), tm.pi()))
unary("floor", lambda v: tm.floor_real(v), False)
unary("ceil", lambda v: tm.neg(tm.floor_real(tm.neg(v))), False)
unary("trunc", lambda v: tm.trunc_int(v), False)


def _round(v):
    if not isinstance(v, T):
        return round(v) if not tm.special(v) else v
    f = tm.floor_real(v)
    d = tm.sub(v, f)
    h = Fraction(1, 2)
    return tm.ite(tm.lt(d, h), f, tm.ite(tm.gt(d, h), tm.add(f, 1), tm.ite(tm.eq(tm.mod_floor(f, 2), 0), f, tm.add(f, 1))))


unary("round", _round, False)


def _has(pred):
    def f(v):
        if not isinstance(v, T):
            return pred(float(v)) if tm.special(v) else pred(0.0)
        if v.op == "ite" and tm.has_special(v):
            return tm.ite(v.args[0], f(v.args[1]), f(v.args[2]))
        return pred(0.0)

    return f


@op("isfinite")
def _isfinite(x):
    return mk(U(_has(math.isfinite))(arr(x)), torch.bool)


@op("isnan")
def _isnan(x):
    return mk(U(_has(math.isnan))(arr(x)), torch.bool)


@op("isinf")
def _isinf(x):
    return mk(U(_has(math.isinf))(arr(x)), torch.bool)


@op("nan_to_num")
def _n2n(x, nan=None, posinf=None, neginf=None):
    return mk(arr(x), x.dtype)


@op("atan2", "arctan2")
def _atan2(y, x):
    return mk(U(tm.atan2, 2)(arr(y), arr(x)), floaty(rtype(y, x)))


@op("softplus")
def _softplus(x, beta=1, threshold=20):
    return mk(U(lambda v: tm.softplus(v, beta))(arr(x)), x.dtype)


@op("xlogy")
def _xlogy(x, y):
    def f(a, b):
        if not isinstance(a, T) and a == 0:
            return 0
        if not isinstance(a, T):
            return tm.mul(a, tm.log(b))
        if isinstance(b, T):
            sc, tm.Ctx.explorer = tm.Ctx.explorer, None
            try:
                lg = tm.log(b)
            finally:
                tm.Ctx.explorer = sc
            tm.side_condition(tm.or_(tm.eq(a, 0), tm.gt(b, 0)), "logarithm argument is positive")
        else:
            lg = tm.log(b)
        return tm.ite(tm.eq(a, 0), 0, tm.mul(a, lg))

    return mk(U(f, 2)(arr(x), arr(y)), floaty(rtype(x, y)))


@op("where")
def _where(c, x=None, y=None):
    if x is None:
        return tuple(OPS["nonzero"](c, as_tuple=True))
    return mk(v_ite(arr(c), arr(x), arr(y)), rtype(x, y))


@op("clamp", "clip")
def _clamp(x, min=None, max=None):
    r = arr(x)
    d = x.dtype
    if min is not None:
        r = v_max(r, arr(min))
        d = rtype(x, min)
    if max is not None:
        r = v_min(r, arr(max))
        d = rtype(x, max) if min is None else d
    return mk(r, d)


@op("clamp_min")
def _clamp_min(x, min):
    return mk(v_max(arr(x), arr(min)), rtype(x, min))


@op("clamp_max")
def _clamp_max(x, max):
    return mk(v_min(arr(x), arr(max)), rtype(x, max))


@op("lerp")
def _lerp(a, b, w):
    return mk(v_add(arr(a), v_mul(arr(w), v_sub(arr(b), arr(a)))), rtype(a, b))


@op("addcmul")
def _addcmul(x, a, b, value=1):
    return mk(v_add(arr(x), v_mul(as0(tm.const(value)), v_mul(arr(a), arr(b)))), rtype(x, a, b))


@op("addcdiv")
def _addcdiv(x, a, b, value=1):
    return mk(v_add(arr(x), v_mul(as0(tm.const(value)), v_div(arr(a), arr(b)))), rtype(x, a, b))


@op("replication_pad1d", "replication_pad2d", "replication_pad3d")
def _replication_pad(x, padding):
    a = arr(x)
    w = [(0, 0)] * (a.ndim - len(padding) // 2) + [(padding[2 * i], padding[2 * i + 1]) for i in reversed(range(len(padding) // 2))]
    return mk(np.pad(a, w, mode="edge"), x.dtype)


@op("mse_loss")
def _mse_loss(x, y, reduction=1):
    d = v_sub(arr(x), arr(y))
    r = mk(v_mul(d, d), rtype(x, y))
    return r if reduction == 0 else OPS["mean"](r) if reduction == 1 else OPS["sum"](r)


@op("_to_copy")
def _to_copy(x, dtype=None, **kw):
    d = dtype or x.dtype
    return mk(cast(arr(x), x.dtype, d).copy(), d)


@op("clone", "lift_fresh_copy", "contiguous")
def _clone(x, **kw):
    return mk(arr(x).copy(), x.dtype)


@op("detach", "alias", "lift_fresh", "lift", "_conj", "resolve_conj", "resolve_neg", "view_as_real", "positive")
def _same(x, *a, **k):
    return mk(arr(x), x.dtype)


# ---------------------------------------------------------------- reductions


def _dims(dim, nd):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return tuple(range(nd))
    if isinstance(dim, int):
        dim = (dim,)
    return tuple(sorted(d % nd if nd else 0 for d in dim))


def reduce_arr(a, dims, f, init, keepdim):
    nd = a.ndim
    if nd == 0:
        return as0(f(init, a[()]) if init is not None else a[()])
    keep = [i for i in range(nd) if i not in dims]
    b = a.transpose(keep + list(dims))
    shp = [a.shape[i] for i in keep]
    n = int(np.prod([a.shape[i] for i in dims])) if dims else 1
    b = b.reshape(shp + [n])
    out = obj(tuple(shp))
    for ix in np.ndindex(*shp):
        row = b[ix]
        acc = init
        for x in row:
            acc = x if acc is None else f(acc, x)
        out[ix] = acc
    if keepdim:
        out = out.reshape([1 if i in dims else a.shape[i] for i in range(nd)])
    return as0(out)


@op("sum")
def _sum(x, dim=None, keepdim=False, dtype=None):
    d = dtype or (x.dtype if x.dtype in FLOATS else torch.int64)
    return mk(reduce_arr(arr(x), _dims(dim, x.dim()), tm.add, 0, keepdim), d)


@op("nansum")
def _nansum(x, dim=None, keepdim=False, dtype=None):
    return _sum(x, dim, keepdim, dtype)


@op("mean")
def _mean(x, dim=None, keepdim=False, dtype=None):
    dims = _dims(dim, x.dim())
    n = int(np.prod([x.shape[i] for i in dims])) if x.dim() else 1
    r = reduce_arr(arr(x), dims, tm.add, 0, keepdim)
    return mk(v_div(r, as0(n)), dtype or x.dtype)


@op("prod")
def _prod(x, dim=None, keepdim=False, dtype=None):
    d = dtype or (x.dtype if x.dtype in FLOATS else torch.int64)
    return mk(reduce_arr(arr(x), _dims(dim, x.dim()), tm.mul, 1, keepdim), d)


@op("amax")
def _amax(x, dim=None, keepdim=False):
    return mk(reduce_arr(arr(x), _dims(dim, x.dim()), tm.tmax, None, keepdim), x.dtype)


@op("amin")
def _amin(x, dim=None, keepdim=False):
    return mk(reduce_arr(arr(x), _dims(dim, x.dim()), tm.tmin, None, keepdim), x.dtype)


@op("any")
def _any(x, dim=None, keepdim=False):
    return mk(reduce_arr(v_bool(arr(x)), _dims(dim, x.dim()), tm.or_, False, keepdim), torch.bool)


@op("all")
def _all(x, dim=None, keepdim=False):
    return mk(reduce_arr(v_bool(arr(x)), _dims(dim, x.dim()), tm.and_, True, keepdim), torch.bool)


@op("count_nonzero")
def _cnz(x, dim=None):
    return mk(reduce_arr(v_b2i(v_bool(arr(x))), _dims(dim, x.dim()), tm.add, 0, False), torch.int64)


def _arg(a, better):
    """(value, index) of a 1-d row."""
    val, idx = a[0], 0
    for i in range(1, len(a)):
        c = better(a[i], val)
        val = tm.ite(c, a[i], val)
        idx = tm.ite(c, i, idx)
    return val, idx


def _minmax(x, dim, keepdim, better):
    a = arr(x)
    if dim is None:
        v, i = _arg(a.reshape(-1), better)
        return as0(v), as0(i)
    nd = a.ndim
    if nd == 0:
        return a, as0(0)
    b = np.moveaxis(a, dim, -1)
    vals, idxs = obj(b.shape[:-1]), obj(b.shape[:-1])
    for ix in np.ndindex(*b.shape[:-1]):
        v, i = _arg(b[ix], better)
        vals[ix] = v
        idxs[ix] = i
    if keepdim:
        vals, idxs = np.expand_dims(vals, dim), np.expand_dims(idxs, dim)
    return as0(vals), as0(idxs)


@op("max")
def _max(x, dim=None, keepdim=False):
    if dim is None:
        return mk(reduce_arr(arr(x), _dims(None, x.dim()), tm.tmax, None, False), x.dtype)
    if isinstance(dim, torch.Tensor):
        return OPS["maximum"](x, dim)
    v, i = _minmax(x, dim, keepdim, tm.gt)
    return mk(v, x.dtype), mk(i, torch.int64)


@op("min")
def _min(x, dim=None, keepdim=False):
    if dim is None:
        return mk(reduce_arr(arr(x), _dims(None, x.dim()), tm.tmin, None, False), x.dtype)
    if isinstance(dim, torch.Tensor):
        return OPS["minimum"](x, dim)
    v, i = _minmax(x, dim, keepdim, tm.lt)
    return mk(v, x.dtype), mk(i, torch.int64)


@op("median", "nanmedian")
def _median(x, dim=None, keepdim=False):
    a = arr(x)
    b = a.reshape(1, -1) if dim is None or a.ndim == 0 else np.moveaxis(a, dim, -1)
    vals, idxs = obj(b.shape[:-1]), obj(b.shape[:-1])
    for ix in np.ndindex(*b.shape[:-1]):
        v = list(b[ix])
        for i in range(len(v)):
            for j in range(len(v) - 1 - i):
                v[j], v[j + 1] = tm.tmin(v[j], v[j + 1]), tm.tmax(v[j], v[j + 1])
        m = v[(len(v) - 1) // 2]
        k = 0
        for j in reversed(range(len(v))):
            k = tm.ite(tm.eq(b[ix + (j,)], m), j, k)
        vals[ix], idxs[ix] = m, k
    if dim is None:
        return mk(vals.reshape(()), x.dtype)
    if a.ndim == 0:
        return mk(vals.reshape(()), x.dtype), mk(idxs.reshape(()), torch.int64)
    if keepdim:
        vals, idxs = np.expand_dims(vals, dim), np.expand_dims(idxs, dim)
    return mk(vals, x.dtype), mk(idxs, torch.int64)


@op("aminmax")
def _aminmax(x, dim=None, keepdim=False):
    return _amin(x, dim, keepdim), _amax(x, dim, keepdim)


@op("argmax")
def _argmax(x, dim=None, keepdim=False):
    return mk(_minmax(x, dim, keepdim, tm.gt)[1], torch.int64)


@op("argmin")
def _argmin(x, dim=None, keepdim=False):
    return mk(_minmax(x, dim, keepdim, tm.lt)[1], torch.int64)


@op("cumsum")
def _cumsum(x, dim, dtype=None):
    a = np.moveaxis(arr(x).copy(), dim, 0)
    for i in range(1, a.shape[0]):
        a[i] = v_add(as0(a[i - 1]), as0(a[i]))
    return mk(np.moveaxis(a, 0, dim), dtype or (x.dtype if x.dtype in FLOATS else torch.int64))


@op("linalg_vector_norm", "norm")
def _vnorm(x, ord=2, dim=None, keepdim=False, dtype=None):
    dims = _dims(dim, x.dim())
    a = arr(x)
    if ord is None:
        ord = 2
    if ord == 2:
        r = v_sqrt(reduce_arr(U(lambda v: tm.mul(v, v))(a), dims, tm.add, 0, keepdim))
    elif ord == 1:
        r = reduce_arr(U(tm.absv)(a), dims, tm.add, 0, keepdim)
    elif ord == float("inf"):
        r = reduce_arr(U(tm.absv)(a), dims, tm.tmax, None, keepdim)
    else:
        raise Unsupported(f"norm of order {ord}")
    return mk(r, x.dtype)


# ---------------------------------------------------------------- linear algebra


def matmul_arr(a, b):
    """Last-two-dims product of equal-batch arrays."""
    n, k = a.shape[-2:]
    m = b.shape[-1]
    batch = a.shape[:-2]
    out = obj(batch + (n, m))
    for ix in np.ndindex(*batch):
        A, B = a[ix], b[ix]
        for i in range(n):
            for j in range(m):
                acc = 0
                for q in range(k):
                    x, y = A[i, q], B[q, j]
                    if (not isinstance(x, T) and x == 0) or (not isinstance(y, T) and y == 0):
                        continue
                    acc = tm.add(acc, tm.mul(x, y))
                out[ix + (i, j)] = acc
    return out


@op("mm", "bmm")
def _mm(x, y):
    return mk(matmul_arr(arr(x), arr(y)), rtype(x, y))


@op("mv")
def _mv(x, y):
    return mk(matmul_arr(arr(x), arr(y)[:, None])[:, 0], rtype(x, y))


@op("dot", "vdot")
def _dot(x, y):
    return mk(as0(matmul_arr(arr(x)[None, :], arr(y)[:, None])[0, 0]), rtype(x, y))


@op("addmm", "baddbmm", "addmv")
def _addmm(c, x, y, beta=1, alpha=1):
    b = arr(y)
    r = matmul_arr(arr(x), b if b.ndim > 1 else b[:, None])
    if b.ndim == 1:
        r = r[:, 0]
    return mk(v_add(v_mul(as0(tm.const(beta)), arr(c)), v_mul(as0(tm.const(alpha)), r)), rtype(x, y))


@op("linalg_cross", "cross")
def _cross(x, y, dim=-1):
    a, b = np.broadcast_arrays(arr(x), arr(y))
    if dim is None:
        dim = [i for i, s in enumerate(a.shape) if s == 3][0]
    a, b = np.moveaxis(a, dim, -1), np.moveaxis(b, dim, -1)
    out = obj(a.shape)
    for i, (j, k) in enumerate(((1, 2), (2, 0), (0, 1))):
        out[..., i] = v_sub(v_mul(as0(a[..., j]), as0(b[..., k])), v_mul(as0(a[..., k]), as0(b[..., j])))
    return mk(np.moveaxis(out, -1, dim), rtype(x, y))


# ---------------------------------------------------------------- shapes


def _shape(size, numel=None):
    size = [int(s) for s in size]
    if -1 in size and numel is not None:
        k = size.index(-1)
        rest = int(np.prod([s for s in size if s != -1]))
        size[k] = numel // rest if rest else 0
    return tuple(size)


@op("view", "_unsafe_view", "reshape", "_reshape_alias", "view_copy")
def _view(x, size, *rest, **kw):
    if isinstance(size, torch.dtype):
        raise Unsupported("view as dtype")
    a = arr(x)
    return mk(a.reshape(_shape(size, a.size)), x.dtype)


@op("expand", "expand_copy")
def _expand(x, size, implicit=False):
    a = arr(x)
    size = list(size)
    off = len(size) - a.ndim
    shp = [a.shape[i - off] if s == -1 else s for i, s in enumerate(size)]
    b = np.broadcast_to(a, shp)
    try:
        b.flags.writeable = True
    except ValueError:
        pass
    return mk(b, x.dtype)


@op("permute")
def _permute(x, dims):
    return mk(arr(x).transpose([d % x.dim() for d in dims]), x.dtype)


@op("transpose", "swapaxes", "transpose_copy")
def _transpose(x, a, b):
    return mk(np.swapaxes(arr(x), a, b) if x.dim() else arr(x), x.dtype)


@op("t", "numpy_T", "mT")
def _t(x):
    return mk(arr(x).T, x.dtype)


@op("squeeze")
def _squeeze(x, dim=None):
    a = arr(x)
    if dim is None:
        dims = tuple(i for i, s in enumerate(a.shape) if s == 1)
    else:
        dims = (dim,) if isinstance(dim, int) else dim
        dims = tuple(d % a.ndim for d in dims if a.ndim and a.shape[d] == 1)
    return mk(a.reshape([s for i, s in enumerate(a.shape) if i not in dims]), x.dtype)


@op("unsqueeze")
def _unsqueeze(x, dim):
    a = arr(x)
    return mk(np.expand_dims(a, dim if dim >= 0 else dim + a.ndim + 1), x.dtype)


@op("select", "select_copy")
def _select(x, dim, index):
    a = arr(x)
    dim %= a.ndim
    index = int(index)
    if not -a.shape[dim] <= index < a.shape[dim]:
        raise IndexError(f"select(): index {index} out of range for tensor of size {list(a.shape)} at dimension {dim}")
    return mk(as0(a[(slice(None),) * dim + (index, Ellipsis)]), x.dtype)


@op("slice", "slice_copy")
def _slice(x, dim=0, start=None, end=None, step=1):
    a = arr(x)
    dim %= a.ndim
    return mk(a[(slice(None),) * dim + (slice(start, end, step),)], x.dtype)


@op("slice_scatter")
def _slice_scatter(x, src, dim=0, start=None, end=None, step=1):
    a = arr(x).copy()
    a[(slice(None),) * (dim % a.ndim) + (slice(start, end, step),)] = arr(src)
    return mk(a, x.dtype)


@op("select_scatter")
def _select_scatter(x, src, dim, index):
    a = arr(x).copy()
    a[(slice(None),) * (dim % a.ndim) + (index,)] = arr(src)
    return mk(a, x.dtype)


@op("narrow")
def _narrow(x, dim, start, length):
    return _slice(x, dim, int(start), int(start) + int(length))


@op("cat", "concat", "concatenate")
def _cat(ts, dim=0):
    ts = [t for t in ts]
    d = rtype(*ts)
    arrs = [cast(arr(t), t.dtype, d) for t in ts if not (t.dim() == 1 and t.shape[0] == 0)]
    if not arrs:
        return mk(arr(ts[0]).copy(), d)
    return mk(np.concatenate(arrs, axis=dim), d)


@op("stack")
def _stack(ts, dim=0):
    d = rtype(*ts)
    for t in ts[1:]:
        if t.shape != ts[0].shape:
            raise RuntimeError("stack expects each tensor to be equal size")
    return mk(np.stack([cast(arr(t), t.dtype, d) for t in ts], axis=dim), d)


@op("split", "split_with_sizes", "split_copy")
def _split(x, size, dim=0):
    n = x.shape[dim]
    sizes = size if isinstance(size, (list, tuple)) else [size] * (n // size) + ([n % size] if n % size else [])
    out, k = [], 0
    for s in sizes:
        out.append(_slice(x, dim, k, k + s))
        k += s
    return tuple(out)


@op("chunk")
def _chunk(x, chunks, dim=0):
    n = x.shape[dim]
    return _split(x, -(-n // chunks), dim)


@op("unbind", "unbind_copy")
def _unbind(x, dim=0):
    return tuple(_select(x, dim, i) for i in range(x.shape[dim]))


@op("repeat")
def _repeat(x, reps):
    a = arr(x)
    reps = [int(r) for r in reps]
    a = a.reshape((1,) * (len(reps) - a.ndim) + a.shape)
    return mk(np.tile(a, reps), x.dtype)


@op("flip")
def _flip(x, dims):
    return mk(np.flip(arr(x), tuple(dims)).copy(), x.dtype)


@op("roll")
def _roll(x, shifts, dims=()):
    return mk(np.roll(arr(x), tuple(shifts) if dims else shifts[0], tuple(dims) if dims else None), x.dtype)


@op("diagonal", "diagonal_copy")
def _diagonal(x, offset=0, dim1=0, dim2=1):
    a = arr(x)
    v = np.diagonal(a, offset, dim1, dim2)
    try:
        v.flags.writeable = True
    except ValueError:
        pass
    return mk(v, x.dtype)


@op("unfold")
def _unfold(x, dimension, size, step):
    a = arr(x)
    n = (a.shape[dimension] - size) // step + 1
    parts = [np.moveaxis(np.take(a, range(i * step, i * step + size), axis=dimension), dimension, -1) for i in range(n)]
    return mk(np.stack(parts, axis=dimension), x.dtype)


@op("tril", "triu")
def _tri(x, diagonal=0, _up=False):
    raise Unsupported("tril/triu")


# ---------------------------------------------------------------- indexing


def decide_mask(m):
    ex = _ex()
    out = np.empty(m.shape, dtype=bool)
    for ix in np.ndindex(*m.shape):
        v = m[ix]
        out[ix] = ex.decide(tm.as_bool(v)) if isinstance(v, T) else bool(v)
    return out


def prep_indices(x, idxs):
    """Expand bool masks into integer index arrays; returns list of (None | object/int array)."""
    out = []
    for t in idxs:
        if t is None:
            out.append(None)
            continue
        if t.dtype in (torch.bool, torch.uint8):
            m = arr(t)
            k = len(out)
            if tuple(m.shape) != tuple(x.shape[k : k + m.ndim]):
                raise IndexError(f"The shape of the mask {list(m.shape)} at index 0 does not match the shape of the indexed tensor {list(x.shape)} at index 0")
            nz = np.nonzero(decide_mask(m))
            for q in nz:
                out.append(q.astype(object))
        else:
            out.append(arr(t))
    while len(out) < x.dim():
        out.append(None)
    return out


def check_bounds(ix, n, dim):
    """Const index -> int with bounds check; symbolic -> term normalised to [0, n)."""
    if not isinstance(ix, T):
        ix = int(ix)
        if not -n <= ix < n:
            raise IndexError(f"index {ix} is out of bounds for dimension {dim} with size {n}")
        return ix % n
    ex = _ex()
    ok = tm.and_(tm.ge(ix, -n), tm.lt(ix, n))
    if isinstance(ok, T) and not ex.decide(ok):
        raise IndexError(f"symbolic index is out of bounds for dimension {dim} with size {n}")
    if ok is False:
        raise IndexError("index out of bounds")
    if ex.implied(tm.ge(ix, 0)):
        return ix
    return tm.ite(tm.lt(ix, 0), tm.add(ix, n), ix)


_MAX_SYM_INDEX = 4096


def sym_lookup(getter, idx, sizes):
    """ITE chain over the symbolic positions of idx; getter takes a concrete tuple."""
    for k, i in enumerate(idx):
        if isinstance(i, T):
            cands = [v for v in range(sizes[k]) if tm.eq(i, v) is not False]
            # constant-leaf ITE indices: distribute
            if i.op == "ite":
                return tm_ite_arr(i.args[0], sym_lookup(getter, idx[:k] + (i.args[1],) + idx[k + 1 :], sizes), sym_lookup(getter, idx[:k] + (i.args[2],) + idx[k + 1 :], sizes))
            ex = _ex()
            if len(cands) > 3:
                cands = [v for v in cands if ex.maybe(tm.eq(i, v))] or cands
            r = sym_lookup(getter, idx[:k] + (cands[-1],) + idx[k + 1 :], sizes)
            for v in reversed(cands[:-1]):
                r = tm_ite_arr(tm.eq(i, v), sym_lookup(getter, idx[:k] + (v,) + idx[k + 1 :], sizes), r)
            return r
    # a constant leaf of an ITE index outside the range sits on a branch the bounds check excluded
    return getter(tuple(min(max(int(i), 0), n - 1) if not isinstance(i, slice) else i for i, n in zip(idx, sizes)))


def tm_ite_arr(c, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return v_ite(as0(c), as0(a), as0(b))
    return tm.ite(c, a, b)


@op("index", "_unsafe_index")
def _index(x, idxs):
    a = arr(x)
    idx = prep_indices(x, idxs)
    pos = [k for k, i in enumerate(idx) if i is not None]
    if not pos:
        return mk(a, x.dtype)
    bshape = np.broadcast_shapes(*[idx[k].shape for k in pos])
    bidx = {k: np.broadcast_to(idx[k], bshape) for k in pos}
    conc = all(is_const(bidx[k]) for k in pos)
    if conc:
        tup = []
        for k, i in enumerate(idx):
            if i is None:
                tup.append(slice(None))
            else:
                n = a.shape[k]
                for v in bidx[k].flat:
                    if not -n <= int(v) < n:
                        raise IndexError(f"index {v} is out of bounds for dimension {k} with size {n}")
                tup.append(bidx[k].astype(np.int64))
        return mk(as0(a[tuple(tup)]).copy(), x.dtype)
    # move indexed dims to the front, then loop
    rest = [k for k in range(a.ndim) if k not in pos]
    b = a.transpose(pos + rest)
    sizes = [a.shape[k] for k in pos]
    out = obj(bshape + tuple(a.shape[k] for k in rest))
    for ix in np.ndindex(*bshape):
        cur = tuple(check_bounds(bidx[k][ix], a.shape[k], k) for k in pos)
        if any(isinstance(c, T) for c in cur):
            out[ix] = sym_lookup(lambda t: b[t], cur, sizes)
        else:
            out[ix] = b[cur]
    contiguous = pos == list(range(pos[0], pos[0] + len(pos)))
    if contiguous and pos[0] != 0:
        nb = len(bshape)
        out = np.moveaxis(out, list(range(nb)), list(range(pos[0], pos[0] + nb)))
    return mk(out, x.dtype)


def _index_put_arr(a, idx, val, accumulate):
    pos = [k for k, i in enumerate(idx) if i is not None]
    bshape = np.broadcast_shapes(*[idx[k].shape for k in pos]) if pos else ()
    bidx = {k: np.broadcast_to(idx[k], bshape) for k in pos}
    rest = [k for k in range(a.ndim) if k not in pos]
    contiguous = pos == list(range(pos[0], pos[0] + len(pos))) if pos else True
    nb = len(bshape)
    restshape = tuple(a.shape[k] for k in rest)
    if contiguous and pos and pos[0] != 0:
        tgt = restshape[: pos[0]] + bshape + restshape[pos[0] :]
        v = np.broadcast_to(val, tgt)
        v = np.moveaxis(v, list(range(pos[0], pos[0] + nb)), list(range(nb)))
    else:
        v = np.broadcast_to(val, bshape + restshape)
    b = a.transpose(pos + rest)  # view
    sizes = [a.shape[k] for k in pos]
    for ix in np.ndindex(*bshape):
        cur = tuple(check_bounds(bidx[k][ix], a.shape[k], k) for k in pos)
        vv = v[ix]
        if not any(isinstance(c, T) for c in cur):
            if accumulate:
                b[cur] = v_add(as0(b[cur]), as0(vv)) if isinstance(b[cur], np.ndarray) else tm.add(b[cur], vv)
            else:
                b[cur] = vv
            continue
        ranges = [range(s) if isinstance(c, T) else (c,) for c, s in zip(cur, sizes)]
        for cell in itertools.product(*ranges):
            cond = tm.conj(tm.eq(c, q) for c, q in zip(cur, cell) if isinstance(c, T))
            if cond is False:
                continue
            old = b[cell]
            new = vv if not accumulate else (v_add(as0(old), as0(vv)) if isinstance(old, np.ndarray) else tm.add(old, vv))
            b[cell] = tm_ite_arr(cond, new, old)


@op("index_put_", "_index_put_impl_")
def _index_put_(x, idxs, values, accumulate=False, unsafe=False):
    s = S(x)
    idx = prep_indices(x, idxs)
    if all(i is None for i in idx):
        s._a[...] = arr(values)
        return x
    v = cast(arr(values), values.dtype, x.dtype)
    nsel = [i for i in idx if i is not None]
    # shape check as torch would do
    pos = [k for k, i in enumerate(idx) if i is not None]
    _index_put_arr(s._a, idx, v, accumulate)
    return x


@op("index_put", "_unsafe_index_put")
def _index_put(x, idxs, values, accumulate=False):
    r = _clone(x)
    _index_put_(r, idxs, values, accumulate)
    return r


@op("index_select")
def _index_select(x, dim, index):
    idxs = [None] * (dim % max(1, x.dim())) + [index]
    return _index(x, idxs)


@op("gather")
def _gather(x, dim, index, sparse_grad=False):
    a, ix = arr(x), arr(index)
    out = obj(ix.shape)
    dim %= a.ndim
    for p in np.ndindex(*ix.shape):
        i = check_bounds(ix[p], a.shape[dim], dim)
        row = a[p[:dim] + (slice(None),) + p[dim + 1 :]]
        out[p] = sym_lookup(lambda t: row[t], (i,), [a.shape[dim]]) if isinstance(i, T) else row[i]
    return mk(out, x.dtype)


def _scatter_into(a, dim, ix, src, add):
    dim %= a.ndim
    src = np.broadcast_to(src, ix.shape) if src.ndim == 0 else src
    for p in np.ndindex(*ix.shape):
        i = check_bounds(ix[p], a.shape[dim], dim)
        v = src[p]
        if not isinstance(v, T) and v == 0 and add:
            continue
        if not isinstance(i, T):
            q = p[:dim] + (i,) + p[dim + 1 :]
            a[q] = tm.add(a[q], v) if add else v
            continue
        for k in range(a.shape[dim]):
            c = tm.eq(i, k)
            if c is False:
                continue
            q = p[:dim] + (k,) + p[dim + 1 :]
            a[q] = tm.add(a[q], tm.ite(c, v, 0)) if add else tm.ite(c, v, a[q])


@op("scatter_add")
def _scatter_add(x, dim, index, src):
    r = arr(x).copy()
    _scatter_into(r, dim, arr(index), arr(src), True)
    return mk(r, x.dtype)


@op("scatter", "scatter_reduce")
def _scatter(x, dim, index, src, reduce=None, include_self=True):
    r = arr(x).copy()
    if reduce not in (None, "add", "sum"):
        raise Unsupported("scatter reduce")
    _scatter_into(r, dim, arr(index), arr(src) if isinstance(src, torch.Tensor) else as0(tm.const(src)), reduce is not None)
    return mk(r, x.dtype)


@op("index_add")
def _index_add(x, dim, index, src, alpha=1):
    a = arr(x).copy()
    b = np.moveaxis(a, dim, 0)
    s = np.moveaxis(arr(src), dim, 0)
    ii = arr(index)
    for k in range(ii.size):
        i = check_bounds(ii.reshape(-1)[k], b.shape[0], dim)
        v = v_mul(as0(tm.const(alpha)), as0(s[k]))
        if not isinstance(i, T):
            b[i] = v_add(as0(b[i]), v)
        else:
            for q in range(b.shape[0]):
                b[q] = v_add(as0(b[q]), v_ite(as0(tm.eq(i, q)), v, as0(0)))
    return mk(a, x.dtype)


@op("index_copy")
def _index_copy(x, dim, index, src):
    idxs = [None] * dim + [index]
    r = _clone(x)
    _index_put_(r, idxs, src)
    return r


@op("masked_fill")
def _masked_fill(x, mask, value):
    return mk(v_ite(arr(mask), cast(arr(value), value.dtype if isinstance(value, torch.Tensor) else x.dtype, x.dtype), arr(x)), x.dtype)


@op("masked_select")
def _masked_select(x, mask):
    a, m = np.broadcast_arrays(arr(x), arr(mask))
    return mk(a[decide_mask(m)], x.dtype)


@op("masked_scatter")
def _masked_scatter(x, mask, src):
    a = arr(x).copy()
    m = decide_mask(np.broadcast_to(arr(mask), a.shape))
    a[m] = arr(src).reshape(-1)[: int(m.sum())]
    return mk(a, x.dtype)


@op("nonzero")
def _nonzero(x, as_tuple=False):
    m = decide_mask(v_bool(arr(x)))
    if as_tuple:
        return tuple(mk(q.astype(object), torch.int64) for q in np.nonzero(m))
    return mk(np.argwhere(m).astype(object).reshape(-1, x.dim()), torch.int64)


@op("repeat_interleave")
def _repeat_interleave(x, repeats=None, dim=None, output_size=None):
    if repeats is None:
        reps = arr(x)
        reps = [int(_ex().choose_int(r)) if isinstance(r, T) else int(r) for r in reps.flat]
        return mk(np.array([i for i, r in enumerate(reps) for _ in range(r)], dtype=object), torch.int64)
    a = arr(x)
    if isinstance(repeats, torch.Tensor):
        r = [int(_ex().choose_int(v)) if isinstance(v, T) else int(v) for v in arr(repeats).flat]
        if len(r) == 1:
            r = r[0]
    else:
        r = int(repeats)
    if dim is None:
        return mk(np.repeat(a.reshape(-1), r), x.dtype)
    return mk(np.repeat(a, r, axis=dim), x.dtype)


def _sort_perm(row, desc, stable=True):
    ex = _ex()
    idx = list(range(len(row)))
    out = []
    for i in idx:
        k = len(out)
        while k > 0:
            j = out[k - 1]
            c = tm.lt(row[i], row[j]) if not desc else tm.gt(row[i], row[j])
            if not (ex.decide(c) if isinstance(c, T) else c):
                break
            k -= 1
        out.insert(k, i)
    return out


@op("sort")
def _sort(x, dim=-1, descending=False, stable=True):
    if isinstance(dim, bool):
        stable, dim = dim, -1
    a = arr(x)
    b = np.moveaxis(a, dim, -1)
    v, ii = obj(b.shape), obj(b.shape)
    for ix in np.ndindex(*b.shape[:-1]):
        p = _sort_perm(b[ix], descending)
        for k, q in enumerate(p):
            v[ix + (k,)] = b[ix][q]
            ii[ix + (k,)] = q
    return mk(np.moveaxis(v, -1, dim), x.dtype), mk(np.moveaxis(ii, -1, dim), torch.int64)


@op("argsort")
def _argsort(x, dim=-1, descending=False, stable=True):
    return _sort(x, dim, descending)[1]


@op("topk")
def _topk(x, k, dim=-1, largest=True, sorted=True):
    v, i = _sort(x, dim, largest)
    return _slice(v, dim, 0, k), _slice(i, dim, 0, k)


# ---------------------------------------------------------------- factories


def _fdtype(dtype, default=None):
    return dtype or default or torch.get_default_dtype()


@op("empty", "zeros", "new_empty_dummy", "empty_permuted", "empty_strided")
def _zeros(size, *a, dtype=None, **kw):
    return mk(obj(_shape(size)), _fdtype(dtype))


class Garbage:
    on = True


@op("empty")
def _empty(size, *a, dtype=None, **kw):
    d = _fdtype(dtype)
    r = obj(_shape(size))
    ex = _ex()
    for ix in np.ndindex(*r.shape):
        r[ix] = ex.fresh("uninit", tm.BOOL if d == torch.bool else (tm.REAL if d in FLOATS else tm.INT))
    return mk(r, d)


@op("ones")
def _ones(size, dtype=None, **kw):
    return mk(obj(_shape(size), 1 if dtype != torch.bool else True), _fdtype(dtype))


@op("full")
def _full(size, fill_value, dtype=None, **kw):
    v = arr(fill_value)[()] if isinstance(fill_value, torch.Tensor) else tm.const(fill_value)
    if dtype is None:
        if isinstance(fill_value, torch.Tensor):
            dtype = fill_value.dtype
        else:
            dtype = torch.bool if isinstance(fill_value, bool) else (torch.int64 if isinstance(fill_value, int) else torch.get_default_dtype())
    return mk(obj(_shape(size), v), dtype)


@op("zeros_like")
def _zeros_like(x, dtype=None, **kw):
    d = dtype or x.dtype
    return mk(obj(tuple(x.shape), False if d == torch.bool else 0), d)


@op("empty_like")
def _empty_like(x, dtype=None, **kw):
    return _empty(x.shape, dtype=dtype or x.dtype)


@op("ones_like")
def _ones_like(x, dtype=None, **kw):
    d = dtype or x.dtype
    return mk(obj(tuple(x.shape), True if d == torch.bool else 1), d)


@op("full_like")
def _full_like(x, v, dtype=None, **kw):
    d = dtype or x.dtype
    v = arr(v)[()] if isinstance(v, torch.Tensor) else tm.const(v)
    return mk(obj(tuple(x.shape), v), d)


@op("new_zeros")
def _new_zeros(x, size, dtype=None, **kw):
    return _zeros(size, dtype=dtype or x.dtype)


@op("new_ones")
def _new_ones(x, size, dtype=None, **kw):
    return _ones(size, dtype=dtype or x.dtype)


@op("new_empty")
def _new_empty(x, size, dtype=None, **kw):
    return _empty(size, dtype=dtype or x.dtype)


@op("new_full")
def _new_full(x, size, v, dtype=None, **kw):
    return _full(size, v, dtype=dtype or x.dtype)


@op("scalar_tensor")
def _scalar_tensor(v, dtype=None, **kw):
    return _full((), v, dtype=dtype or torch.get_default_dtype())


@op("arange")
def _arange(start, end=None, step=1, dtype=None, **kw):
    if end is None:
        start, end = 0, start
    isint = all(isinstance(v, int) or (isinstance(v, torch.Tensor) and v.dtype in INTS) for v in (start, end, step))
    g = lambda v: (int(v) if isinstance(v, torch.Tensor) else v)
    start, end, step = (tm.const(g(v)) for v in (start, end, step))
    n = max(0, math.ceil(Fraction(end - start) / Fraction(step)))
    vals = [tm._norm_c(start + i * step) for i in range(n)]
    a = obj((n,))
    for i, v in enumerate(vals):
        a[i] = v
    return mk(a, dtype or (torch.int64 if isint else torch.get_default_dtype()))


@op("linspace")
def _linspace(start, end, steps, dtype=None, **kw):
    s, e = (arr(v)[()] for v in (start, end))
    n = int(steps)
    a = obj((n,))
    for i in range(n):
        a[i] = s if i == 0 else (e if i == n - 1 else tm.add(s, tm.mul(tm.sub(e, s), Fraction(i, n - 1))))
    return mk(a, _fdtype(dtype))


@op("eye")
def _eye(n, m=None, dtype=None, **kw):
    a = obj((n, m if isinstance(m, int) else n))
    for i in range(min(a.shape)):
        a[i, i] = 1
    return mk(a, _fdtype(dtype))


class RNG:
    seed = ("default",)
    count = 0


def rng_fresh(shape, kind, sort=tm.REAL):
    a = obj(tuple(shape))
    ex = _ex()
    for ix in np.ndindex(*a.shape):
        a[ix] = ex.named(f"rng_{kind}_{RNG.seed}_{RNG.count}", sort)
        RNG.count += 1
    return a


@op("randn", "rand")
def _randn(size, dtype=None, **kw):
    return mk(rng_fresh(_shape(size), "r"), _fdtype(dtype))


@op("randn_like", "rand_like")
def _randn_like(x, **kw):
    return mk(rng_fresh(x.shape, "r"), x.dtype)


@op("normal_", "uniform_", "exponential_", "random_")
def _normal_(x, *a, **kw):
    if x.shape == () and x.dtype == torch.int64:
        S(x)._a[...] = 12345  # the seed a data loader draws for its workers; nothing depends on it
        return x
    S(x)._a[...] = rng_fresh(x.shape, "r")
    return x


@op("normal")
def _normal(mean, std=1, size=None, **kw):
    if size is not None:
        z = rng_fresh(_shape(size), "n")
        return mk(z, kw.get("dtype") or torch.get_default_dtype())
    m, s = arr(mean), arr(std)
    shp = np.broadcast_shapes(m.shape, s.shape)
    return mk(v_add(m, v_mul(s, rng_fresh(shp, "n"))), torch.get_default_dtype())


# ---------------------------------------------------------------- misc


@op("_local_scalar_dense")
def _lsd(x):
    v = S(x)._scalar()
    if not isinstance(v, T):
        return tm.to_py(v)
    if v.op == "var" and v.meta == tm.PI_NAME or not any(c.op == "var" and c.meta != tm.PI_NAME for c in tm.postorder([v])):
        return tm.evaluate([v], {})[0]
    if x.dtype == torch.bool:
        return _ex().decide(tm.as_bool(v))
    if x.dtype in INTS:
        return _ex().choose_int(v)
    raise Unsupported("a symbolic real value is turned into a Python float")


@op("equal")
def _equal(x, y):
    if tuple(x.shape) != tuple(y.shape):
        return False
    c = reduce_arr(v_eq(arr(x), arr(y)), _dims(None, x.dim()), tm.and_, True, False)[()]
    return _ex().decide(c) if isinstance(c, T) else bool(c)


@op("isclose")
def _isclose(x, y, rtol=1e-5, atol=1e-8, equal_nan=False):
    f = U(lambda p, q: tm.le(tm.absv(tm.sub(p, q)), tm.add(tm.const(atol), tm.mul(tm.const(rtol), tm.absv(q)))), 2)
    return mk(f(arr(x), arr(y)), torch.bool)


@op("allclose")
def _allclose(x, y, rtol=1e-5, atol=1e-8, equal_nan=False):
    m = S(_isclose(x, y, rtol, atol))
    c = reduce_arr(m._a, _dims(None, m.dim()), tm.and_, True, False)[()]
    return _ex().decide(c) if isinstance(c, T) else bool(c)


@op("is_same_size")
def _iss(x, y):
    return tuple(x.shape) == tuple(y.shape)


@op("copy_")
def _copy_(x, src, non_blocking=False):
    S(x)._a[...] = cast(arr(src), src.dtype, x.dtype)
    return x


@op("fill_")
def _fill_(x, v):
    S(x)._a[...] = arr(v)
    return x


@op("zero_")
def _zero_(x):
    S(x)._a[...] = False if x.dtype == torch.bool else 0
    return x


@op("fill_diagonal_")
def _fill_diag_(x, v, wrap=False):
    a = S(x)._a
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = tm.const(v)
    return x


@op("resize_")
def _resize_(x, size, **kw):
    raise Unsupported("resize_")


@op("linalg_cholesky_ex", "cholesky")
def _chol(x, *a, **kw):
    A = arr(x)
    n = A.shape[-1]
    L = obj(A.shape)
    for ix in np.ndindex(*A.shape[:-2]):
        for i in range(n):
            for j in range(i + 1):
                s = A[ix + (i, j)]
                for k in range(j):
                    s = tm.sub(s, tm.mul(L[ix + (i, k)], L[ix + (j, k)]))
                L[ix + (i, j)] = tm.sqrt(s) if i == j else tm.div(s, L[ix + (j, j)])
    r = mk(L, x.dtype)
    return r, mk(obj(A.shape[:-2]), torch.int32)


@op("affine_grid_generator")
def _affine_grid(theta, size, align):
    a = arr(theta)
    n, _, h, w = [int(v) for v in size]

    def base(k, m):
        if m == 1:
            return 0
        v = Fraction(2 * k, m - 1) - 1
        return v if align else v * Fraction(m - 1, m)

    out = obj((n, h, w, 2))
    for b in range(n):
        for i in range(h):
            for j in range(w):
                for d in range(2):
                    out[b, i, j, d] = tm.add(tm.add(tm.mul(a[b, d, 0], base(j, w)), tm.mul(a[b, d, 1], base(i, h))), a[b, d, 2])
    return mk(out, theta.dtype)


@op("grid_sampler_2d")
def _grid_sampler(x, grid, interp, padding, align):
    if interp != 0 or padding not in (0, 1):
        raise Unsupported("grid_sample mode")
    a, g = arr(x), arr(grid)
    n, c, h, w = a.shape
    _, oh, ow, _ = g.shape
    out = obj((n, c, oh, ow))
    ex = _ex()
    for b in range(n):
        for i in range(oh):
            for j in range(ow):
                gx, gy = g[b, i, j]

                def unnorm(v, size):
                    if align:
                        return tm.mul(tm.add(v, 1), Fraction(size - 1, 2))
                    return tm.div(tm.sub(tm.mul(tm.add(v, 1), size), 1), 2)

                px, py = unnorm(gx, w), unnorm(gy, h)
                if padding == 1:
                    px = tm.tmin(tm.tmax(px, 0), w - 1)
                    py = tm.tmin(tm.tmax(py, 0), h - 1)

                def wts(p, size):
                    # hat-function weights: max(0, 1-|p-k|)
                    return [tm.tmax(0, tm.sub(1, tm.absv(tm.sub(p, k)))) for k in range(size)]

                wx, wy = wts(px, w), wts(py, h)
                for ch in range(c):
                    acc = 0
                    for yy in range(h):
                        if not isinstance(wy[yy], T) and wy[yy] == 0:
                            continue
                        for xx in range(w):
                            acc = tm.add(acc, tm.mul(tm.mul(wy[yy], wx[xx]), a[b, ch, yy, xx]))
                    out[b, ch, i, j] = acc
    return mk(out, x.dtype)


@op("constant_pad_nd")
def _pad(x, pad, value=0):
    a = arr(x)
    widths = [(0, 0)] * a.ndim
    for k in range(len(pad) // 2):
        widths[a.ndim - 1 - k] = (pad[2 * k], pad[2 * k + 1])
    shp = [s + l + r for s, (l, r) in zip(a.shape, widths)]
    out = obj(tuple(shp), tm.const(value))
    out[tuple(slice(l, l + s) for s, (l, r) in zip(a.shape, widths))] = a
    return mk(out, x.dtype)


# ---------------------------------------------------------------- dispatch

_FALLBACK_LOG: set = set()
OPLOG: dict = {}


def _norm_kwargs(kw):
    for k in ("device", "layout", "pin_memory", "memory_format", "non_blocking", "generator", "copy"):
        kw.pop(k, None)
    return kw


def _tensors(x):
    if isinstance(x, torch.Tensor):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from _tensors(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from _tensors(y)


def _map(x, f):
    if isinstance(x, torch.Tensor):
        return f(x)
    if isinstance(x, (list, tuple)):
        r = [_map(y, f) for y in x]
        return type(x)(r) if not hasattr(x, "_fields") else type(x)(*r)
    if isinstance(x, dict):
        return {k: _map(v, f) for k, v in x.items()}
    return x


def run_op(func, args, kwargs, mode=None):
    name = func.overloadpacket.__name__
    OPLOG[name] = OPLOG.get(name, 0) + 1
    kw = _norm_kwargs(dict(kwargs))
    if name in OPS:
        f = OPS[name]
        if "out" in kw:
            out = kw.pop("out")
            r = f(*args, **kw)
            S(out)._a[...] = r._a
            return out
        return f(*args, **kw)
    if name.endswith("_") and name[:-1] in OPS and not name.startswith("__"):
        x = args[0]
        r = OPS[name[:-1]](*args, **kw)
        S(x)._a[...] = cast(r._a, r.dtype, x.dtype)
        return x
    # constants only: run the real operation
    ts = list(_tensors((args, kwargs)))
    if all(is_const(S(t)._a) or _pi_only(S(t)._a) for t in ts) and ts and not name.endswith("_"):
        conv = lambda t: to_real_tensor(S(t))
        a2, k2 = _map(args, conv), _map(kwargs, conv)
        r = func(*a2, **k2)
        _FALLBACK_LOG.add(name)
        f32 = any(t.dtype == torch.float32 for t in ts)
        ref = torch.float32 if f32 else torch.float64

        def back(t):
            s = from_real(t, share=False)
            return SymTensor(s._a, ref) if t.dtype == torch.float64 else s

        return _map(r, back)
    d = torch._decomp.decomposition_table.get(func)
    if d is not None:
        _FALLBACK_LOG.add("decomp:" + name)
        if mode is not None:
            with mode:
                return d(*args, **kwargs)
        return d(*args, **kwargs)
    raise Unsupported(f"operation {func} on symbolic tensors")


def _pi_only(a):
    for x in a.flat:
        if isinstance(x, T):
            for c in tm.postorder([x]):
                if c.op == "var" and c.meta != tm.PI_NAME:
                    return False
    return True


class SymMode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if getattr(func, "namespace", "") == "profiler":
            return func(*args, **kwargs)
        r = run_op(func, args, kwargs, self)
        return r


# python-level entry points that would force values
def _contains_sym(x):
    if isinstance(x, SymTensor):
        return True
    if isinstance(x, (list, tuple)):
        return any(_contains_sym(y) for y in x)
    return False


class Patches:
    def __enter__(self):
        self.tensor, self.full, self.as_tensor, self.manual_seed = torch.tensor, torch.full, torch.as_tensor, torch.manual_seed
        self.FloatTensor = None

        def build(x):
            if isinstance(x, torch.Tensor):
                return S(x)._a, x.dtype
            if isinstance(x, (list, tuple)):
                parts = [build(y) for y in x]
                ds = [p[1] for p in parts]
                d = torch.float32 if any(q in FLOATS for q in ds) else (torch.int64 if any(q in INTS for q in ds) else torch.bool)
                return np.stack([p[0] for p in parts]), d
            d = torch.bool if isinstance(x, bool) else (torch.int64 if isinstance(x, int) else torch.float32)
            return as0(tm.const(x)), d

        def tensor(data, *a, dtype=None, device=None, requires_grad=False, **kw):
            if _contains_sym(data):
                b, d = build(data)
                r = SymTensor(cast(b.copy(), d, dtype or d), dtype or d, requires_grad=requires_grad)
                return r
            return self.tensor(data, *a, dtype=dtype, device=device, requires_grad=requires_grad, **kw)

        def as_tensor(data, dtype=None, device=None):
            if isinstance(data, SymTensor):
                return data if dtype is None or dtype == data.dtype else data.to(dtype)
            if _contains_sym(data):
                return tensor(data, dtype=dtype)
            return self.as_tensor(data, dtype=dtype, device=device)

        def full(size, fill_value, **kw):
            if isinstance(fill_value, torch.Tensor):
                kw.pop("device", None)
                return _full(size, fill_value, **{k: v for k, v in kw.items() if k == "dtype"})
            return self.full(size, fill_value, **kw)

        def manual_seed(seed):
            RNG.seed = (str(seed),)
            RNG.count = 0
            return torch.default_generator

        torch.tensor, torch.full, torch.as_tensor, torch.manual_seed = tensor, full, as_tensor, manual_seed
        return self

    def __exit__(self, *a):
        torch.tensor, torch.full, torch.as_tensor, torch.manual_seed = self.tensor, self.full, self.as_tensor, self.manual_seed
