"""Wider numpy surface for the shim: installed over vp.snp (ufunc objects, reductions over several axes, ...).

Nothing here is needed by the repository as it is; it lets the checks follow rewritten code."""
import builtins
import math
from fractions import Fraction

import numpy as np

from . import engine as eng
from . import snp
from .engine import And, EngineUnsupported, Not, Or, SBool, SInt, SReal, is_sym, ite
from .snp import SArr, SMa, SStruct, _aa, _coerce, _dtype_of, _isnan1, _mk, _obj0, as_dtype, cast

S = vars(snp)
_OK_KW = {"dtype", "out", "where", "axis", "keepdims", "casting", "order", "subok", "initial"}


def _raw(x):
    return x.a if isinstance(x, SArr) else _obj0(x)


def _into(out, r):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    out[...] = r
    return out


# ------------------------------------------------------------------ universal functions
class UFunc:
    def __init__(self, f, name, nin, ident=None):
        self.f, self.__name__, self.nin, self.identity = f, name, nin, ident
        self.nargs, self.nout = nin + 1, 1

    def __repr__(self):
        return "<ufunc %s>" % self.__name__

    def __call__(self, *a, out=None, where=True, dtype=None, **k):
        if len(a) == self.nin + 1 and out is None:
            out, a = a[-1], a[:-1]
        if len(a) != self.nin:
            raise TypeError("%s() takes %d positional arguments" % (self.__name__, self.nin))
        bad = set(k) - _OK_KW
        if bad:
            raise TypeError("%s() got unexpected keyword %s" % (self.__name__, bad))
        if dtype is not None:
            dt = as_dtype(dtype)
            a = tuple(x.astype(dt) if isinstance(x, (SArr, SMa)) else x for x in a)
        a = tuple(x if isinstance(x, (SArr, SMa)) or not isinstance(x, (list, tuple, np.ndarray)) else snp.array(x) for x in a)
        r = self.f(*a)
        if where is not True:
            w = _aa(where)
            if out is None:
                raise EngineUnsupported("ufunc where without out")
            o = out[0] if isinstance(out, tuple) else out
            r = snp.where(w, r, o)
            return _into(out, r)
        return _into(out, r)

    def _two(self):
        if self.nin != 2:
            raise ValueError("only supported for binary functions")

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
        self._two()
        if where is not True:
            raise EngineUnsupported("reduce where")
        if isinstance(a, SMa):
            raise EngineUnsupported("reduce of a masked array")
        if isinstance(a, (list, tuple)) and a and isinstance(a[0], SMa):
            r = a[0]
            for x in a[1:]:
                r = self.f(r, x)
            return _into(out, r)
        a = _aa(a)
        nm = {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min", "logical_and": "all", "logical_or": "any"}.get(self.__name__)
        if nm and initial is None:
            r = getattr(a, nm)(axis=axis, keepdims=keepdims)
            if dtype is not None:
                r = r.astype(dtype) if isinstance(r, SArr) else cast(r, as_dtype(dtype))
            return _into(out, r)
        if axis is None:
            a, axis = a.ravel(), 0
        m = np.moveaxis(a.a, axis, 0)
        r = initial
        for i in range(m.shape[0]):
            x = SArr(m[i], a.dt) if isinstance(m[i], np.ndarray) and m.ndim > 1 else m[i]
            r = x if r is None else self.f(r, x)
        if r is None:
            if self.identity is None:
                raise ValueError("zero-size array to reduction operation %s which has no identity" % self.__name__)
            r = self.identity
        if keepdims:
            r = SArr(np.expand_dims(_raw(r), axis), a.dt)
        return _into(out, r)

    def accumulate(self, a, axis=0, dtype=None, out=None):
        self._two()
        a = _aa(a)
        if dtype is not None:
            a = a.astype(dtype)
        m = np.moveaxis(a.a, axis, 0)
        if m.shape[0] == 0:
            return a.copy()
        l, r = [], None
        for i in range(m.shape[0]):
            x = SArr(m[i], a.dt) if m.ndim > 1 else m[i]
            r = x if r is None else self.f(r, x)
            l.append(r)
        if m.ndim > 1:
            s = snp.stack(l)
            res = SArr(np.moveaxis(s.a, 0, axis), s.dt)
        else:
            dt = a.dt
            if self.__name__ in ("add", "multiply"):
                dt = a._sumdt()
            elif self.__name__.startswith("logical"):
                dt = np.dtype(bool)
            res = _mk(l, dt)
        return _into(out, res)

    def outer(self, a, b, **k):
        self._two()
        a, b = _aa(a), _aa(b)
        return self.f(SArr(a.a.reshape(a.a.shape + (1,) * b.a.ndim), a.dt), b)

    def at(self, a, idx, b=None):
        ix = idx
        if isinstance(ix, SArr) and ix.a.ndim == 0:
            ix = ix.item()
        if self.nin == 1:
            for i in _aa(ix).a.reshape(-1):
                a[i] = self.f(a[i])
            return
        if isinstance(ix, tuple):
            arrs = [_aa(v) for v in ix]
            bc = np.broadcast_arrays(*[v.a for v in arrs])
            keys = list(zip(*[v.reshape(-1) for v in bc]))
            shp = bc[0].shape
        elif isinstance(ix, SArr) and ix.dt.kind == "b":
            ix = snp.nonzero(ix)
            return self.at(a, ix if len(ix) > 1 else ix[0], b)
        elif isinstance(ix, slice):
            return self.at(a, snp.arange(len(a))[ix], b)
        elif isinstance(ix, (SArr, list, np.ndarray)):
            ix = _aa(ix)
            keys, shp = list(ix.a.reshape(-1)), ix.a.shape
        else:
            keys, shp = [ix], ()
        vals = np.broadcast_to(_raw(_coerce(b)), shp).reshape(-1) if not (isinstance(b, SArr) and b.a.ndim > len(shp)) else None
        for n, i in enumerate(keys):
            a[i] = self.f(a[i], vals[n] if vals is not None else b[n])


def _wrap(name, nin, ident=None):
    f = S[name]
    S[name] = UFunc(f, name, nin, ident)


def _unary_elem(f, dtf=None):
    return snp._unary(f, dtf)


def _conc(f, name):
    g = snp._uf(name, f)
    return _unary_elem(g, snp._FLT)


def _copysign(x, y):
    return snp.where(_coerce(y) < 0, -abs(_coerce(x)), abs(_coerce(x))) if isinstance(x, SArr) or isinstance(y, SArr) else ite(y < 0, -abs(x), abs(x))


def _heaviside(x, h):
    return snp.where(_coerce(x) < 0, 0.0, snp.where(_coerce(x) > 0, 1.0, h))


def _cfmod(x, y):
    # C semantics: sign of the dividend
    def one(u, v):
        if _isnan1(u) or _isnan1(v):
            return math.nan
        r = abs(u) % abs(v)
        return ite(u < 0, -r, r)

    x, y = _coerce(x), _coerce(y)
    if isinstance(x, SArr) or isinstance(y, SArr):
        return snp._ew(one, x, y, snp._promote(x, y))
    return one(x, y)


def _divmod(x, y):
    return snp.floor_divide(x, y), snp.mod(x, y)


def _fm(better):
    def pick(x, y):
        if _isnan1(x):
            return y
        if _isnan1(y):
            return x
        return ite(better(x, y), x, y)

    def g(a, b):
        a, b = _coerce(a), _coerce(b)
        if isinstance(a, SArr) or isinstance(b, SArr):
            return snp._ew(pick, a, b, snp._promote(a, b))
        return pick(a, b)

    return g


def _power(a, b):
    a, b = _coerce(a), _coerce(b)
    return a ** b


# masked arrays go through the operators: keep it in the comparisons of two values
def _ma_two(f):
    def g(a, b):
        if isinstance(a, SMa) or isinstance(b, SMa):
            ma, mb = (x.m if isinstance(x, SMa) else None for x in (a, b))
            m = ma if mb is None else mb if ma is None else ma | mb
            d = f(a.d if isinstance(a, SMa) else a, b.d if isinstance(b, SMa) else b)
            return SMa(d, m)
        return f(a, b)

    return g


def _install_ufuncs():
    S["fmax"], S["fmin"] = _fm(snp._gt), _fm(snp._lt)
    for n in ("maximum", "minimum", "fmax", "fmin", "logical_and", "logical_or", "logical_xor", "arctan2", "hypot"):
        S[n] = _ma_two(S[n])
    S["copysign"], S["heaviside"], S["fmod"] = _copysign, _heaviside, _cfmod
    S["positive"] = _unary_elem(lambda x: x)
    S["reciprocal"] = _unary_elem(lambda x: snp._div(1.0, x), snp._FLT)
    S["signbit"] = _unary_elem(lambda x: x < 0, snp._BOOL)
    S["isposinf"] = _unary_elem(lambda x: np.bool_(not is_sym(x) and x == math.inf), snp._BOOL)
    S["isneginf"] = _unary_elem(lambda x: np.bool_(not is_sym(x) and x == -math.inf), snp._BOOL)
    for n, f in (("sinh", math.sinh), ("cosh", math.cosh), ("tanh", math.tanh), ("arcsinh", math.asinh), ("log2", math.log2), ("log1p", math.log1p), ("expm1", math.expm1), ("cbrt", lambda v: float(np.cbrt(v)))):
        S[n] = _conc(f, n)
    S["exp2"] = _unary_elem(lambda x: 2.0 ** x, snp._FLT)
    inv = snp._unary(lambda x: (~x if is_sym(x) else np.bool_(not x)) if snp.is_bool_like(x) else -1 - x)
    S["invert"] = S["bitwise_not"] = inv
    for n in ("isnan", "isinf", "isfinite", "absolute", "fabs", "floor", "ceil", "trunc", "rint", "sin", "cos", "tan", "arctan", "arcsin", "arccos", "exp", "log", "log10", "sqrt", "radians", "degrees", "deg2rad", "rad2deg", "square", "negative", "sign", "logical_not", "positive", "reciprocal", "signbit", "sinh", "cosh", "tanh", "log2", "log1p", "expm1", "exp2", "cbrt", "invert"):
        _wrap(n, 1)
    S["abs_"] = S["absolute"]
    S["abs"] = S["_ALIAS"]["abs"] = S["absolute"]
    for n, i in (("add", 0), ("subtract", None), ("multiply", 1), ("divide", None), ("true_divide", None), ("floor_divide", None), ("mod", None), ("remainder", None), ("fmod", None), ("power", None), ("less", None), ("less_equal", None), ("greater", None), ("greater_equal", None), ("equal", None), ("not_equal", None), ("bitwise_and", -1), ("bitwise_or", 0), ("bitwise_xor", 0), ("logical_and", True), ("logical_or", False), ("logical_xor", False), ("maximum", None), ("minimum", None), ("fmax", None), ("fmin", None), ("arctan2", None), ("hypot", 0), ("copysign", None), ("heaviside", None)):
        _wrap(n, 2, i)


# ------------------------------------------------------------------ reductions
def _axes(a, axis):
    """move the reduced axes to one last axis"""
    if isinstance(axis, (list, tuple)):
        axis = tuple(int(v) % a.ndim for v in axis)
        rest = [i for i in range(a.ndim) if i not in axis]
        m = a.transpose(rest + list(axis))
        return m.reshape(m.shape[: len(rest)] + (-1,)), axis
    return np.moveaxis(a, axis, -1), (int(axis) % a.ndim,)


def _axis(self, f, axis, dt, keepdims=False):
    if axis is None:
        r = f(list(self.a.flat))
        r = cast(r, dt) if dt.kind in "fiub" and not (dt.kind == "u") else r
        if keepdims:
            o = np.empty((1,) * self.a.ndim, dtype=object)
            o.reshape(-1)[0] = r
            return SArr(o, dt)
        return r
    if not isinstance(axis, (tuple, list)) and not -self.a.ndim <= int(axis) < max(1, self.a.ndim):
        raise np.exceptions.AxisError(int(axis), self.a.ndim)
    mv, ax = _axes(self.a, axis)
    out = np.empty(mv.shape[:-1], dtype=object)
    for idx in np.ndindex(*mv.shape[:-1]):
        out[idx] = cast(f(list(mv[idx])), dt)
    if keepdims:
        for i in sorted(ax):
            out = np.expand_dims(out, i)
        return SArr(out, dt)
    return out[()] if out.ndim == 0 else SArr(out, dt)


_METH = {}


def _meth(name, cls=SArr):
    def deco(f):
        setattr(cls, name, f)
        return f

    return deco


def _redkw(name):
    old = getattr(SArr, name)

    def f(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **k):
        if k:
            raise TypeError("unexpected keyword " + str(list(k)))
        a = self
        if dtype is not None and name in ("sum", "prod", "mean"):
            a = a.astype(dtype)
        if where is not True:
            w = np.broadcast_to(_aa(where).a, a.a.shape)
            ident = {"sum": 0, "prod": 1, "any": False, "all": True}.get(name)
            if ident is None:
                if name not in ("min", "max") or initial is None:
                    raise EngineUnsupported("%s where" % name)
                ident = initial
            a = snp.where(SArr(w, np.dtype(bool)), a, ident)
        if name in ("min", "max") and initial is not None:
            if a.a.size == 0 and axis is None:
                return initial
            r = old(a, axis)
            r = S["minimum" if name == "min" else "maximum"](r, initial)
        else:
            if a.a.size == 0 and name in ("min", "max", "argmin", "argmax") and axis is not None:
                n = a.a.shape[axis] if not isinstance(axis, tuple) else 0
                if n:
                    sh = tuple(v for i, v in enumerate(a.a.shape) if i != axis % a.a.ndim)
                    return SArr(np.empty(sh, dtype=object), a.dt)
            r = old(a, axis)
        if keepdims:
            o = _raw(r)
            if axis is None:
                o = o.reshape((1,) * a.a.ndim)
            else:
                for i in sorted((v % a.a.ndim for v in axis) if isinstance(axis, tuple) else [axis % a.a.ndim]):
                    o = np.expand_dims(o, i)
            r = SArr(o, r.dt if isinstance(r, SArr) else _dtype_of(r))
        if name == "sum" and initial is not None:
            r = r + initial
        return _into(out, r)

    f.__name__ = name
    setattr(SArr, name, f)

    def g(a, axis=None, *args, **k):
        if args:
            k["dtype" if name in ("sum", "prod", "mean") else "out"] = args[0]
        if isinstance(a, SMa):
            k = {q: v for q, v in k.items() if q != "dtype"}
            return getattr(a, name)(axis, **k) if k else getattr(a, name)(axis)
        if not isinstance(a, SArr):
            if hasattr(a, "__next__"):
                raise EngineUnsupported("reduction of an iterator")
            a = snp.array(a)
        return getattr(a, name)(axis, **k)

    g.__name__ = name
    return g


def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = _aa(a)
    n = a.a.size if axis is None else int(np.prod([a.a.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))]))
    m = a.mean(axis=axis, keepdims=True)
    d = a - m
    r = (d * d).sum(axis=axis, keepdims=keepdims)
    return _into(out, r / (n - ddof) if n - ddof else r * math.nan)


def _std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return _into(out, snp.sqrt(_var(a, axis, ddof=ddof, keepdims=keepdims)))


def _cum(one, name):
    def f(a, axis=None, dtype=None, out=None):
        if isinstance(a, SMa):
            if name != "cumsum" or a.m is None:
                if a.m is None:
                    return SMa(f(a.d, axis, dtype, out), None)
                raise EngineUnsupported(name + " masked")
            return SMa(f(snp.where(a.m, 0, a.d), axis, dtype), a.m)
        a = _aa(a)
        dt = as_dtype(dtype) if dtype is not None else a._sumdt()
        x = a.a.reshape(-1) if axis is None else np.moveaxis(a.a, axis, -1)
        o = np.empty(x.shape, dtype=object)
        for idx in np.ndindex(*x.shape[:-1]):
            s = None
            for i, v in enumerate(x[idx]):
                v = v._int() if isinstance(v, SBool) else (int(v) if snp.is_bool_like(v) else v)
                s = v if s is None else one(s, v)
                o[idx + (i,)] = cast(s, dt)
        if axis is not None:
            o = np.moveaxis(o, -1, axis)
        return _into(out, SArr(o, dt))

    return f


def _sort_nd(a, axis, f):
    a_ = a.a
    if axis is None:
        a_, axis = a_.reshape(-1), 0
    m = np.moveaxis(a_, axis, -1)
    o = np.empty(m.shape, dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        l = list(m[idx])
        p = sorted(range(len(l)), key=snp._Key.make(l).__getitem__)
        for i, j in enumerate(p):
            o[idx + (i,)] = f(l, j)
    return np.moveaxis(o, -1, axis)


def _argsort(self, axis=-1, kind=None, order=None, stable=None):
    return SArr(_sort_nd(self, axis, lambda l, j: j), np.dtype("i8"))


def _sort(self, axis=-1, kind=None, order=None, stable=None):
    self.a[...] = _sort_nd(self, axis, lambda l, j: l[j])


def argsort(a, axis=-1, kind=None, order=None, stable=None):
    return a.argsort(order=order) if isinstance(a, SStruct) else _aa(a).argsort(axis)


def sort(a, axis=-1, kind=None, order=None, stable=None):
    if isinstance(a, SStruct):
        r = a.copy()
        r.sort(order=order)
        return r
    if isinstance(a, SMa):
        raise EngineUnsupported("sort of a masked array")
    a = _aa(a)
    return SArr(_sort_nd(a, axis, lambda l, j: l[j]), a.dt)


def _nanred(name, empty=math.nan):
    def f(a, axis=None, **k):
        a = _aa(a)
        if axis is None and not k:
            l = [x for x in a.a.flat if not _isnan1(x)]
            if not l:
                if a.a.size == 0 and name in ("min", "max"):
                    raise ValueError("zero-size array to reduction operation")
                return empty
            return getattr(_mk(l, a.dt), name)()
        mv, ax = _axes(a.a, axis) if axis is not None else (a.a.reshape(-1), tuple(range(a.a.ndim)))
        o = np.empty(mv.shape[:-1], dtype=object)
        for idx in np.ndindex(*mv.shape[:-1]):
            l = [x for x in mv[idx] if not _isnan1(x)]
            o[idx] = getattr(_mk(l, a.dt), name)() if l else empty
        kd = k.pop("keepdims", False)
        if k:
            raise EngineUnsupported("nan%s %s" % (name, list(k)))
        if kd:
            for i in sorted(ax):
                o = np.expand_dims(o, i)
        return SArr(o, a.dt) if o.ndim else o[()]

    return f


def _nanarg(pick, repl):
    def f(a, axis=None):
        a = _aa(a)

        def one(l):
            if all(_isnan1(x) for x in l):
                raise ValueError("All-NaN slice encountered")
            return snp._argm([repl if _isnan1(x) else x for x in l], pick)

        return a._axis(one, axis, np.dtype("i8"))

    return f


def _median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    if isinstance(a, SMa):
        if axis is not None:
            raise EngineUnsupported("median of a masked array over an axis")
        return _med1(a._valid())
    return _aa(a)._axis(_med1, axis, np.dtype("f8"), keepdims)


def _med1(l):
    l = list(l)
    if not l or any(_isnan1(x) for x in l):
        return math.nan
    s = [l[i] for i in sorted(range(len(l)), key=snp._Key.make(l).__getitem__)]
    n = len(s)
    return cast(s[n // 2], np.dtype("f8")) if n % 2 else snp._div(s[n // 2 - 1] + s[n // 2], 2)


def _nanmedian(a, axis=None, **k):
    return _aa(a)._axis(lambda l: _med1([x for x in l if not _isnan1(x)]), axis, np.dtype("f8"))


def _quantile(scale, skipnan):
    def f(a, q, axis=None, method="linear", interpolation=None, **k):
        if (interpolation or method) != "linear" or k:
            raise EngineUnsupported("percentile method")
        a = _aa(a)
        if isinstance(q, (list, tuple, SArr, np.ndarray)):
            return snp.array([f(a, v, axis) for v in q])

        def one(l):
            if skipnan:
                l = [x for x in l if not _isnan1(x)]
            if not l or any(_isnan1(x) for x in l):
                return math.nan
            s = [l[i] for i in sorted(range(len(l)), key=snp._Key.make(l).__getitem__)]
            n = len(s)
            if is_sym(q):
                raise EngineUnsupported("symbolic percentile")
            p = Fraction(q) / scale * (n - 1)
            i = int(p // 1)
            fr = p - i
            if fr == 0:
                return cast(s[i], np.dtype("f8"))
            return s[i] + (s[i + 1] - s[i]) * (fr if is_sym(s[i]) or is_sym(s[i + 1]) else float(fr))

        return a._axis(one, axis, np.dtype("f8"))

    return f


def _average(a, axis=None, weights=None, returned=False, keepdims=False):
    if isinstance(a, SMa):
        raise EngineUnsupported("average of a masked array")
    a = _aa(a)
    if weights is None:
        r = a.mean(axis=axis)
        if returned:
            n = a.a.size if axis is None else a.a.shape[axis]
            return r, float(n)
        return r
    w = _aa(weights)
    if axis is not None and w.a.ndim == 1 and a.a.ndim > 1:
        sh = [1] * a.a.ndim
        sh[axis] = -1
        w = w.reshape(tuple(sh))
        w = SArr(np.broadcast_to(w.a, a.a.shape), w.dt)
    s = w.sum(axis=axis)
    if not isinstance(s, SArr) and not is_sym(s) and s == 0:
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    if is_sym(s) and bool(s == 0):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = (a * w).sum(axis=axis) / s
    return (r, s) if returned else r


# ------------------------------------------------------------------ structure
def _str1(name, f=None):
    """function which only moves elements"""
    g = f or getattr(np, name)

    def h(a, *args, **k):
        if isinstance(a, SMa):
            r = h(a.d, *args, **k)
            m = None if a.m is None else h(a.m, *args, **k)
            if isinstance(r, list):
                return [SMa(x, None if m is None else m[i]) for i, x in enumerate(r)]
            return SMa(r, m)
        a = _aa(a)
        args = tuple(_conc_arg(v) for v in args)
        k = {q: _conc_arg(v) for q, v in k.items()}
        r = g(a.a, *args, **k)
        if isinstance(r, (list, tuple)):
            return [SArr(v, a.dt) for v in r]
        return SArr(r, a.dt) if isinstance(r, np.ndarray) else r

    h.__name__ = name
    return h


def _conc_arg(v):
    if isinstance(v, SArr):
        if v.dt.kind == "b":
            return np.array([bool(x) for x in v.a.flat]).reshape(v.a.shape)
        return np.array([int(x) for x in v.a.flat], dtype=int).reshape(v.a.shape)
    if isinstance(v, SInt):
        return int(v)
    if isinstance(v, (list, tuple)):
        return type(v)(_conc_arg(x) for x in v)
    return v


def _atleast(n):
    def f(*xs):
        r = []
        for x in xs:
            x = _aa(x) if not isinstance(x, SMa) else x.d
            a = (np.atleast_1d, np.atleast_2d, np.atleast_3d)[n - 1](x.a)
            r.append(SArr(a, x.dt))
        return r[0] if len(r) == 1 else r

    return f


def _stackers():
    def vstack(xs, **k):
        return snp.concatenate([snp.atleast_2d(x) for x in xs], 0)

    def hstack(xs, **k):
        xs = [snp.atleast_1d(x) for x in xs]
        return snp.concatenate(xs, 0 if xs and xs[0].ndim == 1 else 1)

    def dstack(xs):
        return snp.concatenate([snp.atleast_3d(x) for x in xs], 2)

    def column_stack(xs):
        xs = [snp._aa(x) for x in xs]
        return snp.concatenate([x.reshape(-1, 1) if x.ndim < 2 else x for x in xs], 1)

    for f in (vstack, hstack, dstack, column_stack):
        S[f.__name__] = f
    S["row_stack"] = vstack


def _cut(xs):
    return xs if not isinstance(xs, (SArr, SMa)) else [xs[i] for i in range(len(xs))]


class _RClass:
    def __init__(self, axis):
        self.axis = axis

    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        l = []
        for x in k:
            if isinstance(x, str):
                raise EngineUnsupported("r_ with a directive")
            if isinstance(x, slice):
                st, sp, n = x.start or 0, x.stop, x.step or 1
                x = snp.linspace(st, sp, int(abs(n))) if isinstance(n, complex) else snp.arange(st, sp, n)
            x = snp._aa(x)
            if self.axis:
                x = x.reshape(-1, 1) if x.ndim < 2 else x
            elif x.ndim == 0:
                x = x.reshape(1)
            l.append(x)
        return snp.concatenate(l, self.axis and 1)


class _SClass:
    def __getitem__(self, k):
        return k


class _MGrid:
    def __init__(self, sparse):
        self.sparse = sparse

    def __getitem__(self, k):
        one = not isinstance(k, tuple)
        k = (k,) if one else k
        ax = [snp.linspace(s.start or 0, s.stop, int(abs(s.step))) if isinstance(s.step, complex) else snp.arange(s.start or 0, s.stop, s.step or 1) for s in k]
        if one:
            return ax[0]
        g = snp.meshgrid(*ax, indexing="ij", sparse=self.sparse)
        return g if self.sparse else snp.stack(g)


def meshgrid(*xs, indexing="xy", sparse=False, copy=True):
    xs = [_aa(x).ravel() for x in xs]
    n = len(xs)
    out = []
    g = np.meshgrid(*[np.arange(len(x)) for x in xs], indexing=indexing, sparse=sparse)
    for x, i in zip(xs, g):
        out.append(SArr(x.a[i], x.dt))
    return out


def outer(a, b, out=None):
    a, b = _aa(a).ravel(), _aa(b).ravel()
    return _into(out, a.reshape(-1, 1) * b.reshape(1, -1))


def matmul(a, b):
    a, b = _aa(a), _aa(b)
    if a.ndim == 1 and b.ndim == 1:
        return (a * b).sum()
    if a.ndim == 2 and b.ndim == 1:
        return (a * b.reshape(1, -1)).sum(axis=1)
    if a.ndim == 1 and b.ndim == 2:
        return (a.reshape(-1, 1) * b).sum(axis=0)
    if a.ndim == 2 and b.ndim == 2:
        return (a.reshape(a.shape + (1,)) * b.reshape((1,) + b.shape)).sum(axis=1)
    raise EngineUnsupported("matmul nd")


def dot(a, b, out=None):
    a_, b_ = _aa(a), _aa(b)
    if a_.ndim == 0 or b_.ndim == 0:
        return a * b
    return _into(out, matmul(a_, b_))


def inner(a, b):
    a, b = _aa(a), _aa(b)
    if a.ndim <= 1 and b.ndim <= 1:
        return (a * b).sum()
    raise EngineUnsupported("inner nd")


def cross(a, b, **k):
    a, b = _aa(a), _aa(b)
    if k or a.shape[-1] != b.shape[-1]:
        raise EngineUnsupported("cross")
    A, B = ([x[(Ellipsis, i) if x.ndim > 1 else i] for i in range(x.shape[-1])] for x in (a, b))
    if len(A) == 2:
        return A[0] * B[1] - A[1] * B[0]
    c = [A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]]
    return snp.stack(c, axis=-1) if isinstance(c[0], SArr) else snp.array(c)


def trapz(y, x=None, dx=1.0, axis=-1):
    y = _aa(y)
    if y.ndim != 1:
        raise EngineUnsupported("trapz nd")
    d = snp.diff(_aa(x)) if x is not None else dx
    return (d * (y[1:] + y[:-1]) / 2.0).sum()


def gradient(y, *v, axis=None, edge_order=1):
    y = _aa(y)
    if y.ndim != 1 or edge_order != 1 or len(v) > 1:
        raise EngineUnsupported("gradient nd")
    h = v[0] if v else 1.0
    if isinstance(h, (SArr, list, tuple)):
        raise EngineUnsupported("gradient with coordinates")
    n = len(y)
    if n < 2:
        raise ValueError("Shape of array too small to calculate a numerical gradient")
    l = [(y[1] - y[0]) / h] + [(y[i + 1] - y[i - 1]) / (2.0 * h) for i in range(1, n - 1)] + [(y[n - 1] - y[n - 2]) / h]
    return _mk(l, "f8")


def convolve(a, v, mode="full"):
    a, v = _aa(a), _aa(v)
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    if not n or not m:
        raise ValueError("v cannot be empty")
    full = []
    for k in range(n + m - 1):
        s = 0
        for j in range(max(0, k - m + 1), min(n, k + 1)):
            s = a.a[j] * v.a[k - j] + s
        full.append(s)
    dt = snp._promote(a, v)
    if mode == "valid":
        full = full[m - 1 : n]
    elif mode == "same":
        st = (m - 1) // 2
        full = full[st : st + n]
    return _mk(full, dt)


def correlate(a, v, mode="valid"):
    if len(v) > len(a):
        raise EngineUnsupported("correlate")
    return convolve(a, _aa(v)[::-1], mode)


def ediff1d(a, to_end=None, to_begin=None):
    a = _aa(a).ravel()
    r = [a[1:] - a[:-1]]
    if to_begin is not None:
        r.insert(0, snp.atleast_1d(to_begin))
    if to_end is not None:
        r.append(snp.atleast_1d(to_end))
    return snp.concatenate(r)


def diff(a, n=1, axis=-1, prepend=None, append=None):
    if isinstance(a, SMa):
        if prepend is not None or append is not None or n != 1 or a.ndim != 1:
            raise EngineUnsupported("diff of a masked array")
        return a[1:] - a[:-1]
    a = _aa(a)
    ext = []
    for x in (prepend, append):
        if x is None:
            ext.append(None)
            continue
        x = _aa(x)
        if x.ndim == 0:
            sh = list(a.shape)
            sh[axis] = 1
            x = SArr(np.broadcast_to(x.a, sh), x.dt)
        ext.append(x)
    if ext[0] is not None or ext[1] is not None:
        a = snp.concatenate([x for x in (ext[0], a, ext[1]) if x is not None], axis)
    for _ in range(int(n)):
        m = SArr(np.moveaxis(a.a, axis, 0), a.dt)
        d = m[1:] ^ m[:-1] if a.dt.kind == "b" else m[1:] - m[:-1]
        a = SArr(np.moveaxis(d.a, 0, axis), d.dt)
    return a


def select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = snp.where(c, v, r)
    return r


def choose(a, choices, out=None, mode="raise"):
    a = _aa(a)
    r = choices[0]
    for i, v in enumerate(choices):
        r = snp.where(a == i, v, r)
    return _into(out, r)


def piecewise(x, conds, funcs, *args, **k):
    x = _aa(x)
    if not isinstance(conds, (list, tuple)):
        conds = [conds]
    funcs = list(funcs)
    r = snp.zeros(x.shape, x.dt)
    if len(funcs) == len(conds) + 1:
        any_ = conds[0]
        for c in conds[1:]:
            any_ = any_ | c
        conds = list(conds) + [~any_]
    for c, f in zip(conds, funcs):
        r = snp.where(c, f(x, *args, **k) if callable(f) else f, r)
    return r.astype(x.dt)


def putmask(a, mask, v):
    m = _aa(mask)
    v = _aa(v)
    if v.a.size == 1:
        a[m] = v.a.reshape(-1)[0]
    elif v.a.shape == a.shape:
        a[...] = snp.where(m, v, a)
    else:
        raise EngineUnsupported("putmask")


def place(a, mask, v):
    i = snp.flatnonzero(mask)
    v = snp.atleast_1d(v)
    f = a.a.reshape(-1)
    for n, k in enumerate(i.a):
        f[int(k)] = cast(v.a[n % len(v)], a.dt)
    a.a[...] = f.reshape(a.a.shape)


def put(a, ind, v, mode="raise"):
    v = snp.atleast_1d(v)
    f = SArr(a.a.reshape(-1).copy(), a.dt)
    for n, k in enumerate(snp.atleast_1d(ind).a.reshape(-1)):
        f[k] = v.a.reshape(-1)[n % v.a.size]
    a.a[...] = f.a.reshape(a.a.shape)


def copyto(a, v, casting="same_kind", where=True):
    if where is True:
        a[...] = v
    else:
        a[...] = snp.where(where, v, a)


def take_along_axis(a, idx, axis):
    a, idx = _aa(a), _aa(idx)
    if axis is None:
        a, axis = a.ravel(), 0
    if a.ndim == 1:
        return a[idx]
    return SArr(np.take_along_axis(a.a, _conc_arg(idx), axis), a.dt)


def put_along_axis(a, idx, v, axis):
    v = _aa(v)
    np.put_along_axis(a.a, _conc_arg(idx), v.astype(a.dt).a if v.a.ndim else cast(v.item(), a.dt), axis)


def take(a, idx, axis=None, out=None, mode="raise"):
    if isinstance(a, SMa):
        return SMa(take(a.d, idx, axis), None if a.m is None else take(a.m, idx, axis))
    a = _aa(a)
    idx = snp.array(idx) if isinstance(idx, (list, tuple)) else idx
    if mode != "raise":
        n = a.a.size if axis is None else a.shape[axis]
        idx = idx % n if mode == "wrap" else snp.clip(idx, 0, n - 1)
    if axis is None:
        r = a.ravel()[idx]
    else:
        r = a[(slice(None),) * (axis % a.ndim) + (idx,)]
    return _into(out, r)


def compress(c, a, axis=None, out=None):
    i = snp.flatnonzero(c)
    return take(a, i, axis)


def resize(a, shape):
    a = _aa(a)
    return SArr(np.resize(a.a, shape), a.dt)


def pad(a, w, mode="constant", constant_values=0, **k):
    a = _aa(a)
    w = _conc_arg(w)
    if mode == "constant":
        return SArr(np.pad(a.a, w, mode="constant", constant_values=constant_values), a.dt).astype(a.dt)
    if mode in ("edge", "wrap", "reflect", "symmetric"):
        i = np.pad(np.arange(a.a.size).reshape(a.a.shape), w, mode=mode)
        return SArr(a.a.reshape(-1)[i], a.dt)
    raise EngineUnsupported("pad " + mode)


def fromiter(it, dtype=None, count=-1):
    l = list(it) if count < 0 else [x for _, x in zip(range(count), it)]
    return snp.array(l, dtype) if l else snp.zeros(0, dtype)


def ndenumerate(a):
    a = _aa(a)
    for i in np.ndindex(*a.a.shape):
        yield i, a.a[i]


def ravel_multi_index(ix, shape, mode="raise"):
    r = 0
    for i, n in zip(ix, shape):
        if mode == "wrap":
            i = i % n
        elif mode == "clip":
            i = snp.clip(i, 0, n - 1)
        r = r * n + i
    return r


def round_(x, decimals=0, out=None):
    if isinstance(x, (list, tuple)):
        x = snp.array(x)
    if isinstance(decimals, SInt):
        decimals = int(decimals)
    if decimals == 0:
        if isinstance(x, (SArr, SMa)):
            return _into(out, snp._unary(snp._rint1)(x))
        return snp._rint1(x)
    s = 10 ** abs(decimals)
    if decimals > 0:
        r = round_(x * s) / s
    else:
        r = round_(x / s) * s
    if isinstance(x, SArr) and isinstance(r, SArr):
        r = r.astype(x.dt)
    return _into(out, r)


def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    if isinstance(a, (list, tuple)):
        a = snp.array(a)
    if lo is not None:
        a = snp.maximum(a, lo)
    if hi is not None:
        a = snp.minimum(a, hi)
    return _into(out, a)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def one(v):
        if _isnan1(v):
            return nan
        if not is_sym(v) and isinstance(v, (float, np.floating)) and math.isinf(v):
            return (posinf if posinf is not None else np.finfo(float).max) if v > 0 else (neginf if neginf is not None else np.finfo(float).min)
        return v

    if isinstance(x, SMa):
        return SMa(nan_to_num(x.d, True, nan, posinf, neginf), x.m)
    if isinstance(x, (list, tuple)):
        x = snp.array(x)
    if not isinstance(x, SArr):
        return one(x)
    r = snp._un(one, x, x.dt)
    if not copy:
        x[...] = r
        return x
    return r


def setdiff1d(a, b, assume_unique=False):
    u = snp.unique(a) if not assume_unique else _aa(a).ravel()
    return u[~snp.isin(u, b)] if len(u) else u


def setxor1d(a, b, assume_unique=False):
    a, b = snp.unique(a), snp.unique(b)
    return snp.sort(snp.concatenate((a[~snp.isin(a, b)], b[~snp.isin(b, a)])))


def intersect1d(a, b, assume_unique=False, return_indices=False):
    if not return_indices:
        u = snp.unique(a)
        return u[snp.isin(u, b)] if len(u) else u
    ua, ia = snp.unique(a, return_index=True)
    ub, ib = snp.unique(b, return_index=True)
    m = snp.isin(ua, ub)
    return ua[m], ia[m], ib[snp.isin(ub, ua)]


def searchsorted(a, v, side="left", sorter=None):
    a = _aa(a)
    if sorter is not None:
        a = a[sorter]
    if isinstance(v, (list, tuple)):
        v = snp.array(v)

    def one(x):
        s = 0
        for y in a.a:
            if _isnan1(x):
                c = not _isnan1(y) if side == "left" else True
            elif _isnan1(y):
                c = False
            else:
                c = (y < x) if side == "left" else (y <= x)
            s = s + ite(c, 1, 0)
        return s

    if isinstance(v, SArr):
        return snp._un(one, v, np.dtype("i8"))
    return one(v)


def digitize(x, bins, right=False):
    b = _aa(bins)
    if len(b) > 1 and bool(b.a[0] > b.a[len(b) - 1]):
        n = len(b)
        return n - searchsorted(b[::-1], x, side="left" if right else "right")
    return searchsorted(b, x, side="left" if right else "right")


def array_equal(a, b, equal_nan=False):
    a, b = _aa(a), _aa(b)
    if a.shape != b.shape:
        return False
    if equal_nan:
        return And([True if _isnan1(x) and _isnan1(y) else (False if _isnan1(x) or _isnan1(y) else x == y) for x, y in zip(a.a.flat, b.a.flat)])
    return (a == b).all()


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = _aa(a), _aa(b)
    return And([True if equal_nan and _isnan1(x) and _isnan1(y) else snp._close1(x, y, rtol, atol) for x, y in zip(*[v.flat for v in np.broadcast_arrays(a.a, b.a)])])


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def one(x, y):
        if _isnan1(x) or _isnan1(y):
            return np.bool_(equal_nan and _isnan1(x) and _isnan1(y))
        if any(not is_sym(v) and isinstance(v, (float, np.floating)) and math.isinf(v) for v in (x, y)):
            return x == y
        return snp._close1(x, y, rtol, atol)

    a, b = _coerce(a), _coerce(b)
    if isinstance(a, SArr) or isinstance(b, SArr):
        return snp._ew(one, a, b, np.dtype(bool))
    return one(a, b)


def apply_along_axis(f, axis, a, *args, **k):
    a = _aa(a)
    m = np.moveaxis(a.a, axis, -1)
    l = [f(SArr(m[i], a.dt), *args, **k) for i in np.ndindex(*m.shape[:-1])]
    r = snp.array(l)
    if r.ndim == 1:
        return r.reshape(m.shape[:-1])
    r = r.reshape(m.shape[:-1] + r.shape[1:])
    return SArr(np.moveaxis(r.a, -1, axis), r.dt)


def vectorize(f=None, otypes=None, excluded=None, **k):
    if f is None:
        return lambda g: vectorize(g, otypes, excluded, **k)

    def g(*x):
        if not any(isinstance(v, (SArr, list, tuple)) for v in x):
            return f(*x)
        b = np.broadcast_arrays(*[_aa(v).a for v in x])
        r = [f(*v) for v in zip(*[q.reshape(-1) for q in b])]
        dt = as_dtype(otypes[0]) if otypes else None
        return snp.array(r, dt).reshape(b[0].shape)

    return g


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, n=None):
    num = int(n if n is not None else num)
    d = (num - 1) if endpoint else num
    l = []
    for i in range(num):
        if is_sym(a) or is_sym(b):
            l.append(a + (b - a) * Fraction(i, d) if d else a)
        else:
            l.append((a + (b - a) * i / d) if d else a)
    if num > 1 and endpoint:
        l[-1] = b
    r = _mk(l, as_dtype(dtype))
    return (r, (b - a) / d if d else math.nan) if retstep else r


def identity(n, dtype=None):
    return snp.eye(n, dtype=dtype)


def eye(n, m=None, k=0, dtype=None):
    m = n if m is None else m
    r = snp.zeros((n, m), dtype)
    for i in range(n):
        if 0 <= i + k < m:
            r[i, i + k] = 1
    return r


def tri(n, m=None, k=0, dtype=float):
    m = n if m is None else m
    return from_real(np.tri(n, m, k)).astype(dtype)


def from_real(x):
    return snp.from_np(np.asarray(x))


def indices(dims, **k):
    return from_real(np.indices(dims))


def full(shape, fill_value, dtype=None, order=None, **k):
    v = fill_value
    if isinstance(v, (SArr, list, tuple)):
        v = _aa(v)
        r = SArr(np.broadcast_to(v.a, snp._shape(shape)).copy(), v.dt)
        return r if dtype is None else r.astype(dtype)
    return _full0(shape, v, dtype)


_full0 = None


def _like(f, named):
    def g(x, *a, dtype=None, shape=None, **k):
        k = {q: v for q, v in k.items() if q not in ("order", "subok")}
        if k and not named:
            raise TypeError("unexpected keyword " + str(list(k)))
        dt = dtype
        if isinstance(x, (list, tuple)):
            x = snp.array(x)
        if named:
            a = a or (k.get("fill_value"),)
            if len(a) > 1:
                dt, a = a[1], a[:1]
        elif a:
            dt = a[0]
        if isinstance(x, SMa):
            r = f(SArr(x.d.a, x.d.dt), *(a if named else ()), dtype=dt)
            return SMa(r, None if x.m is None else x.m.copy())
        if shape is not None:
            x = SArr(np.broadcast_to(_obj0(0), snp._shape(shape)), x.dt)
        return f(x, *(a if named else ()), dtype=dt)

    return g


# ------------------------------------------------------------------ masked arrays
def _ma_ax(name, ident):
    old = getattr(SMa, name)

    def f(self, axis=None, **k):
        k = {q: v for q, v in k.items() if v is not None and not (q == "keepdims" and not v)}
        if k:
            raise EngineUnsupported("masked %s %s" % (name, list(k)))
        if axis is None:
            v = old(self)
            return v if self._valid() else masked_
        if self.m is None:
            return SMa(getattr(self.d, name)(axis), None) if isinstance(getattr(self.d, name)(axis), SArr) else getattr(self.d, name)(axis)
        d, ax = _axes(self.d.a, axis)
        m, _ = _axes(self.m.a, axis)
        o, om = (np.empty(d.shape[:-1], dtype=object) for _ in range(2))
        dt = self.d.dt
        for idx in np.ndindex(*d.shape[:-1]):
            sub = SMa(SArr(d[idx], self.d.dt), SArr(m[idx], np.dtype(bool)))
            l = sub._valid()
            om[idx] = np.bool_(not l)
            o[idx] = old(sub) if l else ident
        dt = {"any": np.dtype(bool), "all": np.dtype(bool)}.get(name) or (np.dtype("f8") if name == "mean" and dt.kind != "f" else dt)
        if name in ("sum", "prod"):
            dt = self.d._sumdt()
        if o.ndim == 0:
            return masked_ if om[()] else o[()]
        return SMa(SArr(o, dt), SArr(om, np.dtype(bool)))

    setattr(SMa, name, f)


masked_ = snp.masked


def _ma_div(a, b):
    """division of masked arrays: undefined results are masked and keep the first operand"""
    da, db = (x.d if isinstance(x, SMa) else _aa(x) for x in (a, b))
    ma, mb = (x.m if isinstance(x, SMa) else None for x in (a, b))
    sh = np.broadcast(da.a, db.a).shape
    m = np.zeros(sh, dtype=bool).astype(object)
    some = ma is not None or mb is not None
    for v in (ma, mb):
        if v is not None:
            w = np.broadcast_to(v.a, sh)
            for idx in np.ndindex(*sh):
                m[idx] = snp._s_or(m[idx], w[idx])
    A, B = np.broadcast_to(da.a, sh), np.broadcast_to(db.a, sh)
    o = np.empty(sh, dtype=object)
    for idx in np.ndindex(*sh):
        if not is_sym(m[idx]) and bool(m[idx]):
            o[idx] = A[idx]
            continue
        r = snp._div(A[idx], B[idx])
        if isinstance(r, (float, np.floating)) and not math.isfinite(r):
            r, some = A[idx], True
            m[idx] = np.bool_(True)
        o[idx] = r
    dt = (SArr(np.empty(0, dtype=object), da.dt) / SArr(np.empty(0, dtype=object), db.dt)).dt
    if not isinstance(b, (SArr, SMa)) and da.dt.kind == "f":
        dt = da.dt
    if not isinstance(a, (SArr, SMa)) and db.dt.kind == "f":
        dt = db.dt
    return SMa(SArr(o, dt), SArr(m, np.dtype(bool)) if some else None)


SMa.__truediv__ = _ma_div
SMa.__rtruediv__ = lambda s, o: _ma_div(o, s)


class _Ma:
    """numpy.ma"""

    def __init__(self, d):
        self.__dict__.update(d)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in _MA_ELEM:
            return getattr(snp, n)
        if n in _MA_METH:

            def f(a, *x, **k):
                return getattr(SMa.of(a), n)(*x, **k)

            return f
        if n in _MA_PLAIN:
            return getattr(snp, n)

        def g(*a, **k):
            raise EngineUnsupported("numpy.ma.%s is not modelled" % n)

        return g


_MA_ELEM = set("abs absolute fabs floor ceil sin cos tan arctan arcsin arccos exp log log10 sqrt negative add subtract multiply divide true_divide mod power less less_equal greater greater_equal equal not_equal logical_and logical_or logical_not maximum minimum arctan2 hypot bitwise_and bitwise_or diff clip".split())
_MA_METH = set("sum mean min max any all count compressed ravel reshape copy argmin argmax prod std var ptp".split())
_MA_PLAIN = set("arange expand_dims squeeze transpose swapaxes take repeat flip isin in1d".split())


def _mk_ma():
    old = vars(snp.ma)
    d = dict(old)

    def getmask(x):
        return x.m if isinstance(x, SMa) and x.m is not None else False

    def filled(x, v=math.nan):
        return x.filled(v) if isinstance(x, SMa) else x

    def mask_where(f):
        def g(x, v, copy=True, **k):
            dd = x.d if isinstance(x, SMa) else _aa(x)
            return SMa.of(x, f(dd, v))

        return g

    def mwhere(c, a=None, b=None):
        if a is None:
            return snp.nonzero(c)
        ma_, mb = (x.m if isinstance(x, SMa) else None for x in (a, b))
        da, db = (x.d if isinstance(x, SMa) else x for x in (a, b))
        aa = a is masked_
        bb = b is masked_
        cm = c.m if isinstance(c, SMa) else None
        c = c.d if isinstance(c, SMa) else _aa(c)
        da = 0.0 if aa else da
        db = 0.0 if bb else db
        r = snp.where(c, da, db)
        m = snp.where(c, True if aa else (False if ma_ is None else ma_), True if bb else (False if mb is None else mb))
        if cm is not None:
            m = m | cm
        return SMa(r, m.astype(bool))

    def cat(f):
        def g(xs, *a, **k):
            xs = list(xs)
            return SMa(f([x.d if isinstance(x, SMa) else x for x in xs], *a, **k), f([getmaskarray(x) for x in xs], *a, **k))

        return g

    def getmaskarray(x):
        if not isinstance(x, (SMa, SArr)):
            x = _aa(x)
        return x.m if isinstance(x, SMa) and x.m is not None else snp.zeros(x.shape, bool)

    def mask_or(a, b, **k):
        if a is False or a is None:
            return b
        if b is False or b is None:
            return a
        return snp.logical_or(a, b)

    def array(x, dtype=None, copy=False, mask=None, fill_value=None, keep_mask=True, hard_mask=False, shrink=True, subok=True, order=None, ndmin=0):
        if mask is None and not isinstance(dtype, (type(None), type, np.dtype, str, snp._Type)):
            mask, dtype = dtype, None
        if mask is False:
            mask = None
        r = SMa.of(x, mask)
        if dtype is not None:
            r = r.astype(dtype)
        return r.copy() if copy else r

    d.update(
        getmask=getmask, getmaskarray=getmaskarray, filled=filled, where=mwhere, mask_or=mask_or,
        masked_array=array, array=array,
        masked_where=lambda c, x, copy=True: SMa.of(x, c if not isinstance(c, SMa) else (c.filled(True))),
        masked_invalid=lambda x, copy=True: SMa.of(x, snp.isnan(x if not isinstance(x, SMa) else x.d) | snp.isinf(x if not isinstance(x, SMa) else x.d)),
        masked_equal=mask_where(lambda x, v: x == v), masked_not_equal=mask_where(lambda x, v: x != v),
        masked_less=mask_where(lambda x, v: x < v), masked_less_equal=mask_where(lambda x, v: x <= v),
        masked_greater=mask_where(lambda x, v: x > v), masked_greater_equal=mask_where(lambda x, v: x >= v),
        masked_values=mask_where(lambda x, v, **k: snp.isclose(x, v)),
        masked_outside=lambda x, a, b, copy=True: SMa.of(x, ((x.d if isinstance(x, SMa) else x) < min(a, b)) | ((x.d if isinstance(x, SMa) else x) > max(a, b))),
        masked_inside=lambda x, a, b, copy=True: SMa.of(x, ((x.d if isinstance(x, SMa) else x) >= min(a, b)) & ((x.d if isinstance(x, SMa) else x) <= max(a, b))),
        masked_all=lambda s, dtype=float: SMa(snp.zeros(s, dtype), snp.ones(s, bool)),
        asarray=lambda x, dtype=None: SMa.of(x) if dtype is None else SMa.of(x).astype(dtype),
        asanyarray=lambda x, dtype=None: SMa.of(x) if dtype is None else SMa.of(x).astype(dtype),
        is_masked=lambda x: bool(getmaskarray(x).any()) if isinstance(x, SMa) else x is masked_,
        isMA=lambda x: isinstance(x, SMa), isarray=lambda x: isinstance(x, SMa),
        stack=cat(lambda *a, **k: snp.stack(*a, **k)), vstack=cat(lambda *a, **k: snp.vstack(*a, **k)), hstack=cat(lambda *a, **k: snp.hstack(*a, **k)),
        column_stack=cat(lambda *a, **k: snp.column_stack(*a, **k)),
        zeros_like=lambda x, dtype=None: SMa(snp.zeros(x.shape, dtype or x.dtype), None if not isinstance(x, SMa) or x.m is None else x.m.copy()),
        ones_like=lambda x, dtype=None: SMa(snp.ones(x.shape, dtype or x.dtype), None if not isinstance(x, SMa) or x.m is None else x.m.copy()),
        empty_like=lambda x, dtype=None: SMa(snp.empty(x.shape, dtype or x.dtype), None if not isinstance(x, SMa) or x.m is None else x.m.copy()),
        allclose=lambda a, b, **k: snp.allclose(a.compressed() if isinstance(a, SMa) else a, b.compressed() if isinstance(b, SMa) else b),
    )
    d.pop("median", None)
    d["median"] = _median
    d["bool_"] = snp.bool_
    return _Ma(d)


def install():
    global _full0
    if "_snp2" in S:
        return
    S["_snp2"] = True
    SArr._axis = _axis
    for n in ("sum", "prod", "any", "all", "mean", "min", "max", "argmin", "argmax"):
        g = _redkw(n)
        key = {"sum": "sum_", "any": "any_", "all": "all_", "min": "amin", "max": "amax"}.get(n, n)
        S[key] = g
        S["_ALIAS"][n] = g
    S["_ALIAS"].update(alltrue=S["all_"], sometrue=S["any_"], product=S["prod"], round=round_)
    SArr.ptp = lambda self, axis=None, **k: self.max(axis=axis, **k) - self.min(axis=axis, **k)
    S["ptp"] = lambda a, axis=None, **k: _aa(a).ptp(axis=axis, **k)
    SArr.var, SArr.std = _var, _std
    S["var"], S["std"] = _var, _std
    S["cumsum"], S["cumprod"] = _cum(lambda s, v: v + s, "cumsum"), _cum(lambda s, v: v * s, "cumprod")
    SArr.cumsum, SArr.cumprod = S["cumsum"], S["cumprod"]
    S["nancumsum"] = lambda a, axis=None, **k: S["cumsum"](nan_to_num(_aa(a)), axis)
    SArr.argsort, SArr.sort = _argsort, _sort
    S["argsort"], S["sort"] = argsort, sort
    S["msort"] = lambda a: sort(a, 0)
    # full order is one of the valid results of a partition only for the elements around kth: refused
    for n, e in (("min", math.nan), ("max", math.nan), ("mean", math.nan), ("sum", 0.0), ("prod", 1.0), ("std", math.nan), ("var", math.nan)):
        S["nan" + n] = _nanred(n, e)
    S["nanargmin"], S["nanargmax"] = _nanarg(snp._lt, math.inf), _nanarg(snp._gt, -math.inf)
    S["median"], S["nanmedian"] = _median, _nanmedian
    S["percentile"], S["nanpercentile"] = _quantile(100, False), _quantile(100, True)
    S["quantile"], S["nanquantile"] = _quantile(1, False), _quantile(1, True)
    S["average"] = _average
    for n in ("split", "array_split", "vsplit", "hsplit", "rot90", "moveaxis", "rollaxis", "swapaxes", "fliplr", "flipud", "flip", "diagonal", "roll", "expand_dims", "squeeze", "broadcast_to", "tile"):
        S[n] = _str1(n)
    for n in ("triu", "tril"):
        S[n] = (lambda g: lambda a, k=0: _aa(a) * snp.from_np(g(np.ones(_aa(a).shape, dtype=int), k)))(getattr(np, n))
    S["transpose"] = lambda a, *ax, **k: (a if isinstance(a, SMa) else _aa(a)).T if not ax and not k else _str1("transpose")(a, *ax, **k)
    S["diag"] = _str1("diag", lambda a, k=0: np.diagonal(a, k) if a.ndim == 2 else _diag0(a, k))
    S["trace"] = lambda a, offset=0: S["diagonal"](a, offset).sum()
    SArr.diagonal = lambda self, *a, **k: S["diagonal"](self, *a, **k)
    SArr.trace = lambda self, offset=0: S["diagonal"](self, offset).sum()
    SArr.dot = lambda self, o: dot(self, o)
    SArr.__matmul__ = lambda self, o: matmul(self, o)
    SArr.__rmatmul__ = lambda self, o: matmul(o, self)
    SArr.__divmod__ = lambda self, o: _divmod(self, o)
    SArr.take = take
    SArr.compress = lambda self, c, axis=None: compress(c, self, axis)
    SArr.choose = lambda self, ch, **k: choose(self, ch)
    SArr.put = put
    SArr.round = round_
    SArr.clip = clip
    SArr.searchsorted = searchsorted
    SArr.conj = SArr.conjugate = lambda self: self.copy()
    SArr.real = property(lambda self: self)
    SArr.flags = property(lambda self: self.a.flags)
    SArr.base = property(lambda self: None)
    SArr.strides = property(lambda self: self.a.strides)
    SArr.reshape = _reshape
    SArr.ravel = lambda self, order="C": SArr(self.a.ravel(order or "C"), self.dt)
    SArr.flatten = lambda self, order="C": SArr(self.a.flatten(order or "C"), self.dt)
    for i in (1, 2, 3):
        S["atleast_%dd" % i] = _atleast(i)
    _stackers()
    S["r_"], S["c_"], S["s_"], S["index_exp"] = _RClass(0), _RClass(1), _SClass(), _SClass()
    S["mgrid"], S["ogrid"] = _MGrid(False), _MGrid(True)
    for f in (meshgrid, outer, matmul, dot, inner, cross, gradient, convolve, correlate, ediff1d, diff, select, choose, piecewise, putmask, place, put, copyto, take_along_axis, put_along_axis, take, compress, resize, pad, fromiter, ndenumerate, ravel_multi_index, round_, clip, nan_to_num, setdiff1d, setxor1d, intersect1d, searchsorted, digitize, array_equal, allclose, isclose, apply_along_axis, vectorize, linspace, identity, eye, tri, indices):
        S[f.__name__] = f
    S["vdot"] = inner
    S["trapz"] = S["trapezoid"] = trapz
    S["around"] = round_
    S["reshape"] = lambda a, s, order="C", **k: (a if isinstance(a, SMa) else _aa(a)).reshape(s)
    S["ravel"] = lambda a, order="C": a.ravel() if isinstance(a, SMa) else _aa(a).ravel(order)
    S["copy"] = lambda a, **k: a.copy() if isinstance(a, (SMa, SStruct)) else _aa(a).copy()
    _full0 = S["full"]
    S["full"] = full
    for n in ("zeros_like", "ones_like", "empty_like", "full_like"):
        S[n] = _like(S[n], n == "full_like")
    S["broadcast_arrays"] = lambda *a, **k: [SArr(x, y.dt) for x, y in zip(np.broadcast_arrays(*[_aa(v).a for v in a]), map(_aa, a))]
    S["array_equiv"] = lambda a, b: (_aa(a) == _aa(b)).all()
    S["divmod"] = _divmod
    S["gcd"] = lambda a, b: math.gcd(int(a), int(b))
    S["e"], S["euler_gamma"] = math.e, np.euler_gamma
    S["True_"], S["False_"] = np.bool_(True), np.bool_(False)
    S["str_"], S["object_"], S["complex128"] = np.str_, np.object_, np.complex128
    S["can_cast"] = lambda a, b, casting="safe": np.can_cast(as_dtype(a) if not isinstance(a, SArr) else a.dt, as_dtype(b), casting)
    S["promote_types"] = lambda a, b: np.promote_types(as_dtype(a), as_dtype(b))
    S["min_scalar_type"] = lambda v: np.min_scalar_type(v)
    S["set_printoptions"] = lambda *a, **k: None
    S["array2string"] = lambda a, *x, **k: repr(a)
    S["iterable"] = lambda x: hasattr(x, "__iter__") or hasattr(x, "__len__")
    S["shares_memory"] = S["may_share_memory"] = lambda a, b, *x: np.shares_memory(a.a, b.a)
    S["intc"], S["short"], S["half"] = snp.int32, snp.int16, snp.float32
    S["ndenumerate"] = ndenumerate
    _install_ufuncs()
    _smath()
    # masked arrays
    SMa.prod = lambda self: _prod(self._valid())
    SMa.ptp = lambda self: self.max() - self.min()
    SMa.std = lambda self, **k: _std(self.compressed(), **k)
    SMa.var = lambda self, **k: _var(self.compressed(), **k)
    SMa.flatten = lambda self, order="C": self.reshape(-1).copy()
    SMa.transpose = lambda self, *a: SMa(self.d.transpose(*a), None if self.m is None else self.m.transpose(*a))
    SMa.squeeze = lambda self, *a: SMa(self.d.squeeze(*a), None if self.m is None else self.m.squeeze(*a))
    SMa.swapaxes = lambda self, i, j: SMa(self.d.swapaxes(i, j), None if self.m is None else self.m.swapaxes(i, j))
    SMa.fill = lambda self, v: self.__setitem__(Ellipsis, v)
    SMa.take = lambda self, i, axis=None: take(self, i, axis)
    SMa.clip = lambda self, *a, **k: SMa(clip(self.d, *a, **k), self.m)
    SMa.round = lambda self, decimals=0: SMa(round_(self.d, decimals), self.m)
    SMa.repeat = lambda self, n, axis=None: SMa(snp.repeat(self.d, n, axis), None if self.m is None else snp.repeat(self.m, n, axis))
    SMa.cumsum = lambda self, axis=None: S["cumsum"](self, axis)
    SMa.item = lambda self, *a: self.d.item(*a)
    SMa.tolist = lambda self: [None if k is not None and bool(k) else v for v, k in zip(self.d.a.flat, self.m.a.flat if self.m is not None else [None] * self.size)] if self.ndim == 1 else _no("tolist")
    SMa.nonzero = lambda self: snp.nonzero(self.filled(0))
    SMa.__abs__ = lambda self: SMa(abs(self.d), self.m)
    SMa.__iter__ = lambda self: (self[i] for i in range(len(self)))
    SMa.harden_mask = SMa.soften_mask = lambda self: None
    SMa.fill_value = 1e20
    SMa.nomask = False
    for n, i in (("sum", 0), ("mean", 0.0), ("min", 0), ("max", 0), ("any", False), ("all", True)):
        _ma_ax(n, i)
    S["ma"] = _mk_ma()


def _no(n):
    raise EngineUnsupported(n)


def _prod(l):
    r = 1
    for x in l:
        r = r * x
    return r


def _diag0(a, k=0):
    n = len(a) + abs(k)
    o = np.empty((n, n), dtype=object)
    o.reshape(-1)[:] = [0] * (n * n)
    for i, v in enumerate(a):
        o[i + max(0, -k), i + max(0, k)] = v
    return o


def _reshape(self, *s, order="C", **k):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = tuple(s[0])
    elif len(s) == 1 and isinstance(s[0], SArr):
        s = tuple(s[0].a.reshape(-1))
    s = tuple(int(v) for v in s)
    return SArr(self.a.reshape(s, order=order), self.dt)


def _smath():
    pass
