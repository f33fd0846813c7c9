"""Symbolic stand-in for the parts of numpy the code under test uses.

Arrays (SArr) are numpy *object* arrays of python/symbolic scalars plus a logical dtype; views share
memory exactly like numpy views.  Shapes are always concrete.  Sorting, boolean-mask indexing and
set operations fork on the comparisons they need; reads/writes at a symbolic index become
if-then-else chains guarded by a bounds check that raises IndexError.
"""
import builtins
import math
import types
from fractions import Fraction

import numpy as np
import z3

from . import engine as eng
from .engine import (
    EngineUnsupported,
    SBool,
    SInt,
    SReal,
    And,
    Or,
    Not,
    can_ite,
    is_bool_like,
    is_sym,
    ite,
    mkb,
    iv,
    sint,
    tobool,
)

nan = float("nan")
inf = float("inf")
pi = math.pi
newaxis = None
dtype = np.dtype


def _isnan1(x):
    return isinstance(x, (float, np.floating)) and x != x


# ------------------------------------------------------------------ scalar casts
def cast(x, dt):
    """Value of scalar x stored in an element of dtype dt."""
    k = dt.kind
    if k == "f":
        if isinstance(x, SReal):
            return x
        if isinstance(x, (SInt, SBool)):
            return SReal.of(x) if isinstance(x, SInt) else SReal.of(x._int())
        if isinstance(x, Fraction):
            return float(x)
        x = float(x)
        if dt.itemsize == 4:
            return float(np.float32(x))
        return x
    if k in "iu":
        if isinstance(x, SReal):
            x = x.trunc()
        elif isinstance(x, SBool):
            x = x._int()
        if isinstance(x, SInt):
            r = sint(x.e, x.lo, x.hi, dt)
            if isinstance(r, SInt):
                return r if r.dt == dt else SInt(r.e, r.lo, r.hi, dt)
            return r
        if isinstance(x, (float, np.floating)):
            if not math.isfinite(x):
                x = -(1 << 63)
            x = int(x)
        x = int(x)
        bits = dt.itemsize * 8
        if k == "u":
            v = x % (1 << bits)
            return v if dt.itemsize == 8 and v < (1 << 62) and False else SInt(iv(v), v, v, dt)
        return (x + (1 << (bits - 1))) % (1 << bits) - (1 << (bits - 1))
    if k == "b":
        if isinstance(x, SBool):
            return x
        if isinstance(x, (SInt, SReal)):
            r = x != 0
            return r if isinstance(r, SBool) else np.bool_(r)
        return np.bool_(bool(x))
    return x


def _dtype_of(x):
    """(dtype, is_scalar) used for promotion."""
    if isinstance(x, SArr):
        return x.dt
    if isinstance(x, (bool, np.bool_, SBool)):
        return np.dtype(bool)
    if isinstance(x, SInt):
        return x.dt or np.dtype("i8")
    if isinstance(x, (np.integer, np.floating)):
        return x.dtype
    if isinstance(x, int):
        return np.dtype("i8")
    if isinstance(x, (float, SReal, Fraction)):
        return np.dtype("f8")
    if isinstance(x, (np.datetime64, np.timedelta64)):
        return x.dtype
    return np.dtype(object)


_KIND = {"b": 0, "u": 1, "i": 1, "f": 2, "c": 3, "O": 9, "U": 8, "S": 8, "M": 7, "m": 7}


def _promote(a, b):
    """Result dtype of an array operation with at least one array operand."""
    da, db = _dtype_of(a), _dtype_of(b)
    A, B = isinstance(a, SArr) and a.a.ndim > 0, isinstance(b, SArr) and b.a.ndim > 0
    if da.kind not in _KIND or db.kind not in _KIND or _KIND[da.kind] >= 7 or _KIND[db.kind] >= 7:
        return np.dtype(object)
    if eng.E.numba_depth:
        # numba array expressions: plain type promotion of element and scalar types
        if da.kind in "iu" and db.kind in "iu" and not (A and B):
            return _scal_int(a if A else b, b if A else a)
        return np.result_type(da, db)
    if A != B:
        arr, sc, scv = (da, db, b) if A else (db, da, a)
        if _KIND[arr.kind] >= _KIND[sc.kind]:
            if arr.kind == "u" and sc.kind == "i":
                neg = None
                if isinstance(scv, (int, np.integer)):
                    neg = int(scv) < 0
                elif isinstance(scv, SInt) and scv.lo is not None and scv.lo >= 0:
                    neg = False
                if neg is None or neg:
                    return np.result_type(arr, np.dtype("i1"))
            if arr.kind == "i" and sc.kind in "iu" or arr.kind == "u":
                if isinstance(scv, (int, np.integer)):
                    r = np.result_type(arr, np.min_scalar_type(int(scv)))
                    return r if r.kind in "iu" else np.dtype("i8")
            return arr
        if sc.kind == "f" and arr.kind in "iub":
            return np.result_type(arr, np.dtype("f2") if arr.itemsize <= 1 and arr.kind != "b" else np.dtype("f8")) if True and arr.kind != "b" and not isinstance(scv, float) else np.dtype("f8")
        return np.result_type(arr, sc)
    return np.result_type(da, db)


def _scal_int(arr, sc):
    da, ds = arr.dt, _dtype_of(sc)
    if da.kind == ds.kind == "u":
        return np.dtype("u8")
    if "u" in (da.kind, ds.kind) and (da if da.kind == "u" else ds).itemsize == 8:
        return np.dtype("f8")
    return np.dtype("i8")


def _div(a, b):
    if is_sym(b):
        z = b == 0
        if not (z is False):
            if bool(z):
                if is_sym(a):
                    z2 = a == 0
                    if bool(z2):
                        return nan
                    return inf if bool(a > 0) else -inf
                a = float(a)
                return nan if a == 0 or a != a else math.copysign(inf, a)
        return a / b
    b_ = float(b) if not isinstance(b, Fraction) else b
    if b_ == 0:
        if is_sym(a):
            if bool(a == 0):
                return nan
            return inf if bool(a > 0) else -inf
        a = float(a)
        return nan if a == 0 or a != a else math.copysign(inf, a)
    if isinstance(b_, float) and math.isinf(b_):
        return 0.0
    if is_sym(a):
        return a / b
    return float(a) / float(b)


class NInt(int):
    """concrete result of a reduction: a numpy scalar, whose division by zero gives inf or nan"""

    __slots__ = ()

    def __truediv__(self, o):
        return _div(int(self), o) if isinstance(o, (int, float)) else int(self) / o

    def __rtruediv__(self, o):
        return _div(o, int(self)) if isinstance(o, (int, float)) else o / int(self)


def _nint(f):
    def g(self, o):
        r = f(int(self), int(o) if isinstance(o, int) else o) if not is_sym(o) else NotImplemented
        return NInt(r) if type(r) is int else r

    return g


for _n in ("add", "sub", "mul"):
    setattr(NInt, "__%s__" % _n, _nint(getattr(int, "__%s__" % _n)))
    setattr(NInt, "__r%s__" % _n, _nint(getattr(int, "__r%s__" % _n)))


def _floordiv(a, b):
    if not is_sym(b) and float(b) == 0:
        return nan if isinstance(a, (float, SReal)) else 0
    return a // b


def _fmod(a, b):
    if not is_sym(a) and not is_sym(b):
        if float(b) == 0:
            return nan
        if not math.isfinite(float(a)):
            return nan
    return a % b


def _s_and(a, b):
    if isinstance(a, (SInt,)) or isinstance(b, SInt):
        return a & b
    if is_sym(a) or is_sym(b):
        return And(a, b)
    return a & b


def _s_or(a, b):
    if is_sym(a) or is_sym(b):
        if is_bool_like(a) and is_bool_like(b):
            return Or(a, b)
    return a | b


def _s_xor(a, b):
    return a ^ b


def _wrap_el(v, dt):
    """normalise the result of an elementwise op into dtype dt"""
    if dt.kind == "O":
        return v
    return cast(v, dt)


def _ew(f, a, b, dt=None):
    """elementwise binary op"""
    a_ = a.a if isinstance(a, SArr) else a
    b_ = b.a if isinstance(b, SArr) else b
    if not isinstance(a_, np.ndarray):
        a_ = _obj0(a_)
    if not isinstance(b_, np.ndarray):
        b_ = _obj0(b_)
    A, B = np.broadcast_arrays(a_, b_)
    out = np.empty(A.shape, dtype=object)
    of = out.reshape(-1)
    d = dt
    if d is not None and d.kind == "O":
        d = None
    for i, (x, y) in enumerate(zip(A.flat, B.flat)):
        v = f(x, y)
        of[i] = v if d is None else cast(v, d)
    return SArr(of.reshape(A.shape), dt if dt is not None else np.dtype(object))


def _obj0(x):
    o = np.empty((), dtype=object)
    o[()] = x
    return o


def _un(f, a, dt):
    out = np.empty(a.a.shape, dtype=object)
    of = out.reshape(-1)
    for i, x in enumerate(a.a.flat):
        of[i] = _wrap_el(f(x), dt)
    return SArr(of.reshape(a.a.shape), dt)


def _coerce(o):
    """list/tuple/ndarray -> SArr, scalars unchanged"""
    if isinstance(o, (list, tuple)):
        return array(o)
    if isinstance(o, np.ndarray):
        return from_np(o)
    if isinstance(o, SMa):
        return o
    return o


def _mkop(f, kind, swap=False):
    def op(self, o):
        if isinstance(o, SMa):
            return NotImplemented
        if o is None or isinstance(o, str):
            if kind == "cmp":
                return _un(lambda x: False, self, np.dtype(bool))
            return NotImplemented
        o = _coerce(o)
        a, b = (o, self) if swap else (self, o)
        if kind == "cmp":
            dt = np.dtype(bool)
        elif kind == "div":
            dt = _promote(a, b)
            if dt.kind in "iub":
                dt = np.dtype("f8")
        else:
            dt = _promote(a, b)
            if kind == "arith" and dt.kind == "b":
                dt = np.dtype(bool) if f in (_op_add, _op_mul) else np.dtype("i8")
        r = _ew(f, a, b, dt)
        if r.a.ndim == 0:
            return r.a[()]
        return r

    return op


def _op_add(x, y):
    if is_bool_like(x) and is_bool_like(y):
        return _s_or(x, y)
    return x + y


def _op_sub(x, y):
    return x - y


def _op_mul(x, y):
    if is_bool_like(x) and is_bool_like(y):
        return _s_and(x, y)
    return x * y


def _lt(x, y):
    return x < y


def _le(x, y):
    return x <= y


def _gt(x, y):
    return x > y


def _ge(x, y):
    return x >= y


def _eq(x, y):
    return x == y


def _ne(x, y):
    return x != y


def _pow_(x, y):
    if not is_sym(x) and not is_sym(y):
        return x**y
    if is_sym(y):
        raise EngineUnsupported("symbolic exponent")
    return eng._pow(x, y if not isinstance(y, np.generic) else y.item())


def _neg(x):
    return -x


def _key_has_sym(k):
    if isinstance(k, (SInt, SBool)):
        return True
    if isinstance(k, SArr):
        return any(is_sym(v) for v in k.a.flat)
    return False


def _conc_int_arr(k):
    return np.array([int(v) for v in k.a.flat], dtype=int).reshape(k.a.shape)


def _norm_key(k, n=None):
    """one key component -> numpy key component without symbolic content (may fork)."""
    if isinstance(k, list):
        k = array(k)
    if isinstance(k, np.ndarray):
        return k
    if isinstance(k, SArr):
        if k.dt.kind == "b":
            return np.array([bool(v) for v in k.a.flat], dtype=bool).reshape(k.a.shape)
        if k.dt.kind in "iu" or k.dt.kind == "O" or k.a.size == 0:
            return _conc_int_arr(k)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(k, SInt):
        if k.lo is not None and k.lo == k.hi:
            return k.lo
        return k
    if isinstance(k, SBool):
        return bool(k)
    if isinstance(k, slice):
        f = lambda v: v if v is None else int(v) if not isinstance(v, (float, SReal)) else _bad_slice()
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, (float, SReal)):
        raise IndexError("only integers, slices are valid indices")
    return k


def _bad_slice():
    raise TypeError("slice indices must be integers")


def _bound_index(k, n):
    """symbolic scalar index -> non negative expression, raising IndexError when outside"""
    bad = Or(k >= n, k < -n)
    if not (bad is False) and bool(bad):
        raise IndexError("index out of bounds (axis size %d)" % n)
    if k.lo is not None and k.lo >= 0:
        return k
    neg = k < 0
    if neg is False:
        return k
    return ite(neg, k + n, k)


def _sym_get(a, k):
    """a: object ndarray, k: SInt index on first axis -> object ndarray/scalar"""
    n = a.shape[0]
    k = _bound_index(k, n)
    if not isinstance(k, SInt):
        return a[int(k)]
    lo = max(0, k.lo) if k.lo is not None else 0
    hi = min(n - 1, k.hi) if k.hi is not None else n - 1
    if a.ndim == 1:
        r = a[hi]
        ok = all(can_ite(a[j], r) for j in range(lo, hi)) if hi > lo else True
        if not ok:
            return a[int(k)]
        for j in range(hi - 1, lo - 1, -1):
            r = ite(k == j, a[j], r)
        return r
    res = np.empty(a.shape[1:], dtype=object)
    rf = res.reshape(-1)
    flats = [a[j].reshape(-1) for j in range(n)]
    for p in range(rf.size):
        r = flats[hi][p]
        for j in range(hi - 1, lo - 1, -1):
            v = flats[j][p]
            if not can_ite(v, r):
                return a[int(k)]
            r = ite(k == j, v, r)
        rf[p] = r
    return res


class SArr:
    __slots__ = ("a", "dt", "ro")
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, a, dt):
        self.a = a
        self.dt = dt if isinstance(dt, np.dtype) else np.dtype(dt)

    # attributes
    shape = property(lambda s: s.a.shape)
    size = property(lambda s: s.a.size)
    ndim = property(lambda s: s.a.ndim)
    dtype = property(lambda s: s.dt)
    T = property(lambda s: SArr(s.a.T, s.dt))
    nbytes = property(lambda s: s.a.size * s.dt.itemsize)
    itemsize = property(lambda s: s.dt.itemsize)

    @property
    def flat(self):
        return iter(self.a.flat)

    def __setattr__(self, k, v):
        if k == "shape":
            self.a.shape = v
            return
        object.__setattr__(self, k, v)

    @property
    def data(self):
        return self

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError("len() of unsized object")
        return self.a.shape[0]

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.a.shape[0]):
            yield self._ret(self.a[i])

    def _ret(self, r):
        if isinstance(r, np.ndarray) and r.dtype == object:
            if r.ndim == 0:
                return r[()]
            return SArr(r, self.dt)
        return r

    def __getitem__(self, key):
        if isinstance(key, str):
            raise IndexError("only integers, slices are valid indices")
        # fast path
        if isinstance(key, int):
            return self._ret(self.a[key])
        if isinstance(key, SMa):
            key = key.data_filled_key()
        if not isinstance(key, tuple):
            if isinstance(key, SArr) and key.dt.kind in "iu" and _key_has_sym(key):
                vals = [self[k] for k in key.a.flat]
                return _from_list_like(vals, key.a.shape, self)
            k = _norm_key(key)
            if isinstance(k, SInt):
                r = _sym_get(self.a, k)
                return self._ret(r)
            return self._ret(self.a[k])
        # tuple
        key = tuple(key)
        if any(isinstance(k, SArr) and k.dt.kind in "iu" and k.a.ndim and _key_has_sym(k) for k in key):
            if len(key) == self.a.ndim and all(
                isinstance(k, (SArr, SInt, int, np.integer)) for k in key
            ):
                ks = [k.a if isinstance(k, SArr) else _obj0(k) for k in key]
                ks = np.broadcast_arrays(*ks)
                vals = [self[tuple(kk)] for kk in zip(*[x.flat for x in ks])]
                return _from_list_like(vals, ks[0].shape, self)
        key = tuple(_norm_key(k) for k in key)
        if any(isinstance(k, SInt) for k in key):
            if any(isinstance(k, np.ndarray) for k in key) or any(k is Ellipsis or k is None for k in key):
                key = tuple(int(k) if isinstance(k, SInt) else k for k in key)
                return self._ret(self.a[key])
            # resolve symbolic axes one at a time
            a = self.a
            ax = 0
            for k in key:
                if isinstance(k, SInt):
                    mv = np.moveaxis(a, ax, 0)
                    r = _sym_get(mv, k)
                    a = r if isinstance(r, np.ndarray) else _obj0(r)
                elif isinstance(k, (int, np.integer)):
                    a = a[(slice(None),) * ax + (k,)]
                    a = a if isinstance(a, np.ndarray) else _obj0(a)
                else:
                    a = a[(slice(None),) * ax + (k,)]
                    ax += 1
            return self._ret(a)
        return self._ret(self.a[key])

    def __setitem__(self, key, v):
        v = _coerce(v)
        if isinstance(v, SMa):
            v = v.d
        if isinstance(key, SMa):
            key = key.data_filled_key()
        if isinstance(key, SArr) and key.dt.kind == "b" and key.a.shape == self.a.shape and not isinstance(v, SArr):
            # masked fill with a scalar: if-then-else, no fork
            cv = cast(v, self.dt)
            for idx in np.ndindex(*self.a.shape):
                self.a[idx] = ite(key.a[idx], cv, self.a[idx]) if can_ite(cv, self.a[idx]) else (
                    cv if bool(key.a[idx]) else self.a[idx]
                )
            return
        if isinstance(key, SArr) and key.dt.kind in "iu" and _key_has_sym(key):
            if isinstance(v, SArr) and v.a.ndim:
                vv = np.broadcast_to(v.a, key.a.shape + self.a.shape[1:])
                for i, k in enumerate(key.a.flat):
                    self[k] = SArr(vv[i], v.dt) if vv[i : i + 1].ndim > 1 else vv[i]
            else:
                for k in key.a.flat:
                    self[k] = v
            return
        if isinstance(key, tuple) and any(
            isinstance(k, SArr) and k.dt.kind in "iu" and k.a.ndim and _key_has_sym(k) for k in key
        ):
            if len(key) == self.a.ndim and all(isinstance(k, (SArr, SInt, int, np.integer)) for k in key):
                ks = np.broadcast_arrays(*[k.a if isinstance(k, SArr) else _obj0(k) for k in key])
                vv = np.broadcast_to(v.a, ks[0].shape) if isinstance(v, SArr) else None
                for i, kk in enumerate(zip(*[x.flat for x in ks])):
                    self[tuple(kk)] = vv.flat[i] if vv is not None else v
                return
        if not isinstance(key, tuple):
            key = (key,)
        key = tuple(_norm_key(k) for k in key)
        if any(isinstance(k, SInt) for k in key):
            if any(isinstance(k, np.ndarray) or k is Ellipsis or k is None for k in key):
                key = tuple(int(k) if isinstance(k, SInt) else k for k in key)
            else:
                return self._sym_set(key, v)
        tgt = self.a[key]
        shp = tgt.shape if isinstance(tgt, np.ndarray) and tgt.dtype == object else ()
        if isinstance(v, SArr):
            src = v.a
            if src.ndim > len(shp):
                # leading ones
                while src.ndim > len(shp) and src.shape[0] == 1:
                    src = src[0] if src.ndim > 1 else src
                    if src.ndim == 1 and len(shp) == 0:
                        src = _obj0(src[0])
                        break
            if src.shape != shp:
                try:
                    src = np.broadcast_to(src, shp)
                except ValueError:
                    raise ValueError(
                        "could not broadcast input array from shape %s into shape %s" % (v.a.shape, shp)
                    )
            if shp == ():
                self.a[key] = cast(src[()], self.dt)
                return
            if self.dt == v.dt or self.dt.kind == "O":
                new = src.copy()
            else:
                new = np.empty(shp, dtype=object)
                nf = new.reshape(-1)
                for i, x in enumerate(src.flat):
                    nf[i] = cast(x, self.dt)
                new = nf.reshape(shp)
            self.a[key] = new
        else:
            c = cast(v, self.dt) if self.dt.kind != "O" else v
            if shp == ():
                self.a[key] = c
            else:
                new = np.empty(shp, dtype=object)
                new.reshape(-1)[:] = [c] * new.size
                self.a[key] = new

    def _sym_set(self, key, v):
        """some components of key are symbolic scalars, the others ints or slices"""
        axis = next(i for i, k in enumerate(key) if isinstance(k, SInt))
        k = key[axis]
        # axis position in array = number of key components before (ints keep their axis here)
        n = self.a.shape[axis]
        k = _bound_index(k, n)
        if not isinstance(k, SInt):
            self[key[:axis] + (int(k),) + key[axis + 1 :]] = v
            return
        lo = max(0, k.lo) if k.lo is not None else 0
        hi = min(n - 1, k.hi) if k.hi is not None else n - 1
        plain = not any(isinstance(q, SInt) for q in key[axis + 1 :])
        if plain:
            cands = []
            ok = True
            for j in range(lo, hi + 1):
                kk = key[:axis] + (j,) + key[axis + 1 :]
                cur = self.a[kk]
                if isinstance(cur, np.ndarray) and cur.dtype == object:
                    vv = np.broadcast_to(v.a if isinstance(v, SArr) else _obj0(v), cur.shape)
                    new = np.empty(cur.shape, dtype=object)
                    for idx in np.ndindex(*cur.shape):
                        c = cast(vv[idx], self.dt)
                        if not can_ite(c, cur[idx]):
                            ok = False
                            break
                        new[idx] = ite(k == j, c, cur[idx])
                    if not ok:
                        break
                    cands.append((kk, new))
                else:
                    x = v.a.reshape(-1)[0] if isinstance(v, SArr) else v
                    c = cast(x, self.dt)
                    if not can_ite(c, cur):
                        ok = False
                        break
                    cands.append((kk, ite(k == j, c, cur)))
            if ok:
                for kk, new in cands:
                    self.a[kk] = new
                return
        self[key[:axis] + (int(k),) + key[axis + 1 :]] = v

    # operators
    __add__, __radd__ = _mkop(_op_add, "arith"), _mkop(_op_add, "arith", True)
    __sub__, __rsub__ = _mkop(_op_sub, "arith"), _mkop(_op_sub, "arith", True)
    __mul__, __rmul__ = _mkop(_op_mul, "arith"), _mkop(_op_mul, "arith", True)
    __truediv__, __rtruediv__ = _mkop(_div, "div"), _mkop(_div, "div", True)
    __floordiv__, __rfloordiv__ = _mkop(_floordiv, "arith"), _mkop(_floordiv, "arith", True)
    __mod__, __rmod__ = _mkop(_fmod, "arith"), _mkop(_fmod, "arith", True)
    __pow__, __rpow__ = _mkop(_pow_, "arith"), _mkop(_pow_, "arith", True)
    __and__, __rand__ = _mkop(_s_and, "bit"), _mkop(_s_and, "bit", True)
    __or__, __ror__ = _mkop(_s_or, "bit"), _mkop(_s_or, "bit", True)
    __xor__, __rxor__ = _mkop(_s_xor, "bit"), _mkop(_s_xor, "bit", True)
    __lt__, __le__, __gt__, __ge__ = (_mkop(f, "cmp") for f in (_lt, _le, _gt, _ge))
    __eq__, __ne__ = _mkop(_eq, "cmp"), _mkop(_ne, "cmp")

    def _inplace(name):
        def op(self, o):
            r = getattr(self, "__%s__" % name)(o)
            if r is NotImplemented:
                return r
            if isinstance(r, SArr) and r.dt.kind == "f" and self.dt.kind in "iu" and not eng.E.numba_depth:
                raise TypeError("Cannot cast ufunc output from float64 to %s with casting rule same_kind" % self.dt)
            self[...] = r
            return self

        return op

    for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor"):
        locals()["__i%s__" % _n] = _inplace(_n)
    del _n

    def __neg__(self):
        return _un(_neg, self, self.dt)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return _un(abs, self, self.dt)

    def __invert__(self):
        if self.dt.kind == "b":
            return _un(lambda x: ~x if is_sym(x) else np.bool_(not x), self, self.dt)
        return _un(lambda x: -1 - x, self, self.dt)

    def __bool__(self):
        if self.a.size == 1:
            return bool(self.a.reshape(-1)[0])
        if self.a.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __int__(self):
        if self.a.size == 1:
            return int(self.a.reshape(-1)[0])
        raise TypeError("only size-1 arrays can be converted")

    __index__ = __int__

    def __float__(self):
        return float(self.a.reshape(-1)[0])

    def __contains__(self, v):
        return bool((self == v).any())

    # methods
    def copy(self, order=None):
        return SArr(self.a.copy(), self.dt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, copy=True):
        dt = as_dtype(dt)
        return _un(lambda x: x, self, dt)

    def view(self, *a, **k):
        return SArr(self.a, self.dt)

    def reshape(self, *s, **k):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        s = tuple(int(v) for v in s)
        return SArr(self.a.reshape(s), self.dt)

    def ravel(self, order=None):
        return SArr(self.a.ravel(), self.dt)

    def flatten(self, order=None):
        return SArr(self.a.flatten(), self.dt)

    def transpose(self, *ax):
        return SArr(self.a.transpose(*ax), self.dt)

    def squeeze(self, *a):
        return SArr(self.a.squeeze(*a), self.dt)

    def swapaxes(self, i, j):
        return SArr(self.a.swapaxes(i, j), self.dt)

    def fill(self, v):
        self[...] = v

    def tolist(self):
        return self.a.tolist()

    def item(self, *a):
        if a:
            return self[a[0] if len(a) == 1 else a]
        return self.a.reshape(-1)[0]

    def _axis(self, f, axis, dt, keepdims=False):
        if axis is None:
            r = f(list(self.a.flat))
            return cast(r, dt) if dt.kind in "fiub" and not (dt.kind == "u") else r
        mv = np.moveaxis(self.a, axis, -1)
        out = np.empty(mv.shape[:-1], dtype=object)
        for idx in np.ndindex(*mv.shape[:-1]):
            out[idx] = cast(f(list(mv[idx])), dt)
        if out.ndim == 0:
            return out[()]
        if keepdims:
            out = np.expand_dims(out, axis)
        return SArr(out, dt)

    def _sumdt(self):
        if self.dt.kind in "b":
            return np.dtype("i8")
        if self.dt.kind == "i":
            return np.dtype("i8")
        if self.dt.kind == "u":
            return np.dtype("u8")
        return self.dt

    def sum(self, axis=None, dtype=None, **k):
        def f(l):
            l = [x._int() if isinstance(x, SBool) else (int(x) if is_bool_like(x) else x) for x in l]
            s = 0 if self.dt.kind != "f" else 0.0
            for x in l:
                s = s + x
            return s

        dt = as_dtype(dtype) if dtype is not None else self._sumdt()
        r = self._axis(f, axis, dt)
        return NInt(r) if type(r) is int else r

    def prod(self, axis=None, **k):
        def f(l):
            s = 1
            for x in l:
                s = s * x
            return s

        return self._axis(f, axis, self._sumdt())

    def any(self, axis=None, **k):
        return self._axis(lambda l: Or([tobool_any(x) for x in l]) if l else False, axis, np.dtype(bool))

    def all(self, axis=None, **k):
        return self._axis(lambda l: And([tobool_any(x) for x in l]) if l else True, axis, np.dtype(bool))

    def mean(self, axis=None, dtype=None, **k):
        def f(l):
            s = 0.0
            for x in l:
                s = s + (x._int() if isinstance(x, SBool) else x)
            return _div(s, len(l))

        return self._axis(f, axis, self.dt if self.dt.kind == "f" else np.dtype("f8"))

    def min(self, axis=None, initial=None, **k):
        if self.a.size == 0:
            raise ValueError("zero-size array to reduction operation minimum which has no identity")
        return self._axis(lambda l: _minmax(l, _lt), axis, self.dt)

    def max(self, axis=None, **k):
        if self.a.size == 0:
            raise ValueError("zero-size array to reduction operation maximum which has no identity")
        return self._axis(lambda l: _minmax(l, _gt), axis, self.dt)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def argmin(self, axis=None):
        if self.a.size == 0:
            raise ValueError("attempt to get argmin of an empty sequence")
        return self._axis(lambda l: _argm(l, _lt), axis, np.dtype("i8"))

    def argmax(self, axis=None):
        if self.a.size == 0:
            raise ValueError("attempt to get argmax of an empty sequence")
        if self.dt.kind == "b":
            return self._axis(lambda l: _argm([x._int() if isinstance(x, SBool) else int(x) for x in l], _gt), axis, np.dtype("i8"))
        return self._axis(lambda l: _argm(l, _gt), axis, np.dtype("i8"))

    def cumsum(self, axis=None, **k):
        r, s = [], 0
        if self.a.ndim > 1:
            raise EngineUnsupported("cumsum 2d")
        for x in self.a.flat:
            x = x._int() if isinstance(x, SBool) else (int(x) if is_bool_like(x) else x)
            s = x + s
            r.append(s)
        return _mk(r, self._sumdt())

    def argsort(self, axis=-1, kind=None, order=None):
        if self.a.ndim != 1:
            raise EngineUnsupported("argsort nd")
        l = list(self.a)
        idx = sorted(range(len(l)), key=_Key.make(l).__getitem__)
        return _mk(idx, np.dtype("i8"))

    def sort(self, axis=-1, kind=None, order=None):
        if self.a.ndim != 1:
            raise EngineUnsupported("sort nd")
        l = list(self.a)
        idx = sorted(range(len(l)), key=_Key.make(l).__getitem__)
        self.a[:] = [l[i] for i in idx]

    def nonzero(self):
        return nonzero(self)

    def take(self, idx, axis=None, **k):
        return self[idx] if axis in (None, 0) else self[(slice(None),) * axis + (idx,)]

    def repeat(self, n, axis=None):
        return repeat(self, n, axis)

    def round(self, decimals=0):
        return round_(self, decimals)

    def clip(self, lo, hi):
        return clip(self, lo, hi)

    def std(self, *a, **k):
        raise EngineUnsupported("std")

    def searchsorted(self, v, side="left"):
        return searchsorted(self, v, side)

    def __repr__(self):
        return "SArr(%s,%s)" % (self.a.shape, self.dt)

    def __format__(self, s):
        return repr(self)


def tobool_any(x):
    if is_bool_like(x):
        return x
    if is_sym(x):
        return x != 0
    return bool(x)


class _Key:
    """total order with nan last, stable"""

    __slots__ = ("v", "i")

    @staticmethod
    def make(l):
        r = []
        for i, v in enumerate(l):
            k = _Key()
            k.v, k.i = v, i
            r.append(k)
        return r

    def __lt__(self, o):
        if _isnan1(self.v):
            return False
        if _isnan1(o.v):
            return True
        return bool(self.v < o.v)


def _minmax(l, better):
    r = l[0]
    for x in l[1:]:
        if _isnan1(r):
            return r
        if _isnan1(x):
            return x
        r = ite(better(x, r), x, r)
    return r


def _argm(l, better):
    r, k = l[0], 0
    for i, x in enumerate(l[1:], 1):
        if _isnan1(r):
            return k
        if _isnan1(x):
            return i
        c = better(x, r)
        r, k = ite(c, x, r), ite(c, i, k)
    return k


def _mk(l, dt):
    o = np.empty(len(l), dtype=object)
    dt = np.dtype(dt)
    for i, x in enumerate(l):
        o[i] = cast(x, dt)
    return SArr(o, dt)


def _from_list_like(vals, shape, like):
    """list of element results (scalars or SArr rows) -> array"""
    if not vals:
        return SArr(np.empty(tuple(shape) + like.a.shape[1:], dtype=object), like.dt)
    if isinstance(vals[0], SArr):
        o = np.empty((len(vals),) + vals[0].a.shape, dtype=object)
        for i, v in enumerate(vals):
            o[i] = v.a
        return SArr(o.reshape(tuple(shape) + vals[0].a.shape), like.dt)
    o = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        o[i] = v
    return SArr(o.reshape(shape), like.dt)


def from_np(x):
    o = np.empty(x.shape, dtype=object)
    of = o.reshape(-1)
    for i, v in enumerate(x.flat):
        if isinstance(v, SArr):
            v = v.item()
        of[i] = v.item() if isinstance(v, np.generic) and x.dtype.kind in "iuf" else v
    r = SArr(of.reshape(x.shape), x.dtype if x.dtype != object else _infer(list(x.flat)))
    if r.dt.kind in "ub":
        return r.astype(r.dt)
    return r


def as_dtype(dt):
    if dt is None:
        return np.dtype("f8")
    if isinstance(dt, np.dtype):
        return dt
    if isinstance(dt, type) and issubclass(dt, SArr):
        return np.dtype(object)
    m = getattr(dt, "_np", None)
    if m is not None:
        return np.dtype(m)
    if dt is _b_float or dt is float:
        return np.dtype("f8")
    if dt is _b_int or dt is int:
        return np.dtype("i8")
    if dt is bool:
        return np.dtype(bool)
    if isinstance(dt, list):
        return np.dtype([tuple(d) for d in dt])
    return np.dtype(dt)


_b_int, _b_float = int, float


def _infer(l):
    dt = None
    for v in l:
        d = _dtype_of(v)
        if d.kind == "O" and isinstance(v, str):
            return np.dtype(object)
        dt = d if dt is None else (np.result_type(dt, d) if d.kind != "O" and dt.kind != "O" else np.dtype(object))
    return dt if dt is not None else np.dtype("f8")


# ------------------------------------------------------------------ structured arrays
class SRec:
    """one row of a structured array (a view)"""

    __slots__ = ("s", "i")

    def __init__(self, s, i):
        self.s, self.i = s, i

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)):
            k = self.s.names[k]
        return self.s.f[k][self.i]

    def __setitem__(self, k, v):
        self.s.f[k][self.i] = v

    @property
    def dtype(self):
        return self.s.dtype

    def item(self):
        return tuple(self.s.f[k][self.i] for k in self.s.names)

    def copy(self):
        sub = self.s[self.i : self.i + 1].copy() if isinstance(self.i, int) else self.s[array([self.i])].copy()
        return SRec(sub, 0)


class SStruct:
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, f, n):
        self.f = f
        self._n = n

    @staticmethod
    def make(shape, dt, elem):
        if isinstance(shape, tuple):
            if len(shape) != 1:
                raise EngineUnsupported("nd structured array")
            shape = shape[0]
        n = int(shape)
        f = {}
        for name in dt.names:
            sub = dt[name]
            base, sh = (sub.subdtype if sub.subdtype else (sub, ()))
            f[name] = elem((n,) + tuple(sh), base)
        return SStruct(f, n)

    @property
    def names(self):
        return list(self.f)

    @property
    def dtype(self):
        return np.dtype(
            [(k, v.dt) if v.a.ndim == 1 else (k, v.dt, v.a.shape[1:]) for k, v in self.f.items()]
        )

    @property
    def shape(self):
        return (self._n,)

    @property
    def size(self):
        return self._n

    ndim = 1

    @property
    def data(self):
        return self

    def __len__(self):
        return self._n

    def __iter__(self):
        for i in range(self._n):
            yield SRec(self, i)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.f:
                raise ValueError("no field of name " + k)
            return self.f[k]
        if isinstance(k, (list, tuple)) and k and isinstance(k[0], str):
            return SStruct({n: self.f[n] for n in k}, self._n)
        if isinstance(k, (int, np.integer)):
            k = int(k)
            if k < -self._n or k >= self._n:
                raise IndexError("index %d is out of bounds for axis 0 with size %d" % (k, self._n))
            return SRec(self, k)
        if isinstance(k, SInt):
            return SRec(self, k)
        k = _conc_key(k)
        f = {n: v[k] for n, v in self.f.items()}
        if k is Ellipsis:
            return SStruct(f, self._n)
        n0 = next(iter(f.values())).a.shape[0] if f else 0
        return SStruct(f, n0)

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self.f[k][...] = v
            return
        if isinstance(k, (int, np.integer)) and isinstance(v, SRec):
            for n, m in zip(self.f, v.s.names):
                self.f[n][k] = v[m]
            return
        k = _conc_key(k)
        if isinstance(v, SRec):
            for n, m in zip(self.f, v.s.names):
                self.f[n][k] = v[m]
        elif isinstance(v, SStruct):
            # numpy assigns structured arrays by field position
            if len(v.f) != len(self.f):
                raise ValueError("structured assignment with different number of fields")
            for n, m in zip(self.f, v.f):
                self.f[n][k] = v.f[m]
        elif isinstance(v, tuple):
            for n, x in zip(self.f, v):
                self.f[n][k] = x
        else:
            for n in self.f:
                self.f[n][k] = v

    def copy(self):
        return SStruct({k: v.copy() for k, v in self.f.items()}, self._n)

    def view(self, *a, **k):
        return self

    def __eq__(self, o):
        r = ones(self._n, bool)
        for k in self.f:
            e = self.f[k] == o.f[k]
            if e.a.ndim > 1:
                e = e.all(axis=tuple(range(1, e.a.ndim))[0])
            r = r & e
        return r

    def sort(self, order=None, **k):
        idx = self.argsort(order=order)
        for n in self.f:
            self.f[n].a[...] = self.f[n].a[_conc_int_arr(idx)]

    def argsort(self, axis=-1, kind=None, order=None):
        order = [order] if isinstance(order, str) else list(order) if order is not None else self.names
        order = order + [n for n in self.names if n not in order]
        cols = [self.f[n].a for n in order]

        class K:
            __slots__ = ("i",)

            def __init__(s, i):
                s.i = i

            def __lt__(s, o):
                for c in cols:
                    if c.ndim > 1:
                        continue
                    x, y = c[s.i], c[o.i]
                    if _isnan1(x) or _isnan1(y):
                        if _isnan1(x) and _isnan1(y):
                            continue
                        return not _isnan1(x)
                    if bool(x < y):
                        return True
                    if bool(x > y):
                        return False
                return False

        return _mk(sorted(range(self._n), key=K), np.dtype("i8"))


def _conc_key(k):
    if isinstance(k, tuple) and len(k) == 1:
        k = k[0]
    k = _norm_key(k)
    if isinstance(k, SInt):
        return int(k)
    return k


# ------------------------------------------------------------------ masked arrays (minimal)
class SMa:
    """minimal masked array: data + mask"""

    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, d, m):
        self.d, self.m = d, m

    @staticmethod
    def of(x, mask=None):
        if isinstance(x, SMa):
            d, m = x.d, x.m
        else:
            d, m = _aa(x), None
        if mask is not None and not (isinstance(mask, (bool, np.bool_)) and not mask):
            mk = mask if isinstance(mask, SArr) else SArr(np.broadcast_to(_aa(mask).a if not is_bool_like(mask) else _obj0(mask), d.a.shape).copy(), np.dtype(bool))
            mk = mk.astype(bool)
            m = mk if m is None else (m | mk)
        return SMa(d, m)

    @property
    def mask(self):
        if self.m is None:
            return SArr(_obj0(np.bool_(False)), np.dtype(bool))
        return self.m

    @mask.setter
    def mask(self, v):
        if isinstance(v, SMa):
            v = v.d
        if isinstance(v, SArr) and v.a.ndim:
            self.m = v.astype(bool) if v.dt != np.dtype(bool) else v.copy()
        else:
            o = np.empty(self.d.a.shape, dtype=object)
            o.reshape(-1)[:] = [v] * o.size
            self.m = SArr(o, np.dtype(bool))

    @property
    def data(self):
        return self.d

    shape = property(lambda s: s.d.a.shape)
    size = property(lambda s: s.d.a.size)
    ndim = property(lambda s: s.d.a.ndim)
    dtype = property(lambda s: s.d.dt)
    T = property(lambda s: SMa(s.d.T, None if s.m is None else s.m.T))

    def filled(self, v=nan):
        if self.m is None:
            return self.d.copy()
        r = self.d.copy()
        r[self.m] = v
        return r

    def data_filled_key(self):
        return self.d

    def __len__(self):
        return len(self.d)

    def __getitem__(self, k):
        if isinstance(k, SMa):
            k = k.d
        d = self.d[k]
        m = self.m[k] if self.m is not None else None
        if not isinstance(d, SArr):
            if m is not None and bool(m):
                return masked
            return d
        return SMa(d, m)

    def __setitem__(self, k, v):
        if v is masked:
            if self.m is None:
                self.mask = np.bool_(False)
            self.m[k] = True
            return
        if isinstance(v, SMa):
            self.d[k] = v.d
            if v.m is not None:
                if self.m is None:
                    self.mask = np.bool_(False)
                self.m[k] = v.m
            elif self.m is not None:
                self.m[k] = False
            return
        self.d[k] = v
        if self.m is not None:
            self.m[k] = False

    def copy(self):
        return SMa(self.d.copy(), None if self.m is None else self.m.copy())

    def astype(self, dt):
        return SMa(self.d.astype(dt), None if self.m is None else self.m.copy())

    def reshape(self, *s):
        return SMa(self.d.reshape(*s), None if self.m is None else self.m.reshape(*s))

    def _binop(name):
        def op(self, o):
            m = self.m
            if isinstance(o, SMa):
                if o.m is not None:
                    m = o.m if m is None else (m | o.m)
                o = o.d
            d = getattr(self.d, name)(o)
            if not isinstance(d, SArr):
                return d
            return SMa(d, m)

        return op

    for _n in ("add", "sub", "mul", "truediv", "mod", "pow", "radd", "rsub", "rmul", "rtruediv", "lt", "le", "gt", "ge", "eq", "ne", "and", "or", "rand", "ror"):
        locals()["__%s__" % _n] = _binop("__%s__" % _n)
    del _n

    def __iadd__(self, o):
        r = self + o
        self.d[...] = r.d
        self.m = r.m
        return self

    def __isub__(self, o):
        r = self - o
        self.d[...] = r.d
        self.m = r.m
        return self

    def __imul__(self, o):
        r = self * o
        self.d[...] = r.d
        self.m = r.m
        return self

    def __itruediv__(self, o):
        r = self / o
        self.d[...] = r.d
        self.m = r.m
        return self

    def __neg__(self):
        return SMa(-self.d, self.m)

    def __invert__(self):
        return SMa(~self.d, self.m)

    def _valid(self):
        if self.m is None:
            return list(self.d.a.flat)
        return [x for x, k in zip(self.d.a.flat, self.m.a.flat) if not bool(k)]

    def compressed(self):
        return _mk(self._valid(), self.d.dt)

    def any(self, axis=None):
        return Or([tobool_any(x) for x in self._valid()]) if self._valid() else masked

    def all(self, axis=None):
        return And([tobool_any(x) for x in self._valid()])

    def sum(self, axis=None):
        s = 0
        for x in self._valid():
            s = x + s
        return s

    def mean(self, axis=None):
        v = self._valid()
        s = 0.0
        for x in v:
            s = x + s
        return _div(s, len(v)) if v else masked

    def min(self, axis=None):
        v = self._valid()
        return _minmax(v, _lt) if v else masked

    def max(self, axis=None):
        v = self._valid()
        return _minmax(v, _gt) if v else masked

    def ravel(self):
        return self.reshape(-1)

    def argmin(self, axis=None, fill_value=None, **k):
        return self.filled(inf if self.d.dt.kind == "f" else np.iinfo(self.d.dt).max).argmin(axis)

    def argmax(self, axis=None, fill_value=None, **k):
        return self.filled(-inf if self.d.dt.kind == "f" else np.iinfo(self.d.dt).min).argmax(axis)

    def count(self, axis=None):
        return len(self._valid())


class _Masked:
    mask = True

    def __repr__(self):
        return "masked"


masked = _Masked()


def _ma_concatenate(xs, axis=0):
    ds, ms, anym = [], [], False
    for x in xs:
        if isinstance(x, SMa):
            ds.append(x.d)
            ms.append(x.m if x.m is not None else zeros(x.d.shape, bool))
            anym |= x.m is not None
        else:
            x = _aa(x)
            ds.append(x)
            ms.append(zeros(x.shape, bool))
    return SMa(concatenate(ds, axis), concatenate(ms, axis) if anym else None)


ma = types.SimpleNamespace(
    array=lambda x, mask=None, dtype=None, copy=False: SMa.of(x if dtype is None else asarray(x).astype(dtype), mask),
    masked_array=lambda x, mask=None: SMa.of(x, mask),
    MaskedArray=SMa,
    masked=masked,
    nomask=False,
    zeros=lambda s, dtype=None: SMa(zeros(s, dtype), None),
    empty=lambda s, dtype=None: SMa(empty(s, dtype), None),
    ones=lambda s, dtype=None: SMa(ones(s, dtype), None),
    concatenate=_ma_concatenate,
    getmaskarray=lambda x: (x.m if isinstance(x, SMa) and x.m is not None else zeros(x.shape, bool)),
    getdata=lambda x: x.d if isinstance(x, SMa) else x,
    masked_invalid=lambda x: SMa.of(x, isnan(x if not isinstance(x, SMa) else x.d)),
    masked_where=lambda c, x: SMa.of(x, c),
    isMaskedArray=lambda x: isinstance(x, SMa),
    median=lambda x: median(x.compressed() if isinstance(x, SMa) else x),
)


# ------------------------------------------------------------------ creation
def _shape(s):
    if isinstance(s, SArr):
        s = [x for x in s.a.flat]
    if isinstance(s, (tuple, list)):
        return tuple(int(v) for v in s)
    return (int(s),)


class _Undef(eng.Sym):
    pass


def _fill(shape, v, dt):
    o = np.empty(_shape(shape), dtype=object)
    c = cast(v, dt) if dt.kind in "fiub" else v
    o.reshape(-1)[:] = [c] * o.size
    return SArr(o, dt)


def _make(shape, v, dt):
    dt = as_dtype(dt)
    if dt.names:
        return SStruct.make(shape, dt, lambda sh, d: _fill(sh, v, d))
    return _fill(shape, v, dt)


def zeros(shape, dtype=None, order=None):
    return _make(shape, 0, dtype)


def ones(shape, dtype=None, order=None):
    return _make(shape, 1, dtype)


GARBAGE = {"f": 7.25e8, "i": 77, "u": 77, "b": True}


def empty(shape, dtype=None, order=None):
    """Uninitialised memory: one arbitrary fixed garbage value (recorded as an assumption)."""
    dt = as_dtype(dtype)
    if dt.names:
        return SStruct.make(shape, dt, lambda sh, d: _fill(sh, GARBAGE.get(d.kind, 0), d))
    return _fill(shape, GARBAGE.get(dt.kind), dt)


def full(shape, v, dtype=None):
    if dtype is None:
        dtype = _dtype_of(v)
    return _make(shape, v, dtype)


def _aa(x):
    if isinstance(x, SArr):
        return x
    return array(x)


def zeros_like(x, dtype=None):
    return zeros(_aa(x).shape, dtype or _aa(x).dt)


def ones_like(x, dtype=None):
    return ones(_aa(x).shape, dtype or _aa(x).dt)


def empty_like(x, dtype=None):
    return empty(_aa(x).shape, dtype or _aa(x).dt)


def full_like(x, v, dtype=None):
    return full(_aa(x).shape, v, dtype or _aa(x).dt)


def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    if isinstance(x, SMa):
        x = x.d
    if isinstance(x, SStruct):
        return x.copy()
    if isinstance(x, SArr):
        dt = as_dtype(dtype) if dtype is not None else None
        if dt is not None and dt.names:
            # the value is given to every field
            s = SStruct.make(len(x), dt, lambda sh, d: _fill(sh, 0, d))
            for v in s.f.values():
                v[:] = x
            return s
        return x.copy() if dtype is None else x.astype(dtype)
    if isinstance(x, np.ndarray):
        r = from_np(x)
        return r if dtype is None else r.astype(dtype)
    if isinstance(x, (list, tuple, range, types.GeneratorType)) or hasattr(x, "__iter__") and not isinstance(x, (str, bytes)) and not is_sym(x):
        x = list(x)
        dt = as_dtype(dtype) if dtype is not None else None
        if dt is not None and dt.names:
            s = SStruct.make(len(x), dt, lambda sh, d: _fill(sh, 0, d))
            for i, row in enumerate(x):
                s[i] = row
            return s
        if not x and dt is None and eng.E.numba_depth:
            # compiled lists keep the type of their items even if empty: integers mix with every type
            dt = np.dtype("i8")
        if x and isinstance(x[0], SRec):
            raise EngineUnsupported("array of records")
        if x and (isinstance(x[0], (SArr, list, tuple, np.ndarray)) or hasattr(x[0], "__len__") and not isinstance(x[0], str)):
            subs = [array(v) for v in x]
            if len({s.a.shape for s in subs}) != 1:
                raise ValueError("inhomogeneous shape")
            r = stack(subs)
            return r if dt is None else r.astype(dt)
        if dt is None:
            x = [v.item() if isinstance(v, SArr) else v for v in x]
            dt = _infer(x)
        return _mk(x, dt)
    dt = as_dtype(dtype) if dtype is not None else _dtype_of(x)
    return SArr(_obj0(cast(x, dt) if dt.kind in "fiub" else x), dt)


def asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and dtype is None:
        return x
    return array(x, dtype)


asanyarray = ascontiguousarray = asfortranarray = asarray


def arange(*a, dtype=None):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a[:3]
    if all(isinstance(v, (int, np.integer, SInt)) for v in (start, stop, step)):
        step = int(step)
        n = stop - start
        n = -((-n) // step) if step > 0 else -(n // (-step)) if False else -((-n) // step)
        if isinstance(n, SInt):
            n = int(n)
        n = max(0, int(n))
        vals = [start + i * step for i in range(n)]
        return _mk(vals, as_dtype(dtype) if dtype is not None else np.dtype("i8"))
    if any(isinstance(v, (np.datetime64, np.timedelta64)) for v in (start, stop, step)):
        raise EngineUnsupported("datetime arange")
    n = (stop - start) / step
    if isinstance(n, SReal):
        c = -((-n).floor()) if isinstance(-n, SReal) else math.ceil(n)
        n = int(c) if not isinstance(c, SInt) else int(c)
    else:
        n = math.ceil(float(n))
    n = max(0, n)
    return _mk([start + i * step for i in range(n)], as_dtype(dtype) if dtype is not None else np.dtype("f8"))


def linspace(a, b, n=50, endpoint=True, dtype=None):
    n = int(n)
    d = (n - 1) if endpoint else n
    return _mk([a + (b - a) * Fraction(i, d) if (is_sym(a) or is_sym(b)) and d else (a + (b - a) * i / d if d else a) for i in range(n)], as_dtype(dtype))


def eye(n, dtype=None):
    r = zeros((n, n), dtype)
    for i in range(n):
        r[i, i] = 1
    return r


def meshgrid(x, y, indexing="xy"):
    x, y = _aa(x), _aa(y)
    X, Y = np.meshgrid(np.arange(len(x)), np.arange(len(y)), indexing=indexing)
    return x[array(X)] if False else SArr(x.a[X], x.dt), SArr(y.a[Y], y.dt)


# ------------------------------------------------------------------ manipulation
def concatenate(xs, axis=0, dtype=None):
    xs = list(xs)
    if any(isinstance(x, SMa) for x in xs):
        return _ma_concatenate(xs, axis).d
    if any(isinstance(x, SStruct) for x in xs):
        f = {}
        for k in xs[0].names:
            f[k] = concatenate([x.f[k] for x in xs])
        return SStruct(f, sum(x._n for x in xs))
    if any(isinstance(x, (set, frozenset)) for x in xs):
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    xs = [_aa(x) for x in xs]
    if not xs:
        raise ValueError("need at least one array to concatenate")
    dt = as_dtype(dtype) if dtype is not None else xs[0].dt
    if dtype is None:
        for x in xs[1:]:
            dt = np.result_type(dt, x.dt)
    return SArr(np.concatenate([x.astype(dt).a if x.dt != dt else x.a for x in xs], axis=axis), dt)


def stack(xs, axis=0):
    xs = [_aa(x) for x in xs]
    dt = xs[0].dt
    for x in xs[1:]:
        dt = np.result_type(dt, x.dt) if "O" not in (dt.kind, x.dt.kind) else np.dtype(object)
    return SArr(np.stack([x.astype(dt).a if x.dt != dt else x.a for x in xs], axis=axis), dt)


def vstack(xs):
    return concatenate([x.reshape(1, -1) if x.ndim == 1 else x for x in map(_aa, xs)])


def hstack(xs):
    xs = list(map(_aa, xs))
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def column_stack(xs):
    return stack(xs, axis=1)


def append(a, b, axis=None):
    a, b = _aa(a), _aa(b)
    if axis is None:
        a, b = a.ravel(), b.ravel()
        axis = 0
    return concatenate((a, b), axis)


def repeat(a, n, axis=None):
    if not isinstance(a, SArr):
        a = array(a)
        if a.ndim == 0:
            a = a.reshape(1)
    if axis is None:
        l = list(a.a.ravel())
        ns = [int(v) for v in n] if isinstance(n, (SArr, list, tuple)) else [int(n)] * len(l)
        if len(ns) == 1 and len(l) != 1:
            ns = ns * len(l)
        if len(ns) != len(l):
            raise ValueError("operands could not be broadcast together")
        if any(v < 0 for v in ns):
            raise ValueError("repeats may not contain negative values.")
        o = [v for v, k in zip(l, ns) for _ in range(k)]
        r = np.empty(len(o), dtype=object)
        for i, v in enumerate(o):
            r[i] = v
        return SArr(r, a.dt)
    return SArr(np.repeat(a.a, n if isinstance(n, int) else [int(v) for v in n], axis=axis), a.dt)


def tile(a, n):
    a = _aa(a)
    return SArr(np.tile(a.a, n), a.dt)


def roll(a, n, axis=None):
    a = _aa(a)
    return SArr(np.roll(a.a, int(n), axis=axis), a.dt)


def flip(a, axis=None):
    return SArr(np.flip(_aa(a).a, axis), _aa(a).dt)


def flipud(a):
    return flip(a, 0)


def ravel(a):
    return _aa(a).ravel()


def reshape(a, s):
    return _aa(a).reshape(s)


def transpose(a, *ax):
    return _aa(a).transpose(*ax)


def squeeze(a):
    return _aa(a).squeeze()


def atleast_1d(a):
    a = _aa(a)
    return a.reshape(1) if a.ndim == 0 else a


def expand_dims(a, axis):
    return SArr(np.expand_dims(_aa(a).a, axis), _aa(a).dt)


def broadcast_to(a, s):
    return SArr(np.broadcast_to(_aa(a).a, s), _aa(a).dt)


def copy(a):
    return _aa(a).copy()


def delete(a, idx, axis=None):
    a = _aa(a)
    if isinstance(idx, SArr):
        idx = _norm_key(idx)
    elif isinstance(idx, (list, tuple)):
        idx = [int(i) for i in idx]
    elif isinstance(idx, SInt):
        idx = int(idx)
    return SArr(np.delete(a.a, idx, axis=axis), a.dt)


def insert(a, idx, v, axis=None):
    a = _aa(a)
    if isinstance(idx, SArr):
        idx = _norm_key(idx)
    elif is_sym(idx):
        idx = int(idx)
    v = _aa(v).astype(a.dt).a
    return SArr(np.insert(a.a, idx, v, axis=axis), a.dt)


def take(a, idx, axis=None):
    return _aa(a).take(idx, axis)


def where(c, a=None, b=None):
    if isinstance(c, SMa):
        c = c.d  # numpy.where ignores the mask of the condition
    if a is None:
        return nonzero(c)
    if not isinstance(c, SArr):
        c = array(c)
    a_, b_ = _coerce(a), _coerce(b)
    dt = _promote(a_, b_) if isinstance(a_, SArr) or isinstance(b_, SArr) else np.result_type(_dtype_of(a_), _dtype_of(b_))
    C, A, B = np.broadcast_arrays(
        c.a, a_.a if isinstance(a_, SArr) else _obj0(a_), b_.a if isinstance(b_, SArr) else _obj0(b_)
    )
    o = np.empty(C.shape, dtype=object)
    of = o.reshape(-1)
    for i, (k, x, y) in enumerate(zip(C.flat, A.flat, B.flat)):
        k = tobool_any(k)
        of[i] = ite(k, cast(x, dt), cast(y, dt)) if isinstance(k, SBool) else (cast(x, dt) if k else cast(y, dt))
    r = SArr(of.reshape(C.shape), dt)
    return r.a[()] if r.a.ndim == 0 else r


def nonzero(c):
    if isinstance(c, SMa):
        c = c.filled(0)
    c = _aa(c)
    m = np.array([bool(v) for v in c.a.flat], dtype=bool).reshape(c.a.shape)
    return tuple(_mk([int(v) for v in r], np.dtype("i8")) for r in np.nonzero(m))


def flatnonzero(c):
    return nonzero(_aa(c).ravel())[0]


def argwhere(c):
    return stack(nonzero(c), axis=1)


def count_nonzero(c, axis=None):
    return (_aa(c) != 0).sum(axis) if _aa(c).dt.kind != "b" else _aa(c).sum(axis)


def compress(c, a):
    return _aa(a)[_aa(c)]


def extract(c, a):
    return _aa(a)[_aa(c)]


def diff(a, n=1, axis=-1):
    a = _aa(a)
    if a.ndim == 1:
        return a[1:] - a[:-1] if a.dt.kind != "b" else a[1:] ^ a[:-1]
    if axis in (0,):
        return a[1:] - a[:-1]
    return a[:, 1:] - a[:, :-1]


# ------------------------------------------------------------------ unary math
def _unary(f, dtf=None, strict=False):
    def g(x, out=None, **k):
        if isinstance(x, SMa):
            return SMa(g(x.d), x.m)
        if isinstance(x, (list, tuple, np.ndarray)):
            x = array(x)
        if isinstance(x, SArr):
            dt = dtf(x.dt) if dtf else x.dt
            r = _un(f, x, dt)
            if out is not None:
                out[...] = r
                return out
            return r if r.a.ndim else r.a[()]
        r = f(x)
        return np.float64(r) if type(r) is float and not eng.E.numba_depth else r

    return g


_BOOL = lambda d: np.dtype(bool)
_FLT = lambda d: d if d.kind == "f" else np.dtype("f8")

isnan = _unary(lambda x: np.bool_(_isnan1(x)), _BOOL)
isinf = _unary(lambda x: np.bool_(isinstance(x, (float, np.floating)) and math.isinf(x)), _BOOL)
isfinite = _unary(lambda x: np.bool_(is_sym(x) or math.isfinite(x)), _BOOL)
absolute = abs_ = fabs = _unary(abs)


def _floor1(x):
    if is_sym(x):
        return 1.0 * x.floor() if isinstance(x, SReal) else x
    return float(math.floor(x)) if math.isfinite(x) else x


def _ceil1(x):
    if is_sym(x):
        return -_floor1(-x)
    return float(math.ceil(x)) if math.isfinite(x) else x


def _trunc1(x):
    if is_sym(x):
        return 1.0 * x.trunc() if isinstance(x, SReal) else x
    return float(math.trunc(x)) if math.isfinite(x) else x


def _rint1(x):
    if isinstance(x, SReal):
        return 1.0 * x.rint()
    if is_sym(x) or isinstance(x, int):
        return x
    return float(np.rint(x))


floor = _unary(_floor1, _FLT)
ceil = _unary(_ceil1, _FLT)
trunc = fix = _unary(_trunc1, _FLT)
rint = _unary(_rint1, _FLT)


def round_(x, decimals=0, out=None):
    if decimals:
        raise EngineUnsupported("round decimals")
    if isinstance(x, (SArr, SMa)):
        r = _unary(_rint1)(x)
        if out is not None:
            out[...] = r
            return out
        return r
    return _rint1(x)


around = round_

_UF = {}


def _uf(name, conc, rng=None):
    def f(x):
        if isinstance(x, SInt):
            x = SReal.of(x)
        if not is_sym(x):
            if _isnan1(x):
                return nan
            return conc(float(x))
        c = x.const()
        if c is not None:
            return conc(float(c))
        fn = _UF.get(name)
        if fn is None:
            fn = _UF[name] = z3.Function(name, z3.RealSort(), z3.RealSort())
        r = fn(z3.simplify(x.real()))
        if rng is not None:
            eng.E.assume(z3.And(r >= rng[0], r <= rng[1]))
        return SReal.gen(r)

    return f


def _square_root(x):
    """root of k * e * e, with k a square"""
    if x.r is not None:
        return None
    d = math.isqrt(x.den)
    a = z3.simplify(x.num)
    a = list(a.children()) if z3.is_mul(a) or z3.is_app_of(a, z3.Z3_OP_POWER) else []
    k = 1
    if len(a) > 1 and z3.is_int_value(a[0]):
        k, a = a[0].as_long(), a[1:]
        if len(a) == 1 and (z3.is_mul(a[0]) or z3.is_app_of(a[0], z3.Z3_OP_POWER)):
            a = list(a[0].children())
    if d * d != x.den or k <= 0 or math.isqrt(k) ** 2 != k or len(a) != 2:
        return None
    if not (a[0].eq(a[1]) or z3.is_int_value(a[1]) and a[1].as_long() == 2 and not z3.is_int_value(a[0])):
        return None
    hi = None if x.hi is None else math.isqrt(max(x.hi, 0)) + 1
    e, q = a[0], math.isqrt(k)
    return SReal.fixed(z3.If(e >= 0, e, -e) * q, 0, hi, d)


def uf_sqrt(x):
    if isinstance(x, SInt):
        x = SReal.of(x)
    if not is_sym(x):
        return math.sqrt(x) if x >= 0 else nan
    c = x.const()
    if c is not None:
        return math.sqrt(c) if c >= 0 else nan
    q = _square_root(x)
    if q is not None:
        return q
    if bool(x < 0):
        return nan
    eng.E.n_fresh += 1
    r = z3.Real("sqrt!%d" % eng.E.n_fresh)
    eng.E.assume(z3.And(r >= 0, r * r == x.real()))
    return SReal.gen(r)


_sin, _cos = _uf("sin", math.sin, (-1, 1)), _uf("cos", math.cos, (-1, 1))
sin, cos = _unary(_sin, _FLT), _unary(_cos, _FLT)
tan = _unary(_uf("tan", math.tan), _FLT)
arctan = _unary(_uf("arctan", math.atan), _FLT)
arcsin = _unary(_uf("arcsin", lambda v: math.asin(v) if -1 <= v <= 1 else nan), _FLT)
arccos = _unary(_uf("arccos", lambda v: math.acos(v) if -1 <= v <= 1 else nan), _FLT)
exp = _unary(_uf("exp", math.exp), _FLT)
log = _unary(_uf("log", lambda v: math.log(v) if v > 0 else (-inf if v == 0 else nan)), _FLT)
log10 = _unary(_uf("log10", math.log10), _FLT)
sqrt = _unary(uf_sqrt, _FLT)
radians = deg2rad = _unary(lambda x: x * (math.pi / 180.0), _FLT)
degrees = rad2deg = _unary(lambda x: x * (180.0 / math.pi), _FLT)
square = _unary(lambda x: x * x)
negative = _unary(_neg)
sign = _unary(lambda x: ite(x > 0, 1, ite(x < 0, -1, 0)) if is_sym(x) else (x > 0) - (x < 0))
invert = lambda x: ~x
logical_not = _unary(lambda x: Not(tobool_any(x)), _BOOL)
sinc = _unary(_uf("sinc", lambda v: float(np.sinc(v))), _FLT)


def arctan2(y, x):
    if not is_sym(x) and not is_sym(y) and not isinstance(x, SArr) and not isinstance(y, SArr):
        return math.atan2(y, x)
    if isinstance(x, SArr) or isinstance(y, SArr):
        return _ew(arctan2, y, x, np.dtype("f8"))
    fn = _UF.get("arctan2")
    if fn is None:
        fn = _UF["arctan2"] = z3.Function("arctan2", z3.RealSort(), z3.RealSort(), z3.RealSort())
    return SReal.gen(fn(SReal.of(y).real(), SReal.of(x).real()))


def hypot(a, b):
    return sqrt(a * a + b * b)


def _binary(name, kind="arith"):
    def f(a, b, out=None, **k):
        a, b = _coerce(a), _coerce(b)
        if isinstance(a, (SArr, SMa)):
            r = getattr(a, "__%s__" % name)(b)
        elif isinstance(b, SArr):
            r = getattr(array(a), "__%s__" % name)(b)
        else:
            import operator

            r = getattr(operator, "and_" if name == "and" else "or_" if name == "or" else name)(a, b)
        if out is not None:
            out[...] = r
            return out
        return r

    return f


add, subtract, multiply = _binary("add"), _binary("sub"), _binary("mul")
divide = true_divide = _binary("truediv")
floor_divide, mod, power = _binary("floordiv"), _binary("mod"), _binary("pow")
remainder = mod
less, less_equal, greater, greater_equal = _binary("lt"), _binary("le"), _binary("gt"), _binary("ge")
equal, not_equal = _binary("eq"), _binary("ne")
bitwise_and, bitwise_or, bitwise_xor = _binary("and"), _binary("or"), _binary("xor")


def _logic(f):
    def g(a, b, **k):
        a, b = _coerce(a), _coerce(b)
        if isinstance(a, SArr) or isinstance(b, SArr):
            return _ew(lambda x, y: f(tobool_any(x), tobool_any(y)), a, b, np.dtype(bool))
        return f(tobool_any(a), tobool_any(b))

    return g


logical_and, logical_or = _logic(And), _logic(Or)
logical_xor = _logic(lambda a, b: a ^ b if is_sym(a) or is_sym(b) else np.bool_(bool(a) ^ bool(b)))


def _mm(better):
    def pick(x, y):
        if _isnan1(x) or _isnan1(y):
            return nan
        return ite(better(x, y), x, y)

    def g(a, b, out=None):
        a, b = _coerce(a), _coerce(b)
        if isinstance(a, SArr) or isinstance(b, SArr):
            return _ew(pick, a, b, _promote(a, b))
        return pick(a, b)

    return g


maximum, minimum = _mm(_gt), _mm(_lt)
fmax, fmin = maximum, minimum


def clip(a, lo, hi, out=None):
    if lo is not None:
        a = maximum(a, lo)
    if hi is not None:
        a = minimum(a, hi)
    return a


# ------------------------------------------------------------------ reductions
def _red(name):
    def f(a, axis=None, **k):
        if isinstance(a, (SMa, SArr)):
            return getattr(a, name)(axis) if not k.get("dtype") else getattr(a, name)(axis)
        return getattr(array(a), name)(axis)

    return f


sum_ = _red("sum")
prod, any_, all_, mean, amin, amax, argmin, argmax, cumsum, ptp = map(
    _red, ("prod", "any", "all", "mean", "min", "max", "argmin", "argmax", "cumsum", "ptp")
)


def argsort(a, axis=-1, kind=None, order=None):
    return a.argsort(order=order) if isinstance(a, SStruct) else _aa(a).argsort()


def sort(a, axis=-1, kind=None, order=None):
    if isinstance(a, SStruct):
        r = a.copy()
        r.sort(order=order)
        return r
    r = _aa(a).copy()
    r.sort()
    return r


def lexsort(keys):
    keys = [_aa(k) for k in keys]
    idx = list(range(len(keys[0])))
    for k in keys:
        ks = _Key.make(list(k.a))
        idx = sorted(idx, key=ks.__getitem__)
    return _mk(idx, "i8")


def _nonnan(a):
    a = _aa(a)
    return _mk([x for x in a.a.flat if not _isnan1(x)], a.dt)


def nanmin(a, axis=None):
    return _nonnan(a).min()


def nanmax(a, axis=None):
    return _nonnan(a).max()


def nansum(a, axis=None):
    return _nonnan(a).sum()


def nanmean(a, axis=None):
    return _nonnan(a).mean() if _nonnan(a).size else nan


def nanargmin(a):
    a = _aa(a)
    return _mk([inf if _isnan1(x) else x for x in a.a.flat], a.dt).argmin()


def median(a, axis=None):
    a = _aa(a).ravel()
    if any(_isnan1(x) for x in a.a):
        return nan
    n = len(a)
    if n == 0:
        return nan
    s = sort(a)
    if n % 2:
        return cast(s[n // 2], np.dtype("f8"))
    return _div(s[n // 2 - 1] + s[n // 2], 2)


nanmedian = lambda a, axis=None: median(_nonnan(a))


def percentile(a, q, axis=None, **k):
    a = _aa(a).ravel()
    s = sort(a)
    n = len(s)
    if isinstance(q, (list, tuple, SArr)):
        return array([percentile(a, v) for v in q])
    p = Fraction(q) / 100 * (n - 1)
    i = int(p // 1)
    fr = p - i
    if fr == 0:
        return cast(s[i], np.dtype("f8"))
    return s[i] + (s[i + 1] - s[i]) * fr


# ------------------------------------------------------------------ sets & counting
def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    st = isinstance(a, SStruct)
    if st:
        l = list(zip(*[list(v.a) for v in a.f.values()]))
        idx = [int(v) for v in a.argsort(order=tuple(a.f)).a]
    else:
        a = _aa(a).ravel()
        l = list(a.a)
        idx = [int(v) for v in a.argsort().a]
    groups = []
    for i in idx:
        if groups:
            j = groups[-1][0]
            if bool(And([x == y for x, y in zip(l[i], l[j])]) if st else l[i] == l[j]):
                groups[-1].append(i)
                continue
        groups.append([i])
    if st:
        r = [a[_mk([g[0] for g in groups], "i8")]]
    else:
        vals = np.empty(len(groups), dtype=object)
        for k, g in enumerate(groups):
            vals[k] = l[g[0]]
        r = [SArr(vals, a.dt)]
    if return_index:
        r.append(_mk([min(g) for g in groups], "i8"))
    if return_inverse:
        inv = [0] * len(l)
        for k, g in enumerate(groups):
            for i in g:
                inv[i] = k
        r.append(_mk(inv, "i8"))
    if return_counts:
        r.append(_mk([len(g) for g in groups], "i8"))
    return r[0] if len(r) == 1 else tuple(r)


def isin(a, b, assume_unique=False, invert=False):
    b = [x for x in (_aa(b).a.flat if not isinstance(b, set) else [b])]
    sc = not isinstance(a, (SArr, list, tuple, np.ndarray))
    a_ = _aa(a)
    o = np.empty(a_.a.shape, dtype=object)
    of = o.reshape(-1)
    for i, x in enumerate(a_.a.flat):
        v = Or([x == y for y in b]) if b else False
        v = Not(v) if invert else v
        of[i] = cast(v, np.dtype(bool))
    r = SArr(of.reshape(a_.a.shape), np.dtype(bool))
    return r.a[()] if sc and r.a.ndim == 0 else r


def in1d(a, b, assume_unique=False, invert=False):
    return isin(_aa(a).ravel(), b, invert=invert)


def setdiff1d(a, b, assume_unique=False):
    u = unique(a) if not assume_unique else _aa(a).ravel()
    return u[~isin(u, b)] if len(u) else u


def intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices:
        raise EngineUnsupported("intersect1d indices")
    u = unique(a)
    return u[isin(u, b)] if len(u) else u


def union1d(a, b):
    return unique(concatenate((_aa(a).ravel(), _aa(b).ravel())))


def setxor1d(a, b):
    raise EngineUnsupported("setxor1d")


def bincount(x, weights=None, minlength=0):
    x = _aa(x)
    if x.dt.kind not in "iu":
        raise TypeError("Cannot cast array data according to the rule 'safe'")
    l = list(x.a.flat)
    for v in l:
        if is_sym(v):
            if bool(v < 0):
                raise ValueError("'list' argument must have no negative elements")
        elif v < 0:
            raise ValueError("'list' argument must have no negative elements")
    n = 0
    if l:
        n = int(_minmax(l, _gt) + 1)
    n = max(n, int(minlength))
    w = list(_aa(weights).a.flat) if weights is not None else [1] * len(l)
    r = []
    for k in range(n):
        s = 0 if weights is None else 0.0
        for v, ww in zip(l, w):
            s = s + ite(v == k, ww, 0 if weights is None else 0.0)
        r.append(s)
    return _mk(r, "i8" if weights is None else "f8")


def searchsorted(a, v, side="left", sorter=None):
    a = _aa(a)

    def one(x):
        s = 0
        for y in a.a:
            c = (y < x) if side == "left" else (y <= x)
            s = s + ite(c, 1, 0)
        return s

    if isinstance(v, (SArr, list, tuple)):
        return _un(one, _aa(v), np.dtype("i8"))
    return one(v)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side="left" if right else "right")


def histogram(x, bins=10, range=None, weights=None, density=None):
    x = _aa(x)
    if not isinstance(bins, (SArr, list, tuple)):
        n = int(bins)
        lo, hi = range
        bins = _mk([lo + (hi - lo) * Fraction(i, n) for i in builtins.range(n + 1)], "f8")
    b = _aa(bins)
    nb = len(b) - 1
    r = []
    w = list(_aa(weights).a.flat) if weights is not None else [1] * x.size
    for k in builtins.range(nb):
        s = 0
        for v, ww in zip(x.a.flat, w):
            up = (v <= b[k + 1]) if k == nb - 1 else (v < b[k + 1])
            s = s + ite(And(v >= b[k], up), ww, 0)
        r.append(s)
    return _mk(r, "i8" if weights is None else "f8"), b


def histogram2d(x, y, bins, weights=None, **k):
    x, y = _aa(x), _aa(y)
    bx, by = map(_aa, bins)
    nx, ny = len(bx) - 1, len(by) - 1
    o = np.empty((nx, ny), dtype=object)

    def inb(v, b, k, n):
        return And(v >= b[k], (v <= b[k + 1]) if k == n - 1 else (v < b[k + 1]))

    w = list(_aa(weights).a.flat) if weights is not None else [1.0] * x.size
    cx = [[inb(v, bx, i, nx) for i in range(nx)] for v in x.a.flat]
    cy = [[inb(v, by, j, ny) for j in range(ny)] for v in y.a.flat]
    for i in range(nx):
        for j in range(ny):
            s = 0.0
            for p in range(x.size):
                s = s + ite(And(cx[p][i], cy[p][j]), w[p], 0.0)
            o[i, j] = s
    return SArr(o, np.dtype("f8")), bx, by


def interp(x, xp, fp, left=None, right=None):
    xp, fp = _aa(xp), _aa(fp)
    n = len(xp)

    def one(v):
        if _isnan1(v):
            return nan
        lft = fp[0] if left is None else left
        rgt = fp[n - 1] if right is None else right
        if bool(v < xp[0]):
            return lft
        if bool(v > xp[n - 1]):
            return rgt
        for i in range(n - 1):
            if bool(v < xp[i + 1]):
                if i and False:
                    pass
                sl = _div(fp[i + 1] - fp[i], xp[i + 1] - xp[i])
                return sl * (v - xp[i]) + fp[i]
        return fp[n - 1]

    if isinstance(x, (SArr, list, tuple)):
        return _un(one, _aa(x), np.dtype("f8"))
    return one(x)


def array_equal(a, b):
    a, b = _aa(a), _aa(b)
    if a.shape != b.shape:
        return False
    return (a == b).all()


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = _aa(a), _aa(b)
    return And([_close1(x, y, rtol, atol) for x, y in zip(*[v.flat for v in np.broadcast_arrays(a.a, b.a)])])


def _close1(x, y, rtol, atol):
    if _isnan1(x) or _isnan1(y):
        return False
    return abs(x - y) <= atol + rtol * abs(y)


def isclose(a, b, rtol=1e-5, atol=1e-8):
    a, b = _coerce(a), _coerce(b)
    if isinstance(a, SArr) or isinstance(b, SArr):
        return _ew(lambda x, y: _close1(x, y, rtol, atol), a, b, np.dtype(bool))
    return _close1(a, b, rtol, atol)


def dot(a, b):
    a, b = _aa(a), _aa(b)
    if a.ndim == 1 and b.ndim == 1:
        return (a * b).sum()
    raise EngineUnsupported("dot")


def ndindex(*s):
    return np.ndindex(*s)


def unravel_index(i, s):
    r = []
    for n in reversed(s[1:]):
        r.append(i % n)
        i = i // n
    r.append(i)
    return tuple(reversed(r))


def nan_to_num(x, **k):
    return _un(lambda v: 0.0 if _isnan1(v) else v, x, x.dt)


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def seterr(**k):
    return {}


def iinfo(dt):
    return np.iinfo(as_dtype(dt))


def finfo(dt):
    return np.finfo(as_dtype(dt))


def result_type(*a):
    return np.result_type(*[as_dtype(x) if not isinstance(x, SArr) else x.dt for x in a])


class _Type:
    """numpy scalar type usable as dtype and as conversion"""

    def __init__(self, name):
        self._np = name
        self.__name__ = name
        self.dtype = np.dtype(name)

    def __call__(self, x=0):
        if isinstance(x, (SArr, list, tuple)):
            return _aa(x).astype(self._np)
        r = cast(x, np.dtype(self._np))
        return r

    def __eq__(self, o):
        try:
            return np.dtype(self._np) == as_dtype(o)
        except TypeError:
            return False

    def __hash__(self):
        return hash(self._np)

    def __getitem__(self, k):  # numba types.float64[:]
        return self

    def __instancecheck__(self, x):
        return False


class _TypeMeta(type):
    pass


int8, int16, int32, int64 = (_Type(t) for t in ("i1", "i2", "i4", "i8"))
uint8, uint16, uint32, uint64 = (_Type(t) for t in ("u1", "u2", "u4", "u8"))
float32, float64 = _Type("f4"), _Type("f8")
bool_, int_, float_ = _Type("?"), int64, float64
intp, uintp, uint, single, double, longlong = int64, uint64, uint64, float32, float64, int64
ndarray = SArr
integer, floating, number, generic = np.integer, np.floating, np.number, np.generic
def bytes_(x):
    """names of files"""
    if isinstance(x, (str, bytes)):
        return x.encode() if isinstance(x, str) else x
    return [bytes_(v) for v in x]


datetime64, timedelta64 = np.datetime64, np.timedelta64


def isscalar(x):
    return not isinstance(x, (SArr, list, tuple))


def shape(a):
    return _aa(a).shape


def size(a):
    return _aa(a).size


def ndim(a):
    return _aa(a).ndim


def iterable(x):
    return hasattr(x, "__iter__")


def issubdtype(a, b):
    return np.issubdtype(as_dtype(a), b if not isinstance(b, _Type) else np.dtype(b._np))


def vectorize(f, *a, **k):
    return lambda *x: array([f(*v) for v in zip(*x)])


def ix_(*a):
    a = [_aa(x) for x in a]
    return tuple(x.reshape((1,) * i + (-1,) + (1,) * (len(a) - 1 - i)) for i, x in enumerate(a))


_ALIAS = {
    "abs": absolute,
    "sum": sum_,
    "any": any_,
    "all": all_,
    "min": amin,
    "max": amax,
    "round": round_,
    "bool8": bool_,
    "product": prod,
    "NaN": nan,
    "NAN": nan,
    "Inf": inf,
}


def _constant(x):
    if isinstance(x, SReal):
        c = x.const()
        if c is None:
            raise EngineUnsupported("numpy.linalg with values which are not known")
        return float(c)
    if is_sym(x):
        raise EngineUnsupported("numpy.linalg with values which are not known")
    return x


class _Linalg:
    def lstsq(self, a, b, rcond=None):
        """only for values which are the same for every input (exact constants once expressions are simplified)"""
        f = lambda v: np.array([_constant(x) for x in v.a.flat], "f8").reshape(v.shape)
        x, res, rank, sv = np.linalg.lstsq(f(a), f(b), rcond=rcond)
        return array(x.tolist(), "f8"), array(res.tolist(), "f8"), int(rank), array(sv.tolist(), "f8")

    def __getattr__(self, n):
        def f(*a, **k):
            raise EngineUnsupported("numpy.linalg.%s" % n)

        return f


linalg = _Linalg()


def __getattr__(name):  # module level: names not shimmed
    if name in _ALIAS:
        return _ALIAS[name]
    if name.startswith("__"):
        raise AttributeError(name)

    def f(*a, **k):
        raise EngineUnsupported("numpy.%s is not modelled" % name)

    f.__name__ = name
    return f


from . import snp2 as _snp2_mod  # noqa: E402

_snp2_mod.install()
