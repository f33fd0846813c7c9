"""Path-forking symbolic executor over z3.

The code under test is ordinary Python running on the symbolic scalars defined here.  Every time
Python needs a concrete truth value (`if`, `while`, `and`, `bool()`), or a concrete integer
(`range`, slice bounds), the engine asks z3 which outcomes are possible under the path condition
and explores each of them (depth first, by re-execution).  A path therefore stands for *all*
inputs that follow it, and `check` discharges the property over all of them with one query.

Numbers
* SInt: mathematical integers with an optional numpy dtype (values are wrapped when a fixed width
  integer cannot hold the result) and an interval used to avoid queries.
* SReal: exact reals; as long as possible kept as integer numerator / constant denominator so that
  z3 stays in integer arithmetic.  float rounding is NOT modelled (harnesses restrict inputs to
  dyadic grids on which float64 is exact, or say so).
* SBool: truth values.
"""
import math
import signal
import time
from fractions import Fraction

import numpy as np
import z3


class EngineUnsupported(Exception):
    """The shim does not implement something: inconclusive, never 'holds'."""


class Inconclusive(Exception):
    pass


class PathEnd(BaseException):
    """Path pruned (assumption infeasible)."""


class PathTimeout(BaseException):
    pass


E = None  # current engine


def set_engine(e):
    global E
    E = e


def engine():
    return E


# ---------------------------------------------------------------- z3 helpers
_ICACHE = {}


def iv(n):
    r = _ICACHE.get(n)
    if r is None:
        r = _ICACHE[n] = z3.IntVal(n)
    return r


def rv(fr):
    fr = Fraction(fr)
    return z3.RealVal(fr)


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class Engine:
    def __init__(self, timeout_ms=60000, max_decisions=4000, path_seconds=60):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.trail = []
        self.pos = 0
        self.model = None
        self.max_decisions = max_decisions
        self.path_seconds = path_seconds
        self.nq = 0
        self.qtime = 0.0
        self.numba_depth = 0
        self.n_fresh = 0
        self.floor_depth = 0
        self.inputs = []
        self.nforks = 0
        self.ndischarged = 0
        self.base = 0  # never backtrack below
        self.ifcache = {}

    # -- solver
    def _check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.nq += 1
        self.qtime += time.perf_counter() - t
        if r == z3.unknown:
            r = self._fallback(assumptions)
        else:
            self._last_model = self.solver.model() if r == z3.sat else None
        return r

    def _fallback(self, assumptions):
        t = time.perf_counter()
        res = z3.unknown
        for tac in ("qfnia", "default"):
            if tac == "default":
                s = z3.SolverFor("QF_NIRA")
            else:
                s = z3.Tactic(tac).solver()
            s.set("timeout", self.timeout_ms)
            s.add(self.solver.assertions())
            s.add(*assumptions)
            res = s.check()
            self.nq += 1
            if res != z3.unknown:
                self._last_model = s.model() if res == z3.sat else None
                break
        self.qtime += time.perf_counter() - t
        if res == z3.unknown:
            raise Inconclusive("solver returned unknown (%s)" % self.solver.reason_unknown())
        return res

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathEnd()
            self.model = self._last_model
        return self.model

    def _assert(self, c):
        self.solver.push()
        self.solver.add(c)

    def meval(self, e):
        return self.get_model().eval(e, model_completion=True)

    # -- path control
    def start(self):
        self.pos = 0
        self.n_fresh = 0
        self.numba_depth = 0
        self.inputs = []
        self.ifcache = {}

    def backtrack(self):
        """Flip the deepest open decision; False if none remains."""
        while len(self.trail) > self.base:
            kind, c, dec, alt = self.trail.pop()
            if kind in "AB":
                self.solver.pop()
            if kind == "B" and alt:
                self._assert(z3.Not(c) if dec else c)
                self.trail.append(("B", c, not dec, False))
                self.model = None
                return True
        return False

    def decisions(self):
        """Replayable prefix for another process."""
        return [(k, d, a) for k, _, d, a in self.trail]

    def split_off(self):
        """Give away the shallowest open decision: returns a prefix (list of outcomes)."""
        for i in range(self.base, len(self.trail)):
            k, c, d, a = self.trail[i]
            if k == "B" and a:
                prefix = [(kk, dd) for kk, _, dd, _ in self.trail[:i]] + [("B", not d)]
                self.trail[i] = (k, c, d, False)
                return prefix
        return None

    def set_prefix(self, prefix):
        self.forced = list(prefix)

    forced = ()

    def assume(self, c):
        if isinstance(c, SBool):
            c = c.e
        elif not z3.is_expr(c):
            if not c:
                raise PathEnd()
            return
        if self.pos < len(self.trail):
            self.pos += 1
            return
        if self.forced:
            self.forced.pop(0)
        self._assert(c)
        self.trail.append(("A", c, True, False))
        self.pos += 1
        if self.model is not None:
            if not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None
        if not self.forced:
            self.get_model()

    def implied(self, c):
        """True if c holds on the whole current path (recorded for replay)."""
        if self.pos < len(self.trail):
            d = self.trail[self.pos][2]
            self.pos += 1
            return d
        if self.forced:
            d = self.forced.pop(0)[1]
        else:
            d = None
            if self.model is not None and z3.is_false(self.model.eval(c, model_completion=True)):
                d = False
            if d is None:
                d = self._check(z3.Not(c)) == z3.unsat
        self.trail.append(("Q", None, d, False))
        self.pos += 1
        return d

    def only_value(self, e):
        """value of an integer expression if it has only one on the current path, else None (recorded for replay)"""
        if self.pos < len(self.trail):
            d = self.trail[self.pos][2]
            self.pos += 1
            return d
        if self.forced:
            d = self.forced.pop(0)[1]
        else:
            v = self.get_model().eval(e, model_completion=True)
            d = v.as_long() if z3.is_int_value(v) and self._check(e != v) == z3.unsat else None
        self.trail.append(("Q", None, d, False))
        self.pos += 1
        return d

    def branch(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trail):
            d = self.trail[self.pos][2]
            self.pos += 1
            return d
        if len(self.trail) > self.max_decisions:
            raise Inconclusive("more than %d decisions on a path" % self.max_decisions)
        if self.forced:
            kind, d = self.forced.pop(0)
            if kind == "I":
                self.trail.append(("I", None, d, False))
            else:
                self._assert(c if d else z3.Not(c))
                self.trail.append(("B", c, d, False))
                self.model = None
            self.pos += 1
            return d
        m = self.get_model()
        d = z3.is_true(m.eval(c, model_completion=True))
        other = z3.Not(c) if d else c
        if self._check(other) == z3.sat:
            self.nforks += 1
            self._assert(c if d else z3.Not(c))
            self.trail.append(("B", c, d, True))
        else:
            self.trail.append(("I", None, d, False))
        self.pos += 1
        return d



# SMT expression of a Python value ------------------------------------------------
class Sym:
    """Base of symbolic scalars, with the methods numpy gives to its scalars."""

    __slots__ = ()
    __array_ufunc__ = None
    __hash__ = None
    size = 1
    itemsize = 8

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __complex__(self):
        raise EngineUnsupported("complex number of a symbolic value")

    def _same(self, *args, **kwargs):
        if any(a not in (None, 0, -1) for a in args) or any(v not in (None, 0, -1) for v in kwargs.values()):
            raise EngineUnsupported("method of a scalar with arguments")
        return self

    copy = sum = min = max = prod = item = tolist = squeeze = ravel = flatten = conj = conjugate = _same

    def mean(self, *args, **kwargs):
        return self._same(*args, **kwargs) / 1

    def any(self, *args, **kwargs):
        return self._same(*args, **kwargs) != 0

    all = any

    def round(self, decimals=0):
        if decimals:
            raise EngineUnsupported("round with decimals")
        from . import snp

        return snp.rint(self)

    def clip(self, lo=None, hi=None):
        from . import snp

        return snp.clip(self, lo, hi)

    def astype(self, dt, copy=True):
        from .snp import cast

        return cast(self, np.dtype(dt))

    @property
    def T(self):
        return self


def is_sym(x):
    return isinstance(x, Sym)


def concretize_int(e, lo=None, hi=None):
    """Complete enumeration of the feasible values of an integer expression, by forking.

    Values are tried in increasing order over the interval found by the solver on the current
    path, so that replay is deterministic."""
    if lo is None or hi is None or hi - lo > 64:
        # deterministic candidate order without solver state: use binary branching on bounds
        lo_, hi_ = (-(1 << 20) if lo is None else lo), ((1 << 20) if hi is None else hi)
        if not E.branch(z3.simplify(z3.And(e >= lo_, e <= hi_))):
            raise EngineUnsupported("unbounded integer concretisation")
        lo, hi = lo_, hi_
    while lo < hi:
        mid = (lo + hi) // 2
        if E.branch(z3.simplify(e <= mid)):
            hi = mid
        else:
            lo = mid + 1
    return lo


class SBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(z3.simplify(self.e))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __invert__(self):
        return mkb(z3.Not(self.e))

    def _bin(self, o, f):
        if isinstance(o, SBool):
            return mkb(f(self.e, o.e))
        if isinstance(o, (bool, np.bool_)):
            return mkb(f(self.e, TRUE if o else FALSE))
        return None

    def __and__(self, o):
        r = self._bin(o, z3.And)
        if r is None:
            return self._int() & o if _is_num(o) else NotImplemented
        return r

    __rand__ = __and__

    def __or__(self, o):
        r = self._bin(o, z3.Or)
        if r is None:
            return self._int() | o if _is_num(o) else NotImplemented
        return r

    __ror__ = __or__

    def __xor__(self, o):
        r = self._bin(o, z3.Xor)
        if r is None:
            return NotImplemented
        return r

    __rxor__ = __xor__

    def __eq__(self, o):
        r = self._bin(o, lambda a, b: a == b)
        if r is None:
            return self._int() == o
        return r

    def __ne__(self, o):
        r = self._bin(o, lambda a, b: a != b)
        if r is None:
            return self._int() != o
        return r

    def _int(self):
        return SInt(z3.If(self.e, iv(1), iv(0)), 0, 1)

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._int() / o

    def __neg__(self):
        return -self._int()

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o

    def __mod__(self, o):
        return self._int() % o

    def __floordiv__(self, o):
        return self._int() // o

    def __rtruediv__(self, o):
        return o / self._int()

    def __pow__(self, n):
        return self._int() ** n

    def __abs__(self):
        return self._int()

    def __repr__(self):
        return "SBool"

    dtype = np.dtype(bool)
    shape = ()
    ndim = 0


def mkb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def _is_num(o):
    return isinstance(o, (int, float, np.integer, np.floating, SInt, SReal, SBool, bool, np.bool_, Fraction))


def _wrapdt(e, lo, hi, dt):
    """Reduce an integer expression into the range of numpy integer dtype dt."""
    if dt is None or dt.kind not in "iu" or dt.itemsize == 8 and dt.kind == "i":
        return e, lo, hi
    bits = dt.itemsize * 8
    if dt.kind == "u":
        mn, mx = 0, (1 << bits) - 1
    else:
        mn, mx = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    if lo is not None and hi is not None and lo >= mn and hi <= mx:
        return e, lo, hi
    if lo is not None and hi is not None and lo == hi:
        v = (lo - mn) % (1 << bits) + mn
        return iv(v), v, v
    if E.implied(z3.And(e >= mn, e <= mx)):
        return e, (mn if lo is None else max(lo, mn)), (mx if hi is None else min(hi, mx))
    if lo is not None and hi is not None and lo >= mn - (1 << bits) and hi <= mx + (1 << bits):
        e = z3.If(e < mn, e + (1 << bits), z3.If(e > mx, e - (1 << bits), e))
    else:
        e = (e - mn) % iv(1 << bits) + mn
    return e, mn, mx


I8 = np.dtype("i8")
U8 = np.dtype("u8")
F8 = np.dtype("f8")


def _scalar_dt(a, b):
    """result dtype of a scalar integer operation (None = python int / int64)."""
    if a is None and b is None:
        return None
    if E.numba_depth and (a is None or b is None):
        # numba types "unsigned <op> literal" as int64
        return None
    a = a or I8
    b = b or I8
    if E.numba_depth:
        if a.kind == "u" and b.kind == "u":
            return U8
        if a.kind == "u" and a.itemsize == 8 or b.kind == "u" and b.itemsize == 8:
            return F8
        return None
    r = np.result_type(a, b)
    return None if r == I8 else r


def sint(e, lo=None, hi=None, dt=None):
    """Build an integer value; python int when constant and signed."""
    if dt is not None and dt.kind == "f":
        return SReal.fixed(e, lo, hi, 1)
    e, lo, hi = _wrapdt(e, lo, hi, dt)
    if lo is not None and lo == hi:
        if dt is None or dt.kind == "i":
            return lo
        return SInt(iv(lo), lo, lo, dt)
    if z3.is_int_value(e):
        v = e.as_long()
        if dt is None or dt.kind == "i":
            return v
        return SInt(e, v, v, dt)
    return SInt(e, lo, hi, dt)


def _ibin(f):
    def g(self, o):
        if isinstance(o, SBool):
            o = o._int()
        if isinstance(o, SInt):
            return f(self, o)
        if isinstance(o, (bool, np.bool_)):
            o = int(o)
        if isinstance(o, (int, np.integer)):
            odt = o.dtype if isinstance(o, np.integer) else None
            o = int(o)
            return f(self, SInt(iv(o), o, o, odt))
        return None

    return g


def _add(a, b):
    lo = a.lo + b.lo if a.lo is not None and b.lo is not None else None
    hi = a.hi + b.hi if a.hi is not None and b.hi is not None else None
    return sint(a.e + b.e, lo, hi, _scalar_dt(a.dt, b.dt))


def _sub(a, b):
    lo = a.lo - b.hi if a.lo is not None and b.hi is not None else None
    hi = a.hi - b.lo if a.hi is not None and b.lo is not None else None
    return sint(a.e - b.e, lo, hi, _scalar_dt(a.dt, b.dt))


def _imul(al, ah, bl, bh):
    if None in (al, ah, bl, bh):
        return None, None
    p = (al * bl, al * bh, ah * bl, ah * bh)
    return min(p), max(p)


def _mul(a, b):
    lo, hi = _imul(a.lo, a.hi, b.lo, b.hi)
    return sint(a.e * b.e, lo, hi, _scalar_dt(a.dt, b.dt))


def _floordiv_expr(ae, be, b_lo, b_hi):
    """python floor division, divisor known non zero."""
    if b_lo is not None and b_lo > 0:
        return ae / be
    if b_hi is not None and b_hi < 0:
        return (-ae) / (-be)
    return z3.If(be > 0, ae / be, (-ae) / (-be))


def _zero_div(b):
    if b.lo is not None and b.lo > 0 or b.hi is not None and b.hi < 0:
        return
    if E.branch(z3.simplify(b.e == 0)):
        raise ZeroDivisionError("division by zero")


def _fdiv(a, b):
    _zero_div(b)
    e = _floordiv_expr(a.e, b.e, b.lo, b.hi)
    lo = hi = None
    if a.lo is not None and a.hi is not None and b.lo is not None and b.hi is not None and b.lo > 0:
        p = (a.lo // b.lo, a.lo // b.hi, a.hi // b.lo, a.hi // b.hi)
        lo, hi = min(p), max(p)
    return sint(e, lo, hi, _scalar_dt(a.dt, b.dt))


def _mod(a, b):
    _zero_div(b)
    if b.lo is not None and b.lo > 0:
        if a.lo is not None and a.hi is not None and a.lo >= 0 and a.hi < b.lo:
            return sint(a.e, a.lo, a.hi, _scalar_dt(a.dt, b.dt))
        if b.lo == b.hi and a.lo is not None and a.hi is not None and -2 * b.lo <= a.lo and a.hi < 3 * b.lo:
            # few periods: piecewise is easier than mod
            m = b.lo
            e = a.e
            k = a.hi // m
            r = e - k * m
            for kk in range(k - 1, a.lo // m - 1, -1):
                r = z3.If(e < (kk + 1) * m, e - kk * m, r)
            return sint(r, 0, m - 1, _scalar_dt(a.dt, b.dt))
        hi = b.hi - 1 if b.hi is not None else None
        return sint(a.e % b.e, 0, hi, _scalar_dt(a.dt, b.dt))
    q = _floordiv_expr(a.e, b.e, b.lo, b.hi)
    return sint(a.e - q * b.e, None, None, _scalar_dt(a.dt, b.dt))


def _cmp(name):
    import operator

    f = getattr(operator, name)

    def g(self, o):
        if o is self and name in ("eq", "le", "ge"):
            return True
        if isinstance(o, SBool):
            o = o._int()
        if isinstance(o, (bool, np.bool_)):
            o = int(o)
        if isinstance(o, (int, np.integer)):
            o = int(o)
            o = SInt(iv(o), o, o)
        if isinstance(o, SInt):
            a, b = self, o
            if None not in (a.lo, a.hi, b.lo, b.hi):
                if a.hi < b.lo:
                    return f(0, 1)
                if a.lo > b.hi:
                    return f(1, 0)
                if name == "le" and a.hi <= b.lo or name == "ge" and a.lo >= b.hi:
                    return True
                if name == "lt" and a.lo >= b.hi or name == "gt" and a.hi <= b.lo:
                    return False
            return mkb(f(a.e, b.e))
        if isinstance(o, float) or isinstance(o, (np.floating, Fraction, SReal)):
            return f(SReal.of(self), o)
        if o is None or isinstance(o, str):
            return NotImplemented
        return NotImplemented

    return g


class SInt(Sym):
    __slots__ = ("e", "lo", "hi", "dt")

    def __init__(self, e, lo=None, hi=None, dt=None):
        self.e, self.lo, self.hi, self.dt = e, lo, hi, dt

    @property
    def dtype(self):
        return self.dt or I8

    shape = ()
    ndim = 0

    def __index__(self):
        if self.lo is not None and self.lo == self.hi:
            return self.lo
        return concretize_int(self.e, self.lo, self.hi)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(self.__index__())

    for _n, _f in (("add", _add), ("sub", _sub), ("mul", _mul), ("floordiv", _fdiv), ("mod", _mod)):

        def _mk(_f, _n):
            h = _ibin(_f)
            hr = _ibin(lambda a, b: _f(b, a))

            def op(self, o):
                r = h(self, o)
                if r is None:
                    if isinstance(o, (float, np.floating, Fraction, SReal)):
                        return getattr(SReal.of(self), "__%s__" % _n)(o)
                    return NotImplemented
                return r

            def rop(self, o):
                r = hr(self, o)
                if r is None:
                    if isinstance(o, (float, np.floating, Fraction, SReal)):
                        return getattr(SReal.of(self), "__r%s__" % _n)(o)
                    return NotImplemented
                return r

            return op, rop

        locals()["__%s__" % _n], locals()["__r%s__" % _n] = _mk(_f, _n)
    del _mk, _n, _f

    def __truediv__(self, o):
        if not _is_num(o):
            return NotImplemented
        return SReal.of(self) / o

    def __rtruediv__(self, o):
        if not _is_num(o):
            return NotImplemented
        return o / SReal.of(self)

    def __neg__(self):
        return sint(
            -self.e,
            None if self.hi is None else -self.hi,
            None if self.lo is None else -self.lo,
            self.dt if not E.numba_depth else (U8 if self.dt is not None and self.dt.kind == "u" else None),
        )

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        hi = None
        if self.lo is not None and self.hi is not None:
            hi = max(abs(self.lo), abs(self.hi))
        return sint(z3.If(self.e >= 0, self.e, -self.e), 0, hi, self.dt)

    def __pow__(self, n):
        return _pow(self, n)

    def __invert__(self):
        return -1 - self

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __trunc__(self):
        return self

    __lt__, __le__, __gt__, __ge__ = _cmp("lt"), _cmp("le"), _cmp("gt"), _cmp("ge")
    __eq__, __ne__ = _cmp("eq"), _cmp("ne")

    def _bits(self, o, f):
        return f(self.__index__(), int(o))

    def __and__(self, o):
        if isinstance(o, (int, np.integer)) and o >= 0 and (int(o) + 1) & int(o) == 0:
            return self % (int(o) + 1)
        return int(self) & int(o)

    def __rand__(self, o):
        return self & o

    def __or__(self, o):
        return int(self) | int(o)

    __ror__ = __or__

    def __xor__(self, o):
        return int(self) ^ int(o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __repr__(self):
        return "SInt[%s,%s]" % (self.lo, self.hi)

    def __format__(self, spec):
        return "<sym>"


def _pow(x, n):
    if isinstance(n, float) and n == int(n):
        n = int(n)
    if isinstance(n, int) and n >= 0:
        r = 1
        for _ in range(n):
            r = x * r
        return r
    if n == 0.5:
        from .snp import uf_sqrt

        return uf_sqrt(x)
    if isinstance(n, int) and n < 0:
        return 1 / _pow(x, -n)
    raise EngineUnsupported("power %r" % (n,))


MAXDEN = 1 << 220


_INF = math.inf


def _outward(*v):
    """interval (floats) around exact results known within one rounding"""
    lo, hi = min(v), max(v)
    if lo != lo or hi != hi or lo == -_INF or hi == _INF:
        return None
    return math.nextafter(lo, -_INF), math.nextafter(hi, _INF)


class SReal(Sym):
    """num/den (den constant > 0) or generic real r, within the interval bd if it is known."""

    __slots__ = ("num", "lo", "hi", "den", "r", "dt", "bd")

    def __init__(self):
        self.num = self.lo = self.hi = self.den = self.r = self.dt = self.bd = None

    def bounds(self):
        if self.r is not None:
            return self.bd
        if self.lo is None or self.hi is None:
            return None
        try:
            return _outward(self.lo / self.den, self.hi / self.den)
        except OverflowError:
            return None

    shape = ()
    ndim = 0
    dtype = F8

    @staticmethod
    def fixed(num, lo, hi, den):
        if lo is not None and lo == hi or z3.is_int_value(num):
            n = lo if lo is not None and lo == hi else num.as_long()
            fr = Fraction(n, den)
            f = float(fr)
            if Fraction(f) == fr:
                return f
            s = SReal()
            s.num, s.lo, s.hi, s.den = iv(fr.numerator), fr.numerator, fr.numerator, fr.denominator
            return s
        s = SReal()
        if den > MAXDEN:
            s.r = z3.ToReal(num) / rv(den)
            if lo is not None and hi is not None:
                s.bd = _outward(lo / den, hi / den)
        else:
            s.num, s.lo, s.hi, s.den = num, lo, hi, den
        return s

    @staticmethod
    def gen(r, bd=None):
        r = z3.simplify(r)
        if z3.is_rational_value(r):
            fr = r.as_fraction()
            return SReal.fixed(iv(fr.numerator), fr.numerator, fr.numerator, fr.denominator)
        s = SReal()
        s.r, s.bd = r, bd
        return s

    @staticmethod
    def of(x):
        """SReal object (never a python float) of a finite number."""
        if isinstance(x, SReal):
            return x
        if isinstance(x, SBool):
            x = x._int()
        s = SReal()
        if isinstance(x, SInt):
            s.num, s.lo, s.hi, s.den = x.e, x.lo, x.hi, 1
            return s
        fr = Fraction(x) if not isinstance(x, (np.floating, np.integer, np.bool_)) else Fraction(x.item())
        s.num, s.lo, s.hi, s.den = iv(fr.numerator), fr.numerator, fr.numerator, fr.denominator
        return s

    def const(self):
        if self.num is not None and self.lo is not None and self.lo == self.hi:
            return Fraction(self.lo, self.den)
        return None

    def real(self):
        if self.r is not None:
            return self.r
        if self.den == 1:
            return z3.ToReal(self.num)
        c = self.const()
        if c is not None:
            return rv(c)
        return z3.ToReal(self.num) / rv(self.den)

    # -- arithmetic
    def _common(a, b):
        den = a.den * b.den // math.gcd(a.den, b.den)
        fa, fb = den // a.den, den // b.den
        ae = a.num if fa == 1 else a.num * iv(fa)
        be = b.num if fb == 1 else b.num * iv(fb)
        m = lambda v, f: None if v is None else v * f
        return ae, m(a.lo, fa), m(a.hi, fa), be, m(b.lo, fb), m(b.hi, fb), den

    def _addsub(a, b, sgn):
        if a.r is None and b.r is None:
            ae, al, ah, be, bl, bh, den = SReal._common(a, b)
            if den <= MAXDEN:
                if sgn > 0:
                    lo = al + bl if al is not None and bl is not None else None
                    hi = ah + bh if ah is not None and bh is not None else None
                    return SReal.fixed(z3.simplify(ae + be), lo, hi, den)
                lo = al - bh if al is not None and bh is not None else None
                hi = ah - bl if ah is not None and bl is not None else None
                return SReal.fixed(z3.simplify(ae - be), lo, hi, den)
        p, q = a.bounds(), b.bounds()
        if p is None or q is None:
            bd = None
        elif sgn > 0:
            bd = _outward(p[0] + q[0], p[1] + q[1])
        else:
            bd = _outward(p[0] - q[1], p[1] - q[0])
        return SReal.gen(a.real() + b.real() if sgn > 0 else a.real() - b.real(), bd)

    def _mulr(a, b):
        if a.r is None and b.r is None:
            den = a.den * b.den
            lo, hi = _imul(a.lo, a.hi, b.lo, b.hi)
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None:
                fr = ca * cb
                return SReal.fixed(iv(fr.numerator), fr.numerator, fr.numerator, fr.denominator)
            if ca == 0 or cb == 0:
                return 0.0
            if ca == 1:
                return b
            if cb == 1:
                return a
            return SReal.fixed(z3.simplify(a.num * b.num), lo, hi, den)
        p, q = a.bounds(), b.bounds()
        bd = None if p is None or q is None else _outward(*(i * j for i in p for j in q))
        return SReal.gen(a.real() * b.real(), bd)

    def _divr(a, b):
        c = b.const()
        if c is None:
            nz = b.num if b.r is None else b.r
            if not (b.r is None and (b.lo is not None and b.lo > 0 or b.hi is not None and b.hi < 0)):
                if E.branch(z3.simplify(nz == 0)):
                    raise ZeroDivisionError("float division by zero")
            p, q = a.bounds(), b.bounds()
            bd = None if p is None or q is None or q[0] <= 0 <= q[1] else _outward(*(i / j for i in p for j in q))
            return SReal.gen(a.real() / b.real(), bd)
        if c == 0:
            raise ZeroDivisionError("float division by zero")
        inv = 1 / c
        s = SReal()
        s.num, s.lo, s.hi, s.den = iv(inv.numerator), inv.numerator, inv.numerator, inv.denominator
        return a._mulr(s)

    def _floor_int(self):
        """SInt floor"""
        if self.r is None:
            if self.den == 1:
                return sint(self.num, self.lo, self.hi)
            lo = None if self.lo is None else self.lo // self.den
            hi = None if self.hi is None else self.hi // self.den
            return sint(self.num / iv(self.den), lo, hi)
        lo, hi = (None, None) if self.bd is None else (math.floor(self.bd[0]), math.floor(self.bd[1]))
        if lo is None or lo != hi:
            v = E.only_value(z3.simplify(z3.ToInt(self.r)))
            if v is not None:
                return v
        return sint(z3.ToInt(self.r), lo, hi)

    def _modr(a, b):
        c = b.const()
        if c is not None and c > 0 and a.r is None:
            # a.num/a.den mod p/q
            ae, al, ah, be, bl, bh, den = SReal._common(a, b)
            r = _mod(SInt(ae, al, ah), SInt(iv(bl), bl, bl))
            if isinstance(r, int):
                return SReal.fixed(iv(r), r, r, den)
            return SReal.fixed(r.e, r.lo, r.hi, den)
        q = (a / b) if True else None
        q = _as_sreal(q)._floor_int()
        r = a - q * b
        if c is not None and c > 0 and isinstance(r, SReal) and r.r is not None:
            r.bd = _outward(0.0, float(c))
        return r

    def _inf(self, o, kind, rev):
        """operation with an infinite value"""
        if kind == "+":
            return o
        if kind == "-":
            return o if rev else -o
        if kind == "/" and not rev:
            return 0.0
        if kind in ("*", "/"):
            if bool(self > 0):
                return o
            if bool(self < 0):
                return -o
            return math.nan if kind == "*" else o
        if kind == "%":
            if rev:
                return math.nan
            if bool(self == 0):
                return 0.0
            return self if bool(self > 0) == (o > 0) else o
        raise EngineUnsupported("inf arithmetic")

    def _op(self, o, f, rev=False, kind=None):
        if isinstance(o, (SInt, SReal, SBool, int, np.integer, np.bool_, Fraction)):
            o_ = SReal.of(o)
        elif isinstance(o, (float, np.floating)):
            o = float(o)
            if o != o:
                return math.nan
            if math.isinf(o):
                return self._inf(o, kind, rev)
            o_ = SReal.of(o)
        else:
            return NotImplemented
        return f(o_, self) if rev else f(self, o_)

    def __add__(self, o):
        return self._op(o, lambda a, b: a._addsub(b, 1), kind="+")

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: a._addsub(b, -1), kind="-")

    def __rsub__(self, o):
        return self._op(o, lambda a, b: a._addsub(b, -1), True, kind="-")

    def __mul__(self, o):
        return self._op(o, SReal._mulr, kind="*")

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._op(o, SReal._divr, kind="/")

    def __rtruediv__(self, o):
        return self._op(o, SReal._divr, True, kind="/")

    def __mod__(self, o):
        return self._op(o, SReal._modr, kind="%")

    def __rmod__(self, o):
        return self._op(o, SReal._modr, True, kind="%")

    def __floordiv__(self, o):
        r = self._op(o, SReal._divr, kind="/")
        if r is NotImplemented or isinstance(r, float) and r != r:
            return r
        return 1.0 * _as_sreal(r)._floor_int()

    def __rfloordiv__(self, o):
        return 1.0 * _as_sreal(o / self)._floor_int()

    def __neg__(self):
        return 0.0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.r is None:
            if self.lo is not None and self.lo >= 0:
                return self
            hi = None
            if self.lo is not None and self.hi is not None:
                hi = max(abs(self.lo), abs(self.hi))
            return SReal.fixed(z3.If(self.num >= 0, self.num, -self.num), 0, hi, self.den)
        bd = self.bd
        if bd is not None and bd[0] >= 0:
            return self
        if bd is not None:
            bd = 0.0, max(-bd[0], bd[1])
        return SReal.gen(z3.If(self.r >= 0, self.r, -self.r), bd)

    def __pow__(self, n):
        return _pow(self, n)

    def __bool__(self):
        return bool(self != 0)

    def trunc(self):
        """C style conversion to an integer."""
        if self.r is None:
            if self.den == 1:
                return sint(self.num, self.lo, self.hi)
            if self.lo is not None and self.lo >= 0:
                return self._floor_int()
            d = iv(self.den)
            lo = None if self.lo is None else int(Fraction(self.lo, self.den))
            hi = None if self.hi is None else int(Fraction(self.hi, self.den))
            return sint(z3.If(self.num >= 0, self.num / d, -((-self.num) / d)), lo, hi)
        if self.bd is not None:
            if self.bd[0] >= 0:
                return self._floor_int()
            return sint(z3.If(self.r >= 0, z3.ToInt(self.r), -z3.ToInt(-self.r)), math.trunc(self.bd[0]), math.trunc(self.bd[1]))
        return sint(z3.If(self.r >= 0, z3.ToInt(self.r), -z3.ToInt(-self.r)))

    def floor(self):
        return self._floor_int()

    def rint(self):
        """round half to even, as SInt"""
        f = _as_sreal(self + 0.5)._floor_int()
        # exact half and odd floor -> minus 1
        half = (self + 0.5) == f
        return ite(half & ((f % 2) == 1) if not isinstance(half, bool) else (half and (f % 2) == 1), f - 1, f)

    def __round__(self, n=None):
        if n in (None, 0):
            return self.rint()
        raise EngineUnsupported("round digits")

    def __float__(self):
        raise EngineUnsupported("float() of a symbolic real at a C boundary")

    def __int__(self):
        t = self.trunc()
        return t if isinstance(t, int) else t.__index__()

    __trunc__ = trunc
    __floor__ = floor

    def __ceil__(self):
        return -((-self)._floor_int() if isinstance(-self, SReal) else math.floor(-self))

    def _c(self, o, name):
        import operator

        f = getattr(operator, name)
        if isinstance(o, (float, np.floating)):
            o = float(o)
            if o != o:
                return name == "ne"
            if math.isinf(o):
                return f(0.0, o)
        elif not isinstance(o, (SInt, SReal, SBool, int, np.integer, np.bool_, Fraction)):
            return NotImplemented
        a, b = self, SReal.of(o)
        if a.r is None and b.r is None:
            ae, al, ah, be, bl, bh, den = SReal._common(a, b)
            if None not in (al, ah, bl, bh):
                if ah < bl:
                    return f(0, 1)
                if al > bh:
                    return f(1, 0)
                if name == "le" and ah <= bl or name == "ge" and al >= bh:
                    return True
                if name == "lt" and al >= bh or name == "gt" and ah <= bl:
                    return False
            return mkb(f(ae, be))
        p, q = a.bounds(), b.bounds()
        if p is not None and q is not None:
            # bounds are strictly around values, or exact
            if p[1] < q[0]:
                return f(0, 1)
            if p[0] > q[1]:
                return f(1, 0)
        return mkb(f(a.real(), b.real()))

    def __lt__(self, o):
        return self._c(o, "lt")

    def __le__(self, o):
        return self._c(o, "le")

    def __gt__(self, o):
        return self._c(o, "gt")

    def __ge__(self, o):
        return self._c(o, "ge")

    def __eq__(self, o):
        return self._c(o, "eq")

    def __ne__(self, o):
        return self._c(o, "ne")

    def __repr__(self):
        return "SReal"

    def __format__(self, spec):
        return "<sym>"


def _as_sreal(x):
    return SReal.of(x)


def is_bool_like(x):
    return isinstance(x, (bool, np.bool_, SBool))


def ite(c, a, b):
    """If-then-else on values; forks when it cannot be expressed."""
    if not isinstance(c, SBool):
        return a if c else b
    if a is b:
        return a
    try:
        if is_bool_like(a) and is_bool_like(b):
            return mkb(z3.If(c.e, tobool(a), tobool(b)))
        ai, bi = isinstance(a, (int, np.integer, SInt)), isinstance(b, (int, np.integer, SInt))
        if ai and bi and not is_bool_like(a) and not is_bool_like(b):
            if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and int(a) == int(b):
                return a
            A, B = _toint(a), _toint(b)
            lo = min(A.lo, B.lo) if A.lo is not None and B.lo is not None else None
            hi = max(A.hi, B.hi) if A.hi is not None and B.hi is not None else None
            dt = A.dt if A.dt is not None else B.dt
            return SInt(z3.If(c.e, A.e, B.e), lo, hi, dt)
        if _is_num(a) and _is_num(b) and not _nonfinite(a) and not _nonfinite(b):
            if not is_sym(a) and not is_sym(b) and a == b:
                return a
            A, B = SReal.of(a), SReal.of(b)
            if A.r is None and B.r is None:
                ae, al, ah, be, bl, bh, den = SReal._common(A, B)
                lo = min(al, bl) if al is not None and bl is not None else None
                hi = max(ah, bh) if ah is not None and bh is not None else None
                s = SReal()
                s.num, s.lo, s.hi, s.den = z3.If(c.e, ae, be), lo, hi, den
                return s
            p, q = A.bounds(), B.bounds()
            bd = None if p is None or q is None else (min(p[0], q[0]), max(p[1], q[1]))
            return SReal.gen(z3.If(c.e, A.real(), B.real()), bd)
    except EngineUnsupported:
        pass
    return a if bool(c) else b


def can_ite(a, b):
    if is_bool_like(a) and is_bool_like(b):
        return True
    return _is_num(a) and _is_num(b) and not _nonfinite(a) and not _nonfinite(b)


def _nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def _toint(x):
    if isinstance(x, SInt):
        return x
    return SInt(iv(int(x)), int(x), int(x))


def tobool(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, (SInt, SReal)):
        return tobool(x != 0)
    return TRUE if x else FALSE


def And(*xs):
    xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
    if all(not is_sym(x) for x in xs):
        return all(bool(x) for x in xs)
    return mkb(z3.And(*[tobool(x) for x in xs]))


def Or(*xs):
    xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
    if all(not is_sym(x) for x in xs):
        return any(bool(x) for x in xs)
    return mkb(z3.Or(*[tobool(x) for x in xs]))


def Not(x):
    if not is_sym(x):
        return not x
    return mkb(z3.Not(tobool(x)))


def Sum(xs):
    r = 0
    for x in xs:
        r = x + r
    return r
