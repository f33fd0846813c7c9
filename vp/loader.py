"""Loads the real source files of py_eddy_tracker with numpy/numba replaced by the symbolic shim.

The source is read from /repo at every run; nothing is cached between runs.  Third party libraries
that are irrelevant to the property (plotting, netCDF, zarr, Polygon, ...) become inert stubs, unless
a harness provides a model for them.
"""
import _strptime  # datetime.strptime looks for it in sys.modules
import builtins
import math
import os
import sys
import types

import numpy as np

from . import engine as eng
from . import merge, snp
from .engine import EngineUnsupported, SBool, SInt, SReal, is_sym, ite

SRC = os.path.join(os.environ.get("VP_REPO", "/repo"), "src")
PKG = "py_eddy_tracker"
NOMERGE = bool(os.environ.get("VP_NOMERGE"))


# ------------------------------------------------------------------ builtins
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)

    def __call__(cls, x=0, *a):
        if isinstance(x, SReal):
            return x.trunc()
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            return x._int()
        if isinstance(x, snp.SArr):
            return cls(x.a.reshape(-1)[0])
        return int(x, *a)


class s_int(metaclass=_IntMeta):
    _np = "i8"


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)

    def __call__(cls, x=0.0):
        if isinstance(x, (SReal,)):
            return x
        if isinstance(x, SInt):
            return SReal.of(x)
        if isinstance(x, snp.SArr):
            return cls(x.a.reshape(-1)[0])
        return float(x)


class s_float(metaclass=_FloatMeta):
    _np = "f8"


def _flatten_args(a):
    if len(a) == 1:
        return list(a[0])
    return list(a)


def s_min(*a, **k):
    if "key" in k or "default" in k and not _flatten_args(a):
        return builtins.min(*a, **k)
    l = _flatten_args(a)
    if not l:
        raise ValueError("min() arg is an empty sequence")
    if any(is_sym(x) for x in l):
        r = l[0]
        for x in l[1:]:
            r = ite(x < r, x, r)
        return r
    return builtins.min(l)


def s_max(*a, **k):
    if "key" in k or "default" in k and not _flatten_args(a):
        return builtins.max(*a, **k)
    l = _flatten_args(a)
    if not l:
        raise ValueError("max() arg is an empty sequence")
    if any(is_sym(x) for x in l):
        r = l[0]
        for x in l[1:]:
            r = ite(x > r, x, r)
        return r
    return builtins.max(l)


def s_round(x, n=None):
    if isinstance(x, SReal):
        return x.rint() if n in (None, 0) else x.__round__(n)
    if isinstance(x, snp.SArr):
        return snp.round_(x, n or 0)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def s_any(l):
    for x in l:
        if x:
            return True
    return False


def s_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for q in ts:
        if isinstance(q, snp._Type):
            if snp._dtype_of(x) == q.dtype and not isinstance(x, snp.SArr):
                return True
            continue
        if q in (np.integer,) and isinstance(x, SInt):
            return True
        if builtins.isinstance(x, q):
            return True
    return False


class Stub:
    """inert third party object"""

    def __init__(self, name):
        object.__setattr__(self, "_name", name)

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        s = make_stub(self._name + "." + n)
        object.__setattr__(self, n, s)
        return s

    def __call__(self, *a, **k):
        # used as a decorator?
        if len(a) == 1 and not k and isinstance(a[0], types.FunctionType):
            return a[0]
        return Stub(self._name + "()")

    def __iter__(self):
        raise EngineUnsupported("iteration over stub " + self._name)

    def __repr__(self):
        return "<stub %s>" % self._name

    def __mro_entries__(self, bases):
        return (object,)


_FILLVALS = {"S1": "\x00", "i1": -127, "u1": 255, "i2": -32767, "u2": 65535, "i4": -2147483647, "u4": 4294967295, "i8": -9223372036854775806, "u8": 18446744073709551614, "f4": 9.969209968386869e36, "f8": 9.969209968386869e36}


def make_stub(name):
    last = name.rsplit(".", 1)[-1]
    if name == "netCDF4.default_fillvals":
        return dict(_FILLVALS)
    if last in ("UndefinedUnitError", "TokenError") or last.endswith("Error"):
        return type(last, (Exception,), {})
    if last in ("Group", "Dataset", "Variable", "ExFileObject", "Quantity"):
        return type(last, (), {"__init__": lambda self, *a, **k: None})
    return Stub(name)


# ------------------------------------------------------------------ numba
def _njit(*args, **kw):
    """Marks a function as compiled: numba integer rules apply while it runs."""

    def deco(f):
        import functools

        @functools.wraps(f)
        def g(*a, **k):
            if any(isinstance(v, snp.SMa) for v in a) or any(isinstance(v, snp.SMa) for v in k.values()):
                raise TypeError("Unsupported array type: numpy.ma.MaskedArray.")
            eng.E.numba_depth += 1
            try:
                return f(*a, **k)
            finally:
                eng.E.numba_depth -= 1

        g.py_func = f
        g._njit = True
        return g

    if len(args) == 1 and isinstance(args[0], types.FunctionType):
        return deco(args[0])
    return deco


class _NbTypes(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        n_ = {"bool_": "bool_", "boolean": "bool_", "b1": "bool_"}.get(n, n)
        return getattr(snp, n_)


class NbList(list):
    """numba.typed.List"""

    def __init__(self, *a):
        super().__init__(*a)


def numba_module():
    m = types.ModuleType("numba")
    m.njit = m.jit = m.vectorize = m.guvectorize = _njit
    m.prange = builtins.range
    m.types = _NbTypes("numba.types")
    m.typed = types.SimpleNamespace(List=NbList, Dict=dict)
    m.literal_unroll = lambda x: x
    m.config = types.SimpleNamespace()
    for t in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"):
        setattr(m, t, getattr(snp, t))
    return m


_REAL = {
    "argparse", "datetime", "logging", "os", "os.path", "sys", "time", "re", "heapq", "itertools", "functools",
    "collections", "copy", "json", "platform", "tarfile", "tempfile", "glob", "io", "abc", "tokenize", "bz2",
    "packaging", "packaging.version", "operator", "bisect", "enum", "typing", "types", "warnings", "contextlib",
    "dataclasses", "subprocess", "shutil", "string", "random", "pickle", "threading", "errno", "gzip", "lzma",
    "traceback", "inspect", "weakref", "numbers", "textwrap", "fnmatch", "pathlib", "struct", "array", "queue",
    "__future__",
}


class _SMath(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        for n in ("sin", "cos", "tan", "sqrt", "exp", "log", "radians", "degrees", "floor", "ceil", "hypot"):
            setattr(self, n, getattr(snp, n))
        self.fabs = abs
        self.atan = snp.arctan
        self.asin = snp.arcsin
        self.acos = snp.arccos
        self.atan2 = snp.arctan2
        self.isnan = snp.isnan
        self.isinf = snp.isinf
        self.isfinite = snp.isfinite
        self.pi, self.inf, self.nan, self.e = math.pi, math.inf, math.nan, math.e
        self.trunc = snp.trunc
        self.floor = lambda x: x.floor() if isinstance(x, SReal) else (x if isinstance(x, SInt) else math.floor(x))
        self.ceil = lambda x: x.__ceil__() if isinstance(x, SReal) else (x if isinstance(x, SInt) else math.ceil(x))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(math, n)


class Loader:
    def __init__(self, models=None):
        self.modules = {}
        self.models = dict(models or {})
        self.numba = numba_module()
        self.math = _SMath()
        self.encoded = {}
        b = dict(vars(builtins))
        b.update(
            __import__=self._import,
            int=s_int,
            float=s_float,
            min=s_min,
            max=s_max,
            round=s_round,
            isinstance=s_isinstance,
            print=lambda *a, **k: None,
        )
        b.update(merge.NAMES)
        self.builtins = b

    def path(self, name):
        p = os.path.join(SRC, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name == PKG + "._version":
            m = types.ModuleType(name)
            m.get_versions = lambda: {"version": "0"}
            self.modules[name] = m
            if PKG in self.modules:
                self.modules[PKG]._version = m
            return m
        path, is_pkg = self.path(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError(name)
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
        if name in self.modules:
            return self.modules[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rsplit(".", 1)[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        with open(path) as f:
            src = f.read()
        exec(compile(src, path, "exec") if NOMERGE else merge.compile_(src, path), m.__dict__)
        if "." in name:
            setattr(parent, name.rsplit(".", 1)[1], m)
        return m

    def _exists(self, name):
        return os.path.exists(self.path(name)[0])

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rsplit(".", 1)[0]
            name = pkg + ("." + name if name else "")
        if name == PKG or name.startswith(PKG + "."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self._exists(name + "." + f):
                        self.load(name + "." + f)
                return m
            return self.load(name.split(".")[0])
        top = name.split(".")[0]
        if name in self.models:
            m = self.models[name]
            return m if fromlist or "." not in name else self.models.get(top, Stub(top))
        if top == "numpy":
            if name == "numpy":
                return snp
            if name == "numpy.linalg":
                return snp.linalg if fromlist else snp
            if name == "numpy.ma":
                return snp.ma if fromlist else snp
            return Stub(name)
        if top == "numba":
            if name == "numba.typed":
                return self.numba.typed if fromlist else self.numba
            if name == "numba.types":
                return self.numba.types if fromlist else self.numba
            return self.numba
        if name == "math":
            return self.math
        if name in _REAL:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if fromlist:
            return Stub(name)
        return Stub(top)
