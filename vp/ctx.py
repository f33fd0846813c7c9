"""The two faces of a harness: symbolic (z3) and concrete (the real build).

A harness is a plain function h(S, **params).  It creates inputs through S, calls the code under
test, and states the property with S.check.  Run with SymCtx it covers every input of the declared
domain; run with ConcCtx it replays one concrete input on the real, numba-compiled package."""
import math


class Violation(Exception):
    pass


class Skip(BaseException):
    """assumption not satisfied by a concrete input"""


class Ctx:
    symbolic = False

    def ints(self, name, n, lo, hi):
        return [self.int("%s%d" % (name, i), lo, hi) for i in range(n)]

    def fxs(self, name, n, lo, hi, den=1):
        return [self.fx("%s%d" % (name, i), lo, hi, den) for i in range(n)]

    def bools(self, name, n):
        return [self.bool("%s%d" % (name, i)) for i in range(n)]

    def iff(self, a, b):
        return self.Or(self.And(a, b), self.And(self.Not(a), self.Not(b)))

    def implies(self, a, b):
        return self.Or(self.Not(a), b)

    def count(self, conds):
        return self.sum([self.If(c, 1, 0) for c in conds])

    def close(self, a, b, tol=1e-6):
        """equality up to an absolute tolerance, in both modes"""
        if self.isnan(a) or self.isnan(b):
            return self.isnan(a) and self.isnan(b)
        d = a - b
        return self.And(d <= tol, d >= -tol)

    def distinct(self, xs):
        xs = list(xs)
        return self.And([xs[i] != xs[j] for i in range(len(xs)) for j in range(i)])


class ConcCtx(Ctx):
    def __init__(self, inputs, modload):
        self.inputs = inputs
        self.outs = []
        self.modload = modload
        self.checks = 0
        self.failed = []
        import numpy

        self.np = numpy

    def int(self, name, lo, hi):
        v = self.inputs[name]
        return int(v)

    def fx(self, name, lo, hi, den=1):
        return float(self.inputs[name])

    def bool(self, name):
        return bool(self.inputs[name])

    def choice(self, name, options):
        return options[int(self.inputs[name])]

    def concrete(self, v):
        return int(v)

    def arr(self, l, dtype=None):
        return self.np.array(l, dtype=dtype)

    def masked(self, d, m):
        return self.np.ma.array(d, mask=m)

    def mod(self, name):
        return self.modload("py_eddy_tracker." + name if name else "py_eddy_tracker")

    def real(self, name, f):
        """f is only meaningful on the real build"""
        return f()

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, label):
        self.checks += 1
        if not bool(c):
            self.failed.append(label)
            raise Violation(label)

    def fail(self, label):
        self.check(False, label)

    def out(self, name, v):
        self.outs.append([name, enc(v)])

    def And(self, *xs):
        xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not bool(x)

    def If(self, c, a, b):
        return a if bool(c) else b

    def sum(self, xs):
        r = 0
        for x in xs:
            r = x + r
        return r

    def eqf(self, a, b, tol=1e-9):
        """equality of computed reals: exact symbolically, up to rounding concretely"""
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))

    def lef(self, a, b, tol=1e-9):
        a, b = float(a), float(b)
        return a <= b + tol * max(1.0, abs(a), abs(b))

    def isnan(self, a):
        a = float(a)
        return a != a

    def floor(self, a):
        return math.floor(a)

    def min(self, a, b):
        return min(a, b)

    def max(self, a, b):
        return max(a, b)


def enc(v):
    """JSON encoding of outputs, shared by both modes"""
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()}
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return "nan" if v != v else ("inf" if v == math.inf else "-inf" if v == -math.inf else v)
    if hasattr(v, "tolist"):
        return enc(v.tolist())
    return str(type(v))


def same(a, b, tol=2e-5):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= tol * max(1, abs(a), abs(b))
    return a == b
