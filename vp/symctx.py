from fractions import Fraction

import numpy as np
import z3

from . import engine as eng
from . import snp
from .ctx import Ctx
from .engine import And, Not, Or, SBool, SInt, SReal, is_sym, ite, iv, mkb, tobool


class FoundViolation(BaseException):
    def __init__(self, label):
        self.label = label


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, loader):
        self.loader = loader
        self.reset()

    def reset(self):
        self.outs = []
        self.labels = []
        self.inputs = []  # (name, kind, expr, den)
        self.names = set()

    def _reg(self, name, kind, e, den=1):
        if name in self.names:
            raise RuntimeError("duplicate input " + name)
        self.names.add(name)
        self.inputs.append((name, kind, e, den))

    def int(self, name, lo, hi):
        if lo == hi:
            self._reg(name, "const", lo)
            return lo
        v = z3.Int(name)
        self._reg(name, "int", v)
        eng.E.assume(z3.And(v >= lo, v <= hi))
        return SInt(v, lo, hi)

    def fx(self, name, lo, hi, den=1):
        v = z3.Int(name)
        lo, hi = int(lo * den), int(hi * den)
        self._reg(name, "fx", v, den)
        eng.E.assume(z3.And(v >= lo, v <= hi))
        return SReal.fixed(v, lo, hi, den)

    def bool(self, name):
        v = z3.Bool(name)
        self._reg(name, "bool", v)
        return SBool(v)

    def choice(self, name, options):
        if len(options) == 1:
            self._reg(name, "const", 0)
            return options[0]
        k = self.int(name, 0, len(options) - 1)
        return options[int(k)]

    def concrete(self, v):
        return int(v)

    def arr(self, l, dtype=None):
        return snp.array(l, dtype)

    def masked(self, d, m):
        return snp.SMa.of(d, m)

    def mod(self, name):
        return self.loader.load("py_eddy_tracker." + name if name else "py_eddy_tracker")

    @property
    def np(self):
        return snp

    def assume(self, c):
        if is_sym(c):
            eng.E.assume(tobool(c))
        elif not c:
            raise eng.PathEnd()

    def check(self, c, label):
        E = eng.E
        self.labels.append(label)
        if not is_sym(c):
            if not c:
                raise FoundViolation(label)
            E.ndischarged += 1
            return
        b = tobool(c)
        # decided once per path; the outcome is recorded in the trail so that re-execution is free
        if E.implied(b):
            E.ndischarged += 1
            return
        # violated for some input of this path: constrain to it, report
        E.assume(z3.Not(b))
        raise FoundViolation(label)

    def fail(self, label):
        self.check(False, label)

    def out(self, name, v):
        self.outs.append((name, v))

    And = staticmethod(And)
    Or = staticmethod(Or)
    Not = staticmethod(Not)
    If = staticmethod(ite)

    def sum(self, xs):
        return eng.Sum(xs)

    def eqf(self, a, b, tol=0):
        an, bn = snp._isnan1(a), snp._isnan1(b)
        if an or bn:
            return an and bn
        return a == b

    def lef(self, a, b, tol=0):
        return a <= b

    def isnan(self, a):
        return snp._isnan1(a)

    def floor(self, a):
        import math

        if isinstance(a, SReal):
            return a.floor()
        return a if is_sym(a) else math.floor(a)

    def min(self, a, b):
        return ite(a <= b, a, b)

    def max(self, a, b):
        return ite(a >= b, a, b)

    # -- models
    def model_inputs(self):
        m = eng.E.get_model()
        r = {}
        for name, kind, e, den in self.inputs:
            if kind == "const":
                r[name] = e
            elif kind == "int":
                r[name] = m.eval(e, model_completion=True).as_long()
            elif kind == "fx":
                r[name] = float(Fraction(m.eval(e, model_completion=True).as_long(), den))
            else:
                r[name] = z3.is_true(m.eval(e, model_completion=True))
        return r

    def model_outs(self):
        m = eng.E.get_model()
        return [[n, evalv(m, v)] for n, v in self.outs]


def evalv(m, v):
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, SBool):
        return int(z3.is_true(m.eval(v.e, model_completion=True)))
    if isinstance(v, SInt):
        return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, SReal):
        r = m.eval(v.real(), model_completion=True)
        if z3.is_algebraic_value(r):
            r = r.approx(20)
        return float(r.as_fraction())
    if isinstance(v, snp.SMa):
        return evalv(m, v.d)
    if isinstance(v, snp.SArr):
        return evalv(m, v.a.tolist())
    if isinstance(v, (list, tuple)):
        return [evalv(m, x) for x in v]
    if isinstance(v, dict):
        return {str(k): evalv(m, x) for k, x in v.items()}
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        return "nan" if v != v else ("inf" if v == float("inf") else "-inf" if v == float("-inf") else v)
    return str(type(v))
