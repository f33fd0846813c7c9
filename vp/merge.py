"""Joining of paths: tests and simple assignments under a symbolic condition become one expression.

The source is compiled from its syntax tree where
* `a and b`, `a or b`, `not a`, `a < b < c` used as tests are one symbolic condition, when the operands on
  the right are expressions without effect (evaluated in advance; if this raises, the usual order is used);
* `if c: x = e` (else: ...) and `e if c else f` where e, f have no effect become x = ite(c, e, x).
Concrete conditions, and values which are not scalars of the same kind, keep the usual evaluation: the
transformation only changes the number of paths, not the values.
"""
import ast

import numpy as np

from . import engine as eng
from .engine import SBool, SInt, SReal, ite

CALLS = {"abs", "len", "isnan", "bool", "range"}


def pure(n):
    if isinstance(n, (ast.Constant, ast.Name)):
        return True
    if isinstance(n, ast.UnaryOp):
        return pure(n.operand)
    if isinstance(n, ast.BinOp):
        if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.BitAnd, ast.BitOr, ast.BitXor)):
            return pure(n.left) and pure(n.right)
        if isinstance(n.op, (ast.Div, ast.FloorDiv, ast.Mod)):
            return pure(n.left) and isinstance(n.right, ast.Constant) and isinstance(n.right.value, (int, float)) and n.right.value != 0
        return False
    if isinstance(n, ast.Compare):
        return pure(n.left) and all(pure(c) for c in n.comparators) and not any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops)
    if isinstance(n, ast.BoolOp):
        return all(pure(v) for v in n.values)
    if isinstance(n, ast.Subscript):
        return pure(n.value) and pure(n.slice)
    if isinstance(n, ast.Tuple):
        return all(pure(e) for e in n.elts)
    if isinstance(n, ast.Call):
        return isinstance(n.func, ast.Name) and n.func.id in CALLS and not n.keywords and all(pure(a) for a in n.args)
    return False


def names(n):
    return {m.id for m in ast.walk(n) if isinstance(m, ast.Name)}


def simple(stmts):
    """{name: value} of a block of independent assignments, or None"""
    d = {}
    for s in stmts:
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t, v = s.targets[0], s.value
            if isinstance(t, ast.Name):
                pairs = [(t, v)]
            elif isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts):
                pairs = list(zip(t.elts, v.elts))
            else:
                return None
        elif isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
            pairs = [(t, s.value) for t in s.targets]
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            b = ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value)
            pairs = [(s.target, ast.copy_location(b, s))]
        else:
            return None
        new = {}
        for t, v in pairs:
            if not isinstance(t, ast.Name) or not pure(v) or names(v) & set(d) or t.id in d or t.id in new:
                return None
            new[t.id] = v
        d.update(new)
    return d


def _name(i, ctx=ast.Load):
    return ast.Name(i, ctx())


def _call(f, *args):
    return ast.Call(_name(f), list(args), [])


def _lam(e):
    return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)


class T(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.k = 0

    # ---- tests
    def test(self, n):
        """expression whose value is only used as a test; never evaluated twice"""
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return _call("__vp_not__", self.test(n.operand))
        if isinstance(n, ast.BoolOp) and all(pure(v) for v in n.values[1:]):
            f = "__vp_and__" if isinstance(n.op, ast.And) else "__vp_or__"
            return _call(f, *[_lam(self.test(v)) for v in n.values])
        if isinstance(n, ast.Compare) and len(n.ops) == 2 and all(pure(c) for c in n.comparators):
            a = ast.Compare(n.left, n.ops[:1], n.comparators[:1])
            b = ast.Compare(n.comparators[0], n.ops[1:], n.comparators[1:])
            return _call("__vp_and__", _lam(self.visit(a)), _lam(self.visit(b)))
        return self.visit(n)

    def _function(self, n):
        self.depth += 1
        if any(isinstance(m, (ast.Yield, ast.YieldFrom, ast.Await)) for m in ast.walk(n)):
            pass
        r = self.generic_visit(n)
        self.depth -= 1
        return r

    visit_FunctionDef = _function

    def visit_Lambda(self, n):
        return n

    def visit_ClassDef(self, n):
        d, self.depth = self.depth, 0
        n.body = [self.visit(s) for s in n.body]
        self.depth = d
        return n

    def visit_While(self, n):
        if self.depth:
            n.test = self.test(n.test)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse)
        return n

    def visit_IfExp(self, n):
        if self.depth and pure(n.body) and pure(n.orelse):
            c = self.test(n.test)
            return ast.copy_location(_call("__vp_ifexp__", c, _lam(n.body), _lam(n.orelse)), n)
        return self.generic_visit(n)

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_If(self, n):
        if not self.depth:
            return self.generic_visit(n)
        # if a: if b: ... -> if a and b: ...
        while not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            inner = n.body[0]
            if not pure(inner.test):
                break
            l = n.test.values if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) else [n.test]
            n.test = ast.copy_location(ast.BoolOp(ast.And(), list(l) + [inner.test]), n.test)
            n.body = inner.body
        a, b = simple(n.body), simple(n.orelse)
        keys = None
        if a is not None and b is not None:
            keys = sorted(set(a) | set(b))
        test = self.test(n.test)
        body, orelse = self.block(n.body), self.block(n.orelse)
        if not keys:
            n.test, n.body, n.orelse = test, body, orelse
            return n
        self.k += 1
        c, r = "__vp_c%d__" % self.k, "__vp_r%d__" % self.k
        va = ast.Tuple([a.get(k, _name(k)) for k in keys], ast.Load())
        vb = ast.Tuple([b.get(k, _name(k)) for k in keys], ast.Load())
        import copy

        out = [ast.Assign([_name(c, ast.Store)], test), ast.Assign([_name(r, ast.Store)], ast.Constant(None))]
        merge = ast.Assign([_name(r, ast.Store)], _call("__vp_merge__", _name(c), copy.deepcopy(va), copy.deepcopy(vb)))
        out.append(
            ast.If(
                _call("__vp_issym__", _name(c)),
                [ast.Try([merge], [ast.ExceptHandler(_name("__vp_Exception__"), None, [ast.Pass()])], [], [])],
                [],
            )
        )
        plain = ast.If(_name(c), body, orelse)
        put = ast.Assign([ast.Tuple([_name(k, ast.Store) for k in keys], ast.Store())], _name(r))
        out.append(ast.If(ast.Compare(_name(r), [ast.Is()], [ast.Constant(None)]), [plain], [put]))
        for s in out:
            for m in ast.walk(s):
                if not hasattr(m, "lineno"):
                    ast.copy_location(m, n)
        return out


def _sym(v):
    return isinstance(v, (SBool, SInt, SReal))


def _cond(v):
    return v if isinstance(v, SBool) else v != 0


def not_(v):
    if isinstance(v, (SInt, SReal)):
        v = v != 0
    return ~v if isinstance(v, SBool) else not v


def and_(*fs):
    r = True
    for k, f in enumerate(fs):
        if isinstance(r, SBool):
            try:
                v = f()
                v = _cond(v) if _sym(v) else bool(v)
            except Exception:
                if not r:
                    return False
                r, v = True, f()
        else:
            v = f()
        if _sym(v):
            r = r & _cond(v)
        elif not v:
            return False
    return r


def or_(*fs):
    r = False
    for k, f in enumerate(fs):
        if isinstance(r, SBool):
            try:
                v = f()
                v = _cond(v) if _sym(v) else bool(v)
            except Exception:
                if r:
                    return True
                r, v = False, f()
        else:
            v = f()
        if _sym(v):
            r = r | _cond(v)
        elif v:
            return True
    return r


def _kind(v):
    if isinstance(v, (bool, np.bool_, SBool)):
        return "b", None
    if isinstance(v, (int, np.integer, SInt)):
        return "i", getattr(v, "dtype", None) if isinstance(v, np.integer) else getattr(v, "dt", None)
    if isinstance(v, SReal) or isinstance(v, (float, np.floating)) and np.isfinite(v):
        return "f", getattr(v, "dt", None)
    return None, None


def same(a, b):
    if a is b:
        return True
    (ka, da), (kb, db) = _kind(a), _kind(b)
    if ka is None or kb is None:
        return False
    if ka != kb:
        return {ka, kb} == {"i", "f"} and eng.E.numba_depth > 0
    return da == db


def merge(c, a, b):
    c = _cond(c)
    if not isinstance(c, SBool) or not all(same(x, y) for x, y in zip(a, b)):
        return None
    return tuple(x if x is y else ite(c, x, y) for x, y in zip(a, b))


def ifexp(c, f, g):
    if _sym(c):
        try:
            a, b = f(), g()
            r = merge(c, (a,), (b,))
        except Exception:
            r = None
        if r is not None:
            return r[0]
    return f() if c else g()


NAMES = dict(__vp_not__=not_, __vp_and__=and_, __vp_or__=or_, __vp_merge__=merge, __vp_issym__=_sym, __vp_ifexp__=ifexp, __vp_Exception__=Exception)


def compile_(src, path):
    t = ast.parse(src)
    t = T().visit(t)
    ast.fix_missing_locations(t)
    return compile(t, path, "exec")
