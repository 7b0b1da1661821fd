"""Symbolic booleans: real comparisons, z3 predicates and their boolean combinations."""
import numpy as np
import z3
from . import expr as X


class Cond:
    __slots__ = ('op', 'a')

    def __init__(self, op, a):
        self.op = op
        self.a = a

    def __repr__(self):
        if self.op in CMP:
            return '%r %s 0' % (self.a, self.op)
        if self.op == 'z3':
            s = str(self.a)
            return s if len(s) < 400 else s[:400] + '...'
        return '%s(%r)' % (self.op, self.a)


CMP = ('<', '<=', '==', '!=')


def cmp(op, e):
    """e op 0, folded"""
    if e.op == 'c':
        c = e.a
        return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op]
    return Cond(op, e)


def zc(b):
    if isinstance(b, bool):
        return b
    b = z3.simplify(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return Cond('z3', b)


def cnot(c):
    if isinstance(c, (bool, int)):
        return not c
    if c.op == '<':
        return cmp('<=', X.neg(c.a))
    if c.op == '<=':
        return cmp('<', X.neg(c.a))
    if c.op == '==':
        return Cond('!=', c.a)
    if c.op == '!=':
        return Cond('==', c.a)
    if c.op == 'z3':
        return zc(z3.Not(c.a))
    if c.op == 'and':
        return cor(*[cnot(x) for x in c.a])
    if c.op == 'or':
        return cand(*[cnot(x) for x in c.a])
    raise ValueError(c.op)


def cand(*cs):
    out = []
    for c in cs:
        if isinstance(c, (bool, int)):
            if not c:
                return False
        else:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    if all(c.op == 'z3' for c in out):
        return zc(z3.And([c.a for c in out]))
    return Cond('and', tuple(out))


def cor(*cs):
    out = []
    for c in cs:
        if isinstance(c, (bool, int)):
            if c:
                return True
        else:
            out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    if all(c.op == 'z3' for c in out):
        return zc(z3.Or([c.a for c in out]))
    return Cond('or', tuple(out))


def eval_np(c, env, memo, n):
    """(bool array) truth on samples; z3 conditions are None (unknown)"""
    if isinstance(c, (bool, int)):
        return np.full(n, bool(c))
    if c.op in CMP:
        v = X.eval_np(c.a, env, memo)
        with np.errstate(all='ignore'):
            r = {'<': np.less, '<=': np.less_equal, '==': np.equal, '!=': np.not_equal}[c.op](v, 0.0)
        r = np.broadcast_to(r, (n,))
        # NaN: no evidence either way -> False for everything; caller masks with finite()
        return r
    if c.op == 'and':
        r = np.full(n, True)
        for x in c.a:
            y = eval_np(x, env, memo, n)
            if y is None:
                return None
            r = r & y
        return r
    if c.op == 'or':
        r = np.full(n, False)
        for x in c.a:
            y = eval_np(x, env, memo, n)
            if y is None:
                return None
            r = r | y
        return r
    return None


def eval_mp(c, env, memo, mp, tol):
    """True/False/None(unknown, too close)"""
    if isinstance(c, (bool, int)):
        return bool(c)
    if c.op in CMP:
        v = X.eval_mp(c.a, env, memo, mp)
        if mp.isnan(v) or mp.isinf(v):
            return None
        if abs(v) < tol:
            v = mp.mpf(0)
        return bool({'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[c.op])
    if c.op in ('and', 'or'):
        rs = [eval_mp(x, env, memo, mp, tol) for x in c.a]
        if c.op == 'and':
            if any(r is False for r in rs):
                return False
            return None if any(r is None for r in rs) else True
        if any(r is True for r in rs):
            return True
        return None if any(r is None for r in rs) else False
    return None


def atoms(c, out):
    if isinstance(c, (bool, int)):
        return
    if c.op in CMP or c.op == 'z3':
        out.append(c)
    else:
        for x in c.a:
            atoms(x, out)
