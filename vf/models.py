"""Models (assumed contracts) of external functions: libc, libm, C++ runtime, streams, and the contract language."""
import math
import re
import struct
from fractions import Fraction
import numpy as np
import z3
import mpmath
from . import expr as X
from .expr import E
from . import cond as K
from .cond import Cond
from .engine import (UNDEF, RInt, LInt, Unsupported, PathAbort, ContractFail, CppThrow, demangle, MASK, tosigned, RNE, fpval)

EXACT = {}
PATTERNS = []


def model(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def pattern(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


class Models:
    def __init__(self, extra=None):
        self.cache = {}
        self.exact = dict(EXACT)
        self.patterns = list(PATTERNS)
        if extra:
            extra(self)

    def lookup(self, name):
        if name in self.cache:
            return self.cache[name]
        r = self.exact.get(name)
        if r is None:
            d = demangle(name)
            for rx, f in self.patterns:
                if rx.match(d):
                    r = f
                    break
        self.cache[name] = r
        return r

    def external(self, p, name, args, ins, atys):
        raise Unsupported('external function %s (in %s)' % (demangle(name), p.where()))


# ------------------------------------------------------------------ llvm intrinsics
def _noop(p, a, ins, t, n):
    return None


for _n in ('llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.dbg.declare', 'llvm.dbg.value', 'llvm.dbg.label',
           'llvm.experimental.noalias.scope.decl', 'llvm.assume', 'llvm.invariant.start.p0', 'llvm.stackrestore.p0', 'llvm.prefetch.p0',
           'llvm.va_end.p0', 'llvm.donothing'):
    EXACT[_n] = _noop


@pattern(r'llvm\.(memcpy|memmove)\.')
def _memcpy(p, a, ins, t, n):
    p.memcpy(a[0], a[1], a[2])


@model('memcpy', 'memmove')
def _memcpy2(p, a, ins, t, n):
    p.memcpy(a[0], a[1], a[2])
    return a[0]


@pattern(r'llvm\.memset\.')
def _memset(p, a, ins, t, n):
    p.memset(a[0], a[1], a[2])


@model('memset')
def _memset2(p, a, ins, t, n):
    v = a[1]
    p.memset(a[0], v & 255 if isinstance(v, int) else p.sint(z3.Extract(7, 0, v)), a[2])
    return a[0]


@pattern(r'llvm\.(umin|umax|smin|smax)\.i(\d+)$')
def _minmax(p, a, ins, t, n):
    m = n.split('.')
    op = m[1]
    w = int(m[2][1:])
    pr = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[op]
    c = p.icmp(pr, a[0], a[1], ins.type)
    return p.select(c, a[0], a[1], ins.type)


@pattern(r'llvm\.abs\.i(\d+)$')
def _iabs(p, a, ins, t, n):
    w = int(n.split('.')[2][1:])
    c = p.icmp('slt', a[0], 0, ins.type)
    return p.select(c, p.binop('sub', 0, a[0], w), a[0], ins.type)


@pattern(r'llvm\.ctpop\.')
def _ctpop(p, a, ins, t, n):
    if isinstance(a[0], int):
        return bin(a[0]).count('1')
    raise Unsupported('ctpop')


@pattern(r'llvm\.ctlz\.i(\d+)')
def _ctlz(p, a, ins, t, n):
    w = int(n.split('.')[2][1:])
    if isinstance(a[0], int):
        return w - a[0].bit_length()
    raise Unsupported('ctlz')


@pattern(r'llvm\.cttz\.i(\d+)')
def _cttz(p, a, ins, t, n):
    w = int(n.split('.')[2][1:])
    if isinstance(a[0], int):
        return w if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
    raise Unsupported('cttz')


@pattern(r'llvm\.bswap\.i(\d+)')
def _bswap(p, a, ins, t, n):
    w = int(n.split('.')[2][1:])
    if isinstance(a[0], int):
        return int.from_bytes(a[0].to_bytes(w // 8, 'little'), 'big')
    v = p.bv(a[0], w)
    return p.sint(z3.Concat([z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)]))


@pattern(r'llvm\.(fshl|fshr)\.i(\d+)')
def _fsh(p, a, ins, t, n):
    w = int(n.split('.')[2][1:])
    s = a[2]
    if isinstance(s, int):
        s %= w
        if n.startswith('llvm.fshl'):
            return p.binop('or', p.binop('shl', a[0], s, w), p.binop('lshr', a[1], w - s, w) if s else 0, w) if s else a[0]
        return p.binop('or', p.binop('shl', a[0], w - s, w), p.binop('lshr', a[1], s, w), w) if s else a[1]
    raise Unsupported('funnel shift by symbolic amount')


@pattern(r'llvm\.(uadd|usub|umul|sadd|ssub|smul)\.with\.overflow\.i(\d+)')
def _ovf(p, a, ins, t, n):
    m = n.split('.')
    op, w = m[1], int(m[-1][1:])
    o = op[1:]
    if isinstance(a[0], int) and isinstance(a[1], int):
        x, y = a[0], a[1]
        if op[0] == 's':
            x, y = tosigned(x, w), tosigned(y, w)
        r = {'add': x + y, 'sub': x - y, 'mul': x * y}[o]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op[0] == 's' else (0, (1 << w) - 1)
        return [r & MASK[w], int(not lo <= r <= hi)]
    r = p.binop(o, a[0], a[1], w)
    x, y = p.bv(a[0], w), p.bv(a[1], w)
    ex = (lambda v: z3.SignExt(w, v)) if op[0] == 's' else (lambda v: z3.ZeroExt(w, v))
    full = {'add': ex(x) + ex(y), 'sub': ex(x) - ex(y), 'mul': ex(x) * ex(y)}[o]
    c = K.zc(full != ex(p.bv(r, w)))
    return [r, p.b1(c)]


@pattern(r'llvm\.usub\.sat\.i(\d+)')
def _usubsat(p, a, ins, t, n):
    w = int(n.split('.')[-1][1:])
    c = p.icmp('ugt', a[0], a[1], ins.type)
    return p.select(c, p.binop('sub', a[0], a[1], w), 0, ins.type)


@pattern(r'llvm\.objectsize\.')
def _objsize(p, a, ins, t, n):
    return MASK[ins.type.width]


@pattern(r'llvm\.is\.constant\.')
def _iscst(p, a, ins, t, n):
    return 0


@pattern(r'llvm\.expect\.')
def _expect(p, a, ins, t, n):
    return a[0]


@model('llvm.stacksave.p0', 'llvm.stacksave')
def _ss(p, a, ins, t, n):
    return 0


@model('llvm.trap')
def _trap(p, a, ins, t, n):
    p.fail('no abnormal termination', 'trap in %s' % p.where())


@model('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def _typeid(p, a, ins, t, n):
    return p.ti_id(a[0])


# ------------------------------------------------------------------ libm
def fp1(p, v):
    if isinstance(v, int):
        return p.bits_to_fp(v, 'double')
    return v


_pyf = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan,
        'exp': math.exp, 'log': math.log}


def mathfn(p, name, args):
    args = [fp1(p, v) for v in args]
    if any(v is UNDEF for v in args):
        return UNDEF
    if not p.real:
        if all(isinstance(v, float) for v in args):
            f = np.float64
            with np.errstate(all='ignore'):
                nm = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'atan2': 'arctan2', 'pow': 'power'}.get(name, name)
                return float(getattr(np, nm)(*[f(v) for v in args]))
        raise Unsupported('%s in bit-precise mode' % name)
    if any(isinstance(v, float) for v in args):
        if name == 'sqrt' and args[0] == math.inf:
            return math.inf
        raise Unsupported('%s of infinity/NaN' % name)
    if name in ('asin', 'acos'):
        u = args[0]
        p.domain(K.cmp('<=', X.sub(u, X.ONE)), 'argument of %s at most one' % name)
        p.domain(K.cmp('<=', X.sub(X.MONE, u)), 'argument of %s at least minus one' % name)
        r = inverse_trig(p, name, u)
        if r is not None:
            return r
    if name == 'atan2':
        r = atan2_candidates(p, args[0], args[1])
        if r is not None:
            return r
    if name == 'log':
        p.domain(K.cmp('<', X.neg(args[0])), 'argument of log positive')
    if name == 'pow' and args[1].op == 'c':
        k = args[1].a
        if k.denominator == 1 and 0 <= k <= 16:
            r = X.ONE
            for _ in range(int(k)):
                r = X.mul(r, args[0])
            return r
        if k == Fraction(1, 2):
            return mathfn(p, 'sqrt', args[:1])
        if k.denominator <= 2 and abs(k) <= 16:
            # half-integer and negative powers of a nonnegative base
            b = mathfn(p, 'sqrt', args[:1]) if k.denominator == 2 else args[0]
            r = X.ONE
            for _ in range(abs(k.numerator)):
                r = X.mul(r, b)
            if k < 0:
                p.domain(K.cmp('!=', r), 'division by nonzero')
                r = X.div(X.ONE, r)
            return r
    if name == 'sqrt':
        p.domain(K.cmp('<=', X.neg(args[0])), 'argument of square root nonnegative')
        return sqrt_simplify(p, args[0])
    return X.fn(name, *args)


def sqrt_simplify(p, e):
    # perfect squares: sqrt(x*x) = |x|
    if e.op == '*' and e.a[0] is e.a[1]:
        return p.fabs(e.a[0])
    v = p.prover_value(e)
    if v is not None and v >= 0:
        return X.fn('sqrt', X.const(v))
    s = X.fn('sqrt', e)
    # |candidate|
    a = np.broadcast_to(np.asarray(X.eval_np(s, p.run.samples, p.run.npmemo), dtype=float), (p.run.N,))
    for c in p.run.candidates:
        b = np.broadcast_to(np.asarray(X.eval_np(c, p.run.samples, p.run.npmemo), dtype=float), (p.run.N,))
        m = p.live & np.isfinite(a) & np.isfinite(b)
        if not p.live.any() or m.any() and np.allclose(np.abs(b[m]), a[m], rtol=1e-6, atol=1e-9):
            if p.run.prover.nf_zero(X.sub(X.mul(c, c), e), p.pc):
                return p.fabs(c)
    return s


def holds(p, c):
    """cheap proof attempt of a side condition"""
    c = p.simp(c)
    if isinstance(c, bool):
        return c
    r = K.eval_np(c, p.run.samples, p.run.npmemo, p.run.N)
    if r is not None and np.any(p.live & ~r & p.finite(c)):
        for k in np.nonzero(p.live & ~r & p.finite(c))[0][:6]:
            if p.confirm(k, K.cnot(c)):
                return False
    return p.run.prover.z3_prove(c, p.pc, 2000) is True


def angle_candidates(p):
    return list(p.run.candidates)


def close(p, a, b):
    a = np.broadcast_to(np.asarray(X.eval_np(a, p.run.samples, p.run.npmemo), dtype=float), (p.run.N,))
    b = np.broadcast_to(np.asarray(X.eval_np(b, p.run.samples, p.run.npmemo), dtype=float), (p.run.N,))
    m = p.live & np.isfinite(a) & np.isfinite(b)
    return (not p.live.any()) or (m.any() and np.allclose(a[m], b[m], rtol=1e-5, atol=1e-6))


def inverse_trig(p, name, u):
    f = name[1:]
    half = X.mul(X.const(Fraction(1, 2)), X.PI)
    cands = ([u.a[0]] if u.op == f else []) + angle_candidates(p)
    for w in cands:
        if not close(p, X.fn(name, u), w):
            continue
        lo, hi = (X.ZERO, X.PI) if name == 'acos' else (X.neg(half), half)
        if not holds(p, K.cmp('<=', X.sub(lo, w))) or not holds(p, K.cmp('<=', X.sub(w, hi))):
            continue
        if p.run.prover.nf_zero(X.sub(u, X.fn(f, w)), p.pc):
            return w
    return None


def atan2_candidates(p, y, x):
    at = X.fn('atan2', y, x)
    for w in angle_candidates(p):
        if not close(p, at, w):
            continue
        if not holds(p, K.cmp('<', X.sub(X.neg(X.PI), w))) or not holds(p, K.cmp('<=', X.sub(w, X.PI))):
            continue
        c, s = X.fn('cos', w), X.fn('sin', w)
        if not p.run.prover.nf_zero(X.sub(X.mul(y, c), X.mul(x, s)), p.pc):
            continue
        r = X.add(X.mul(x, c), X.mul(y, s))
        if holds(p, K.cmp('<', X.neg(r))):
            return w
        # r = positive known factor?
        for q in p.run.candidates:
            if close(p, r, q) and p.run.prover.nf_zero(X.sub(r, q), p.pc) and holds(p, K.cmp('<', X.neg(q))):
                return w
    return None


for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt', 'exp', 'log', 'pow', 'fmod', 'cbrt', 'hypot'):
    def _mk(nm):
        def f(p, a, ins, t, n):
            if nm == 'sqrt' and not p.real:
                v = fp1(p, a[0])
                if isinstance(v, float):
                    return math.sqrt(v) if v >= 0 else math.nan
                return p.sfp(z3.fpSqrt(RNE, v))
            return mathfn(p, nm, a)
        return f
    EXACT[_n] = _mk(_n)
    EXACT['llvm.%s.f64' % _n] = _mk(_n)
    EXACT[_n + 'f'] = _mk(_n)
    EXACT['llvm.%s.f32' % _n] = _mk(_n)


@model('fabs', 'llvm.fabs.f64', 'fabsf', 'llvm.fabs.f32')
def _fabs(p, a, ins, t, n):
    if a[0] is UNDEF:
        return UNDEF
    return p.fabs(fp1(p, a[0]))


@pattern(r'llvm\.fabs\.v\d+f64')
def _vfabs(p, a, ins, t, n):
    return [p.fabs(x) for x in a[0]]


@pattern(r'llvm\.sqrt\.v\d+f64')
def _vsqrt(p, a, ins, t, n):
    return [EXACT['sqrt'](p, [x], ins, t, n) for x in a[0]]


@model('llvm.fmuladd.f64', 'llvm.fma.f64', 'fma')
def _fma(p, a, ins, t, n):
    return p.fbin('fadd', p.fbin('fmul', a[0], a[1]), a[2])


@model('floor', 'llvm.floor.f64', 'ceil', 'llvm.ceil.f64', 'llvm.trunc.f64', 'trunc', 'llvm.rint.f64', 'rint', 'nearbyint', 'llvm.nearbyint.f64', 'round', 'llvm.round.f64',
       'floorf', 'llvm.floor.f32', 'ceilf', 'llvm.ceil.f32', 'llvm.trunc.f32', 'truncf', 'llvm.rint.f32', 'rintf', 'roundf', 'llvm.round.f32')
def _floor(p, a, ins, t, n):
    k = n.replace('llvm.', '').split('.')[0]
    if k.endswith('f') and k != 'f':
        k = k[:-1]
    v = fp1(p, a[0])
    if v is UNDEF:
        return v
    if p.real:
        if isinstance(v, float):
            return v
        if k == 'floor':
            return X.fn('floor', v)
        if k == 'ceil':
            return X.neg(X.fn('floor', X.neg(v)))
        if k == 'trunc':
            return X.fn('floor', v) if not p.decide(K.cmp('<', v)) else X.neg(X.fn('floor', X.neg(v)))
        if k == 'round':
            h = X.const(Fraction(1, 2))
            return X.fn('floor', X.add(v, h)) if not p.decide(K.cmp('<', v)) else X.neg(X.fn('floor', X.add(X.neg(v), h)))
        raise Unsupported(k + ' of real')
    md = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': RNE, 'nearbyint': RNE, 'round': z3.RNA()}[k]
    kind = 'float' if (n.endswith('f32') or n in ('floorf', 'ceilf', 'truncf', 'rintf', 'roundf')) else 'double'
    return p.sfp(z3.fpRoundToIntegral(md, p.fz(v, kind)))


@model('lrint', 'lrintf', 'llrint', 'llrintf', 'lround', 'lroundf', 'llround', 'llroundf', 'llvm.lrint.i64.f64', 'llvm.lrint.i64.f32', 'llvm.lround.i64.f64', 'llvm.lround.i64.f32', 'llvm.llrint.i64.f64', 'llvm.llround.i64.f64', 'llvm.llrint.i64.f32', 'llvm.llround.i64.f32')
def _lrint(p, a, ins, t, n):
    v = fp1(p, a[0])
    if p.real:
        raise Unsupported('lrint')
    md = RNE if 'rint' in n else z3.RNA()
    kind = 'float' if n.endswith('f32') or n.rstrip('f') != n and 'f64' not in n and n[0] == 'l' and not n.startswith('llvm') else 'double'
    x = p.fz(v, kind)
    r = z3.fpRoundToIntegral(md, x)
    so = x.sort()
    p.must(K.zc(z3.And(z3.fpGEQ(r, z3.FPVal(-2.0 ** 63, so)), z3.fpLT(r, z3.FPVal(2.0 ** 63, so)))), 'float to integer conversion in range')
    return p.sint(z3.fpToSBV(md, x, z3.BitVecSort(64)))


@pattern(r'llvm\.(minnum|maxnum)\.f(64|32)|^f(min|max)f?$')
def _fmin(p, a, ins, t, n):
    mn = 'min' in n
    c = p.fcmp('olt', a[0], a[1]) if mn else p.fcmp('ogt', a[0], a[1])
    return p.select(c, a[0], a[1], ins.type)


@pattern(r'llvm\.copysign\.f64|copysign$')
def _copysign(p, a, ins, t, n):
    x, y = fp1(p, a[0]), fp1(p, a[1])
    if p.real:
        m = p.fabs(x)
        if p.decide(K.cmp('<', y)):
            return X.neg(m)
        return m
    if isinstance(x, float) and isinstance(y, float):
        return math.copysign(x, y)
    x, y = p.fz(x), p.fz(y)
    return p.sfp(z3.If(z3.fpIsNegative(y), z3.fpNeg(z3.fpAbs(x)), z3.fpAbs(x)))


@pattern(r'llvm\.is\.fpclass\.f64')
def _fpclass(p, a, ins, t, n):
    m = a[1]
    v = fp1(p, a[0])
    if p.real and isinstance(v, E):
        # finite reals: normal/subnormal/zero
        if m & 3 and not (m & ~3) or m & 0x204 and not (m & ~0x207):
            return 0
        if m & 0x1f8 == 0x1f8:
            return 1
        raise Unsupported('fpclass %x' % m)
    if isinstance(v, float):
        c = 3 if v != v else (0x204 if abs(v) == math.inf else 0x1f8)
        return int(bool(m & c))
    cs = []
    if m & 3:
        cs.append(z3.fpIsNaN(v))
    if m & 0x204 == 0x204:
        cs.append(z3.fpIsInf(v))
    if m & 0x1f8 == 0x1f8:
        cs.append(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))))
    return p.b1(K.zc(z3.Or(cs)))


# ------------------------------------------------------------------ memory management
@model('malloc', '_Znwm', '_Znam')
def _malloc(p, a, ins, t, n):
    s = a[0]
    if not isinstance(s, int):
        s = p.concretize(s, 64)
    if s > 1 << 40:
        if n == 'malloc':
            return 0
        p.throw_std('_ZTISt9bad_alloc')
    return p.alloc(s, 'heap')


@model('calloc')
def _calloc(p, a, ins, t, n):
    s = p.concretize(a[0], 64) * p.concretize(a[1], 64)
    r = p.alloc(s, 'heap')
    p.memset(r, 0, s)
    return r


@model('realloc')
def _realloc(p, a, ins, t, n):
    s = p.concretize(a[1], 64)
    r = p.alloc(s, 'heap')
    if a[0]:
        al = p.find(a[0])
        p.memcpy(r, a[0], min(s, al.size))
        p.free(a[0])
    return r


@model('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm')
def _free(p, a, ins, t, n):
    p.free(a[0])


@model('_ZnwmSt11align_val_t')
def _newal(p, a, ins, t, n):
    return p.alloc(p.concretize(a[0], 64), 'heap', a[1])


@model('_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _delal(p, a, ins, t, n):
    p.free(a[0])


@model('__cxa_guard_acquire')
def _guard(p, a, ins, t, n):
    v = p.get(a[0], 1)
    return 0 if v == 1 else 1


@model('__cxa_guard_release')
def _guardr(p, a, ins, t, n):
    p.put(a[0], 1, 1)


@model('__cxa_guard_abort', '__cxa_atexit', 'atexit')
def _zero(p, a, ins, t, n):
    return 0


@model('__cxa_allocate_exception')
def _cae(p, a, ins, t, n):
    return p.alloc(a[0] + 64, 'exception')


@model('__cxa_free_exception')
def _cfe(p, a, ins, t, n):
    p.free(a[0])


@model('__cxa_throw')
def _throw(p, a, ins, t, n):
    p.exc_types[a[0]] = a[1]
    raise CppThrow(a[0], a[1])


@model('__cxa_begin_catch')
def _bc(p, a, ins, t, n):
    p.caught.append(a[0])
    return a[0]


@model('__cxa_get_exception_ptr')
def _gep(p, a, ins, t, n):
    return a[0]


@model('__cxa_end_catch')
def _ec(p, a, ins, t, n):
    if p.caught:
        p.caught.pop()


@model('__cxa_rethrow')
def _rt(p, a, ins, t, n):
    o = p.caught[-1]
    raise CppThrow(o, p.exc_types[o])


@model('_ZSt9terminatev', 'abort', 'exit', '__cxa_pure_virtual', '__assert_fail', '__clang_call_terminate', '__cxa_call_unexpected', '_ZSt10unexpectedv')
def _abort(p, a, ins, t, n):
    p.fail('no abnormal termination', '%s called in %s' % (n, p.where()))


for _nm, _ti in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'), ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
                 ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'), ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
                 ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'), ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast'),
                 ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'), ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'),
                 ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt9bad_alloc')):
    def _mk2(ti):
        def f(p, a, ins, t, n):
            p.throw_std(ti)
        return f
    EXACT[_nm] = _mk2(_ti)


@model('strlen')
def _strlen(p, a, ins, t, n):
    return slen(p, cbytes(p, a[0]))


def slen(p, bs):
    k = sum(1 for b in bs if not isinstance(b, z3.SeqRef))
    q = [z3.Length(b) for b in bs if isinstance(b, z3.SeqRef)]
    return LInt(z3.simplify(z3.Sum(q) + k)) if q else k


@model('memcmp', 'bcmp', 'strcmp', 'strncmp')
def _memcmp(p, a, ins, t, n):
    if n == 'strcmp':
        x, y = p.rdstr(a[0]), p.rdstr(a[1])
        return (x > y) - (x < y) & 0xffffffff
    k = p.concretize(a[2], 64)
    for i in range(k):
        x, y = p.load_byte(a[0] + i), p.load_byte(a[1] + i)
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return (1 if x > y else -1) & 0xffffffff
            if n == 'strncmp' and x == 0:
                return 0
        else:
            bx, by = p.bv(x, 8), p.bv(y, 8)
            if p.decide(p.icmp_bv(bx == by)):
                continue
            return 1 if p.decide(p.icmp_bv(z3.UGT(bx, by))) else 0xffffffff
    return 0


# standard exception classes: the message text is kept beside the object
@pattern(r'std::(runtime_error|logic_error|exception|out_of_range|invalid_argument|length_error|domain_error|range_error|overflow_error|underflow_error|bad_cast|bad_alloc)::')
def _stdexc(p, a, ins, t, n):
    d = demangle(n)
    if d.endswith('::what() const'):
        tx = p.opaque.get(a[0], ('exc', None))[1]
        if tx is not None and any(isinstance(b, z3.SeqRef) for b in tx):
            s = p.alloc(1, 'what')
            p.cstr[s] = tx
            return s
        s = p.alloc((len(tx) if tx is not None else 4) + 1, 'what')
        p.wrstr(s, list(tx if tx is not None else b'what') + [0])
        return s
    if '::~' not in d:
        tx = None
        if len(a) > 1:
            if d.endswith('(char const*)'):
                tx = rdtext(p, a[1], None)
            elif 'basic_string' in d:
                tx = stext(p, a[1])
            else:
                tx = p.opaque.get(a[1], ('exc', None))[1]
        p.opaque[a[0]] = ('exc', tx)
        if d.endswith('&)') and len(a) > 1 and 'operator=' in d:
            return a[0]
    return a[0] if ins is not None and ins.type.kind == 'ptr' else None


OPAQUE_TEXT = b'<text>'


def zero_terminated(p, bs):
    from .slib import upto_zero
    return upto_zero(p, list(bs))


def rdtext(p, ptr, n):
    """text as a list of bytes (possibly symbolic); None when the length is not known"""
    if n is None and ptr in p.cstr:
        return zero_terminated(p, p.cstr[ptr])
    if not isinstance(ptr, int) or not (n is None or isinstance(n, int)):
        return None
    try:
        out = []
        while n is None or len(out) < n:
            b = p.load_byte(ptr + len(out))
            if n is None and isinstance(b, int) and b == 0:
                break
            if n is None and not isinstance(b, int):
                return None
            out.append(b)
        return out
    except Unsupported:
        return None


def stext(p, s):
    try:
        return sget(p, s)
    except Unsupported:
        return None


# ---- string streams: the text written so far, kept in the stream buffer
_SS = r'std::__cxx11::basic_(o|i|)stringstream<char, std::char_traits<char>, std::allocator<char> >::'
SBOFF = {'': 24, 'o': 8, 'i': 16}
OSOFF = {'': 16, 'o': 0, 'i': 0}


def ssync(p, sb, text):
    p.streams[sb] = text
    if text and any(isinstance(b, z3.SeqRef) for b in text):
        for o in (8, 16, 24, 32, 40, 48):
            p.put(sb + o, UNDEF, 8)
    elif text:
        buf = p.alloc(len(text) + 1, 'streambuf')
        p.wrstr(buf, text)
        p.put(sb + 32, buf, 8)
        p.put(sb + 40, buf + len(text), 8)
        p.put(sb + 48, buf + len(text), 8)
        p.put(sb + 24, buf + len(text), 8)
        p.put(sb + 8, buf, 8)
        p.put(sb + 16, buf, 8)
    else:
        for o in (8, 16, 24, 32, 40, 48):
            p.put(sb + o, 0, 8)


@pattern(_SS + r'(basic_stringstream|basic_ostringstream|basic_istringstream)\(')
def _ssctor(p, a, ins, t, n):
    d = demangle(n)
    k = re.match(_SS, d).group(1)
    sb = a[0] + SBOFF[k]
    sinit(p, sb + 72, b'')
    tx = []
    if 'basic_string<' in d[d.index('stringstream('):]:
        tx = stext(p, a[1])
        if tx is None:
            raise Unsupported('string stream over a string of unknown length')
    p.oss[a[0] + OSOFF[k]] = sb
    p.oss[a[0]] = sb
    ios_init(p, a[0] + {'': 128, 'o': 112, 'i': 120}[k], {a[0], a[0] + OSOFF[k]}, sb)
    ssync(p, sb, tx)


def ios_init(p, ios, bases, sb):
    for b in bases:
        vt = p.alloc(64, 'vtable')
        p.put(vt, (ios - b) & MASK[64], 8)
        p.put(b, vt + 24, 8)
    for o, v, w in ((8, 6, 8), (16, 0, 8), (24, 0x1002, 4), (28, 0, 4), (32, 0, 4), (216, 0, 8), (224, 32, 1), (225, 1, 1), (232, sb, 8), (248, 0, 8), (256, 0, 8)):
        p.put(ios + o, v, w)
    ct = p.alloc(600, 'ctype')
    p.put(ct + 56, 1, 1)
    for i in range(256):
        p.put(ct + 57 + i, i, 1)
    p.put(ios + 240, ct, 8)


def std_stream(p, a):
    """std::cout and the like: the text written is kept as for string streams"""
    sb = p.alloc(128, 'streambuf')
    p.oss[a] = sb
    ios_init(p, a + 8, {a}, sb)
    ssync(p, sb, [])


@pattern(_SS + r'~basic_')
def _ssdtor(p, a, ins, t, n):
    d = demangle(n)
    k = re.match(_SS, d).group(1)
    p.oss.pop(a[0], None)
    p.oss.pop(a[0] + OSOFF[k], None)
    p.streams.pop(a[0] + SBOFF[k], None)


@pattern(r'std::__cxx11::basic_(o|i|)stringstream<.*>::str\(\) const|std::__cxx11::basic_stringbuf<.*>::str\(\) const')
def _ssstr(p, a, ins, t, n):
    s, o = a[0], a[1]
    sb = p.oss.get(o, o)
    tx = p.streams.get(sb)
    sinit(p, s, OPAQUE_TEXT if tx is None else tx)


@pattern(_SS + r'str\(std::__cxx11::basic_string')
def _sssetstr(p, a, ins, t, n):
    sb = p.oss.get(a[0], a[0])
    tx = stext(p, a[1])
    ssync(p, sb, tx)


@pattern(r'(std::__cxx11::basic_string.* )?std::__cxx11::to_string')
def _tostr(p, a, ins, t, n):
    v = a[1]
    if isinstance(v, int):
        d = demangle(n)
        w = 32 if '(int)' in d or '(unsigned int)' in d else 64
        sinit(p, a[0], str(v if 'unsigned' in d else tosigned(v, w)).encode())
        return
    sinit(p, a[0], OPAQUE_TEXT)


def fmtnum(v, ty, n):
    """text of a number in the default stream format"""
    if isinstance(v, float):
        return ('%g' % v).encode()
    if isinstance(v, E) and v.op == 'c':
        return ('%g' % float(v.a)).encode()
    if isinstance(v, int) and ty is not None:
        return str(v if ty[0] == 'u' else tosigned(v, ty[1])).encode()
    return OPAQUE_TEXT


_NUMT = {'int': ('s', 32), 'unsigned int': ('u', 32), 'long': ('s', 64), 'unsigned long': ('u', 64), 'short': ('s', 16), 'unsigned short': ('u', 16),
         'long long': ('s', 64), 'unsigned long long': ('u', 64), 'bool': ('u', 1), 'double': None, 'float': None}


@pattern(r'std::(basic_ostream<char, std::char_traits<char> >|ostream)& std::(basic_ostream<char, std::char_traits<char> >|ostream)::_M_insert<(.*)>\(|'
         r'std::(basic_ostream<char, std::char_traits<char> >|ostream)::operator<<\((int|unsigned int|long|unsigned long|short|unsigned short|long long|unsigned long long|bool|double|float|void const\*)\)')
def _osnum(p, a, ins, t, n):
    sb = p.oss.get(a[0])
    if sb is not None:
        d = demangle(n)
        m = re.search(r'_M_insert<(.*?)>\(', d) or re.search(r'operator<<\((.*?)\)', d)
        v = a[1]
        b = fmtnum(v, _NUMT.get(m.group(1)), d)
        ssync(p, sb, p.streams[sb] + list(b))
    return a[0]


@pattern(r'std::basic_ostream<char, std::char_traits<char> >& std::(__ostream_insert|operator<<) ?<.*>\(')
def _ostext(p, a, ins, t, n):
    sb = p.oss.get(a[0])
    if sb is not None:
        d = demangle(n)
        ar = d[d.rindex('&, ') + 3:] if '&, ' in d else ''
        tail = d[d.index('('):]
        if '__ostream_insert' in d:
            tx = rdtext(p, a[1], a[2])
        elif 'basic_string<' in tail:
            tx = stext(p, a[1])
        elif tail.rstrip(')').endswith('char const*'):
            tx = rdtext(p, a[1], None)
        elif tail.rstrip(')').endswith('char'):
            tx = [a[1]]
        else:
            tx = None
        ssync(p, sb, p.streams[sb] + (list(OPAQUE_TEXT) if tx is None else tx))
    return a[0]


@pattern(r'std::(basic_ostream<char, std::char_traits<char> >|ostream)::(put|write)\(')
def _osput(p, a, ins, t, n):
    sb = p.oss.get(a[0])
    if sb is not None:
        tx = [a[1]] if '::put(' in demangle(n) else rdtext(p, a[1], a[2])
        ssync(p, sb, p.streams[sb] + (list(OPAQUE_TEXT) if tx is None else tx))
    return a[0]


@pattern(r'(std::(basic_ostream|basic_ios|ios_base|locale|basic_istream|basic_streambuf|__cxx11::basic_(o|i|)stringstream|__cxx11::basic_stringbuf)(<[^(]*>)?::|'
         r'std::(basic_ostream|ostream).* std::(operator<<|endl|flush|ends|__ostream_insert|ostream::)|std::ostream::)')
def _stream(p, a, ins, t, n):
    if ins is not None and ins.type.kind == 'ptr':
        return a[0]
    if ins is not None and ins.type.kind == 'int':
        return 0
    return None


# std::string library members: concrete length, bytes possibly symbolic
def sget(p, s):
    """contents of the string object at s as a list of bytes (and of texts of arbitrary length)"""
    if s in p.ropes:
        return list(p.ropes[s])
    ptr = p.get(s, 8)
    ln = p.get(s + 8, 8)
    if not isinstance(ln, int):
        raise Unsupported('symbolic string length')
    return [p.load_byte(ptr + i) for i in range(ln)]


def sset(p, s, bs):
    """(re)assign the string object at s"""
    if s in p.ropes:
        del p.ropes[s]
    else:
        ptr = p.get(s, 8)
        if ptr is not UNDEF and ptr != s + 16:
            p.free(ptr)
    sinit(p, s, bs)


def sinit(p, s, bs):
    p.ropes.pop(s, None)
    if any(isinstance(b, z3.SeqRef) for b in bs):
        p.check(s, 32, 'store')
        p.put(s, UNDEF, 8)
        p.put(s + 8, UNDEF, 8)
        p.ropes[s] = list(bs)
        return
    if len(bs) <= 15:
        ptr = s + 16
    else:
        ptr = p.alloc(len(bs) + 1, 'heap')
        p.put(s + 16, len(bs), 8)
    p.put(s, ptr, 8)
    p.put(s + 8, len(bs), 8)
    p.wrstr(ptr, list(bs) + [0])


def beq(p, x, y):
    """Cond/bool: two bytes are equal"""
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    return p.bv(x, 8) == p.bv(y, 8)


def zor(cs):
    cs = [c for c in cs if c is not False]
    if any(c is True for c in cs):
        return True
    return z3.Or(*cs) if cs else False


def zand(cs):
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs):
        return False
    return z3.And(*cs) if cs else True


def zdecide(p, c):
    return c if isinstance(c, bool) else p.decide(p.icmp_bv(c))


def cbytes(p, ptr, n=None):
    """bytes at ptr: n of them, or up to the terminating zero (decided byte by byte)"""
    if ptr in p.cstr:
        if n is not None:
            raise Unsupported('part of a C string of arbitrary length in %s' % p.where())
        return zero_terminated(p, p.cstr[ptr])
    out = []
    while n is None or len(out) < n:
        b = p.load_byte(ptr + len(out))
        if n is None and zdecide(p, beq(p, b, 0)):
            break
        out.append(b)
    return out


_BS = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::'
NPOS = (1 << 64) - 1


@pattern(_BS + r'basic_string(<.*>)?\(')
def _sctor(p, a, ins, t, n):
    d = demangle(n)
    ar = d[d.index('::basic_string') + 2:]
    ar = ar[ar.index('(') + 1:ar.rindex(')')]
    if ar in ('', 'std::allocator<char> const&'):
        sinit(p, a[0], [])
    elif ar.startswith('char const*, unsigned long'):
        sinit(p, a[0], cbytes(p, a[1], p.concretize(a[2], 64)))
    elif ar.startswith('char const*'):
        sinit(p, a[0], cbytes(p, a[1]))
    elif ar.startswith('unsigned long, char'):
        sinit(p, a[0], [a[2]] * p.concretize(a[1], 64))
    elif ar.startswith('std::__cxx11::basic_string'):
        s = sget(p, a[1])
        if ', unsigned long' in ar:
            i = p.concretize(a[2], 64)
            k = p.concretize(a[3], 64) if ar.count('unsigned long') > 1 else NPOS
            if i > len(s):
                p.throw_std('_ZTISt12out_of_range')
            sinit(p, a[0], s[i:i + k])
        else:
            sinit(p, a[0], s)
            if '&&' in ar:
                sset(p, a[1], [])
    else:
        raise Unsupported('string constructor %s' % d)


@pattern(_BS + r'~basic_string\(')
def _sdtor(p, a, ins, t, n):
    _mdispose(p, a, ins, t, n)


@pattern(_BS + r'operator=\(')
def _sassign(p, a, ins, t, n):
    d = demangle(n)
    if 'char const*' in d:
        sset(p, a[0], cbytes(p, a[1]))
    elif a[0] != a[1]:
        s = sget(p, a[1])
        sset(p, a[0], s)
        if '&&' in d:
            sset(p, a[1], [])
    return a[0]


@pattern(_BS + r'_M_create\(')
def _mcreate(p, a, ins, t, n):
    return p.alloc(p.concretize(p.get(a[1], 8), 64) + 1, 'heap')


@pattern(_BS + r'_M_dispose\(')
def _mdispose(p, a, ins, t, n):
    if p.ropes.pop(a[0], None) is not None:
        return
    ptr = p.get(a[0], 8)
    if ptr != a[0] + 16:
        p.free(ptr)


@pattern(_BS + r'_M_append\(char const\*')
def _mappend(p, a, ins, t, n):
    sset(p, a[0], sget(p, a[0]) + cbytes(p, a[1], p.concretize(a[2], 64)))
    return a[0]


@pattern(_BS + r'_M_replace\(')
def _mreplace(p, a, ins, t, n):
    s = sget(p, a[0])
    a = [a[0]] + [p.concretize(x, 64) for x in a[1:]]
    sset(p, a[0], s[:a[1]] + cbytes(p, a[3], a[4]) + s[a[1] + a[2]:])
    return a[0]


@pattern(_BS + r'_M_replace_aux\(')
def _mreplaceaux(p, a, ins, t, n):
    s = sget(p, a[0])
    i, k, m = [p.concretize(x, 64) for x in a[1:4]]
    sset(p, a[0], s[:i] + [a[4]] * m + s[i + k:])
    return a[0]


@pattern(_BS + r'_M_construct\(unsigned long, char\)')
def _mconstruct(p, a, ins, t, n):
    sinit(p, a[0], [a[2]] * p.concretize(a[1], 64))


@pattern(_BS + r'(_M_construct<.*>\(|_M_construct_aux)')
def _mconstruct2(p, a, ins, t, n):
    sinit(p, a[0], cbytes(p, a[1], a[2] - a[1]))


@pattern(_BS + r'_M_assign\(')
def _massign(p, a, ins, t, n):
    if a[0] != a[1]:
        sset(p, a[0], sget(p, a[1]))


@pattern(_BS + r'_M_erase\(')
def _merase(p, a, ins, t, n):
    s = sget(p, a[0])
    i, k = p.concretize(a[1], 64), p.concretize(a[2], 64)
    sset(p, a[0], s[:i] + s[i + k:])


@pattern(_BS + r'_M_mutate\(')
def _mmutate(p, a, ins, t, n):
    s = sget(p, a[0])
    i, l1, l2 = p.concretize(a[1], 64), p.concretize(a[2], 64), p.concretize(a[4], 64)
    mid = cbytes(p, a[3], l2) if a[3] and l2 else [0] * l2
    sset(p, a[0], s[:i] + mid + s[i + l1:])
    p.put(a[0] + 8, len(s), 8)       # the callers set the length


@pattern(_BS + r'push_back\(')
def _spush(p, a, ins, t, n):
    sset(p, a[0], sget(p, a[0]) + [a[1]])


@pattern(_BS + r'resize\(unsigned long, char\)')
def _sresize(p, a, ins, t, n):
    s = sget(p, a[0])
    k = p.concretize(a[1], 64)
    sset(p, a[0], s[:k] + [a[2]] * max(0, k - len(s)))


@pattern(_BS + r'reserve\(')
def _sres(p, a, ins, t, n):
    return None


@pattern(_BS + r'swap\(')
def _sswap(p, a, ins, t, n):
    x, y = sget(p, a[0]), sget(p, a[1])
    sset(p, a[0], y)
    sset(p, a[1], x)


def sargs(p, d, a):
    """the text argument of a search member, and the position"""
    ar = d[d.rindex('(') + 1:d.rindex(')')]
    if ar.startswith('char const*, unsigned long, unsigned long'):
        return cbytes(p, a[1], p.concretize(a[3], 64)), a[2]
    if ar.startswith('char const*'):
        return cbytes(p, a[1]), a[2]
    if ar.startswith('char,'):
        return [a[1]], a[2]
    return sget(p, a[1]), a[2]


@pattern(_BS + r'(find_first_not_of|find_first_of|find_last_not_of|find_last_of|find|rfind)\(')
def _sfind(p, a, ins, t, n):
    d = demangle(n)
    m = re.search(r'::(find_first_not_of|find_first_of|find_last_not_of|find_last_of|find|rfind)\(', d).group(1)
    d = d[:d.rindex(')') + 1]
    s = sget(p, a[0])
    w, pos = sargs(p, d, a)
    pos = p.concretize(pos, 64)
    if m in ('find', 'rfind'):
        rg = range(pos, len(s) - len(w) + 1) if m == 'find' else range(min(pos, len(s) - len(w)), -1, -1)
        conds = [(i, zand([beq(p, s[i + j], w[j]) for j in range(len(w))])) for i in rg]
    else:
        rg = range(pos, len(s)) if 'first' in m else range(min(pos, len(s) - 1), -1, -1)
        conds = []
        for i in rg:
            c = zor([beq(p, s[i], x) for x in w])
            if 'not' in m:
                c = (not c) if isinstance(c, bool) else z3.Not(c)
            conds.append((i, c))
    conds = [(i, c) for i, c in conds if c is not False]
    if not conds:
        return NPOS
    # decide first whether there is any (no need to enumerate the position when there is none)
    if len(conds) > 1 and not isinstance(conds[0][1], bool) and not zdecide(p, zor([c for i, c in conds])):
        return NPOS
    for i, c in conds:
        if zdecide(p, c):
            return i
    return NPOS


@pattern(_BS + r'compare\(')
def _scompare(p, a, ins, t, n):
    d = demangle(n)
    ar = d[d.rindex('(') + 1:d.rindex(')')]
    s = sget(p, a[0])
    if ar.startswith('unsigned long'):
        i, k = p.concretize(a[1], 64), p.concretize(a[2], 64)
        s, a, ar = s[i:i + k], a[:1] + a[3:], ar.split(', ', 2)[2]
    w = cbytes(p, a[1]) if ar.startswith('char const*') else sget(p, a[1])
    for x, y in zip(s, w):
        if zdecide(p, beq(p, x, y)):
            continue
        return 1 if (x > y if isinstance(x, int) and isinstance(y, int) else zdecide(p, z3.UGT(p.bv(x, 8), p.bv(y, 8)))) else 0xffffffff
    return (len(s) - len(w)) & 0xffffffff


@model('tolower', 'toupper')
def _tolower(p, a, ins, t, n):
    up = n == 'toupper'
    x = a[0]
    if isinstance(x, int):
        return x ^ 32 if (97 <= x <= 122 if up else 65 <= x <= 90) else x
    lo, hi = (97, 122) if up else (65, 90)
    return p.sint(z3.If(z3.And(x >= lo, x <= hi), x ^ 32, x))


@model('isspace', 'isdigit', 'isalpha', 'isalnum', 'isxdigit')
def _isspace(p, a, ins, t, n):
    rs = {'isspace': [(9, 13), (32, 32)], 'isdigit': [(48, 57)], 'isalpha': [(65, 90), (97, 122)], 'isalnum': [(48, 57), (65, 90), (97, 122)],
          'isxdigit': [(48, 57), (65, 70), (97, 102)]}[n]
    x = a[0]
    if isinstance(x, int):
        return int(any(l <= x <= h for l, h in rs))
    return p.sint(z3.If(z3.Or(*[z3.And(x >= l, x <= h) for l, h in rs]), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))


@model('strtol', 'strtoul', 'strtoll', 'strtoull', '__isoc23_strtol', '__isoc23_strtoul', '__isoc23_strtoll', '__isoc23_strtoull')
def _strtoul(p, a, ins, t, n):
    """optional white space, sign and prefix are decided; the digits are values of 64 bits"""
    s = cbytes(p, a[0])
    base = p.concretize(a[2], 32)
    i = 0
    rng = lambda x, l, h: (l <= x <= h) if isinstance(x, int) else z3.And(z3.UGE(x, l), z3.ULE(x, h))
    while i < len(s) and zdecide(p, zor([rng(s[i], 9, 13), beq(p, s[i], 32)])):
        i += 1
    neg = False
    if i < len(s) and zdecide(p, beq(p, s[i], 45)):
        neg = True
        i += 1
    elif i < len(s) and zdecide(p, beq(p, s[i], 43)):
        i += 1
    if base not in (10, 16):
        raise Unsupported('strtoul base %d' % base)
    if base == 16 and i + 2 < len(s) and zdecide(p, zand([beq(p, s[i], 48), zor([beq(p, s[i + 1], 120), beq(p, s[i + 1], 88)]),
                                                         zor([rng(s[i + 2], 48, 57), rng(s[i + 2], 65, 70), rng(s[i + 2], 97, 102)])])):
        i += 2
    v, start = 0, i
    while i < len(s):
        x = s[i]
        cs = [rng(x, 48, 57)] + ([rng(x, 65, 70), rng(x, 97, 102)] if base == 16 else [])
        if not zdecide(p, zor(cs)):
            break
        if isinstance(x, int):
            dg = int(chr(x), 16)
        else:
            y = z3.ZeroExt(56, x)
            dg = z3.If(z3.ULE(x, 57), y - 48, z3.If(z3.ULE(x, 70), y - 55, y - 87))
        v = v * base + dg
        i += 1
    if i - start > (18 if base == 10 else 15):
        raise Unsupported('strtoul of a long text')
    if a[1]:
        p.put(a[1], a[0] + (i if i > start else 0), 8)
    if neg:
        v = -v
    return v & MASK[64] if isinstance(v, int) else p.sint(z3.simplify(v))


@model('__errno_location')
def _errno(p, a, ins, t, n):
    if not getattr(p, 'errno_cell', None):
        p.errno_cell = p.alloc(4, 'errno')
        p.put(p.errno_cell, 0, 4)
    return p.errno_cell


# ------------------------------------------------------------------ contract language
def cname(p, a):
    return p.rdstr(a).decode()


def iname(p, a):
    """name of an input: repeated names are numbered"""
    nm = cname(p, a)
    k = p.names.get(nm, 0)
    p.names[nm] = k + 1
    return nm if k == 0 else '%s#%d' % (nm, k)


@model('vf_native')
def _native(p, a, ins, t, n):
    return 0


@model('vf_real', 'vf_angle')
def _vreal(p, a, ins, t, n):
    nm = iname(p, a[0])
    if not p.real:
        raise Unsupported('vf_real in bit-precise mode')
    if n == 'vf_angle' and nm not in p.run.samples:
        g = p.run.rng(nm)
        v = p.run.gen_group(nm, 1)[0]
        sp = np.array([0, math.pi, -math.pi, math.pi / 2, 3.0, 100.0, 1e-9, -7.0])
        fam = p.run.family()
        v = np.where(fam == 7, sp[g.integers(0, 8, p.run.N)], v)
        return p.run.new_real(nm, v)
    return p.run.new_real(nm)


@model('vf_vec')
def _vvec(p, a, ins, t, n):
    for i, v in enumerate(p.run.new_group(iname(p, a[0]), a[1])):
        p.check(a[2] + 8 * i, 8, 'store')
        p.put(a[2] + 8 * i, v, 8)


@model('vf_unit')
def _vunit(p, a, ins, t, n):
    for i, v in enumerate(p.run.new_unit(iname(p, a[0]), a[1])):
        p.check(a[2] + 8 * i, 8, 'store')
        p.put(a[2] + 8 * i, v, 8)


@model('vf_fp64', 'vf_fp32')
def _vfp(p, a, ins, t, n):
    nm = iname(p, a[0])
    so = z3.Float64() if n == 'vf_fp64' else z3.Float32()
    p.run.inputs[nm] = ('fp', so, 8 if n == 'vf_fp64' else 4)
    return z3.FP(nm, so)


@model('vf_bits')
def _vbits(p, a, ins, t, n):
    nm = iname(p, a[0])
    w = a[1]
    p.run.inputs[nm] = ('bv', w)
    v = z3.BitVec(nm, w)
    return v if w == 64 else z3.ZeroExt(64 - w, v)


@model('vf_integer')
def _vinteger(p, a, ins, t, n):
    # an arbitrary 64-bit integer as a real number
    nm = iname(p, a[0])
    if not p.real:
        p.run.inputs[nm] = ('bv', 64)
        return z3.BitVec(nm, 64)
    g = p.run.rng(nm)
    big = g.integers(-2 ** 63, 2 ** 63 - 1, p.run.N, dtype=np.int64)
    v = p.run.new_real(nm, (big >> g.integers(0, 62, p.run.N)).astype(float))
    p.assume(K.cmp('<', X.sub(v, X.const(2 ** 63))))
    p.assume(K.cmp('<=', X.sub(X.const(-2 ** 63), v)))
    return RInt(v)


@model('vf_bool')
def _vbool(p, a, ins, t, n):
    nm = iname(p, a[0])
    p.run.inputs[nm] = 'bool'
    return 1 if p.branch2(nm) else 0


@model('vf_choice')
def _vchoice(p, a, ins, t, n):
    nm = iname(p, a[0])
    p.run.inputs[nm] = 'choice'
    return p.choice(nm, a[1])


@model('vf_havoc')
def _vhavoc(p, a, ins, t, n):
    nm = iname(p, a[0])
    k = p.names.get(nm, 0)
    p.names[nm] = k + 1
    raise Unsupported('vf_havoc')


@model('vf_candidate')
def _vcand(p, a, ins, t, n):
    v = fp1(p, a[0])
    if isinstance(v, E) and v not in p.run.candidates:
        p.run.candidates.append(v)


@model('vf_split')
def _vsplit(p, a, ins, t, n):
    p.decide(a[0]) if not isinstance(a[0], int) else None


@model('vf_assume')
def _vassume(p, a, ins, t, n):
    c = p.simp(a[0]) if not isinstance(a[0], int) else bool(a[0])
    p.assume(c)
    if p.pc and not isinstance(c, bool) and not p.live.any():
        if p.z3sat(True, p.run.z3timeout) is False:
            raise PathAbort()


@model('vf_requires')
def _vrequires(p, a, ins, t, n):
    caller = demangle(p.trace[-2]) if len(p.trace) > 1 else '?'
    c = a[0]
    p.check_goal(c if not isinstance(c, int) else bool(c), 'precondition of callee: %s' % cname(p, a[1]))
    if not isinstance(c, int):
        p.assume(c)
    elif not c:
        raise ContractFail()


@model('vf_lemma')
def _vlemma(p, a, ins, t, n):
    c = a[0]
    nm = cname(p, a[1])
    k = p.run.obl.get(nm)
    before = k.status if k else 'discharged'
    p.check_goal(bool(c) if isinstance(c, int) else c, nm)
    if not isinstance(c, int):
        p.assume(p.simp(c))


@model('vf_check')
def _vcheck(p, a, ins, t, n):
    c = a[0]
    p.check_goal(bool(c) if isinstance(c, int) else c, cname(p, a[1]))


@model('vf_check_eq')
def _vcheckeq(p, a, ins, t, n):
    x, y = fp1(p, a[0]), fp1(p, a[1])
    nm = cname(p, a[3])
    if x is UNDEF or y is UNDEF:
        return p.check_goal(UNDEF, nm)
    if not p.real:
        c = p.fcmp('oeq', x, y)
        return p.check_goal(bool(c) if isinstance(c, int) else c, nm)
    if isinstance(x, float) or isinstance(y, float):
        return p.check_goal(False, nm)
    p.check_goal(K.cmp('==', X.sub(x, y)), nm)


@model('vf_check_le', 'vf_check_near')
def _vcheckle(p, a, ins, t, n):
    x, y = fp1(p, a[0]), fp1(p, a[1])
    nm = cname(p, a[3])
    if x is UNDEF or y is UNDEF:
        return p.check_goal(UNDEF, nm)
    if isinstance(x, float) or isinstance(y, float):
        if n == 'vf_check_le':
            c = p.fcmp('ole', x, y)
            return p.check_goal(bool(c) if isinstance(c, int) else c, nm)
        return p.check_goal(False, nm)
    if n == 'vf_check_le':
        return p.check_goal(K.cmp('<=', X.sub(x, y)), nm)
    tol = fp1(p, a[2])
    d = X.sub(x, y)
    v = p.prover_value(d)
    if v == 0:
        return p.check_goal(K.cmp('<=', X.neg(tol)), nm)
    p.check_goal(K.cand(K.cmp('<=', X.sub(d, tol)), K.cmp('<=', X.sub(X.neg(d), tol))), nm)


@model('vf_reach')
def _vreach(p, a, ins, t, n):
    p.run.reached.add(cname(p, a[0]))


@model('vf_body')
def _vbody(p, a, ins, t, n):
    nm = p.prog.addrf.get(a[0])
    if nm is None:
        raise Unsupported('vf_body: not a function')
    p.bodies.add(nm)
    p.run.entry_bodies.add(nm)


@model('vf_bind')
def _vbind(p, a, ins, t, n):
    r, s = p.prog.addrf.get(a[0]), p.prog.addrf.get(a[1])
    p.bindings[r] = s
    p.run.bindings[r] = s


@model('vf_scale')
def _vscale(p, a, ins, t, n):
    return X.ONE if p.real else 1.0


@pattern(r'Eigen::internal::queryCacheSizes\(')
def _cache(p, a, ins, t, n):
    # only chooses block sizes of products; any values are admissible
    for x, v in zip(a, (32768, 262144, 2097152)):
        p.check(x, 4, 'store')
        p.put(x, v, 4)
    p.run.assume_note('Eigen block sizes for a 32K/256K/2M cache')
    return None


# threads: one thread; a mutex locked twice would never be released
@pattern(r'boost::thread\* boost::thread_group::create_thread<')
def _create_thread(p, a, ins, t, n):
    """assumed contract: a thread of the group that runs the function; the contract is told"""
    p.run_function(p.mod.functions['vf_thread_created'], [a[0]])
    return p.alloc(64, 'heap')


@model('pthread_mutex_init')
def _mxinit(p, a, ins, t, n):
    k = p.ghost.get(('mxattr', a[1]), 0) if isinstance(a[1], int) and a[1] else 0
    p.ghost[('mutex', a[0])] = [0, k]
    return 0


@model('pthread_mutexattr_init', 'pthread_mutexattr_destroy', 'pthread_mutex_destroy', 'pthread_cond_init', 'pthread_cond_destroy', 'pthread_cond_signal',
       'pthread_cond_broadcast', 'pthread_condattr_init', 'pthread_condattr_setclock', 'pthread_condattr_destroy')
def _mx0(p, a, ins, t, n):
    return 0


@model('pthread_mutexattr_settype')
def _mxtype(p, a, ins, t, n):
    p.ghost[('mxattr', a[0])] = a[1]
    return 0


@model('pthread_mutex_lock')
def _mxlock(p, a, ins, t, n):
    m = p.ghost.setdefault(('mutex', a[0]), [0, 0])
    if m[0] and m[1] != 1:
        p.check_goal(False, 'no lock is taken twice')
        raise PathAbort()
    p.ghost[('mutex', a[0])] = [m[0] + 1, m[1]]
    return 0


@model('pthread_mutex_unlock')
def _mxunlock(p, a, ins, t, n):
    m = p.ghost.setdefault(('mutex', a[0]), [0, 0])
    p.check_goal(m[0] > 0, 'only a lock that is held is released')
    p.ghost[('mutex', a[0])] = [max(0, m[0] - 1), m[1]]
    return 0


# ------------------------------------------------------------------ hash tables
@pattern(r'std::_Hash_bytes\(|std::_Fnv_hash_bytes\(')
def _hashbytes(p, a, ins, t, n):
    """some number for every text, the same for equal texts"""
    tx = rdtext(p, a[0], a[1])
    if tx is None:
        raise Unsupported('hash of a text of unknown length')
    d = p.ghost.setdefault('hashes', [])
    for x, h in d:
        if len(x) == len(tx) and zdecide(p, zand([beq(p, u, v) for u, v in zip(x, tx)])):
            return h
    h = (len(d) + 1) * 0x9e3779b97f4a7c15 & MASK[64]
    d.append((tx, h))
    p.run.assume_note('texts that differ have different hash values (collisions are not looked at)')
    return h


@pattern(r'std::__detail::_Prime_rehash_policy::_M_need_rehash\(')
def _needrehash(p, a, ins, t, n):
    p.run.assume_note('hash tables keep the number of their buckets (assumed contract of the rehash policy)')
    return [0, 0]


@pattern(r'std::__detail::_Prime_rehash_policy::_M_next_bkt\(')
def _nextbkt(p, a, ins, t, n):
    return 13


# ------------------------------------------------------------------ clocks (assumed contract: the time set by the contract)
@model('vf_set_clock')
def _setclock(p, a, ins, t, n):
    p.ghost['clock'] = a[0]
    p.run.assume_note('the clock reads the time of day in microseconds, local times are off by something that can change (assumed contract of boost::posix_time::microsec_clock)')


@pattern(r'(boost::posix_time::ptime )?boost::date_time::microsec_clock<boost::posix_time::ptime>::create_time\(')
def _createtime(p, a, ins, t, n):
    if 'clock' not in p.ghost or ins.type.kind != 'int':
        raise Unsupported('clock')
    if 'gmtime' not in demangle(p.run.prog.addrf.get(a[0], '')):
        # local time: off by some number of microseconds that may change at any time
        k = p.ghost['offsets'] = p.ghost.get('offsets', 0) + 1
        nm = 'offset of the local time %d' % k
        v = p.run.new_real(nm, p.run.rng(nm).integers(-12, 12, p.run.N).astype(float) * 3.6e9)
        p.assume(K.cmp('<=', X.sub(X.const(-10 ** 11), v)))
        p.assume(K.cmp('<=', X.sub(v, X.const(10 ** 11))))
        return p.binop('add', p.ghost['clock'], RInt(v), 64)
    return p.ghost['clock']
