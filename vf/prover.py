"""Back ends: numeric refutation, normal forms, z3 (nlsat / bit-vectors / strings)."""
import time
from fractions import Fraction
import numpy as np
import z3
import mpmath
from . import expr as X
from . import cond as K

PI_LO = Fraction('3.14159265358979323846')
PI_HI = Fraction('3.14159265358979323847')


class Z3Real:
    """translation of real expressions to z3 with definitional axioms"""

    def __init__(self, taylor=False):
        self.memo = {}
        self.ax = []
        self.n = 0
        self.taylor = taylor
        self.trig = {}

    def fresh(self, p):
        self.n += 1
        return z3.Real('%s!%d' % (p, self.n))

    def real(self, e):
        memo = self.memo
        for x in X.topo(e, memo):
            memo[x.id] = self._r(x)
        return memo[e.id]

    def _r(self, x):
        op = x.op
        m = self.memo
        if op == 'c':
            return z3.RealVal(str(x.a))
        if op == 'v':
            return z3.Real(x.a)
        if op == 'pi':
            p = z3.Real('pi!')
            self.ax.append(z3.And(p > z3.RealVal(str(PI_LO)), p < z3.RealVal(str(PI_HI))))
            return p
        a = [m[y.id] for y in x.a]
        if op == '+':
            return a[0] + a[1]
        if op == '*':
            return a[0] * a[1]
        if op == '/':
            v = self.fresh('div')
            self.ax.append(z3.Implies(a[1] != 0, v * a[1] == a[0]))
            return v
        if op == 'sqrt':
            v = self.fresh('sqrt')
            self.ax.append(z3.Implies(a[0] >= 0, z3.And(v >= 0, v * v == a[0])))
            self.ax.append(z3.Implies(a[0] > 0, v > 0))
            return v
        if op == 'abs':
            return z3.If(a[0] >= 0, a[0], -a[0])
        if op in ('sin', 'cos'):
            k = x.a[0].id
            if k not in self.trig:
                s, c = self.fresh('sin'), self.fresh('cos')
                self.trig[k] = (s, c)
                self.ax.append(s * s + c * c == 1)
                self.ax.append(z3.And(s <= 1, s >= -1, c <= 1, c >= -1))
                t = a[0]
                pi = self._r(X.PI)
                self.ax.append(z3.Implies(z3.And(t > 0, t < pi), s > 0))
                self.ax.append(z3.Implies(z3.And(t < 0, t > -pi), s < 0))
                self.ax.append(z3.Implies(z3.And(t > -pi / 2, t < pi / 2), c > 0))
                self.ax.append(z3.Implies(t == 0, z3.And(s == 0, c == 1)))
                self.ax.append(z3.Implies(t >= 0, s <= t))
                self.ax.append(z3.Implies(t <= 0, s >= t))
                if self.taylor:
                    t2 = t * t
                    hi = t - t * t2 / 6 + t * t2 * t2 / 120
                    lo = t - t * t2 / 6
                    self.ax.append(z3.Implies(t >= 0, z3.And(s <= hi, s >= lo)))
                    self.ax.append(z3.Implies(t <= 0, z3.And(s >= hi, s <= lo)))
                    self.ax.append(z3.And(c >= 1 - t2 / 2, c <= 1 - t2 / 2 + t2 * t2 / 24))
            s, c = self.trig[k]
            return s if op == 'sin' else c
        if op in ('acos', 'asin', 'atan2', 'atan'):
            v = self.fresh(op)
            pi = self._r(X.PI)
            if op == 'acos':
                self.ax.append(z3.And(v >= 0, v <= pi))
                self.ax.append(z3.Implies(a[0] < 1, v > 0))
                self.ax.append(z3.Implies(a[0] > -1, v < pi))
                self.ax.append(z3.Implies(a[0] > 0, v < pi / 2))
                self.ax.append(z3.Implies(a[0] == 1, v == 0))
                self.ax.append(z3.Implies(z3.And(a[0] <= 1, a[0] >= -1), v * v >= 2 * (1 - a[0])))   # 1 - cos t <= t^2/2
            elif op == 'atan2':
                self.ax.append(z3.And(v >= -pi, v <= pi))
                self.ax.append(z3.Implies(a[1] > 0, z3.And(v > -pi / 2, v < pi / 2)))
                self.ax.append(z3.Implies(a[1] >= 0, z3.And(v >= -pi / 2, v <= pi / 2)))
                self.ax.append(z3.Implies(a[0] >= 0, v >= 0))
                self.ax.append(z3.Implies(a[0] > 0, z3.And(v > 0, v < pi)))
                self.ax.append(z3.Implies(z3.And(a[0] >= 0, a[0] * a[0] + a[1] * a[1] <= 1), v >= a[0]))   # sin t <= t
                self.ax.append(z3.Implies(a[0] < 0, z3.And(v < 0, v > -pi)))
            else:
                self.ax.append(z3.And(v >= -pi / 2, v <= pi / 2))
                self.ax.append(z3.Implies(a[0] >= 0, v >= 0))
                self.ax.append(z3.Implies(a[0] > 0, v > 0))
                self.ax.append(z3.Implies(a[0] <= 0, v <= 0))
                if op == 'asin':
                    self.ax.append(z3.Implies(z3.And(a[0] >= 0, a[0] <= 1), v >= a[0]))
                    if self.taylor:
                        u = a[0]
                        tenth = z3.RealVal('1/10')
                        lo = u + u * u * u / 6
                        hi = lo + u * u * u * u * u * z3.RealVal('76/1000')
                        self.ax.append(z3.Implies(z3.And(u >= 0, u <= tenth), z3.And(v >= lo, v <= hi)))
            if op == 'acos':
                self.ax.append(z3.Implies(a[0] < 0, v > pi / 2))
            return v
        if op == 'floor':
            v = z3.Int('floor!%d' % x.id)
            r = z3.ToReal(v)
            self.ax.append(z3.And(r <= a[0], a[0] < r + 1))
            return r
        return self.fresh(op)

    def cond(self, c):
        if isinstance(c, (bool, int)):
            return z3.BoolVal(bool(c))
        if c.op == 'z3':
            return c.a
        if c.op == 'and':
            return z3.And([self.cond(x) for x in c.a])
        if c.op == 'or':
            return z3.Or([self.cond(x) for x in c.a])
        e = c.a
        # products / quotients: compare difference
        r = self.real(e)
        return {'<': r < 0, '<=': r <= 0, '==': r == 0, '!=': r != 0}[c.op]


def has_real(c):
    out = []
    K.atoms(c, out)
    return any(x.op != 'z3' for x in out)


_fpm = {}


def has_fp(e):
    k = e.get_id()
    r = _fpm.get(k)
    if r is None:
        r = z3.is_fp(e) or any(has_fp(c) for c in e.children())
        _fpm[k] = (r, e)
    else:
        r = r[0]
    return r


class Prover:
    def __init__(self, run):
        self.run = run      # engine run: inputs, samples
        self.stats = {'normal-form': 0, 'z3': 0, 'cvc5': 0, 'constant': 0}
        self.time = {'normal-form': 0.0, 'z3': 0.0, 'cvc5': 0.0}
        self._ctx = None

    # ---- normal forms
    def ctx(self, pc):
        run = self.run
        c = X.Ctx(run.square_rules, candidates=[X.var(n) for n in run.square_rules] + run.candidates, sign=lambda e: self.sign(e, pc))
        return c

    def sign(self, e, pc):
        for c in reversed(pc):
            if not isinstance(c, K.Cond):
                continue
            if c.op in ('<', '<='):
                if c.a is e:
                    return -1
                if c.a is X.neg(e):
                    return 1
        return 0

    def nf_zero(self, e, pc):
        t = time.time()
        try:
            c = self._pcctx(pc)
            return c.zero(e)
        except (X.TooBig, ZeroDivisionError, RecursionError):
            return False
        finally:
            self.time['normal-form'] += time.time() - t

    def nf_same(self, e, f, pc):
        """equal normal forms, without the equations of the path condition"""
        t = time.time()
        try:
            key = (len(self.run.square_rules), tuple(id(c) for c in pc), len(self.run.candidates))
            if getattr(self, '_ctx0', None) is None or self._ctx0[0] != key:
                self._ctx0 = (key, self.ctx(list(pc)))
            return self._ctx0[1].zero(X.sub(e, f))
        except (X.TooBig, ZeroDivisionError, RecursionError):
            return False
        finally:
            self.time['normal-form'] += time.time() - t

    def nf_value(self, e, pc):
        t = time.time()
        try:
            c = self._pcctx(pc)
            return c.value(e)
        except (X.TooBig, ZeroDivisionError, RecursionError):
            return None
        finally:
            self.time['normal-form'] += time.time() - t

    def nf_small(self, e, pc):
        t = time.time()
        try:
            c = self._pcctx(pc)
            lim = c.limit
            c.limit = 3000
            try:
                return c.small(e)
            finally:
                c.limit = lim
        except (X.TooBig, ZeroDivisionError, RecursionError):
            return None
        finally:
            self.time['normal-form'] += time.time() - t

    def _pcctx(self, pc):
        key = (len(self.run.square_rules), tuple(id(c) for c in pc), len(self.run.candidates))
        if self._ctx is None or self._ctx[0] != key:
            c = self.ctx(list(pc))
            # equalities  v == expr  in the path condition
            for q in pc:
                if isinstance(q, K.Cond) and q.op == '==':
                    self._addeq(c, q.a)
            self._ctx = (key, c)
        return self._ctx[1]

    def _addeq(self, c, e):
        # v = 0, v - const = 0,  sum of squares = 0 (sqrt(sum)=0)
        if e.op == 'v':
            c.eqs[e.a] = X.ZERO
        elif e.op == '+':
            a, b = e.a
            if a.op == 'v' and b.op in ('c',):
                c.eqs[a.a] = X.neg(b)
            elif b.op == 'v' and a.op in ('c',):
                c.eqs[b.a] = X.neg(a)
            elif b.op == '*' and b.a[0] is X.MONE and b.a[1].op == 'v' and a.op in ('c', 'v'):
                c.eqs[b.a[1].a] = a
            else:
                for t in _squares(e):
                    c.eqs[t] = X.ZERO
        elif e.op in ('sqrt', '*', 'abs'):
            for t in _squares(e):
                c.eqs[t] = X.ZERO

    # ---- linear arithmetic over the monomials of the normal forms
    def linear_prove(self, goal, pc, timeout=3000):
        if not isinstance(goal, K.Cond) or goal.op not in ('<', '<=', '=='):
            return False
        t = time.time()
        try:
            c = self._pcctx(pc)
            facts = []

            def flat(q):
                if isinstance(q, K.Cond):
                    if q.op == 'and':
                        for z in q.a:
                            flat(z)
                    elif q.op in ('<', '<=', '=='):
                        facts.append(q)
            for q in list(pc) + list(self.run.input_axioms):
                flat(q)
            for _ in range(8):
                try:
                    g = c.divide_out(c.nf(goal.a))
                    if len(g) > 200:
                        return False
                    fs = []
                    for q in facts:
                        try:
                            f = c.divide_out(c.nf(q.a))
                        except (X.TooBig, ZeroDivisionError):
                            continue
                        if len(f) <= 200:
                            fs.append((q.op, f))
                    break
                except X.Restart:
                    c.reset()
            else:
                return False
            vs = {}

            def lin(p):
                r = []
                for m, k in p.items():
                    k = z3.RealVal(str(k))
                    if m == ():
                        r.append(k)
                    else:
                        if m not in vs:
                            vs[m] = z3.Real('m!%d' % len(vs))
                            if all(e % 2 == 0 for _, e in m):
                                ev.append(vs[m])
                        r.append(k * vs[m])
                return z3.Sum(r) if r else z3.RealVal(0)
            ev = []
            s = z3.SolverFor('QF_LRA')
            s.set('timeout', timeout)
            G = lin(g)
            s.add(z3.Not({'<': G < 0, '<=': G <= 0, '==': G == 0}[goal.op]))
            for op, f in fs:
                F = lin(f)
                s.add({'<': F < 0, '<=': F <= 0, '==': F == 0}[op])
            nev = len(ev)
            for v in ev:
                s.add(v >= 0)
            if s.check() == z3.unsat:
                return True
            # products of two facts (each in the form p >= 0)
            ga = {a for m in g for a, _ in m}
            for a in list(ga):
                if c.atoms[a][0] in ('inv', 'sqrt') and isinstance(c.atoms[a][1], dict):
                    ga |= {b for m in c.atoms[a][1] for b, _ in m}
            cand = []
            for op, f in fs:
                if len(f) > 14 or op == '==':
                    continue
                fa = {a for m in f for a, _ in m}
                if fa and len(fa & ga) * 2 >= len(fa):
                    cand.append((len(fa - ga), len(f), {m: -k for m, k in f.items()}))
            cand.sort(key=lambda q: q[:2])
            cand = [q[2] for q in cand[:40]]
            gm = set(g)
            tt = time.time()
            done = 0
            for lim in (10, 20, 40):
                for j in range(done, min(lim, len(cand))):
                    for i in range(j + 1):
                        try:
                            pr = c.pmul(cand[i], cand[j])
                            if not any(m in gm for m in pr if m != ()):
                                pr = c.divide_out(pr)
                                if not any(m in gm for m in pr if m != ()):
                                    continue
                            else:
                                pr = c.divide_out(pr)
                        except (X.TooBig, ZeroDivisionError, X.Restart):
                            continue
                        if len(pr) <= 150:
                            s.add(lin(pr) >= 0)
                    if time.time() - tt > 3:
                        break
                for v in ev[nev:]:
                    s.add(v >= 0)
                nev = len(ev)
                if s.check() == z3.unsat:
                    return True
                if len(cand) <= lim:
                    break
                done = lim
            return False
        except (X.TooBig, ZeroDivisionError, RecursionError, z3.Z3Exception):
            return False
        finally:
            self.time['z3'] += time.time() - t

    # ---- bit-precise goals
    def bits_prove(self, goal, pc, timeout):
        tr = Z3Real(False)
        try:
            g = tr.cond(K.cnot(goal))
            ps = [tr.cond(c) for c in pc]
            ax = [tr.cond(c) for c in self.run.input_axioms]
            fp = has_fp(g) or any(has_fp(q) for q in ps)
            if fp:
                r = self.fp_abstract(g, ps + ax, timeout)
                if r:
                    return True
            else:
                # incremental: the path conditions are a stack
                inc = self.run.__dict__.setdefault('_inc', [z3.Solver(), []])
                s, st = inc
                k = 0
                while k < len(st) and k < len(ps) and st[k].eq(ps[k]):
                    k += 1
                if k < len(st):
                    s.pop(len(st) - k)
                    del st[k:]
                for q in ps[k:]:
                    s.push()
                    s.add(q)
                    st.append(q)
                s.push()
                s.set('timeout', int(min(timeout, 1500)))
                s.add(g)
                s.add(*ax)
                r = s.check()
                m = s.model() if r == z3.sat else None
                s.pop()
                if r == z3.unsat:
                    return True
                if r == z3.sat:
                    return m
            s = z3.Solver()
            s.set('timeout', int(timeout))
            s.add(g, *ps)
            s.add(*ax)
            r = s.check()
            if r == z3.unsat:
                return True
            if r == z3.sat:
                return s.model()
            return None
        except z3.Z3Exception:
            return None

    def fp_abstract(self, g, ps, timeout):
        """unsatisfiable with +,-,*,/,sqrt as uninterpreted functions that satisfy facts of IEEE arithmetic?"""
        memo = {}
        ax = []
        fns = {}
        seen = {}
        A = {z3.Z3_OP_FPA_ADD: 'add', z3.Z3_OP_FPA_SUB: 'sub', z3.Z3_OP_FPA_MUL: 'mul', z3.Z3_OP_FPA_DIV: 'div', z3.Z3_OP_FPA_SQRT: 'sqrt'}

        def app(nm, a):
            so = a[0].sort()
            f = fns.get((nm, so.name() if hasattr(so, 'name') else str(so)))
            if f is None:
                f = z3.Function('%s!%s' % (nm, so.sexpr()), *([so] * (len(a) + 1)))
                fns[(nm, so.sexpr())] = f
            r = f(*a)
            k = r.get_id()
            if k not in seen:
                seen[k] = r
                zero = z3.FPVal(0, so)
                nan = z3.Or([z3.fpIsNaN(x) for x in a])
                ax.append(z3.Implies(nan, z3.fpIsNaN(r)))
                if nm == 'mul':
                    x, y = a
                    ax.append(z3.Implies(z3.And(z3.fpGEQ(x, zero), z3.fpGEQ(y, zero)), z3.Or(z3.fpIsNaN(r), z3.fpGEQ(r, zero))))
                    ax.append(r == f(y, x))
                if nm == 'sub':
                    x, y = a
                    ax.append(z3.Or(z3.And(z3.fpIsNaN(r), z3.fpIsNaN(f(y, x))), z3.fpEQ(r, z3.fpNeg(f(y, x)))))
                    fin = z3.Not(z3.Or(nan, z3.fpIsInf(x), z3.fpIsInf(y)))
                    ax.append(z3.Implies(fin, z3.Not(z3.fpIsNaN(r))))
                    ax.append(z3.Implies(fin, z3.fpLT(zero, r) == z3.fpLT(y, x)))
                    ax.append(z3.Implies(fin, z3.fpLT(r, zero) == z3.fpLT(x, y)))
                if nm == 'add':
                    x, y = a
                    ax.append(r == f(y, x))
            return r

        def tr(e):
            k = e.get_id()
            if k in memo:
                return memo[k]
            ch = [tr(c) for c in e.children()]
            d = e.decl().kind()
            if d in A:
                r = app(A[d], ch[1:])
                if A[d] in ('add',) and z3.is_fp(ch[2]) and ch[2].decl().kind() == z3.Z3_OP_FPA_NEG:
                    r = app('sub', [ch[1], ch[2].children()[0]])
            elif ch:
                r = e.decl()(*ch)
            else:
                r = e
            memo[k] = r
            return r
        s = z3.Solver()
        s.set('timeout', int(min(timeout, 4000)))
        s.add(tr(g))
        for q in ps:
            s.add(tr(q))
        if not seen:
            return False
        for a in ax:
            s.add(a)
        return s.check() == z3.unsat

    # ---- z3
    def z3_prove(self, goal, pc, timeout=2000, taylor=False, relevant=None):
        """True if pc => goal is proved; 'cex' model if refuted (only when purely z3); None unknown"""
        t = time.time()
        if self.run.mode == 'bits':
            r = self.bits_prove(goal, pc, timeout)
            self.time['z3'] += time.time() - t
            return r
        try:
            tr = Z3Real(taylor)
            s = z3.Solver()
            s.set('timeout', int(timeout))
            g = tr.cond(K.cnot(goal))
            for c in pc:
                s.add(tr.cond(c))
            for c in self.run.input_axioms:
                s.add(tr.cond(c))
            s.add(g)
            for a in tr.ax:
                s.add(a)
            r = s.check()
            if r == z3.unsat:
                return True
            if r == z3.sat:
                return s.model()
            return None
        except z3.Z3Exception:
            return None
        finally:
            self.time['z3'] += time.time() - t


def _squares(e):
    """variables forced to zero by e == 0 when e is (a square root of) a sum of squares; [] if not recognised"""
    if e.op == 'sqrt' or e.op == 'abs':
        return _squares(e.a[0])
    if e.op == 'v':
        return [e.a]
    if e.op == '*':
        if e.a[0] is e.a[1]:
            return _squares(e.a[0])
        if e.a[0].op == 'c' and e.a[0].a != 0:
            return _squares(e.a[1])
        return []
    if e.op == '+':
        out = []
        st = [e]
        while st:
            x = st.pop()
            if x.op == '+':
                st.extend(x.a)
            elif x.op == '*' and x.a[0] is x.a[1] and x.a[0].op == 'v':
                out.append(x.a[0].a)
            else:
                return []
        return out
    return []
