"""Hash-consed real expressions, their numeric evaluation (numpy / mpmath) and normal forms."""
from fractions import Fraction
import math
import numpy as np

_tab = {}
_cnt = [0]


class E:
    __slots__ = ('op', 'a', 'id', '__weakref__')

    def __repr__(self):
        return show(self)

    # convenience
    def __add__(self, o): return add(self, o)
    def __sub__(self, o): return sub(self, o)
    def __mul__(self, o): return mul(self, o)
    def __truediv__(self, o): return div(self, o)


def _mk(op, a, key):
    e = _tab.get(key)
    if e is None:
        e = E()
        e.op = op
        e.a = a
        _cnt[0] += 1
        e.id = _cnt[0]
        _tab[key] = e
    return e


def const(fr):
    if isinstance(fr, int):
        fr = Fraction(fr)
    return _mk('c', fr, ('c', fr))


ZERO = const(0)
ONE = const(1)
MONE = const(-1)
PI = _mk('pi', None, ('pi',))


def var(name):
    return _mk('v', name, ('v', name))


_PIK = {}
for num, den in [(1, 1), (2, 1), (1, 2), (1, 4), (3, 2), (3, 4), (1, 180), (1, 3), (1, 6), (4, 1), (3, 1), (1, 8), (1, 360), (2, 3), (1, 90)]:
    for s in (1, -1):
        for v in {s * math.pi * num / den, s * (math.pi / den) * num, s * math.pi * (num / den)}:
            _PIK[v] = (s * Fraction(num, den), 1)
for num in (180, 1, 2, 360, 90):
    for s in (1, -1):
        for v in {s * num / math.pi, s * num * (1 / math.pi)}:
            _PIK[v] = (s * Fraction(num), -1)


def from_double(d):
    """reads a double literal as the real it stands for"""
    if d != d or d in (math.inf, -math.inf):
        return None
    if d == int(d):
        return const(int(d))
    p = _PIK.get(d)
    if p:
        return mul(const(p[0]), PI) if p[1] == 1 else div(const(p[0]), PI)
    fr = Fraction(d)
    for lim in (1000, 100000):
        s = fr.limit_denominator(lim)
        if float(s) == d:
            return const(s)
    # decimal literals such as 1e-12
    s = Fraction(repr(d))
    if s.denominator < 10**25 and float(s) == d:
        return const(s)
    return const(fr)


def is_const(e):
    return e.op == 'c'


def add(x, y):
    if x.op == 'c':
        if y.op == 'c':
            return const(x.a + y.a)
        if x.a == 0:
            return y
    elif y.op == 'c':
        if y.a == 0:
            return x
        x, y = y, x
    elif x.id > y.id:
        x, y = y, x
    return _mk('+', (x, y), ('+', x.id, y.id))


def neg(x):
    return mul(MONE, x)


def sub(x, y):
    if x is y:
        return ZERO
    return add(x, neg(y))


def mul(x, y):
    if x.op == 'c':
        if y.op == 'c':
            return const(x.a * y.a)
        if x.a == 0:
            return ZERO
        if x.a == 1:
            return y
        if y.op == '*' and y.a[0].op == 'c':
            return mul(const(x.a * y.a[0].a), y.a[1])
    elif y.op == 'c':
        return mul(y, x)
    elif x.id > y.id:
        x, y = y, x
    return _mk('*', (x, y), ('*', x.id, y.id))


def div(x, y):
    if y.op == 'c' and y.a != 0:
        return mul(const(1 / y.a), x)
    if x.op == 'c' and x.a == 0:
        return ZERO
    if x is y:
        return ONE
    return _mk('/', (x, y), ('/', x.id, y.id))


def fn(name, *args):
    a0 = args[0]
    if a0.op == 'c':
        c = a0.a
        if name == 'sqrt' and c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
        if name == 'abs':
            return const(abs(c))
        if c == 0 and name in ('sin', 'tan', 'asin', 'atan'):
            return ZERO
        if c == 0 and name in ('cos', 'exp'):
            return ONE
        if name == 'acos' and c == 1:
            return ZERO
        if name == 'atan2' and args[1].op == 'c':
            x = args[1].a
            if c == 0 and x > 0:
                return ZERO
            if c == 0 and x < 0:
                return PI
            if x == 0 and c > 0:
                return mul(const(Fraction(1, 2)), PI)
            if x == 0 and c < 0:
                return mul(const(Fraction(-1, 2)), PI)
        if name == 'floor':
            return const(math.floor(c))
    if name == 'sin' and _negative(a0):
        return neg(fn('sin', neg(a0)))
    if name == 'cos' and _negative(a0):
        return fn('cos', neg(a0))
    if name == 'abs' and a0.op == '*' and a0.a[0].op == 'c' and a0.a[0].a < 0:
        return mul(const(-a0.a[0].a), fn('abs', a0.a[1]))
    return _mk(name, args, (name,) + tuple(z.id for z in args))


def _negative(e):
    return e.op == '*' and e.a[0].op == 'c' and e.a[0].a < 0


def show(e, depth=6):
    if e.op == 'c':
        f = e.a
        return str(f) if f.denominator < 10**6 else repr(float(f))
    if e.op == 'v':
        return e.a
    if e.op == 'pi':
        return 'pi'
    if depth == 0:
        return '..'
    if e.op in '+*/':
        return '(' + (' %s ' % e.op).join(show(x, depth - 1) for x in e.a) + ')'
    return '%s(%s)' % (e.op, ','.join(show(x, depth - 1) for x in e.a))


def variables(e, seen=None, out=None):
    if seen is None:
        seen, out = set(), set()
    st = [e]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'v':
            out.add(x.a)
        elif x.op not in ('c', 'pi'):
            st.extend(x.a)
    return out


def topo(e, memo):
    """post-order list of the nodes of e not in memo"""
    out = []
    st = [(e, 0)]
    seen = set()
    while st:
        x, k = st.pop()
        if k:
            out.append(x)
            continue
        if x.id in memo or x.id in seen:
            continue
        seen.add(x.id)
        st.append((x, 1))
        if x.op not in ('c', 'pi', 'v'):
            for y in x.a:
                if y.id not in memo and y.id not in seen:
                    st.append((y, 0))
    return out


_np1 = {'sqrt': np.sqrt, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'asin': np.arcsin, 'acos': np.arccos,
        'atan': np.arctan, 'exp': np.exp, 'log': np.log, 'abs': np.abs, 'floor': np.floor}


def eval_np(e, env, memo):
    """env: name -> numpy array; memo: id -> array (mutated)"""
    r = memo.get(e.id)
    if r is not None:
        return r
    with np.errstate(all='ignore'):
        for x in topo(e, memo):
            op = x.op
            if op == 'c':
                try:
                    v = float(x.a)
                except OverflowError:
                    v = math.inf
            elif op == 'pi':
                v = math.pi
            elif op == 'v':
                v = env[x.a]
            elif op == '+':
                v = memo[x.a[0].id] + memo[x.a[1].id]
            elif op == '*':
                v = memo[x.a[0].id] * memo[x.a[1].id]
            elif op == '/':
                v = np.divide(memo[x.a[0].id], memo[x.a[1].id])
            elif op == 'atan2':
                v = np.arctan2(memo[x.a[0].id], memo[x.a[1].id])
            elif op == 'pow':
                v = np.power(memo[x.a[0].id], memo[x.a[1].id])
            elif op == 'fmod':
                v = np.fmod(memo[x.a[0].id], memo[x.a[1].id])
            else:
                v = _np1[op](memo[x.a[0].id])
            memo[x.id] = v
    return memo[e.id]


def eval_mp(e, env, memo, mp):
    """env: name -> mpf"""
    for x in topo(e, memo):
        op = x.op
        a = [memo[y.id] for y in x.a] if op not in ('c', 'pi', 'v') else None
        if op == 'c':
            v = mp.mpf(x.a.numerator) / x.a.denominator
        elif op == 'pi':
            v = +mp.pi
        elif op == 'v':
            v = env[x.a]
        elif op == '+':
            v = a[0] + a[1]
        elif op == '*':
            v = a[0] * a[1]
        elif op == '/':
            v = a[0] / a[1] if a[1] != 0 else mp.nan
        elif op == 'atan2':
            v = mp.atan2(a[0], a[1])
        elif op == 'abs':
            v = abs(a[0])
        elif op == 'pow':
            v = mp.power(a[0], a[1])
        elif op == 'floor':
            v = mp.floor(a[0])
        elif op == 'fmod':
            v = a[0] - a[1] * (mp.floor(abs(a[0]) / abs(a[1])) * (1 if (a[0] >= 0) == (a[1] >= 0) else -1))
        else:
            v = getattr(mp, op)(a[0])
            if isinstance(v, mp.mpc):
                v = mp.nan
        memo[x.id] = v
    return memo[e.id]


def count(e, limit=1000):
    """number of distinct nodes (up to limit)"""
    seen = {e.id}
    st = [e]
    while st:
        x = st.pop()
        if x.op in ('c', 'v', 'pi'):
            continue
        for y in x.a:
            if y.id not in seen:
                seen.add(y.id)
                if len(seen) >= limit:
                    return limit
                st.append(y)
    return len(seen)


# ----------------------------------------------------------------------------------------------------
# Normal forms: polynomials over atoms, modulo rewriting rules

class Restart(Exception):
    pass


class TooBig(Exception):
    pass


def _padd(p, q, k=1):
    if len(p) < len(q) and k == 1:
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _pscale(p, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in p.items()}


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Ctx:
    """normal-form context. Atoms are ints; rules: atom -> (power, poly) meaning atom^power = poly."""

    def __init__(self, square_rules=None, candidates=(), sign=None, limit=400000):
        # square_rules: {varname: E} meaning var^2 = E
        self.atoms = []           # id -> (kind, payload)
        self.key = {}
        self.rules = {}
        self.fine = {}            # angle base monomial -> L
        self.square_rules = square_rules or {}
        self.limit = limit
        self.memo = {}
        self.sign = sign          # callback: sign(E) -> +1/-1/0(unknown): known sign of expression
        self.candidates = candidates
        self.assumed = []         # sign facts used
        self.eqs = {}
        self.invof = {}

    def reset(self):
        self.invof = {}
        self.atoms = []
        self.key = {}
        self.rules = {}
        self.memo = {}

    def atom(self, kind, payload, key=None):
        k = (kind, key if key is not None else payload)
        a = self.key.get(k)
        if a is None:
            a = len(self.atoms)
            self.atoms.append((kind, payload))
            self.key[k] = a
        return a

    def pvar(self, a):
        return {((a, 1),): 1}

    # --- monomial product with reduction
    def _mmul(self, m, n):
        if not m:
            return n
        if not n:
            return m
        if len(m) == 1 and len(n) == 1:
            (a, e), (b, f) = m[0], n[0]
            if a < b:
                return (m[0], n[0])
            if a > b:
                return (n[0], m[0])
            return ((a, e + f),)
        i = j = 0
        out = []
        lm, ln = len(m), len(n)
        while i < lm and j < ln:
            a, e = m[i]
            b, f = n[j]
            if a < b:
                out.append(m[i])
                i += 1
            elif a > b:
                out.append(n[j])
                j += 1
            else:
                out.append((a, e + f))
                i += 1
                j += 1
        out.extend(m[i:])
        out.extend(n[j:])
        return tuple(out)

    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) > len(q):
            p, q = q, p
        r = {}
        rules = self.rules
        mm = self._mmul
        red = False
        if len(p) * len(q) > 20 * self.limit:
            raise TooBig()
        for m, c in p.items():
            for n, d in q.items():
                k = mm(m, n)
                v = r.get(k, 0) + c * d
                if v == 0:
                    r.pop(k, None)
                else:
                    r[k] = v
        if len(r) > self.limit:
            raise TooBig()
        if self.invof:
            r = self.cancel(r)
        return self.reduce(r)

    def cancel(self, r):
        """a * inv(a) = 1 (inv atoms stand for nonzero denominators)"""
        inv = self.invof
        bad = []
        for m in r:
            for a, e in m:
                b = inv.get(a)
                if b is not None and any(x == b for x, _ in m):
                    bad.append(m)
                    break
        if not bad:
            return r
        for m in bad:
            c = r.pop(m, None)
            if c is None:
                continue
            d = dict(m)
            for a, e in m:
                b = inv.get(a)
                if b is not None and b in d and a in d:
                    k = min(d[a], d[b])
                    for z in (a, b):
                        d[z] -= k
                        if not d[z]:
                            del d[z]
            n = tuple(sorted(d.items()))
            v = r.get(n, 0) + c
            if v == 0:
                r.pop(n, None)
            else:
                r[n] = v
        return r

    def reduce(self, r):
        rules = self.rules
        if not rules:
            return r
        while True:
            bad = [m for m in r if any(e >= 2 and a in rules and e >= rules[a][0] for a, e in m)]
            if not bad:
                return r
            for m in bad:
                c = r.pop(m, None)
                if c is None:
                    continue
                for i, (a, e) in enumerate(m):
                    if a in rules and e >= rules[a][0]:
                        break
                pw, rp = rules[a]
                k, e2 = divmod(e, pw)
                rest = m[:i] + (((a, e2),) if e2 else ()) + m[i + 1:]
                # multiply rest * rp^k  (one rule application per step; others in the loop)
                if k > 1:
                    rest2 = m[:i] + ((a, e - pw),) + m[i + 1:]
                    rest = rest2
                for n, d in rp.items():
                    kk = self._mmul(rest, n)
                    v = r.get(kk, 0) + c * d
                    if v == 0:
                        r.pop(kk, None)
                    else:
                        r[kk] = v
            if len(r) > self.limit:
                raise TooBig()

    # --- canonical key of polynomial
    def pkey(self, p):
        return frozenset(p.items())

    def pconst(self, p):
        if not p:
            return 0
        if len(p) == 1 and () in p:
            return p[()]
        return None

    def nf(self, e):
        memo = self.memo
        if e.id in memo:
            return memo[e.id]
        for x in topo(e, memo):
            memo[x.id] = self._nf1(x)
        return memo[e.id]

    def _nf1(self, x):
        op = x.op
        memo = self.memo
        if op == 'c':
            return {(): _norm(x.a)} if x.a else {}
        if op == 'v':
            if x.a in self.eqs:
                return self.nf(self.eqs[x.a])
            a = self.atom('v', x.a)
            if x.a in self.square_rules and a not in self.rules:
                self.rules[a] = (2, None)
                self.rules[a] = (2, self.nf(self.square_rules[x.a]))
            return self.pvar(a)
        if op == 'pi':
            return self.pvar(self.atom('pi', None))
        if op == '+':
            return _padd(memo[x.a[0].id], memo[x.a[1].id])
        if op == '*':
            return self.pmul(memo[x.a[0].id], memo[x.a[1].id])
        if op == '/':
            return self.pmul(memo[x.a[0].id], self.inv(memo[x.a[1].id]))
        if op == 'sqrt':
            return self.sqrt(memo[x.a[0].id], x)
        if op in ('sin', 'cos'):
            c, s = self.cossin(memo[x.a[0].id])
            return s if op == 'sin' else c
        if op == 'tan':
            c, s = self.cossin(memo[x.a[0].id])
            return self.pmul(s, self.inv(c))
        if op == 'acos':
            return self.pvar(self.atom('acos', x, self.pkey(memo[x.a[0].id])))
        if op == 'asin':
            return self.pvar(self.atom('asin', x, self.pkey(memo[x.a[0].id])))
        if op == 'atan2':
            return self.pvar(self.atom('atan2', x, (self.pkey(memo[x.a[0].id]), self.pkey(memo[x.a[1].id]))))
        if op == 'abs':
            p = memo[x.a[0].id]
            c = self.pconst(p)
            if c is not None:
                return {(): abs(c)} if c else {}
            if self.sign:
                s = self.sign(x.a[0])
                if s:
                    return _pscale(p, s)
            # |p| = |-p|: canonical sign
            k = min(p)
            if p[k] < 0:
                p = _pscale(p, -1)
            a = self.atom('abs', x, self.pkey(p))
            if a not in self.rules:
                self.rules[a] = (2, self.pmul(p, p))
            return self.pvar(a)
        if op == 'floor':
            # floor(n + q) = n + floor(q) for every integer-valued n
            whole, rest = {}, {}
            for m, c in memo[x.a[0].id].items():
                c = _norm(c)
                if isinstance(c, int) and all(e >= 1 and self.atoms[a][0] == 'op' and self.atoms[a][1].op == 'floor' for a, e in m):
                    whole[m] = c
                else:
                    rest[m] = c
            k = self.pconst(rest)
            if k is not None:
                return _padd(whole, {(): math.floor(k)} if math.floor(k) else {})
            return _padd(whole, self.pvar(self.atom('op', x, ('floor', self.pkey(rest)))))
        return self.pvar(self.atom('op', x, (op,) + tuple(self.pkey(memo[y.id]) for y in x.a)))

    def inv(self, p):
        c = self.pconst(p)
        if c is not None:
            if c == 0:
                raise ZeroDivisionError('division by zero in normal form')
            return {(): _norm(Fraction(1) / c)}
        if len(p) == 1:
            (m, c), = p.items()
            r = {(): _norm(Fraction(1) / c)}
            for a, e in m:
                kind, pl = self.atoms[a]
                if kind == 'inv':
                    q = pl
                    f = q
                elif kind == 'sqrt' or kind == 'abs':
                    # 1/s = s * inv(s^2)
                    sq = self.rules[a][1]
                    f = self.pmul(self.pvar(a), self.inv(sq))
                else:
                    ia = self.atom('inv', self.pvar(a), self.pkey(self.pvar(a)))
                    self.invof[ia] = a
                    f = self.pvar(ia)
                for _ in range(e):
                    r = self.pmul(r, f)
            return r
        # common monomial factor
        it = iter(p)
        com = dict(next(it))
        for m in it:
            if not com:
                break
            d = dict(m)
            com = {a: min(e, d[a]) for a, e in com.items() if a in d}
        if com:
            q = {}
            for m, c in p.items():
                q[tuple((a, e - com.get(a, 0)) for a, e in m if e > com.get(a, 0))] = c
            return self.pmul(self.inv({tuple(sorted(com.items())): 1}), self.inv(q))
        # make monic in some canonical monomial
        k = min(p)
        lc = p[k]
        if lc != 1:
            il = Fraction(1) / lc
            p = {m: _norm(c * il) for m, c in p.items()}
        a = self.atom('inv', p, self.pkey(p))
        r = self.pvar(a)
        if lc != 1:
            r = _pscale(r, _norm(Fraction(1) / lc))
        return r

    def sqrt(self, p, x=None):
        c = self.pconst(p)
        if c is not None:
            c = Fraction(c)
            if c >= 0:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return {(): _norm(Fraction(n, d))} if n else {}
                # sqrt(n/d) = sqrt(n*d)/d
                nd = c.numerator * c.denominator
                sq = 1
                f = 2
                while f * f <= nd and f < 2000:
                    while nd % (f * f) == 0:
                        nd //= f * f
                        sq *= f
                    f += 1
                a = self.atom('sqrt', {(): nd}, self.pkey({(): nd}))
                self.rules[a] = (2, {(): nd})
                return _pscale(self.pvar(a), _norm(Fraction(sq, c.denominator)))
        # candidates: |cand|
        if self.sign and x is not None:
            lim = getattr(self, 'candlimit', None)
            for i, cd in enumerate(self.candidates[:lim]):
                self.candlimit = i
                try:
                    q = self.nf(cd)
                finally:
                    self.candlimit = lim
                if self.iszero(_padd(self.pmul(q, q), p, -1)):
                    s = self.sign(cd)
                    if s:
                        return _pscale(q, s)
        # pull out the rational content
        g = None
        for cc in p.values():
            cc = Fraction(cc)
            g = cc if g is None else Fraction(math.gcd(g.numerator * cc.denominator, cc.numerator * g.denominator), g.denominator * cc.denominator)
        g = abs(g)
        f = 1
        if g not in (0, 1):
            n = g.numerator
            d = g.denominator
            rn, rd = _sqpart(n), _sqpart(d)
            # g = (rn/rd)^2 * rest
            f = Fraction(rn, rd)
            if f != 1:
                p = {m: _norm(cc / (f * f)) for m, cc in p.items()}
        a = self.atom('sqrt', p, self.pkey(p))
        if a not in self.rules:
            self.rules[a] = (2, p)
        return _pscale(self.pvar(a), _norm(Fraction(f)))

    def cossin(self, p):
        """(cos p, sin p) as polynomials"""
        C, S = {(): 1}, {}
        for m, c in sorted(p.items(), key=lambda t: (len(t[0]), t[0])):
            c = Fraction(c)
            if len(m) == 1 and self.atoms[m[0][0]][0] == 'pi' and m[0][1] == 1 and (2 * c).denominator == 1:
                k = int(2 * c) % 4
                cc, ss = [({(): 1}, {}), ({}, {(): 1}), ({(): -1}, {}), ({}, {(): -1})][k]
            else:
                mk = self.monokey(m)
                L = self.fine.get(mk, 1)
                if L % c.denominator:
                    self.fine[mk] = L * c.denominator // math.gcd(L, c.denominator)
                    raise Restart()
                n = int(c * L)
                b, s = self.base(m, L)
                cc, ss = self.multiple(b, s, abs(n))
                if n < 0:
                    ss = _pscale(ss, -1)
            C, S = _padd(self.pmul(C, cc), self.pmul(S, ss), -1), _padd(self.pmul(S, cc), self.pmul(C, ss))
        return C, S

    def monokey(self, m):
        # stable over restarts (atom ids may change): describe atoms
        return tuple((self.akey(a), e) for a, e in m)

    def akey(self, a):
        kind, pl = self.atoms[a]
        if kind in ('v', 'pi'):
            return (kind, pl)
        if isinstance(pl, E):
            return (kind, pl.id)
        return (kind, frozenset((self.monokey(m), c) for m, c in pl.items()))

    def base(self, m, L):
        if len(m) == 1 and m[0][1] == 1:
            kind, pl = self.atoms[m[0][0]]
            if kind in ('acos', 'asin') and L in (1, 2):
                u = self.memo[pl.a[0].id]
                one = {(): 1}
                if L == 1:
                    o = self.sqrt(_padd(one, self.pmul(u, u), -1), pl)
                    return (u, o) if kind == 'acos' else (o, u)
                if kind == 'acos':
                    h = Fraction(1, 2)
                    return (self.sqrt(_pscale(_padd(one, u), h)), self.sqrt(_pscale(_padd(one, u, -1), h)))
            if kind == 'atan2' and L in (1, 2):
                y = self.memo[pl.a[0].id]
                x = self.memo[pl.a[1].id]
                r2 = _padd(self.pmul(x, x), self.pmul(y, y))
                r = self.sqrt(r2, pl)
                ir = self.inv(r)
                c, s = self.pmul(x, ir), self.pmul(y, ir)
                if L == 1:
                    return c, s
                ch = self.sqrt(_pscale(_padd({(): 1}, c), Fraction(1, 2)))
                sh = _pscale(self.pmul(s, self.inv(ch)), Fraction(1, 2))
                return ch, sh
        c = self.atom('cos', m, (m, L))
        s = self.atom('sin', m, (m, L))
        if c not in self.rules:
            self.rules[c] = (2, {(): 1, ((s, 2),): -1})
        return self.pvar(c), self.pvar(s)

    def multiple(self, c, s, n):
        C, S = {(): 1}, {}
        for _ in range(n):
            C, S = _padd(self.pmul(C, c), self.pmul(S, s), -1), _padd(self.pmul(S, c), self.pmul(C, s))
        return C, S

    def clear(self, p):
        """multiply by all denominators"""
        while True:
            mx = {}
            for m in p:
                for a, e in m:
                    if self.atoms[a][0] == 'inv':
                        if e > mx.get(a, 0):
                            mx[a] = e
            if not mx:
                return p
            a = max(mx)  # later atoms may depend on earlier ones
            d = self.atoms[a][1]
            k = mx[a]
            pw = [{(): 1}]
            for _ in range(k):
                pw.append(self.pmul(pw[-1], d))
            groups = {}
            for m, c in p.items():
                e = 0
                rest = m
                for i, (b, f) in enumerate(m):
                    if b == a:
                        e = f
                        rest = m[:i] + m[i + 1:]
                        break
                groups.setdefault(e, {})[rest] = c
            r = {}
            for e, g in groups.items():
                r = _padd(r, self.pmul(g, pw[k - e]))
            p = r

    def divide_out(self, p):
        """canonical form modulo P * inv(P) = 1: coefficients of powers of inv(P) are reduced by division by P"""
        ids = sorted({a for m in p for a, _ in m if self.atoms[a][0] == 'inv' and len(self.atoms[a][1]) > 1}, reverse=True)
        for a in ids:
            P = self.atoms[a][1]
            order = sorted({b for m in P for b, _ in m})

            def key(m):
                d = dict(m)
                return (sum(d.get(b, 0) for b in order), tuple(d.get(b, 0) for b in order))
            lm = max(P, key=key)
            lc = P[lm]
            dl = dict(lm)
            groups = {}
            for m, c in p.items():
                e = dict(m).get(a, 0)
                groups.setdefault(e, {})[tuple(q for q in m if q[0] != a)] = c
            top = max(groups)
            for e in range(top, 0, -1):
                g = groups.get(e, {})
                steps = 0
                while steps < 2000:
                    hit = None
                    for m in g:
                        d = dict(m)
                        if all(d.get(b, 0) >= k for b, k in dl.items()):
                            hit = (m, d)
                            break
                    if hit is None:
                        break
                    steps += 1
                    m, d = hit
                    for b, k in dl.items():
                        d[b] -= k
                        if not d[b]:
                            del d[b]
                    q = tuple(sorted(d.items()))
                    f = _norm(Fraction(g[m]) / lc)
                    for n, k in P.items():
                        mk = self._mmul(q, n)
                        v = g.get(mk, 0) - f * k
                        if v == 0:
                            g.pop(mk, None)
                        else:
                            g[mk] = v
                    lower = groups.setdefault(e - 1, {})
                    v = lower.get(q, 0) + f
                    if v == 0:
                        lower.pop(q, None)
                    else:
                        lower[q] = v
                groups[e] = g
            r = {}
            for e, g in groups.items():
                for m, c in g.items():
                    n = tuple(sorted(m + (((a, e),) if e else ())))
                    v = r.get(n, 0) + c
                    if v == 0:
                        r.pop(n, None)
                    else:
                        r[n] = v
            p = r
        return p

    def small(self, e, maxterms=4):
        """equivalent small expression of e (polynomial in simple atoms) or None"""
        for _ in range(6):
            try:
                p = self.nf(e)
                break
            except Restart:
                self.reset()
        else:
            return None
        if len(p) > maxterms:
            return None
        r = ZERO
        for m, c in sorted(p.items()):
            t = const(Fraction(c))
            for a, k in m:
                kind, pl = self.atoms[a]
                if kind == 'v':
                    x = var(pl)
                elif kind == 'pi':
                    x = PI
                elif isinstance(pl, E):
                    x = pl
                else:
                    return None
                for _ in range(k):
                    t = mul(t, x)
            r = add(r, t)
        return r

    def iszero(self, p):
        if not p:
            return True
        return not self.clear(p)

    def zero(self, e):
        """True if e normalises to 0"""
        for _ in range(12):
            try:
                return self.iszero(self.nf(e))
            except Restart:
                self.reset()
        return False

    def value(self, e):
        """rational constant value of e or None"""
        for _ in range(12):
            try:
                p = self.nf(e)
                c = self.pconst(p)
                if c is None:
                    q = self.clear(p)
                    if not q:
                        return Fraction(0)
                return None if c is None else Fraction(c)
            except Restart:
                self.reset()
        return None


def _sqpart(n):
    r = 1
    f = 2
    while f * f <= n and f < 1000:
        while n % (f * f) == 0:
            n //= f * f
            r *= f
        f += 1
    m = math.isqrt(n)
    if m * m == n:
        r *= m
    return r
