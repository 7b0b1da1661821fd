"""VC generator: path-wise symbolic execution of LLVM IR against contracts."""
import bisect
import ctypes
import hashlib
import math
import struct
import sys
import time
from fractions import Fraction
import numpy as np
import z3
import mpmath
from . import llvmir
from .llvmir import Const
from . import expr as X
from .expr import E
from . import cond as K
from .cond import Cond
from .prover import Prover, has_real

sys.setrecursionlimit(200000)
_cxx = ctypes.CDLL('libstdc++.so.6')
_dem = getattr(_cxx, '__cxa_demangle')
_dem.restype = ctypes.c_void_p
_dem.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.POINTER(ctypes.c_int)]
_libc = ctypes.CDLL('libc.so.6')
_libc.free.argtypes = [ctypes.c_void_p]
_dcache = {}


def demangle(n):
    r = _dcache.get(n)
    if r is None:
        st = ctypes.c_int()
        p = _dem(n.encode(), None, None, ctypes.byref(st))
        if p:
            r = ctypes.string_at(p).decode()
            _libc.free(p)
        else:
            r = n
        _dcache[n] = r
    return r


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Unsupported(Exception):
    """outside the verifier's reach: the obligation stays undischarged"""


class PathAbort(Exception):
    """path ended (assumption false / infeasible)"""


class ContractFail(Exception):
    """path ends with a failed obligation"""


class CppThrow(Exception):
    def __init__(self, obj, tinfo):
        self.obj = obj
        self.tinfo = tinfo


class BudgetExceeded(Exception):
    pass


class RInt:
    """integer carried as a real expression (real mode); only moved, converted to double, or produced by truncation"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


class LInt:
    """natural number below 2^64 carried as a z3 integer (length or position in a text of arbitrary length)"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


def lexp(v):
    return v.e if isinstance(v, LInt) else v


def lbounds(d):
    """(lower, upper) bound of a sum of multiples of lengths, None when there is none in sight"""
    lo = hi = 0
    for t in d.children() if z3.is_add(d) else [d]:
        k = 1
        if z3.is_int_value(t):
            v = t.as_long()
            lo, hi = (None if lo is None else lo + v), (None if hi is None else hi + v)
            continue
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            k, t = t.arg(0).as_long(), t.arg(1)
        if t.decl().kind() != z3.Z3_OP_SEQ_LENGTH:
            return None, None
        if k > 0:
            hi = None
        else:
            lo = None
    return lo, hi


class SymAddr:
    """element of a table selected by a symbolic index (read as a case distinction over the table)"""
    __slots__ = ('base', 'idx', 'stride', 'count')

    def __init__(self, base, idx, stride, count):
        self.base, self.idx, self.stride, self.count = base, idx, stride, count


class FPZ:
    """IEEE value as z3 FP (bit-precise mode)"""


class Alloc:
    __slots__ = ('base', 'size', 'alive', 'kind')

    def __init__(self, base, size, kind):
        self.base = base
        self.size = size
        self.alive = True
        self.kind = kind


class Obligation:
    __slots__ = ('name', 'n', 'status', 'backend', 'detail', 'cex', 'time')

    def __init__(self, name):
        self.name = name
        self.n = 0
        self.status = 'discharged'
        self.backend = {}
        self.detail = None
        self.cex = None
        self.time = 0.0


MASK = [(1 << i) - 1 for i in range(0, 257)]
RNE = z3.RNE()


def tosigned(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Program:
    """module plus lazily built static information shared by all runs"""

    def __init__(self, path):
        self.mod = llvmir.Module(path)
        self.faddr = {}
        self.addrf = {}
        a = 0x1000000
        for n in self.mod.functions:
            self.faddr[n] = a
            self.addrf[a] = n
            a += 16

    def resolve(self, name):
        while name in self.mod.aliases:
            name = self.mod.aliases[name]
        return name


class Run:
    """verification of one contract entry (all of its paths)"""

    N = 320

    def __init__(self, prog, entry, seed=1, mode='real', budget=None, models=None):
        self.prog = prog
        self.mod = prog.mod
        self.entry = entry
        self.mode = mode
        self.seed = seed
        self.obl = {}
        self.square_rules = {}
        self.samples = {}       # var name -> np array
        self.derived = {}       # var name -> ('unit', others)
        self.input_axioms = []
        self.candidates = []
        self.inputs = {}        # name -> kind
        self.npmemo = {}
        self.prover = Prover(self)
        self.npaths = 0
        self.reached = set()
        self.executed = {}
        self.assumptions = {}
        self.undecided = []
        self.mpcache = {}
        self.models = models
        self.maxpaths = 600
        self.maxdecisions = 400
        self.maxsteps = 3000000
        self.deadline = time.process_time() + (budget or 300)
        self.z3timeout = 3000
        self.entry_bodies = set()
        self.stubbed = set()
        self.bindings = {}
        self.goal_deadline = 20
        self.rounding = False
        self.nz3 = 0
        self.ghostin = {}

    # ---------------------------------------------------------------- driver
    def verify(self):
        work = [[]]
        t0 = time.time()
        while work:
            if self.npaths >= self.maxpaths:
                self.undecided.append('path bound %d exceeded' % self.maxpaths)
                break
            if time.process_time() > self.deadline:
                self.undecided.append('time budget exceeded')
                break
            prefix = work.pop()
            p = Path(self, prefix)
            self.ghostin = {}
            self.npaths += 1
            try:
                p.execute()
            except PathAbort:
                pass
            except ContractFail:
                pass
            except Unsupported as ex:
                self.undecided.append('unsupported: %s' % ex)
            except BudgetExceeded as ex:
                self.undecided.append('budget: %s' % ex)
            except RecursionError:
                self.undecided.append('recursion')
            work.extend(p.alternatives)
        self.wall = time.time() - t0
        return self

    # ---------------------------------------------------------------- inputs
    def rng(self, name):
        h = hashlib.sha256(('%s/%d' % (name, self.seed)).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], 'little'))

    def family(self):
        return np.arange(self.N) % 8

    def gen_group(self, name, n):
        g = self.rng(name)
        N = self.N
        fam = self.family()
        v = g.normal(0, 1.5, (n, N))
        sc = np.where(fam == 4, 10.0 ** g.uniform(-17, 0, N), 1.0)
        sc = np.where(fam == 6, 10.0 ** g.uniform(0, 2, N), sc)
        v = v * sc
        sp = g.integers(-2, 3, (n, N)).astype(float)
        v = np.where(fam == 5, sp, v)
        z = np.where(g.random((n, N)) < 0.5, 0.0, v)
        v = np.where(fam == 7, z, v)
        allz = (fam == 7) & (g.random(N) < 0.3)
        v = np.where(allz, 0.0, v)
        return v

    def new_real(self, name, arr=None):
        if name not in self.samples:
            self.samples[name] = self.gen_group(name, 1)[0] if arr is None else arr
            self.inputs[name] = 'real'
        return X.var(name)

    def new_group(self, name, n):
        if name + '0' not in self.samples:
            v = self.gen_group(name, n)
            for i in range(n):
                self.new_real('%s%d' % (name, i), v[i])
        return [X.var('%s%d' % (name, i)) for i in range(n)]

    def new_unit(self, name, n):
        last = '%s%d' % (name, n - 1)
        if last not in self.samples:
            g = self.rng(name)
            N = self.N
            fam = self.family()
            v = g.normal(0, 1, (n, N))
            # small rotations
            sc = 10.0 ** g.uniform(-12, -0.5, N)
            small = v * sc
            small[n - 1] = np.where(g.random(N) < 0.8, 1.0, -1.0)
            v = np.where(fam == 4, small, v)
            sp = g.integers(-1, 2, (n, N)).astype(float)
            bad = np.all(sp == 0, axis=0)
            sp[n - 1] = np.where(bad, 1.0, sp[n - 1])
            v = np.where(fam == 5, sp, v)
            z = np.array(v)
            z[n - 1] = 0
            v = np.where(fam == 7, z, v)
            un = v * 10.0 ** g.uniform(-1.5, 0, (n, N))
            v = np.where((fam == 2) | (fam == 3), un, v)
            v = v / np.sqrt(np.sum(v * v, axis=0))
            for i in range(n):
                self.new_real('%s%d' % (name, i), v[i])
            vs = [X.var('%s%d' % (name, i)) for i in range(n)]
            r = X.ONE
            for q in vs[:-1]:
                r = X.sub(r, X.mul(q, q))
            self.square_rules[last] = r
            self.derived[last] = ['%s%d' % (name, i) for i in range(n - 1)]
            s = X.MONE
            for q in vs:
                s = X.add(s, X.mul(q, q))
            self.input_axioms.append(K.cmp('==', s))
            for q in vs:
                self.input_axioms.append(K.cmp('<=', X.sub(q, X.ONE)))
                self.input_axioms.append(K.cmp('<=', X.sub(X.neg(q), X.ONE)))
        return [X.var('%s%d' % (name, i)) for i in range(n)]

    def mpenv(self, k):
        """exact environment of sample k (60 digits)"""
        r = self.mpcache.get(k)
        if r is None:
            r = [{}, {}]
            self.mpcache[k] = r
        env = r[0]
        mp = mpmath.mp
        mp.dps = 60
        for n, a in self.samples.items():
            if n not in env and n not in self.derived:
                env[n] = mp.mpf(float(a[k]))
        for n in self.derived:
            if n not in env:
                s = mp.mpf(1)
                for o in self.derived[n]:
                    s -= env[o] * env[o]
                if s < 0:
                    # rescale: replace by nearest unit vector with last component 0
                    if s > -1e-12:
                        f = mp.sqrt(1 - s)
                        for o in self.derived[n]:
                            env[o] = env[o] / f
                        s = mp.mpf(0)
                    else:
                        return None
                v = mp.sqrt(s)
                a = float(self.samples[n][k])
                env[n] = -v if a < 0 else v
                if a == 0.0 and abs(v) < 1e-7:
                    env[n] = mp.mpf(0)
                    t = mp.sqrt(sum(env[o] ** 2 for o in self.derived[n]))
                    for o in self.derived[n]:
                        env[o] = env[o] / t
        return r

    def obligation(self, name):
        o = self.obl.get(name)
        if o is None:
            o = self.obl[name] = Obligation(name)
        o.n += 1
        return o

    def assume_note(self, text):
        self.assumptions[text] = self.assumptions.get(text, 0) + 1

    def sample_inputs(self, k):
        r = dict(self.ghostin)
        e = self.mpenv(k)
        for n in self.inputs:
            if n in self.samples:
                r[n] = float(self.samples[n][k]) if e is None else float(e[0].get(n, self.samples[n][k]))
        return r


class Frame:
    __slots__ = ('fn', 'regs', 'allocas', 'varargs')


class Path:
    def __init__(self, run, prefix):
        self.run = run
        self.prog = run.prog
        self.mod = run.mod
        self.prefix = prefix
        self.taken = []
        self.alternatives = []
        self.pc = []
        self.live = np.full(run.N, True)
        self.cells = {}
        self.abase = []
        self.allocs = []
        self.next = 0x10000000
        self.galloc = {}
        self.depth = 0
        self.steps = 0
        self.bodies = set()
        self.bindings = {}
        self.opaque = {}      # address -> python object (abstract library state)
        self.exc_types = {}   # exception object -> typeinfo
        self.caught = []
        self.names = {}
        self.real = run.mode == 'real'
        self.nround = 0
        self.streams = {}
        self.oss = {}
        self.ropes = {}       # string object -> contents (texts of arbitrary length)
        self.cstr = {}        # pointer handed out by c_str() of such a text -> contents
        self.omaps = {}       # abstract associative containers
        self.trace = []
        self.ghost = {}
        self.solver = None
        self.nsolved = 0

    def execute(self):
        fb = self.mod.functions.get('vf_bindings')
        if fb is not None and not fb.decl:
            self.run_function(fb, [])
        f = self.mod.functions[self.run.entry]
        try:
            self.run_function(f, [])
        except CppThrow as ex:
            self.fail('no exception escapes', 'exception %s' % self.tiname(ex.tinfo))
        self.run.reached.add('end')

    # ---------------------------------------------------------------- memory
    def alloc(self, size, kind='heap', align=16):
        a = max(align, 16)
        base = (self.next + a - 1) // a * a
        self.next = base + size + 32
        self.abase.append(base)
        self.allocs.append(Alloc(base, size, kind))
        return base

    def find(self, addr):
        i = bisect.bisect_right(self.abase, addr) - 1
        if i < 0:
            return None
        al = self.allocs[i]
        return al if addr < al.base + al.size or (al.size == 0 and addr == al.base) else None

    def check(self, addr, size, what):
        if not isinstance(addr, int):
            raise Unsupported('symbolic address %r in %s' % (addr, self.where()))
        i = bisect.bisect_right(self.abase, addr) - 1
        if i >= 0:
            al = self.allocs[i]
            if al.alive and addr + size <= al.base + al.size:
                if al.kind == 'rope':
                    raise Unsupported('element access to a text of arbitrary length in %s' % self.where())
                return al
        self.fail('memory safety', '%s of %d bytes at invalid address %#x in %s' % (what, size, addr, self.where()))

    def free(self, addr):
        if addr == 0:
            return
        al = self.find(addr)
        if al is None or al.base != addr or not al.alive:
            self.fail('memory safety', 'invalid free in %s' % self.where())
        al.alive = False

    def kill(self, addr, size):
        """remove cells overlapping [addr, addr+size)"""
        cells = self.cells
        for a in range(addr - 15, addr):
            c = cells.get(a)
            if c is not None and a + c[1] > addr:
                self.split(a)
        end = addr + size
        if size > 64:
            for a in [a for a in cells if addr <= a < end] if len(cells) < size else range(addr, end):
                c = cells.get(a)
                if c is not None:
                    if a + c[1] > end:
                        self.split(a)
                        cells.pop(a, None)
                        for b in range(a, end):
                            cells.pop(b, None)
                    else:
                        del cells[a]
            return
        a = addr
        while a < end:
            c = cells.get(a)
            if c is not None:
                if a + c[1] > end:
                    self.split(a)
                    for b in range(a, end):
                        cells.pop(b, None)
                    return
                del cells[a]
                a += c[1]
            else:
                a += 1

    def split(self, a):
        """split the cell at a into bytes"""
        v, n = self.cells.pop(a)
        if n == 1:
            self.cells[a] = (v, 1)
            return
        b = self.tobytes(v, n)
        for i in range(n):
            self.cells[a + i] = (b[i], 1)

    def tobytes(self, v, n):
        if v is UNDEF:
            return [UNDEF] * n
        if isinstance(v, E):
            if n == 8 and v.op == 'c':
                v = int.from_bytes(struct.pack('<d', float(v.a)), 'little')
            elif n == 4 and v.op == 'c':
                v = int.from_bytes(struct.pack('<f', float(v.a)), 'little')
            else:
                return [('piece', v, n, i) for i in range(n)]
        if isinstance(v, float):
            v = int.from_bytes(struct.pack('<d' if n == 8 else '<f', v), 'little')
        if isinstance(v, int):
            return [(v >> (8 * i)) & 255 for i in range(n)]
        if isinstance(v, z3.FPRef):
            v = self.fp_bits(v)
        if isinstance(v, z3.BitVecRef):
            if v.size() < 8 * n:
                v = z3.ZeroExt(8 * n - v.size(), v)
            return [z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(n)]
        if isinstance(v, Cond) and n == 1:
            return [v]
        if isinstance(v, tuple) and v[0] == 'mix' and len(v[1]) == n:
            return list(v[1])
        return [('piece', v, n, i) for i in range(n)]

    def mixop(self, op, v, k, w):
        """shift by whole bytes and byte masks of a partly undefined integer"""
        bs = list(v[1])
        n = w // 8
        if isinstance(k, int) and len(bs) == n:
            if op == 'lshr' and k % 8 == 0:
                return self.frombytes((bs[k // 8:] + [0] * n)[:n])
            if op == 'shl' and k % 8 == 0:
                return self.frombytes(([0] * (k // 8) + bs)[:n])
            if op == 'and':
                out = []
                for i, b in enumerate(bs):
                    m = (k >> (8 * i)) & 255
                    out.append(0 if m == 0 else b if m == 255 else b & m if isinstance(b, int) else
                               z3.simplify(self.bv(b, 8) & m) if isinstance(b, z3.BitVecRef) else b if m & 1 and isinstance(b, Cond) else UNDEF)
                return self.frombytes(out)
        raise Unsupported('%s of a partly undefined integer in %s' % (op, self.where()))

    def store(self, addr, v, ty):
        k = ty.kind
        if k in ('struct', 'array', 'vector'):
            if v is UNDEF:
                self.check(addr, ty.size, 'store')
                self.kill(addr, ty.size)
                return
            if k == 'struct':
                for i in range(ty.n):
                    self.store(addr + ty.offsets[i], v[i], ty.elems[i])
            else:
                es = ty.elem.size
                if ty.elem.kind == 'int' and ty.elem.width == 1 and k == 'vector':
                    raise Unsupported('store of <n x i1>')
                for i in range(ty.n):
                    self.store(addr + i * es, v[i], ty.elem)
            return
        n = ty.store
        self.check(addr, n, 'store')
        self.put(addr, v, n)

    def put(self, addr, v, n):
        c = self.cells.get(addr)
        if c is None or c[1] != n:
            self.kill(addr, n)
        self.cells[addr] = (v, n)

    def load(self, addr, ty):
        k = ty.kind
        if k == 'struct':
            return [self.load(addr + ty.offsets[i], ty.elems[i]) for i in range(ty.n)]
        if k in ('array', 'vector'):
            es = ty.elem.size
            return [self.load(addr + i * es, ty.elem) for i in range(ty.n)]
        n = ty.store
        if isinstance(addr, SymAddr):
            if k != 'int' or n != addr.stride:
                raise Unsupported('load of %s at a symbolic index in %s' % (k, self.where()))
            vs = [self.load(addr.base + j * addr.stride, ty) for j in range(addr.count)]
            if any(v is UNDEF for v in vs):
                raise Unsupported('table with uninitialised elements')
            r = self.bv(vs[-1], ty.width)
            for j in range(addr.count - 2, -1, -1):
                r = z3.If(addr.idx == j, self.bv(vs[j], ty.width), r)
            return self.sint(r)
        self.check(addr, n, 'load')
        return self.get(addr, n, ty)

    def get(self, addr, n, ty=None):
        c = self.cells.get(addr)
        if c is not None and c[1] == n:
            v = c[0]
        else:
            v = self.gather(addr, n)
        if ty is not None:
            v = self.coerce(v, ty)
        return v

    def gather(self, addr, n):
        bs = []
        a = addr
        end = addr + n
        # leading cell overlapping?
        if addr not in self.cells:
            for s in range(1, 16):
                c = self.cells.get(addr - s)
                if c is not None:
                    if c[1] > s:
                        bs.extend(self.tobytes(c[0], c[1])[s:])
                    break
        a = addr + len(bs)
        while a < end:
            c = self.cells.get(a)
            if c is None:
                bs.append(UNDEF)
                a += 1
            else:
                bs.extend(self.tobytes(c[0], c[1]))
                a += c[1]
        return self.frombytes(bs[:n])

    def frombytes(self, bs):
        n = len(bs)
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(bytes(bs), 'little')
        if n == 1:
            return bs[0]
        b0 = bs[0]
        if isinstance(b0, tuple) and b0[2] == n and all(isinstance(b, tuple) and b[1] is b0[1] and b[3] == i for i, b in enumerate(bs)):
            return b0[1]
        if any(b is UNDEF for b in bs):
            if all(b is UNDEF for b in bs):
                return UNDEF
            # partially undefined (struct padding copied as a whole)
            return ('mix', bs)
        if all(isinstance(b, (int, z3.BitVecRef, Cond)) for b in bs):
            parts = [self.bv(b, 8) for b in bs]
            return z3.simplify(z3.Concat(list(reversed(parts)))) if n > 1 else parts[0]
        return ('mix', bs)

    def coerce(self, v, ty):
        k = ty.kind
        if isinstance(v, RInt) and (k != 'int' or ty.width != 64):
            raise Unsupported('reinterpretation of a symbolic integer')
        if k == 'double' or k == 'float':
            if isinstance(v, int):
                return self.bits_to_fp(v, k)
            if isinstance(v, z3.BitVecRef) and not self.real:
                return z3.fpBVToFP(v, z3.Float64() if k == 'double' else z3.Float32())
        elif k == 'int':
            if ty.width == 1 and isinstance(v, int):
                return v & 1
            if ty.width == 1 and isinstance(v, z3.BitVecRef):
                return K.zc(z3.Extract(0, 0, v) == 1)
        return v

    def bits_to_fp(self, v, k):
        d = struct.unpack('<d', v.to_bytes(8, 'little'))[0] if k == 'double' else struct.unpack('<f', v.to_bytes(4, 'little'))[0]
        return self.fpconst(d)

    def fpconst(self, d):
        if self.real:
            e = X.from_double(d)
            return d if e is None else e     # inf/nan stay floats
        return d

    def fp_bits(self, v):
        if v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.num_args() == 1 and isinstance(v.arg(0), z3.BitVecRef):
            return v.arg(0)            # loads and stores of doubles keep the bits
        return z3.fpToIEEEBV(v)

    def memcpy(self, dst, src, n):
        if not isinstance(n, int):
            n = self.concretize(n, 64)
        if n == 0:
            return
        self.check(src, n, 'read')
        self.check(dst, n, 'write')
        if dst == src:
            return
        items = []
        cells = self.cells
        a = src
        end = src + n
        c = cells.get(a)
        if c is None:
            for s in range(1, 16):
                c = cells.get(a - s)
                if c is not None:
                    if c[1] > s:
                        self.split(a - s)
                    break
        if n <= 4096 or len(cells) > n:
            while a < end:
                c = cells.get(a)
                if c is None:
                    a += 1
                    continue
                if a + c[1] > end:
                    self.split(a)
                    continue
                items.append((a - src, c))
                a += c[1]
        else:
            for a in sorted(x for x in cells if src <= x < end):
                items.append((a - src, cells[a]))
        self.kill(dst, n)
        for o, c in items:
            cells[dst + o] = c

    def memset(self, dst, v, n):
        if not isinstance(n, int):
            n = self.concretize(n, 64)
        if n == 0:
            return
        self.check(dst, n, 'write')
        self.kill(dst, n)
        a = dst
        end = dst + n
        if isinstance(v, int):
            while a + 8 <= end and a % 8 == 0:
                self.cells[a] = (int.from_bytes(bytes([v & 255]) * 8, 'little'), 8)
                a += 8
        while a < end:
            self.cells[a] = (v, 1)
            a += 1

    def rdstr(self, addr, n=None):
        out = []
        while n is None or len(out) < n:
            b = self.load_byte(addr + len(out))
            if n is None and b == 0:
                break
            if not isinstance(b, int):
                raise Unsupported('symbolic C string')
            out.append(b)
            if len(out) > 100000:
                raise Unsupported('unterminated string')
        return bytes(out)

    def load_byte(self, a):
        self.check(a, 1, 'load')
        return self.get(a, 1)

    def wrstr(self, addr, bs):
        for i, b in enumerate(bs):
            self.put(addr + i, b, 1)

    # ---------------------------------------------------------------- globals / constants
    def gaddr(self, name):
        name = self.prog.resolve(name)
        a = self.prog.faddr.get(name)
        if a is not None:
            return a
        a = self.galloc.get(name)
        if a is not None:
            return a
        if name not in self.mod.globals:
            raise Unsupported('global ' + name)
        init, ty = self.mod.initializer(name)
        size = ty.size if ty.size else 8
        if init is None:
            size = max(size, 1024)
        a = self.alloc(size, 'global:' + name, 64)
        self.galloc[name] = a
        if init is not None:
            self.initmem(a, init, ty)
        elif name == '__libc_single_threaded':
            self.put(a, 1, 1)
        elif name in ('_ZSt4cout', '_ZSt4cerr', '_ZSt4clog'):
            from .models import std_stream
            std_stream(self, a)
        elif name.startswith('_ZTT'):
            # construction tables of library streams: only the offset of the virtual base matters
            vt = self.alloc(64, 'vtable')
            self.put(vt, 128 if '18basic_stringstream' in name else 112 if 'ostringstream' in name else 120, 8)
            for i in range(16):
                self.put(a + 8 * i, vt + 24, 8)
        return a

    def initmem(self, a, c, ty):
        k = c.kind
        if k == 'undef':
            return
        if k == 'zero':
            self.memset(a, 0, ty.size)
            return
        if k == 'bytes':
            for i, b in enumerate(c.v):
                self.cells[a + i] = (b, 1)
            return
        if k == 'agg':
            if ty.kind == 'struct':
                for i in range(ty.n):
                    self.initmem(a + ty.offsets[i], c.v[i], ty.elems[i])
            else:
                for i in range(ty.n):
                    self.initmem(a + i * ty.elem.size, c.v[i], ty.elem)
            return
        self.put(a, self.cval(c), ty.store)

    def cval(self, c):
        k = c.kind
        if k == 'int':
            return c.v
        if k == 'fp':
            return self.fpconst(c.v)
        if k == 'global':
            return self.gaddr(c.v)
        if k == 'undef':
            return self.undef(c.type)
        if k == 'zero':
            return self.zero(c.type)
        if k == 'agg':
            return [self.cval(x) for x in c.v]
        if k == 'bytes':
            return list(c.v)
        if k == 'expr':
            op, ops, x = c.v
            if op == 'gep':
                base = self.cval(ops[0])
                return self.gep(base, x, [self.cval(o) for o in ops[1:]], [o.type for o in ops[1:]])
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return self.cval(ops[0])
            if op == 'sub':
                return (self.cval(ops[0]) - self.cval(ops[1])) & MASK[c.type.width]
            if op == 'add':
                return (self.cval(ops[0]) + self.cval(ops[1])) & MASK[c.type.width]
            if op == 'trunc':
                return self.cval(ops[0]) & MASK[c.type.width]
            if op == 'icmp':
                return self.icmp(x, self.cval(ops[0]), self.cval(ops[1]), ops[0].type)
            raise Unsupported('constant expression %s' % op)
        if k == 'asm':
            return ('asm', c.v)
        if k == 'md':
            return None
        raise Unsupported('constant ' + k)

    def undef(self, ty):
        if ty.kind == 'struct':
            return [self.undef(t) for t in ty.elems]
        if ty.kind in ('array', 'vector'):
            return [self.undef(ty.elem) for _ in range(ty.n)]
        return UNDEF

    def zero(self, ty):
        if ty.kind == 'struct':
            return [self.zero(t) for t in ty.elems]
        if ty.kind in ('array', 'vector'):
            return [self.zero(ty.elem) for _ in range(ty.n)]
        if ty.kind in ('double', 'float'):
            return self.fpconst(0.0)
        return 0

    def gep(self, base, ty, idx, itys):
        off = 0
        sym = None
        t = ty
        for k, i in enumerate(idx):
            if isinstance(i, int):
                w = itys[k].width
                if w:
                    i = tosigned(i, w)
            if k == 0:
                es = t.size
            elif t.kind == 'struct':
                off += t.offsets[i]
                t = t.elems[i]
                continue
            else:
                t = t.elem
                es = t.size
            if isinstance(i, int):
                off += i * es
            else:
                if i is UNDEF:
                    raise Unsupported('undefined index in %s' % self.where())
                if isinstance(i, z3.BitVecRef) and isinstance(base, int) and k == len(idx) - 1 and es in (1, 2, 4, 8):
                    al = self.find(base + off)
                    if al is not None and str(al.kind).startswith('global') and al.alive and al.size <= 2048:
                        lo = al.base + (base + off - al.base) % es
                        n = (al.base + al.size - lo) // es
                        w = itys[k].width
                        x = z3.SignExt(64 - w, i) if w < 64 else i
                        x = z3.simplify(x + z3.BitVecVal(((base + off - lo) // es) & MASK[64], 64))
                        c = self.simp(K.zc(z3.ULT(x, z3.BitVecVal(n, 64))))
                        if c is True or (c is not False and self.decide(c)):
                            return SymAddr(lo, x, es, n)
                if isinstance(i, (z3.BitVecRef, Cond)):
                    i = tosigned(self.concretize(i, itys[k].width), itys[k].width)
                    off += i * es
                else:
                    raise Unsupported('symbolic index %r' % (i,))
        if isinstance(base, int):
            return (base + off) & MASK[64]
        if off == 0:
            return base
        if base is UNDEF:
            return UNDEF
        if isinstance(base, z3.BitVecRef):
            return z3.simplify(base + off)
        raise Unsupported('gep on %r' % (base,))

    # ---------------------------------------------------------------- decisions
    def where(self):
        return ' <- '.join(demangle(f) for f in reversed(self.trace[-4:]))

    def simp(self, c, again=False):
        if isinstance(c, (bool, int)):
            return bool(c)
        if c is UNDEF:
            self.fail('no use of uninitialised value', 'branch on uninitialised value in %s' % self.where())
        if c.op in K.CMP:
            # same comparison known?
            for q in self.pc:
                if isinstance(q, Cond) and q.op in K.CMP:
                    if q.a is c.a:
                        r = _implies(q.op, c.op)
                        if r is not None:
                            return r
                    elif q.a is X.neg(c.a):
                        r = _implies_neg(q.op, c.op)
                        if r is not None:
                            return r
            v = self.prover_value(c.a)
            if v is not None:
                return {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[c.op]
            if not again:
                n = X.count(c.a, 60)
                if 6 < n:
                    sm = self.run.prover.nf_small(c.a, self.pc)
                    if sm is not None and sm is not c.a and X.count(sm, n) < n:
                        return self.simp(K.cmp(c.op, sm), True)
        elif c.op in ('and', 'or'):
            xs = [self.simp(x) for x in c.a]
            return K.cand(*xs) if c.op == 'and' else K.cor(*xs)
        elif c.op == 'z3':
            if z3.is_true(c.a):
                return True
            if z3.is_false(c.a):
                return False
        return c

    def prover_value(self, e):
        k = (e.id, tuple(id(c) for c in self.pc if isinstance(c, Cond) and c.op == '=='))
        cache = self.run.__dict__.setdefault('_valcache', {})
        if k in cache:
            return cache[k][0]
        # quick numeric test: constant on all samples?
        v = None
        a = X.eval_np(e, self.run.samples, self.run.npmemo)
        a = np.asarray(a, dtype=float)
        if a.ndim == 0:
            cand = True
        else:
            b = a[self.live]
            b = b[np.isfinite(b)]
            if len(b) == 0:
                cand = True
            else:
                sp = float(b.max() - b.min())
                cand = sp <= 1e-6 * (1 + float(np.abs(b).max()))
        if cand:
            v = self.run.prover.nf_value(e, self.pc)
        cache[k] = (v, e)
        return v

    def decide(self, c):
        c = self.simp(c)
        if isinstance(c, bool):
            return c
        run = self.run
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if i >= run.maxdecisions:
                raise BudgetExceeded('more than %d decisions on a path (unbounded loop?) in %s' % (run.maxdecisions, self.where()))
            if time.process_time() > run.deadline:
                raise BudgetExceeded('time')
            t, f = self.feasible(c)
            if not t and not f:
                raise PathAbort()
            if t and f:
                d = True
                self.alternatives.append(self.taken + [False])
            else:
                # implied: no recording of a path condition necessary, but keep numbering deterministic
                d = t
        self.taken.append(d)
        self.assume(c if d else K.cnot(c))
        return d

    def assume(self, c):
        if isinstance(c, (bool, int)):
            if not c:
                raise PathAbort()
            return
        if c.op == 'and':
            for x in c.a:
                self.assume(x)
            return
        self.pc.append(c)
        r = K.eval_np(c, self.run.samples, self.run.npmemo, self.run.N)
        if r is not None:
            self.live = self.live & r

    def z3sat(self, c, timeout):
        """is pc && c satisfiable? True/False/None, pure z3 path conditions use an incremental solver"""
        run = self.run
        pcs = [q for q in self.pc]
        self.run.nz3 += 1
        r = run.prover.z3_prove(K.cnot(c), pcs, timeout)
        if r is True:
            return False
        if r is None:
            return None
        return True

    def feasible(self, c):
        run = self.run
        r = K.eval_np(c, run.samples, run.npmemo, run.N)
        t = f = None
        if r is not None:
            t = bool(np.any(r & self.live)) or None
            f = bool(np.any(~r & self.live & self.finite(c))) or None
        if t and f:
            return True, True
        to = run.z3timeout
        if t is None:
            t = self.branch_sat(c, to)
        if f is None:
            f = self.branch_sat(K.cnot(c), to)
        return t, f

    def known(self, c):
        """truth of c if the path condition decides the sign of the same quantity (equal normal forms), else None"""
        if not isinstance(c, Cond) or c.op not in ('<', '<=', '==', '!='):
            return None
        run = self.run

        def root(e):
            # (radicand-or-e, sign): sign of a root is the sign of the radicand
            g = 1
            while True:
                if e.op == '*' and e.a[0].op == 'c' and e.a[0].a != 0:
                    g, e = (g if e.a[0].a > 0 else -g), e.a[1]
                elif e.op == 'sqrt':
                    e = e.a[0]
                else:
                    return e, g

        def val(e):
            return np.broadcast_to(np.asarray(X.eval_np(e, run.samples, run.npmemo), dtype=float), (run.N,))
        e, ge = root(c.a)
        if e.op in ('c', 'v'):
            return None
        a = val(e)
        # possible signs of e: subset of {-1,0,1}
        signs = {-1, 0, 1}
        if c.a.op == 'sqrt' or (c.a.op == '*' and c.a.a[1].op == 'sqrt'):
            signs = {0, 1}
        hit = False
        for q in self.pc:
            if not isinstance(q, Cond) or q.op not in ('<', '<=', '==', '!='):
                continue
            f, gf = root(q.a)
            if f is e:
                rel = 1
            else:
                b = val(f)
                m = np.isfinite(a) & np.isfinite(b)
                if m.sum() < 8:
                    continue
                rel = 0
                for k in (1, -1):
                    if np.allclose(a[m], k * b[m], rtol=1e-6, atol=1e-9) and run.prover.nf_same(e, f if k > 0 else X.neg(f), self.pc):
                        rel = k
                        break
                if not rel:
                    continue
            hit = True
            sg = {'<': {-1}, '<=': {-1, 0}, '==': {0}, '!=': {-1, 1}}[q.op]
            signs &= {x * gf * rel for x in sg}
        if not hit or not signs:
            return None
        tr = {x * ge in {'<': {-1}, '<=': {-1, 0}, '==': {0}, '!=': {-1, 1}}[c.op] for x in signs}
        return tr.pop() if len(tr) == 1 else None

    def branch_sat(self, c, to):
        r = self.known(c)
        if r is not None:
            return r
        r = self.z3sat(c, to)
        if r is not None:
            return r
        g = K.cnot(c)
        if isinstance(g, Cond) and g.op in ('<', '<='):
            # sign of a root is the sign of the radicand
            e = g.a
            m = e.a[1] if e.op == '*' and len(e.a) == 2 and e.a[0].op == 'c' and e.a[0].a < 0 else None
            if m is not None and m.op == 'sqrt':
                g = K.cmp(g.op, X.neg(m.a[0]))
            if self.run.prover.linear_prove(g, self.pc):
                return False
        return True

    def finite(self, c):
        out = []
        K.atoms(c, out)
        m = np.full(self.run.N, True)
        for a in out:
            if a.op in K.CMP:
                m = m & np.isfinite(np.broadcast_to(X.eval_np(a.a, self.run.samples, self.run.npmemo), (self.run.N,)))
        return m

    def concretize(self, v, width):
        """fork over the feasible values of a symbolic integer"""
        if isinstance(v, int):
            return v
        if isinstance(v, Cond):
            return 1 if self.decide(v) else 0
        if v is UNDEF:
            self.fail('no use of uninitialised value', 'uninitialised value used in %s' % self.where())
        if not isinstance(v, z3.BitVecRef):
            raise Unsupported('concretize %r' % (v,))
        for _ in range(70):
            i = len(self.taken)
            if i < len(self.prefix):
                # value recorded with the decision
                d = self.prefix[i]
                if isinstance(d, tuple):
                    self.taken.append(d)
                    if d[0] == 'eq':
                        self.assume(K.zc(v == d[1]))
                        return d[1]
                    self.assume(K.zc(v != d[1]))
                    continue
                raise Unsupported('decision mismatch')
            m = self.run.prover.z3_prove(False, self.pc, self.run.z3timeout)
            if m is True:
                raise PathAbort()
            if m is None:
                raise Unsupported('cannot concretize')
            val = m.eval(v, model_completion=True).as_long()
            other = self.z3sat(K.zc(v != val), self.run.z3timeout)
            if other is not False:
                self.alternatives.append(self.taken + [('ne', val)])
            self.taken.append(('eq', val))
            self.assume(K.zc(v == val))
            return val
        raise BudgetExceeded('too many values of a symbolic integer in %s' % self.where())

    # ---------------------------------------------------------------- obligations
    def fail(self, name, detail):
        """an obligation whose condition is false on this path"""
        run = self.run
        o = run.obligation(name)
        cex = self.witness()
        if cex is False:
            # path infeasible after all
            o.backend['z3'] = o.backend.get('z3', 0) + 1
            raise PathAbort()
        o.status = 'failed' if cex is not None else ('undecided' if o.status != 'failed' else o.status)
        o.detail = o.detail or detail
        if cex is not None:
            o.cex = o.cex or cex
        raise ContractFail()

    def witness(self):
        """inputs satisfying the path condition: dict / None (unknown) / False (infeasible)"""
        run = self.run
        if not self.pc:
            return run.sample_inputs(0)
        zpc = any(self._hasz3(c) for c in self.pc)
        if not zpc:
            for k in np.nonzero(self.live)[0][:40]:
                if self.confirm(k):
                    return run.sample_inputs(int(k))
        m = run.prover.z3_prove(False, self.pc, run.z3timeout * 3)
        if m is True:
            return False
        if m is None:
            return None
        return self.model_inputs(m)

    def _hasz3(self, c):
        out = []
        K.atoms(c, out)
        return any(x.op == 'z3' for x in out)

    def model_inputs(self, m):
        r = dict(self.run.ghostin)
        for n, kind in self.run.inputs.items():
            try:
                if kind == 'real':
                    v = m.eval(z3.Real(n), model_completion=True)
                    if z3.is_algebraic_value(v):
                        v = v.approx(20)
                    r[n] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
                elif isinstance(kind, tuple) and kind[0] == 'bv':
                    r[n] = m.eval(z3.BitVec(n, kind[1]), model_completion=True).as_long()
                elif isinstance(kind, tuple) and kind[0] == 'fp':
                    v = m.eval(z3.fpToIEEEBV(z3.FP(n, kind[1])), model_completion=True)
                    b = v.as_long()
                    r[n] = struct.unpack('<d', b.to_bytes(8, 'little'))[0] if kind[2] == 8 else struct.unpack('<f', b.to_bytes(4, 'little'))[0]
                elif kind == 'text':
                    from . import slib
                    r[n] = slib.model_text(m, n)
            except Exception as ex:
                r[n] = str(ex)
        return r

    def confirm(self, k, extra=None, tol=None):
        """checks pc (and the condition extra) at sample k with 60 digits"""
        mp = mpmath.mp
        e = self.run.mpenv(int(k))
        if e is None:
            return False
        env, memo = e
        t = mp.mpf(10) ** -45
        for c in self.pc:
            if K.eval_mp(c, env, memo, mp, t) is not True:
                return False
        if extra is not None:
            return K.eval_mp(extra, env, memo, mp, tol or t) is True
        return True

    def check_goal(self, c, name, kind='ensures'):
        run = self.run
        o = run.obligation(name)
        t0 = time.time()
        try:
            self._check_goal(c, o)
        finally:
            o.time += time.time() - t0

    def _check_goal(self, c, o):
        run = self.run
        pr = run.prover

        def ok(backend):
            o.backend[backend] = o.backend.get(backend, 0) + 1

        if c is UNDEF:
            o.status = 'failed'
            o.detail = o.detail or 'goal depends on an uninitialised value'
            w = self.witness()
            o.cex = o.cex or (w or None)
            return
        if isinstance(c, (bool, int)):
            if c:
                ok('constant')
                return
            w = self.witness()
            if w is False:
                ok('z3')
                return
            if w is None:
                if o.status != 'failed':
                    o.status = 'undecided'
                o.detail = o.detail or 'goal is false on a path whose feasibility is unknown'
            else:
                o.status = 'failed'
                o.cex = o.cex or w
                o.detail = o.detail or 'goal is false'
            return
        if c.op == 'and':
            for x in c.a:
                self._check_goal(x, o)
            return
        # numeric refutation
        pure = not self._hasz3(c) and not any(self._hasz3(q) for q in self.pc)
        if pure:
            r = K.eval_np(c, run.samples, run.npmemo, run.N)
            if c.op in ('==',):
                v = np.broadcast_to(X.eval_np(c.a, run.samples, run.npmemo), (run.N,))
                with np.errstate(all='ignore'):
                    bad = self.live & np.isfinite(v)
                    order = np.argsort(-np.abs(np.where(bad, v, 0)))[:24]
                tol = mpmath.mpf(10) ** -25
            else:
                bad = self.live & ~r & self.finite(c)
                order = np.nonzero(bad)[0][:24]
                tol = mpmath.mpf(10) ** -45
            nc = K.cnot(c)
            for k in order:
                if self.live[k] and self.confirm(k, nc, tol):
                    o.status = 'failed'
                    if o.cex is None:
                        o.cex = run.sample_inputs(int(k))
                        e = run.mpenv(int(k))
                        o.detail = 'refuted numerically: %s' % (
                            'difference %s' % mpmath.nstr(X.eval_mp(c.a, e[0], e[1], mpmath.mp), 8) if c.op in K.CMP else 'condition false')
                    return
        if c.op == '==':
            if pr.nf_zero(c.a, self.pc):
                ok('normal-form')
                return
        elif c.op in K.CMP:
            v = pr.nf_value(c.a, self.pc)
            if v is not None:
                if {'<': v < 0, '<=': v <= 0, '!=': v != 0}[c.op]:
                    ok('normal-form')
                    return
        if has_real(c) and c.op in K.CMP and pr.linear_prove(c, self.pc):
            ok('z3')
            return
        for taylor in ((False, True) if has_real(c) else (False,)):
            m = pr.z3_prove(c, self.pc, run.z3timeout * (3 if not has_real(c) else 1), taylor)
            if m is True:
                ok('z3')
                return
            if m is not None and not has_real(c) and not any(has_real(q) for q in self.pc):
                o.status = 'failed'
                o.cex = o.cex or self.model_inputs(m)
                o.detail = o.detail or 'counterexample of z3'
                return
        from . import prover2
        r = prover2.more(self, c, o)
        if r:
            ok(r)
            return
        # infeasible path?
        if pure and not np.any(self.live):
            m = pr.z3_prove(False, self.pc, run.z3timeout * 2)
            if m is True:
                ok('z3')
                return
        if o.status != 'failed':
            o.status = 'undecided'
        o.detail = o.detail or ('not proved: %s' % (str(c)[:300]))
        o.detail += '' if pure and np.any(self.live) else ' [no witness of the path]'

    def domain(self, c, name):
        """well-definedness side condition of real arithmetic"""
        run = self.run
        if isinstance(c, (bool, int)):
            if c:
                return
            self.fail(name, 'false in %s' % self.where())
        key = (name, c.op, c.a.id if c.op in K.CMP else id(c), len(self.pc))
        done = self.ghost.setdefault('domain', {})
        k2 = (name, c.op, c.a.id if c.op in K.CMP else id(c))
        if k2 in done:
            return
        done[k2] = True
        r = K.eval_np(c, run.samples, run.npmemo, run.N)
        if r is not None:
            for k in np.nonzero(self.live & ~r & self.finite(c))[0][:8]:
                if self.confirm(k, K.cnot(c)):
                    o = run.obligation(name)
                    o.status = 'failed'
                    o.cex = o.cex or run.sample_inputs(int(k))
                    o.detail = o.detail or '%s violated in %s' % (name, self.where())
                    raise ContractFail()
        o = None
        if c.op in ('!=', '<=', '<'):
            v = self.prover_value(c.a)
            if v is not None and {'<': v < 0, '<=': v <= 0, '!=': v != 0}[c.op]:
                o = run.obligation(name)
                o.backend['normal-form'] = o.backend.get('normal-form', 0) + 1
                self.note_fact(c)
                return
            if c.op == '!=' and self.posdef(c.a) or c.op in ('<=',) and self.nonneg(X.neg(c.a)):
                o = run.obligation(name)
                o.backend['normal-form'] = o.backend.get('normal-form', 0) + 1
                self.note_fact(c)
                return
        m = run.prover.z3_prove(c, self.pc, 400)
        if m is True:
            o = run.obligation(name)
            o.backend['z3'] = o.backend.get('z3', 0) + 1
        else:
            run.assume_note('%s assumed (not proved) in %s' % (name, demangle(self.trace[-1]) if self.trace else '?'))
        self.note_fact(c)

    def note_fact(self, c):
        """a discharged well-definedness condition is a fact from here on"""
        if c.op == '!=' and c.a.op != 'sqrt' and c.a.op != 'v':
            self.assume(c)

    def nonneg(self, e):
        if e.op == 'c':
            return e.a >= 0
        if e.op in ('sqrt', 'abs'):
            return True
        if e.op == '*':
            if e.a[0] is e.a[1]:
                return True
            return all(self.nonneg(x) for x in e.a)
        if e.op == '+':
            return all(self.nonneg(x) for x in e.a)
        if e.op == '/':
            return all(self.nonneg(x) for x in e.a)
        for q in self.pc:
            if isinstance(q, Cond) and q.op in ('<', '<=') and q.a is X.neg(e):
                return True
        return False

    def posdef(self, e):
        """e > 0 or e < 0 syntactically / by the path condition"""
        if e.op == 'c':
            return e.a != 0
        for q in self.pc:
            if isinstance(q, Cond) and q.op in ('<', '!=') and (q.a is e or q.a is X.neg(e)):
                return True
        if e.op == 'sqrt':
            return self.posdef(e.a[0])
        if e.op in '*/':
            return all(self.posdef(x) for x in e.a)
        if e.op == '+' and self.nonneg(e):
            return any(self.posdef(x) for x in e.a)
        return False

    # ---------------------------------------------------------------- integers
    def bv(self, v, w):
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        if isinstance(v, z3.BitVecRef):
            if v.size() == w:
                return v
            if v.size() < w:
                return z3.ZeroExt(w - v.size(), v)
            return z3.Extract(w - 1, 0, v)
        if isinstance(v, Cond):
            if v.op == 'z3':
                return z3.If(v.a, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            return z3.BitVecVal(1 if self.decide(v) else 0, w)
        if isinstance(v, (E, float)):
            return z3.BitVecVal(self.toint(v, w), w)
        if isinstance(v, z3.FPRef):
            return self.fp_bits(v)
        if v is UNDEF:
            self.fail('no use of uninitialised value', 'uninitialised integer in %s' % self.where())
        raise Unsupported('integer %r' % (v,))

    def toint(self, v, w):
        if isinstance(v, E):
            if v.op == 'c':
                return int.from_bytes(struct.pack('<d' if w == 64 else '<f', float(v.a)), 'little')
            raise Unsupported('bits of a symbolic real in %s' % self.where())
        if isinstance(v, float):
            return int.from_bytes(struct.pack('<d' if w == 64 else '<f', v), 'little')
        return v

    def rwide(self, v):
        return v.e if isinstance(v, RInt) else X.const(tosigned(v, 64)) if isinstance(v, int) else None

    def rbinop(self, op, a, b, w):
        x, y = self.rwide(a), self.rwide(b)
        if x is None or y is None or w != 64 or op not in ('add', 'sub', 'mul'):
            raise Unsupported('arithmetic %s on an integer carried as a real number in %s' % (op, self.where()))
        if op == 'mul' and isinstance(a, RInt) and isinstance(b, RInt):
            raise Unsupported('product of integers carried as real numbers')
        r = X.add(x, y) if op == 'add' else X.sub(x, y) if op == 'sub' else X.mul(x, y)
        # two's complement: the multiple of 2^64 to take off is decided now
        for k in (0, 1, -1):
            q = X.sub(r, X.const(k * 2 ** 64)) if k else r
            if self.decide(K.cand(K.cmp('<', X.sub(q, X.const(2 ** 63))), K.cmp('<=', X.sub(X.const(-2 ** 63), q)))):
                return tosigned(int(q.a), 64) & MASK[64] if q.op == 'c' else RInt(q)
        raise Unsupported('overflow of an integer carried as a real number in %s' % self.where())

    def ricmp(self, pred, a, b, w):
        x, y = self.rwide(a), self.rwide(b)
        if x is None or y is None or w != 64:
            raise Unsupported('comparison of an integer carried as a real number in %s' % self.where())
        if pred[0] == 'u':
            if self.decide(K.cmp('<', x)):
                x = X.add(x, X.const(2 ** 64))
            if self.decide(K.cmp('<', y)):
                y = X.add(y, X.const(2 ** 64))
        d, e = X.sub(x, y), X.sub(y, x)
        r = {'eq': lambda: K.cmp('==', d), 'ne': lambda: K.cmp('!=', d), 'lt': lambda: K.cmp('<', d), 'le': lambda: K.cmp('<=', d), 'gt': lambda: K.cmp('<', e), 'ge': lambda: K.cmp('<=', e)}[pred[-2:]]()
        return self.b1(r)

    def binop(self, op, a, b, w):
        if isinstance(a, RInt) or isinstance(b, RInt):
            return self.rbinop(op, a, b, w)
        if isinstance(a, LInt) or isinstance(b, LInt):
            return self.lbinop(op, a, b, w)
        if isinstance(a, tuple) and a[0] == 'mix':
            return self.mixop(op, a, b, w)
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & MASK[w]
            if op == 'sub':
                return (a - b) & MASK[w]
            if op == 'mul':
                return (a * b) & MASK[w]
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & MASK[w] if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (tosigned(a, w) >> min(b, w - 1)) & MASK[w]
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    self.fail('no division by zero', 'integer division by zero in %s' % self.where())
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = tosigned(a, w), tosigned(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == 'sdiv' else x - q * y) & MASK[w]
        if w == 1:
            if op in ('and', 'or', 'xor'):
                if a is UNDEF or b is UNDEF:
                    o = b if a is UNDEF else a
                    if op == 'and' and isinstance(o, int) and o == 0:
                        return 0
                    if op == 'or' and isinstance(o, int) and o == 1:
                        return 1
                    return UNDEF
                if op == 'and':
                    return self.b1(K.cand(a, b))
                if op == 'or':
                    return self.b1(K.cor(a, b))
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int):
                    return self.b1(K.cnot(a)) if b else a
                if a.op == 'z3' and b.op == 'z3':
                    return self.b1(K.zc(z3.Xor(a.a, b.a)))
                return self.b1(K.cor(K.cand(a, K.cnot(b)), K.cand(K.cnot(a), b)))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported('mixed bytes in integer arithmetic %s' % self.where())
        if isinstance(a, E) or isinstance(b, E):
            # sign tricks on doubles: x ^ signbit, x & ~signbit
            if isinstance(b, int) and isinstance(a, E):
                if op == 'xor' and b == 1 << (w - 1):
                    return X.neg(a)
                if op == 'and' and b == MASK[w - 1]:
                    return self.fabs(a)
        x, y = self.bv(a, w), self.bv(b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.must(K.zc(y != 0), 'no division by zero')
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
             'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
             'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
        return self.sint(r)

    def b1(self, c):
        if isinstance(c, bool):
            return 1 if c else 0
        return c

    def sint(self, r):
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    def must(self, c, name):
        """obligation inside the code (e.g. no overflow)"""
        self.check_goal(c, name)
        if not isinstance(c, (bool, int)):
            self.assume(c)

    def lint(self, e):
        e = z3.simplify(e)
        return e.as_long() if z3.is_int_value(e) else LInt(e)

    def lwide(self, v):
        """the mathematical value of an unsigned 64-bit integer"""
        if isinstance(v, (int, LInt)):
            return lexp(v)
        return z3.BV2Int(self.bv(v, 64), False)

    def truth(self, v):
        return bool(v) if isinstance(v, int) else self.decide(v)

    def lbinop(self, op, a, b, w):
        if w != 64 or a is UNDEF or b is UNDEF:
            raise Unsupported('length arithmetic %s i%d in %s' % (op, w, self.where()))
        if op == 'add' and isinstance(b, int) and b >> 63:
            op, b = 'sub', (1 << 64) - b
        elif op == 'add' and isinstance(a, int) and a >> 63:
            op, a, b = 'sub', b, (1 << 64) - a
        x, y = self.lwide(a), self.lwide(b)
        if op == 'add':
            return self.lint(x + y)          # texts are assumed shorter than 2^62
        if op == 'sub':
            if self.truth(self.licmp('ult', a, b, 64)):
                return self.lint(x - y + 2 ** 64)
            return self.lint(x - y)
        if op == 'mul':
            return self.lint(x * y)
        if op == 'shl' and isinstance(b, int):
            return self.lint(x * 2 ** b)
        if op in ('lshr', 'udiv') and isinstance(b, int) and b:
            return self.lint(x / (2 ** b if op == 'lshr' else b))
        raise Unsupported('length arithmetic %s in %s' % (op, self.where()))

    def licmp(self, pred, a, b, w):
        if w != 64:
            raise Unsupported('length comparison i%d in %s' % (w, self.where()))
        if pred[0] == 's':
            if isinstance(a, int) and a >> 63:
                return 1 if pred in ('slt', 'sle') else 0       # lengths stay below 2^62
            if isinstance(b, int) and b >> 63:
                return 1 if pred in ('sgt', 'sge') else 0
        x, y = self.lwide(a), self.lwide(b)
        if isinstance(x, int):
            x = z3.IntVal(x)
        p = pred[-2:]
        c = {'eq': lambda: x == y, 'ne': lambda: x != y, 'gt': lambda: x > y, 'ge': lambda: x >= y, 'lt': lambda: x < y, 'le': lambda: x <= y}[p]()
        c = z3.simplify(c)
        if z3.is_true(c):
            return 1
        if z3.is_false(c):
            return 0
        for u, v, r in ((x, y, ('ne', 'lt', 'le')), (y, x, ('ne', 'gt', 'ge'))):
            v = v.as_long() if isinstance(v, z3.IntNumRef) else v
            l = lbounds(z3.simplify(u))[0] if z3.is_expr(u) else None
            if isinstance(v, int) and v >> 63 and l is not None and l >= 0:
                return int(p in r)             # all texts together are shorter than 2^62
        lo, hi = lbounds(z3.simplify((x if z3.is_expr(x) else z3.IntVal(x)) - y))
        if p in ('eq', 'ne') and (lo is not None and lo > 0 or hi is not None and hi < 0):
            return int(p == 'ne')
        if p in ('gt', 'le') and (lo is not None and lo > 0 or hi is not None and hi <= 0):
            return int((p == 'gt') == (lo is not None and lo > 0))
        if p in ('ge', 'lt') and (lo is not None and lo >= 0 or hi is not None and hi < 0):
            return int((p == 'ge') == (lo is not None and lo >= 0))
        return self.b1(K.zc(c))

    def icmp(self, pred, a, b, ty):
        if ty.kind == 'ptr':
            w = 64
        else:
            w = ty.width
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                a, b = tosigned(a, w), tosigned(b, w)
            p = pred[-2:]
            return 1 if {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p] else 0
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, LInt) or isinstance(b, LInt):
            return self.licmp(pred, a, b, w)
        if isinstance(a, RInt) or isinstance(b, RInt):
            return self.ricmp(pred, a, b, w)
        if w == 1:
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if pred == 'eq':
                    return a if b else self.b1(K.cnot(a))
                if pred == 'ne':
                    return self.b1(K.cnot(a)) if b else a
        if isinstance(a, (E,)) or isinstance(b, (E,)):
            # sign test of a double through its bits
            if isinstance(a, E) and isinstance(b, int):
                if pred == 'slt' and b == 0:
                    return self.b1(K.cmp('<', a))
                if pred == 'sgt' and b == MASK[w]:
                    return self.b1(K.cmp('<=', X.neg(a)))
        x, y = self.bv(a, w), self.bv(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
        return self.b1(K.zc(r))

    # ---------------------------------------------------------------- floating point
    def fabs(self, a):
        if self.real:
            if isinstance(a, float):
                return abs(a)
            if a.op == 'c':
                return X.const(abs(a.a))
            return a if not self.decide(K.cmp('<', a)) else X.neg(a)
        if isinstance(a, float):
            return abs(a)
        return z3.fpAbs(a)

    def fz(self, a, kind='double'):
        if isinstance(a, float):
            return z3.FPVal(a, z3.Float64() if kind == 'double' else z3.Float32())
        return a

    def fbin(self, op, a, b, kind='double'):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, int):
            a = self.bits_to_fp(a, kind)
        if isinstance(b, int):
            b = self.bits_to_fp(b, kind)
        if self.real:
            if isinstance(a, float) or isinstance(b, float):
                return self.inf_arith(op, a, b)
            if op == 'fadd':
                return self.rounded(X.add(a, b))
            if op == 'fsub':
                return self.rounded(X.sub(a, b))
            if op == 'fmul':
                return self.rounded(X.mul(a, b))
            if op == 'fdiv':
                self.domain(K.cmp('!=', b), 'division by nonzero')
                return self.rounded(X.div(a, b))
            if op == 'frem':
                return X.fn('fmod', a, b)
            raise Unsupported(op)
        if isinstance(a, float) and isinstance(b, float):
            if kind == 'float':
                f = np.float32
                with np.errstate(all='ignore'):
                    r = {'fadd': lambda: f(a) + f(b), 'fsub': lambda: f(a) - f(b), 'fmul': lambda: f(a) * f(b), 'fdiv': lambda: f(a) / f(b)}[op]()
                return float(r)
            with np.errstate(all='ignore'):
                f = np.float64
                r = {'fadd': lambda: f(a) + f(b), 'fsub': lambda: f(a) - f(b), 'fmul': lambda: f(a) * f(b), 'fdiv': lambda: f(a) / f(b),
                     'frem': lambda: np.fmod(f(a), f(b))}[op]()
            return float(r)
        x, y = self.fz(a, kind), self.fz(b, kind)
        if op == 'frem':
            raise Unsupported('frem')
        r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](RNE, x, y)
        return self.sfp(r)

    def sfp(self, r):
        r = z3.simplify(r)
        if z3.is_fp_value(r):
            return fpval(r)
        return r

    def inf_arith(self, op, a, b):
        f = lambda v: v if isinstance(v, float) else (float(v.a) if v.op == 'c' else None)
        x, y = f(a), f(b)
        if x is None or y is None:
            raise Unsupported('arithmetic with infinity/NaN on a symbolic real in %s' % self.where())
        with np.errstate(all='ignore'):
            x, y = np.float64(x), np.float64(y)
            r = float({'fadd': x + y, 'fsub': x - y, 'fmul': x * y, 'fdiv': x / y}[op])
        return self.fpconst(r)

    def fcmp(self, pred, a, b, kind='double'):
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, int):
            a = self.bits_to_fp(a, kind)
        if isinstance(b, int):
            b = self.bits_to_fp(b, kind)
        if self.real:
            if isinstance(a, float) or isinstance(b, float):
                return self.inf_cmp(pred, a, b)
            if pred == 'ord':
                return 1
            if pred == 'uno':
                return 0
            p = pred[1:]
            if p == 'eq':
                return self.b1(K.cmp('==', X.sub(a, b)))
            if p == 'ne':
                return self.b1(K.cmp('!=', X.sub(a, b)))
            if p == 'lt':
                return self.b1(K.cmp('<', X.sub(a, b)))
            if p == 'le':
                return self.b1(K.cmp('<=', X.sub(a, b)))
            if p == 'gt':
                return self.b1(K.cmp('<', X.sub(b, a)))
            if p == 'ge':
                return self.b1(K.cmp('<=', X.sub(b, a)))
            raise Unsupported('fcmp ' + pred)
        if isinstance(a, float) and isinstance(b, float):
            un = a != a or b != b
            if pred == 'ord':
                return int(not un)
            if pred == 'uno':
                return int(un)
            if un:
                return 1 if pred[0] == 'u' else 0
            p = pred[1:]
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        x, y = self.fz(a, kind), self.fz(b, kind)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pred == 'ord':
            return self.b1(K.zc(z3.Not(un)))
        if pred == 'uno':
            return self.b1(K.zc(un))
        p = pred[1:]
        r = {'eq': lambda: z3.fpEQ(x, y), 'ne': lambda: z3.Not(z3.Or(z3.fpEQ(x, y), un)), 'lt': lambda: z3.fpLT(x, y),
             'le': lambda: z3.fpLEQ(x, y), 'gt': lambda: z3.fpGT(x, y), 'ge': lambda: z3.fpGEQ(x, y)}[p]()
        if pred[0] == 'u':
            r = z3.Or(r, un)
        return self.b1(K.zc(r))

    def rounded(self, e):
        if not self.run.rounding or e.op == 'c':
            return e
        # standard model of floating point: fl(x) = x (1 + d), |d| <= 2^-53
        self.nround += 1
        nm = 'rounding!%d' % self.nround
        if nm not in self.run.samples:
            self.run.samples[nm] = self.run.rng(nm).uniform(-2.0 ** -53, 2.0 ** -53, self.run.N)
        d = X.var(nm)
        u = X.const(Fraction(1, 2 ** 53))
        self.assume(K.cmp('<=', X.sub(d, u)))
        self.assume(K.cmp('<=', X.sub(X.neg(u), d)))
        return X.mul(e, X.add(X.ONE, d))

    def inf_cmp(self, pred, a, b):
        def f(v):
            if isinstance(v, float):
                return v
            return float(v.a) if v.op == 'c' else 0.0   # any finite real
        x, y = f(a), f(b)
        if pred in ('ord', 'uno'):
            un = x != x or y != y
            return int(un == (pred == 'uno'))
        if x != x or y != y:
            return 1 if pred[0] == 'u' else 0
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]])

    def real_of_int(self, v, w, signed):
        if isinstance(v, int):
            n = tosigned(v, w) if signed else v
            return X.const(n) if self.real else float(n)
        if self.real:
            raise Unsupported('conversion of a symbolic integer to real in %s' % self.where())
        return None

    # ---------------------------------------------------------------- execution
    def run_function(self, fn, args, varargs=None):
        run = self.run
        name = fn.name
        self.depth += 1
        if self.depth > 400:
            raise Unsupported('call depth in %s' % demangle(name))
        self.trace.append(name)
        run.executed[name] = run.executed.get(name, 0) + 1
        blocks = fn.blocks
        regs = [None] * fn.nslots
        for i, a in enumerate(args[:len(fn.params) if False else len(args)]):
            if i < fn.nslots:
                regs[i] = a
        frame = Frame()
        frame.fn = fn
        frame.regs = regs
        frame.allocas = []
        frame.varargs = varargs
        cur = 0
        prev = -1
        exc = None
        H = HANDLERS
        try:
            while True:
                bl = blocks[cur]
                i = 0
                # phis
                if bl[0].op == 'phi':
                    vals = []
                    for ins in bl:
                        if ins.op != 'phi':
                            break
                        o = ins.x[prev]
                        vals.append((ins.slot, regs[o] if type(o) is int else self.cval(o)))
                    for s, v in vals:
                        regs[s] = v
                    i = len(vals)
                n = len(bl)
                self.steps += n
                if self.steps > run.maxsteps:
                    raise BudgetExceeded('steps in %s' % self.where())
                while i < n:
                    ins = bl[i]
                    i += 1
                    op = ins.op
                    if op == 'br':
                        prev = cur
                        x = ins.x
                        if len(x) == 1:
                            cur = x[0]
                        else:
                            o = ins.ops[0]
                            c = regs[o] if type(o) is int else self.cval(o)
                            if type(c) is not int:
                                c = self.decide(c)
                            cur = x[0] if c else x[1]
                        break
                    if op == 'ret':
                        if not ins.ops:
                            return None
                        o = ins.ops[0]
                        return regs[o] if type(o) is int else self.cval(o)
                    if op == 'call':
                        regs[ins.slot] = self.do_call(ins, regs, frame)
                        continue
                    if op == 'invoke':
                        prev = cur
                        try:
                            regs[ins.slot] = self.do_call(ins, regs, frame)
                            cur = ins.x[3][0]
                        except CppThrow as ex:
                            exc = ex
                            frame_exc = ex
                            frame.varargs = frame.varargs
                            cur = ins.x[3][1]
                        break
                    if op == 'switch':
                        prev = cur
                        o = ins.ops[0]
                        v = regs[o] if type(o) is int else self.cval(o)
                        d, cases, ty = ins.x
                        nxt = None
                        if isinstance(v, int):
                            nxt = d
                            for cv, b in cases:
                                if cv == v:
                                    nxt = b
                                    break
                        else:
                            for cv, b in cases:
                                if self.decide(self.icmp('eq', v, cv, ty)):
                                    nxt = b
                                    break
                            if nxt is None:
                                nxt = d
                        cur = nxt
                        break
                    if op == 'landingpad':
                        sel = 0
                        for k, cl in enumerate(ins.ops):
                            if ins.x[0][k].kind == 'array':
                                continue
                            ti = self.cval(cl)
                            if ti == 0 or self.ti_matches(exc.tinfo, ti):
                                sel = self.ti_id(ti)
                                break
                        else:
                            if not ins.x[1]:
                                if not any(t.kind == 'array' for t in ins.x[0]):
                                    raise exc
                        self.pending = exc
                        self.opaque.setdefault(exc.obj, ('exc', None))
                        self.exc_types[exc.obj] = exc.tinfo
                        regs[ins.slot] = [exc.obj, sel]
                        continue
                    if op == 'resume':
                        o = ins.ops[0]
                        v = regs[o] if type(o) is int else self.cval(o)
                        raise CppThrow(v[0], self.exc_types[v[0]])
                    if op == 'unreachable':
                        raise Unsupported('unreachable executed in %s' % self.where())
                    h = H.get(op)
                    if h is None:
                        raise Unsupported('instruction %s in %s' % (op, demangle(name)))
                    regs[ins.slot] = h(self, ins, regs, frame)
        finally:
            self.depth -= 1
            self.trace.pop()
            for a in frame.allocas:
                a.alive = False

    def do_call(self, ins, regs, frame):
        cv, atys, bv, _ = ins.x
        args = []
        for k, o in enumerate(ins.ops):
            if type(o) is int:
                args.append(regs[o])
            elif o is None:
                args.append(None)
            else:
                args.append(self.cval(o))
        if type(cv) is int:
            a = regs[cv]
        elif cv.kind == 'global':
            a = None
            name = cv.v
        else:
            a = self.cval(cv)
        if a is not None:
            if isinstance(a, tuple) and a[0] == 'asm':
                return self.asm(a[1], args, ins)
            if not isinstance(a, int):
                raise Unsupported('symbolic call target %r in %s' % (a, self.where()))
            name = self.prog.addrf.get(a)
            if name is None:
                self.fail('memory safety', 'call through invalid pointer %#x in %s' % (a, self.where()))
        if bv:
            for k, ty in bv.items():
                p = self.alloc(ty.size, 'byval', ty.align)
                self.memcpy(p, args[k], ty.size)
                args[k] = p
        return self.call(name, args, ins, atys)

    def asm(self, text, args, ins):
        return 0 if ins.type.kind == 'int' else None

    def call(self, name, args, ins=None, atys=None):
        name = self.prog.resolve(name)
        m = self.run.models.lookup(name)
        if m is not None:
            return m(self, args, ins, atys, name)
        fn = self.mod.functions[name]
        b = self.bindings.get(name)
        if b is not None and name not in self.bodies:
            self.run.stubbed.add(name)
            spec = self.mod.functions[b]
            return self.run_function(spec, args)
        if fn.decl:
            return self.run.models.external(self, name, args, ins, atys)
        fn.blocks
        return self.run_function(fn, args, args[len(atys):] if False else None)

    def call_addr(self, addr, args):
        name = self.prog.addrf.get(addr)
        if name is None:
            raise Unsupported('call of bad address')
        return self.call(name, args)

    # ---------------------------------------------------------------- RTTI
    def tiname(self, ti):
        al = self.find(ti)
        if al is not None and al.kind.startswith('global:'):
            return demangle(al.kind[7:]).replace('typeinfo for ', '')
        return hex(ti)

    def timangled(self, ti):
        al = self.find(ti)
        return al.kind[7:] if al else None

    STDBASE = {'_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
               '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
               '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
               '_ZTISt8bad_cast': '_ZTISt9exception', '_ZTISt9bad_alloc': '_ZTISt9exception',
               '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
               '_ZTISt12system_error': '_ZTISt13runtime_error', '_ZTISt17bad_function_call': '_ZTISt9exception'}

    def ti_bases(self, name):
        if name in self.STDBASE:
            return [self.STDBASE[name]]
        if name not in self.mod.globals:
            return []
        init, ty = self.mod.initializer(name)
        if init is None or init.kind != 'agg':
            return []
        out = []
        for c in init.v[2:]:
            if c.kind == 'global' and c.v.startswith('_ZTI'):
                out.append(c.v)
        return out

    def ti_matches(self, thrown, want):
        w = self.timangled(want)
        st = [self.timangled(thrown)]
        while st:
            n = st.pop()
            if n == w:
                return True
            st.extend(self.ti_bases(n))
        return False

    def ti_id(self, ti):
        return (ti & 0x7fffffff) if ti else 1

    def throw_std(self, tiname, msg=b''):
        """raise a C++ exception of a library type"""
        if tiname in self.mod.globals:
            ti = self.gaddr(tiname)
        else:
            ti = self.galloc.get(tiname)
            if ti is None:
                ti = self.alloc(64, 'global:' + tiname)
                self.galloc[tiname] = ti
        obj = self.alloc(256, 'exception')
        self.exc_types[obj] = ti
        self.opaque[obj] = ('exc', list(msg))
        raise CppThrow(obj, ti)


def _implies(have, want):
    """e have 0 known; truth of e want 0"""
    T = {('<', '<'): True, ('<', '<='): True, ('<', '=='): False, ('<', '!='): True,
         ('<=', '<='): True, ('==', '<'): False, ('==', '<='): True, ('==', '=='): True, ('==', '!='): False,
         ('!=', '=='): False, ('!=', '!='): True}
    return T.get((have, want))


def _implies_neg(have, want):
    """-e have 0 known; truth of e want 0"""
    T = {('<', '<'): False, ('<', '<='): False, ('<', '=='): False, ('<', '!='): True,
         ('<=', '<'): False, ('==', '<'): False, ('==', '<='): True, ('==', '=='): True, ('==', '!='): False,
         ('!=', '=='): False, ('!=', '!='): True}
    return T.get((have, want))


def fpval(r):
    """python float of a z3 FP value"""
    if r.isNaN():
        return math.nan
    if r.isInf():
        return -math.inf if r.isNegative() else math.inf
    if r.isZero():
        return -0.0 if r.isNegative() else 0.0
    b = z3.simplify(z3.fpToIEEEBV(r)).as_long()
    if r.sort() == z3.Float64():
        return struct.unpack('<d', b.to_bytes(8, 'little'))[0]
    return struct.unpack('<f', b.to_bytes(4, 'little'))[0]


HANDLERS = {}


def handler(*names):
    def d(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return d


def _v(self, regs, o):
    return regs[o] if type(o) is int else self.cval(o)


@handler('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor')
def _bin(self, ins, regs, fr):
    a, b = _v(self, regs, ins.ops[0]), _v(self, regs, ins.ops[1])
    t = ins.type
    if t.kind == 'vector':
        return [self.binop(ins.op, x, y, t.elem.width) for x, y in zip(a, b)]
    return self.binop(ins.op, a, b, t.width)


@handler('fadd', 'fsub', 'fmul', 'fdiv', 'frem')
def _fbin(self, ins, regs, fr):
    a, b = _v(self, regs, ins.ops[0]), _v(self, regs, ins.ops[1])
    t = ins.type
    if t.kind == 'vector':
        return [self.fbin(ins.op, x, y, t.elem.kind) for x, y in zip(a, b)]
    return self.fbin(ins.op, a, b, t.kind)


@handler('fneg')
def _fneg(self, ins, regs, fr):
    a = _v(self, regs, ins.ops[0])

    def ng(x):
        if x is UNDEF:
            return UNDEF
        if isinstance(x, int):
            x = self.bits_to_fp(x, ins.type.kind if ins.type.kind != 'vector' else ins.type.elem.kind)
        if isinstance(x, float):
            return -x
        return X.neg(x) if self.real else self.sfp(z3.fpNeg(x))
    return [ng(x) for x in a] if ins.type.kind == 'vector' else ng(a)


@handler('alloca')
def _alloca(self, ins, regs, fr):
    n = _v(self, regs, ins.ops[0])
    if not isinstance(n, int):
        n = self.concretize(n, 64)
    a = self.alloc(ins.x.size * n, 'stack', ins.x.align)
    fr.allocas.append(self.allocs[-1])
    return a


@handler('load')
def _load(self, ins, regs, fr):
    return self.load(_v(self, regs, ins.ops[0]), ins.type)


@handler('store')
def _store(self, ins, regs, fr):
    self.store(_v(self, regs, ins.ops[1]), _v(self, regs, ins.ops[0]), ins.x)


@handler('gep')
def _gep(self, ins, regs, fr):
    ty, it = ins.x
    o = ins.ops
    base = _v(self, regs, o[0])
    if ins.type.kind == 'vector':
        raise Unsupported('vector gep')
    return self.gep(base, ty, [_v(self, regs, k) for k in o[1:]], it)


@handler('trunc')
def _trunc(self, ins, regs, fr):
    v = _v(self, regs, ins.ops[0])
    t = ins.type
    if t.kind == 'vector':
        return [trunc1(self, x, t.elem.width) for x in v]
    return trunc1(self, v, t.width)


def trunc1(self, v, w):
    if isinstance(v, int):
        return v & MASK[w]
    if v is UNDEF:
        return UNDEF
    if isinstance(v, z3.BitVecRef):
        if w == 1:
            return self.b1(K.zc(z3.Extract(0, 0, v) == 1))
        return self.sint(z3.Extract(w - 1, 0, v))
    if isinstance(v, Cond):
        return v
    if isinstance(v, LInt) and w == 32:
        # a variable that stands for the low bits of the length (nothing else is known of it)
        if not self.truth(self.licmp('ult', v, 1 << 32, 64)):
            raise Unsupported('a length beyond 32 bits')
        d = self.ghost.setdefault('ltrunc', {})
        b = z3.BitVec('length %d' % len(d), 32)
        d[b.get_id()] = (b, v)
        return b
    if isinstance(v, tuple) and v[0] == 'mix':
        r = self.frombytes(v[1][:max(w // 8, 1)])
        if w >= 8 or isinstance(r, Cond) or r is UNDEF:
            return r
        if isinstance(r, (int, z3.BitVecRef)):
            return trunc1(self, r, w)
    raise Unsupported('trunc %r' % (v,))


@handler('zext', 'sext')
def _ext(self, ins, regs, fr):
    v = _v(self, regs, ins.ops[0])
    t = ins.type
    f = ins.x
    if t.kind == 'vector':
        return [ext1(self, x, f.elem.width, t.elem.width, ins.op) for x in v]
    return ext1(self, v, f.width, t.width, ins.op)


def ext1(self, v, fw, tw, op):
    if isinstance(v, int):
        if op == 'sext':
            return tosigned(v, fw) & MASK[tw]
        return v
    if v is UNDEF:
        return UNDEF
    if isinstance(v, Cond):
        if v.op == 'z3':
            return self.sint(z3.If(v.a, z3.BitVecVal(MASK[tw] if op == 'sext' else 1, tw), z3.BitVecVal(0, tw)))
        if self.decide(v):
            return MASK[tw] if op == 'sext' else 1
        return 0
    if isinstance(v, z3.BitVecRef):
        if fw == 32 and tw == 64 and op == 'zext' and 'ltrunc' in self.ghost:
            w = z3.simplify(v)
            if w.get_id() in self.ghost['ltrunc']:
                return self.ghost['ltrunc'][w.get_id()][1]
        return self.sint(z3.SignExt(tw - fw, v) if op == 'sext' else z3.ZeroExt(tw - fw, v))
    raise Unsupported('ext %r' % (v,))


@handler('ptrtoint', 'inttoptr', 'addrspacecast', 'freeze')
def _cast0(self, ins, regs, fr):
    return _v(self, regs, ins.ops[0])


@handler('bitcast')
def _bitcast(self, ins, regs, fr):
    v = _v(self, regs, ins.ops[0])
    f, t = ins.x, ins.type
    if f.kind == 'vector' or t.kind == 'vector':
        if f.kind == 'vector' and t.kind == 'vector' and f.n == t.n:
            return [self.coerce(x, t.elem) for x in v]
        p = self.alloc(max(f.size, t.size), 'tmp')
        self.store(p, v, f)
        return self.load(p, t)
    if t.kind in ('double', 'float'):
        return self.coerce(v, t)
    if isinstance(v, float):
        return self.toint(v, t.width)
    if isinstance(v, z3.FPRef):
        return self.fp_bits(v)
    return v


@handler('icmp')
def _icmp(self, ins, regs, fr):
    a, b = _v(self, regs, ins.ops[0]), _v(self, regs, ins.ops[1])
    p, t = ins.x
    if t.kind == 'vector':
        return [self.icmp(p, x, y, t.elem) for x, y in zip(a, b)]
    return self.icmp(p, a, b, t)


@handler('fcmp')
def _fcmp(self, ins, regs, fr):
    a, b = _v(self, regs, ins.ops[0]), _v(self, regs, ins.ops[1])
    p, t = ins.x
    if t.kind == 'vector':
        return [self.fcmp(p, x, y, t.elem.kind) for x, y in zip(a, b)]
    return self.fcmp(p, a, b, t.kind)


@handler('select')
def _select(self, ins, regs, fr):
    c = _v(self, regs, ins.ops[0])
    a, b = _v(self, regs, ins.ops[1]), _v(self, regs, ins.ops[2])
    if isinstance(c, list):
        return [self.select(x, y, z, ins.type.elem) for x, y, z in zip(c, a, b)]
    return self.select(c, a, b, ins.type)


def _selectm(self, c, a, b, ty):
    if isinstance(c, int):
        return a if c else b
    if a is b:
        return a
    if isinstance(c, Cond) and c.op == 'z3' and ty.kind == 'int':
        okt = (int, z3.BitVecRef)
        if ty.width == 1:
            if all(isinstance(v, int) or (isinstance(v, Cond) and v.op == 'z3') for v in (a, b)):
                f = lambda v: z3.BoolVal(bool(v)) if isinstance(v, int) else v.a
                return self.b1(K.zc(z3.If(c.a, f(a), f(b))))
        elif isinstance(a, okt) and isinstance(b, okt):
            return self.sint(z3.If(c.a, self.bv(a, ty.width), self.bv(b, ty.width)))
    if isinstance(c, Cond) and ty.kind == 'int' and ty.width == 1:
        # short-circuit and/or
        if isinstance(b, int) and b == 0:
            return self.b1(K.cand(c, a)) if a is not UNDEF else (UNDEF if self.decide(c) else 0)
        if isinstance(a, int) and a == 1:
            return self.b1(K.cor(c, b)) if b is not UNDEF else (1 if self.decide(c) else UNDEF)
    if isinstance(c, Cond) and c.op == 'z3' and ty.kind in ('double', 'float') and not self.real and a is not UNDEF and b is not UNDEF:
        return self.sfp(z3.If(c.a, self.fz(a, ty.kind), self.fz(b, ty.kind)))
    return a if self.decide(c) else b


Path.select = _selectm


@handler('extractvalue')
def _ev(self, ins, regs, fr):
    v = _v(self, regs, ins.ops[0])
    for i in ins.x:
        v = v[i] if v is not UNDEF else UNDEF
    return v


@handler('insertvalue')
def _iv(self, ins, regs, fr):
    v = _v(self, regs, ins.ops[0])
    e = _v(self, regs, ins.ops[1])
    if v is UNDEF:
        v = self.undef(ins.type)

    def rec(v, ix):
        w = list(v)
        if len(ix) == 1:
            w[ix[0]] = e
        else:
            w[ix[0]] = rec(w[ix[0]], ix[1:])
        return w
    return rec(v, ins.x)


@handler('extractelement')
def _ee(self, ins, regs, fr):
    v = _v(self, regs, ins.ops[0])
    i = _v(self, regs, ins.ops[1])
    return v[self.concretize(i, 32)] if not isinstance(i, int) else v[i]


@handler('insertelement')
def _ie(self, ins, regs, fr):
    v = list(_v(self, regs, ins.ops[0]))
    v[_v(self, regs, ins.ops[2])] = _v(self, regs, ins.ops[1])
    return v


@handler('shufflevector')
def _sv(self, ins, regs, fr):
    a, b = _v(self, regs, ins.ops[0]), _v(self, regs, ins.ops[1])
    c = list(a) + list(b)
    return [c[i] if i >= 0 else UNDEF for i in ins.x]


@handler('sitofp', 'uitofp')
def _itofp(self, ins, regs, fr):
    v = _v(self, regs, ins.ops[0])
    t, f = ins.type, ins.x
    if t.kind == 'vector':
        return [itofp1(self, x, f.elem.width, ins.op == 'sitofp', t.elem.kind) for x in v]
    return itofp1(self, v, f.width, ins.op == 'sitofp', t.kind)


def itofp1(self, v, w, signed, kind):
    if v is UNDEF:
        return UNDEF
    if isinstance(v, Cond):
        return self.fpconst((-1.0 if signed else 1.0) if self.decide(v) else 0.0)
    if isinstance(v, RInt):
        if w != 64:
            raise Unsupported('conversion of a symbolic integer to real in %s' % self.where())
        if not signed and not self.decide(K.cmp('<=', X.neg(v.e))):
            return self.rounded(X.add(v.e, X.const(2 ** 64)))
        return self.rounded(v.e)
    r = self.real_of_int(v, w, signed)
    if r is not None:
        if isinstance(r, float) and kind == 'float':
            r = float(np.float32(r))
        return r
    so = z3.Float64() if kind == 'double' else z3.Float32()
    if isinstance(v, z3.ExprRef) and v.decl().kind() == z3.Z3_OP_FPA_TO_SBV and signed and v.arg(1).sort() == so:
        # truncation (in range, an obligation where it was made) and back
        x = v.arg(1)
        r = x if x.decl().kind() == z3.Z3_OP_FPA_ROUND_TO_INTEGRAL else z3.fpRoundToIntegral(v.arg(0), x)
        return self.sfp(z3.If(z3.fpIsZero(r), z3.FPVal(0.0, so), r))
    return self.sfp(z3.fpSignedToFP(RNE, v, so) if signed else z3.fpUnsignedToFP(RNE, v, so))


@handler('fptosi', 'fptoui')
def _fptoi(self, ins, regs, fr):
    v = _v(self, regs, ins.ops[0])
    t = ins.type
    w = t.width
    if isinstance(v, E) and v.op == 'c':
        n = int(v.a) if v.a >= 0 else -int(-v.a)
        return n & MASK[w]
    if isinstance(v, float):
        if v != v or abs(v) >= 2.0 ** w:
            self.fail('float to integer conversion in range', 'value %r in %s' % (v, self.where()))
        n = int(v)
        if not (-(1 << (w - 1)) <= n < (1 << (w - 1)) if ins.op == 'fptosi' else 0 <= n < (1 << w)):
            self.fail('float to integer conversion in range', 'value %r in %s' % (v, self.where()))
        return n & MASK[w]
    if v is UNDEF:
        return UNDEF
    if isinstance(v, z3.FPRef):
        so = v.sort()
        lo = -(2.0 ** (w - 1)) if ins.op == 'fptosi' else 0.0
        hi = 2.0 ** (w - 1) if ins.op == 'fptosi' else 2.0 ** w
        rt = z3.fpRoundToIntegral(z3.RTZ(), v)
        self.must(K.zc(z3.And(z3.fpGEQ(rt, z3.FPVal(lo, so)), z3.fpLT(v, z3.FPVal(hi, so)))),
                  'float to integer conversion in range')
        return self.sint(z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(w)) if ins.op == 'fptosi' else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(w)))
    if isinstance(v, E) and ins.op == 'fptosi' and w == 64:
        lim = X.const(2 ** 63)
        self.must(K.cmp('<', X.sub(v, lim)), 'float to integer conversion in range')
        self.must(K.cmp('<', X.sub(X.neg(lim), v)), 'float to integer conversion in range')
        return RInt(self.run.models.exact['trunc'](self, [v], None, None, 'trunc'))
    raise Unsupported('conversion of a symbolic real to integer in %s' % self.where())


@handler('fpext', 'fptrunc')
def _fpx(self, ins, regs, fr):
    v = _v(self, regs, ins.ops[0])
    if ins.type.kind == 'vector':
        return [fpx1(self, x, ins.type.elem.kind) for x in v]
    return fpx1(self, v, ins.type.kind)


def fpx1(self, v, kind):
    if v is UNDEF or self.real:
        return v
    if isinstance(v, float):
        return float(np.float32(v)) if kind == 'float' else v
    return self.sfp(z3.fpFPToFP(RNE, v, z3.Float64() if kind == 'double' else z3.Float32()))


@handler('fence')
def _fence(self, ins, regs, fr):
    return None


@handler('atomicrmw')
def _rmw(self, ins, regs, fr):
    p = _v(self, regs, ins.ops[0])
    v = _v(self, regs, ins.ops[1])
    old = self.load(p, ins.type)
    # Xchg 0, Add 1, Sub 2, And 3, Nand 4, Or 5, Xor 6
    op = {1: 'add', 2: 'sub', 3: 'and', 5: 'or', 6: 'xor'}.get(ins.x)
    new = v if ins.x == 0 else self.binop(op, old, v, ins.type.width)
    self.store(p, new, ins.type)
    return old


@handler('cmpxchg')
def _cx(self, ins, regs, fr):
    p = _v(self, regs, ins.ops[0])
    exp, new = _v(self, regs, ins.ops[1]), _v(self, regs, ins.ops[2])
    ty = ins.type.elems[0]
    old = self.load(p, ty)
    eq = self.icmp('eq', old, exp, ty)
    if self.decide(eq) if not isinstance(eq, int) else eq:
        self.store(p, new, ty)
        return [old, 1]
    return [old, 0]


def _branch2(self, nm):
    return self.choice(nm, 2) == 1


def _choice(self, nm, n):
    if nm in self.ghost:
        return self.ghost[nm]
    for v in range(n - 1):
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = True
            self.alternatives.append(self.taken + [False])
        self.taken.append(d)
        if d:
            break
    else:
        v = n - 1
    self.ghost[nm] = v
    self.run.ghostin[nm] = v
    return v


Path.branch2 = _branch2
Path.choice = _choice
Path.icmp_bv = lambda self, b: self.b1(K.zc(b))
