"""Abstract contract of std::set and std::map with text keys (S mode): a partial map whose entries are decided when first asked
for; keys of arbitrary length. The order of the entries is the lexicographic one for known texts, otherwise any total order."""
import re
import z3
from . import cond as K
from . import models as M
from .models import sget, sset, sinit, zdecide, demangle
from .slib import PATTERNS, EXACT, pattern, model, seq_eq, rope, STR, I64
from .engine import UNDEF, Unsupported

KEY = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
_C = r'^(?:[^(]*> )?std::(set|map)<' + KEY + r'(, .*)?>::'
SCALAR = {'int': 4, 'unsigned int': 4, 'double': 8, 'float': 4, 'bool': 1, 'unsigned long': 8, 'long': 8, 'char': 1}


class Entry:
    __slots__ = ('text', 'node')

    def __init__(self, text, node):
        self.text, self.node = text, node


class OMap:
    def __init__(self, base=None):
        self.base = base
        self.ents = []
        self.sorted = []


def omap(p, a):
    m = p.omaps.get(a)
    if m is None:
        m = p.omaps[a] = OMap()
    return m


def vtype(n):
    """type of the mapped values, None for a set"""
    d = demangle(n)
    m = re.search(r'std::map<' + KEY + ', ', d)
    if not m:
        return None
    i = j = m.end()
    depth = 0
    while True:
        c = d[j]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif c == ',' and depth == 0:
            break
        j += 1
    return d[i:j].strip()


def isstr(v):
    return v is not None and re.fullmatch(KEY, v.replace('> >', '>>').replace('>>', '> >').strip()) is not None or v is not None and v.startswith(STR)


def new_node(p, text, v, init=True):
    nd = p.alloc(64 + 512, 'mapnode')
    for o in (0, 8, 16, 24):
        p.put(nd + o, 0, 8)
    sinit(p, nd + 32, text)
    if init and v is not None:
        if isstr(v):
            sinit(p, nd + 64, [])
        else:
            for o in range(0, 512, 8):
                p.put(nd + 64 + o, 0, 8)
    return nd


def value_copy(p, dst, src, v):
    if v is None:
        return
    if isstr(v):
        sinit(p, dst, sget(p, src))
    elif v in SCALAR or v.endswith('*'):
        p.memcpy(dst, src, SCALAR.get(v, 8))
    else:
        for nm in p.mod.functions:
            if nm.startswith('_ZN') and nm.endswith('ERKS1_') and ('C2' in nm or 'C1' in nm) and demangle(nm).startswith(v + '::'):
                p.run_function(p.mod.functions[nm], [dst, src])
                return
        raise Unsupported('copy of a mapped value of type ' + v)


# ------------------------------------------------------------------ dynamic Eigen matrices of arbitrary size whose elements are never
# looked at but the first one: assumed contract of Eigen's copies of whole matrices (same size, same elements)
def arbitrary_matrix(p, m, name, vector=False):
    r = z3.BitVec(name + ' rows', 32)
    p.run.inputs[name + ' rows'] = ('bv', 32)
    p.assume(K.zc(z3.ULT(r, z3.BitVecVal(2 ** 31, 32))))
    r = z3.ZeroExt(32, r)
    p.put(m, opaque(p, name), 8)
    p.put(m + 8, r, 8)
    if not vector:
        c = z3.BitVec(name + ' columns', 32)
        p.run.inputs[name + ' columns'] = ('bv', 32)
        p.assume(K.zc(z3.ULT(c, z3.BitVecVal(2 ** 31, 32))))
        c = z3.ZeroExt(32, c)
        p.put(m + 16, c, 8)
    opsize(p, name, r, 1 if vector else c)
    p.run.assume_note('copies of whole Eigen matrices have the same size and elements (assumed contract)')


def opsize(p, token, r, c):
    '''the size in bytes of the elements of an arbitrary matrix'''
    p.ghost.setdefault('opsize', {})[token] = p.binop('mul', p.binop('shl', r, 3, 64), c, 64)


def mdims(d):
    """rows and columns of the type of a matrix of doubles in a demangled name (-1: open)"""
    m = re.search(r'Eigen::Matrix<double, (-?\d+), (-?\d+), \d+, (-?\d+), (-?\d+)>', d)
    return (int(m[1]), int(m[2])) if m and (m[1], m[2]) == (m[3], m[4]) else None


@pattern(r'(void )?Eigen::PlainObjectBase<Eigen::Matrix<double, -?\d+, -?\d+, \d+, -?\d+, -?\d+> ?>::resize\(long(, long)?\)')
def _presize(p, a, ins, t, n):
    dm = mdims(demangle(n))
    if dm is None or -1 not in dm or all(isinstance(x, int) for x in a[1:]):
        return p.run_function(p.mod.functions[n], a)
    if len(a) == 2:
        a = [a[0], a[1], 1] if dm[1] == 1 else [a[0], 1, a[1]]
    for k in (0, 1):
        if not p.truth(p.icmp('sge', a[1 + k], 0, I64)):
            p.fail('matrices have no negative size', 'resize in %s' % p.where())
        if dm[k] != -1 and not p.truth(p.icmp('eq', a[1 + k], dm[k], I64)):
            p.fail('the size given to a matrix fits its type', 'resize in %s' % p.where())
    d = p.get(a[0], 8)
    if d:
        p.free(d)
    k = p.ghost['unspecified'] = p.ghost.get('unspecified', 0) + 1
    p.put(a[0], opaque(p, 'unspecified elements %d' % k), 8)
    at = a[0] + 8
    for k2 in (0, 1):
        if dm[k2] == -1:
            p.put(at, a[1 + k2], 8)
            at += 8
    opsize(p, 'unspecified elements %d' % k, a[1], a[2])


@model('vf_arbitrary_shape')
def _anyshape(p, a, ins, t, n):
    m, name = a[0], M.iname(p, a[1])
    old = p.get(m, 8)
    if old:
        p.free(old)
    p.put(m, opaque(p, name), 8)
    at, size = m + 8, []
    for k, what in ((2, ' rows'), (3, ' columns')):
        v = a[k]
        if v >> 63:
            v = z3.BitVec(name + what, 32)
            p.run.inputs[name + what] = ('bv', 32)
            p.assume(K.zc(z3.ULT(v, z3.BitVecVal(2 ** 31, 32))))
            v = z3.ZeroExt(32, v)
            p.put(at, v, 8)
            at += 8
        size.append(v)
    opsize(p, name, *size)


def opaque(p, token, first=None):
    d = p.alloc(8, 'heap')
    if first is None:
        p.run.inputs[token + ' first'] = ('bv', 64)
        first = z3.BitVec(token + ' first', 64)
    p.put(d, first, 8)
    p.ghost.setdefault('opaque', {})[d] = token
    return d


@model('vf_arbitrary_matrix', 'vf_arbitrary_vector')
def _anymat(p, a, ins, t, n):
    arbitrary_matrix(p, a[0], M.iname(p, a[1]), n == 'vf_arbitrary_vector')


@model('vf_opaque_same')
def _opsame(p, a, ins, t, n):
    o = p.ghost.get('opaque', {})
    if a[0] not in o or a[1] not in o:
        return 2
    if o[a[0]] != o[a[1]]:
        return 0
    return p.b1(K.zc(p.bv(p.get(a[0], 8), 64) == p.bv(p.get(a[1], 8), 64))) if p.get(a[0], 8) is not p.get(a[1], 8) else 1


_MX, _VX = 'Eigen::Matrix<double, -1, -1, 0, -1, -1>', 'Eigen::Matrix<double, -1, 1, 0, -1, 1>'
_CB = 'Eigen::Block<%s const, -1, 1, true>' % _MX


def opaque_assign(p, dst, dvec, src, svec):
    o = p.ghost['opaque']
    d = p.get(src, 8)
    if dst == src:
        return
    old = p.get(dst, 8)
    if old:
        p.free(old)
    p.put(dst, opaque(p, o[d], p.get(d, 8)), 8)
    p.put(dst + 8, p.get(src + 8, 8), 8)
    if not dvec:
        p.put(dst + 16, 1 if svec else p.get(src + 16, 8), 8)


@pattern(r'void Eigen::internal::call_assignment(_no_alias)?<%s, (%s|%s)(, Eigen::internal::assign_op<double, double> ?)? ?>\(' % (re.escape(_MX), re.escape(_MX), re.escape(_VX)))
def _massign(p, a, ins, t, n):
    if p.get(a[1], 8) not in p.ghost.get('opaque', {}):
        if p.get(a[0], 8) in p.ghost.get('opaque', {}):
            _mreset(p, a[0])
        return p.run_function(p.mod.functions[n], a)
    d = demangle(n)
    opaque_assign(p, a[0], False, a[1], _VX in d[:d.index('(')])


@pattern(r'void Eigen::internal::call_assignment(_no_alias)?<%s, %s(, Eigen::internal::assign_op<double, double> ?)? ?>\(' % (re.escape(_VX), re.escape(_CB)))
def _cassign(p, a, ins, t, n):
    if p.get(a[1], 8) not in p.ghost.get('opaque', {}):
        return p.run_function(p.mod.functions[n], a)
    m = p.get(a[1] + 24, 8)
    if p.get(m, 8) != p.get(a[1], 8) or not p.truth(p.icmp('eq', p.get(m + 16, 8), 1, I64)):
        raise Unsupported('column of an arbitrary matrix')
    opaque_assign(p, a[0], True, a[1], True)


def _mreset(p, m):
    p.free(p.get(m, 8))
    p.put(m, 0, 8)
    p.put(m + 8, 0, 8)
    p.put(m + 16, 0, 8)


@pattern(re.escape(_MX) + r'::Matrix\((%s const&)\)' % re.escape(_MX))
def _mcopy(p, a, ins, t, n):
    if p.get(a[1], 8) not in p.ghost.get('opaque', {}):
        return p.run_function(p.mod.functions[n], a)
    p.put(a[0], 0, 8)
    opaque_assign(p, a[0], False, a[1], False)


@pattern(r'(void )?Eigen::Matrix<double, -1, -1, 0, -1, -1>::Matrix<%s ?>\((Eigen::EigenBase<)?%s( ?>)? const&\)' % (re.escape(_VX), re.escape(_VX)))
def _mvcopy(p, a, ins, t, n):
    if p.get(a[1], 8) not in p.ghost.get('opaque', {}):
        return p.run_function(p.mod.functions[n], a)
    p.put(a[0], 0, 8)
    opaque_assign(p, a[0], False, a[1], True)


@pattern(r'(void )?Eigen::DenseStorage<double, -1, -1, -1, 0>::resize\(')
def _mresize(p, a, ins, t, n):
    if p.get(a[0], 8) in p.ghost.get('opaque', {}):
        _mreset(p, a[0])                # the elements are not specified
    return p.run_function(p.mod.functions[n], a)


def lookup(p, a, text, v):
    """the entry for the text, decided now if it was not before"""
    m = omap(p, a)
    for e in m.ents:
        if zdecide(p, seq_eq(p, e.text, text)):
            return e
    if m.base is None:
        return None
    k = len(m.ents)
    e = Entry(list(text), None)
    if p.branch2('%s has %d' % (m.base, k)):
        e.node = new_node(p, text, v)
        if isstr(v):
            from .slib import text_input
            sset(p, e.node + 64, [text_input(p, '%s value %d' % (m.base, k))])
        elif v is not None and re.match(r'Eigen::Matrix<double, -1, -1, 0, -1, -1>', v):
            arbitrary_matrix(p, e.node + 64, '%s value %d' % (m.base, k))
        elif v is not None:
            raise Unsupported('arbitrary map to ' + v)
    m.ents.append(e)
    return e


def ensure(p, a, text, v):
    e = lookup(p, a, text, v)
    if e is not None and e.node is not None:
        return e, False
    if e is None:
        e = Entry(list(text), None)
        omap(p, a).ents.append(e)
    e.node = new_node(p, text, v)
    return e, True


def before(p, x, y):
    if not rope(x) and not rope(y) and all(isinstance(c, int) for c in x + y):
        return bytes(x) < bytes(y)
    # unequal texts: any order
    k = 'order of texts %d' % len(p.ghost.setdefault('order', []))
    for (u, w, r) in p.ghost['order']:
        if len(u) == len(x) and len(w) == len(y) and zdecide(p, seq_eq(p, u, x)) and zdecide(p, seq_eq(p, w, y)):
            return r
        if len(u) == len(y) and len(w) == len(x) and zdecide(p, seq_eq(p, u, y)) and zdecide(p, seq_eq(p, w, x)):
            return not r
    r = bool(p.branch2(k))
    p.ghost['order'].append((list(x), list(y), r))
    return r


def ordered(p, a):
    m = omap(p, a)
    if m.base is not None:
        raise Unsupported('iteration over an arbitrary container')
    out = [e for e in m.sorted if e.node is not None and e in m.ents]
    for e in m.ents:
        if e.node is None or e in out:
            continue
        i = 0
        while i < len(out) and before(p, out[i].text, e.text):
            i += 1
        out.insert(i, e)
    m.sorted = out
    return out


def owner(p, nd):
    for a, m in p.omaps.items():
        if nd == a + 8:
            return a, None
        for e in m.ents:
            if e.node == nd:
                return a, e
    return None, None


def header(p, a):
    p.put(a, 0, 8)
    p.put(a + 8, 0, 4)
    p.put(a + 16, 0, 8)
    p.put(a + 24, a + 8, 8)
    p.put(a + 32, a + 8, 8)
    p.put(a + 40, 0, 8)


def keytext(p, ptr, ar):
    if ar.startswith('char const*') or ar.startswith('char*'):
        from .slib import cbytes
        return cbytes(p, ptr)
    return sget(p, ptr)


def args_of(d):
    return d[d.rindex('(') + 1:d.rindex(')')]


@pattern(_C + r'(set|map)\(')
def _ctor(p, a, ins, t, n):
    d = demangle(n)
    header(p, a[0])
    p.omaps.pop(a[0], None)
    ar = re.search(r'>::(?:set|map)\((.*)\)$', d).group(1)
    if ar == '':
        omap(p, a[0])
        return
    if ar.startswith('std::set<') or ar.startswith('std::map<'):
        copy(p, a[0], a[1], vtype(n), move='&&' in ar)
        return
    raise Unsupported('container constructor ' + ar[:60])


def copy(p, dst, src, v, move=False):
    m, s = OMap(), omap(p, src)
    m.base = s.base
    if move:
        m.ents, m.sorted = s.ents, s.sorted
        p.omaps[src] = OMap()
    else:
        if s.base is not None:
            raise Unsupported('copy of an arbitrary container')
        for e in s.ents:
            f = Entry(list(e.text), None)
            if e.node is not None:
                f.node = new_node(p, e.text, v, False)
                value_copy(p, f.node + 64, e.node + 64, v)
            m.ents.append(f)
    p.omaps[dst] = m


@pattern(_C + r'~(set|map)\(')
def _dtor(p, a, ins, t, n):
    m = p.omaps.pop(a[0], None)


@pattern(_C + r'operator=\(')
def _assign(p, a, ins, t, n):
    if a[0] != a[1]:
        copy(p, a[0], a[1], vtype(n), move='&&' in args_of(demangle(n)))
    return a[0]


@pattern(_C + r'swap\(')
def _swap(p, a, ins, t, n):
    x, y = omap(p, a[0]), omap(p, a[1])
    p.omaps[a[0]], p.omaps[a[1]] = y, x


@pattern(_C + r'find(\[abi:cxx11\])?\(')
def _find(p, a, ins, t, n):
    e = lookup(p, a[0], sget(p, a[1]), vtype(n))
    return a[0] + 8 if e is None or e.node is None else e.node


@pattern(_C + r'count(\[abi:cxx11\])?\(')
def _count(p, a, ins, t, n):
    e = lookup(p, a[0], sget(p, a[1]), vtype(n))
    return 0 if e is None or e.node is None else 1


@pattern(_C + r'(end|cend)(\[abi:cxx11\])?\(')
def _end(p, a, ins, t, n):
    omap(p, a[0])
    return a[0] + 8


@pattern(_C + r'(begin|cbegin)(\[abi:cxx11\])?\(')
def _begin(p, a, ins, t, n):
    o = ordered(p, a[0])
    return o[0].node if o else a[0] + 8


@model('_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base')
def _inc(p, a, ins, t, n):
    c, e = owner(p, a[0])
    if e is None:
        raise Unsupported('increment of a past-the-end iterator')
    o = ordered(p, c)
    i = o.index(e)
    return o[i + 1].node if i + 1 < len(o) else c + 8


@model('_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base')
def _dec(p, a, ins, t, n):
    c, e = owner(p, a[0])
    if c is None:
        raise Unsupported('decrement of an unknown iterator')
    o = ordered(p, c)
    i = len(o) if e is None else o.index(e)
    if i == 0:
        raise Unsupported('decrement of begin')
    return o[i - 1].node


@pattern(_C + r'(size|empty)(\[abi:cxx11\])?\(\) const')
def _size(p, a, ins, t, n):
    m = omap(p, a[0])
    k = sum(e.node is not None for e in m.ents)
    emp = '::empty' in demangle(n)
    if m.base is not None and not (emp and k):
        raise Unsupported('size of an arbitrary container')
    return int(k == 0) if emp else k


@pattern(_C + r'clear(\[abi:cxx11\])?\(')
def _clear(p, a, ins, t, n):
    p.omaps[a[0]] = OMap()


@pattern(_C + r'operator\[\](\[abi:cxx11\])?\(')
def _index(p, a, ins, t, n):
    e, new = ensure(p, a[0], sget(p, a[1]), vtype(n))
    return e.node + 64


@pattern(_C + r'at(\[abi:cxx11\])?\(')
def _at(p, a, ins, t, n):
    e = lookup(p, a[0], sget(p, a[1]), vtype(n))
    if e is None or e.node is None:
        p.throw_std('_ZTISt12out_of_range')
    return e.node + 64


@pattern(_C + r'insert(\[abi:cxx11\])?\(')
def _insert(p, a, ins, t, n):
    v = vtype(n)
    ar = args_of(demangle(n))
    if len(a) != 2:
        raise Unsupported('container insert(%s)' % ar[:60])
    e, new = ensure(p, a[0], sget(p, a[1]), v)
    if new:
        value_copy(p, e.node + 64, a[1] + 32, v)
    return [e.node, int(new)]


@pattern(_C + r'insert<.*>\(')
def _insertp(p, a, ins, t, n):
    """insert(pair&&): the pair has the layout of the entry when its key type is the text"""
    v = vtype(n)
    d = demangle(n)
    if len(a) != 2 or not re.search(r'insert<std::pair<' + KEY + '( const)?, ' + re.escape(v or '?'), d):
        raise Unsupported('container insert ' + d[-80:])
    e, new = ensure(p, a[0], sget(p, a[1]), v)
    if new:
        value_copy(p, e.node + 64, a[1] + 32, v)
    return [e.node, int(new)]


@pattern(_C + r'emplace<(.*)>\(')
def _emplace(p, a, ins, t, n):
    v = vtype(n)
    d = demangle(n)
    if v is None and len(a) == 2:
        ar = args_of(d)
        e, new = ensure(p, a[0], keytext(p, a[1], ar), v)
        return [e.node, int(new)]
    if len(a) != 3 or not re.search(r'emplace<' + KEY + '( const)?&?, ' + re.escape(v) + '( const)?&?>', d):
        raise Unsupported('container emplace')
    e, new = ensure(p, a[0], sget(p, a[1]), v)
    if new:
        value_copy(p, e.node + 64, a[2], v)
    return [e.node, int(new)]


@pattern(_C + r'erase(\[abi:cxx11\])?\(')
def _erase(p, a, ins, t, n):
    ar = args_of(demangle(n))
    v = vtype(n)
    if ar.startswith('std::_Rb_tree'):
        if ',' in re.sub(r'<[^()]*>', '', ar):
            raise Unsupported('erase of a range')
        c, e = owner(p, a[1])
        p.check_goal(e is not None and c == a[0], 'only an entry of the container is erased')
        if e is None:
            raise Unsupported('erase of a foreign iterator')
        nx = None
        if omap(p, c).base is None:
            o = ordered(p, c)
            i = o.index(e)
            nx = o[i + 1].node if i + 1 < len(o) else c + 8
        e.node = None
        return nx if nx is not None else UNDEF
    e = lookup(p, a[0], sget(p, a[1]), v)
    if e is None or e.node is None:
        return 0
    e.node = None
    return 1


@model('vf_arbitrary_set', 'vf_arbitrary_map')
def _any(p, a, ins, t, n):
    p.omaps[a[0]] = OMap(M.iname(p, a[1]))
