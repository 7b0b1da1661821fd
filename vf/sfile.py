"""files and unformatted input and output of streams (assumed contracts of std::fstream, std::istream::read and the like):
a file is a sequence of bytes, of texts of arbitrary length and of the elements of matrices of arbitrary size"""
import re
import z3
from .engine import UNDEF, LInt, Unsupported, MASK, PathAbort, trunc1, ext1
from .models import cbytes, sget, sset, ios_init, rdtext, zdecide, slen, demangle
from . import models as M
from . import cond as K
from . import slib as S
from .slib import pattern, model, isq, iosof, seq_eq, I64

BAD, EOF, FAIL = 1, 2, 4
STATE = 32
OFB, OIOS, IFB, IIOS = 8, 248, 16, 256


class Data:
    """the elements of a matrix of arbitrary size"""
    def __init__(self, token, first, size):
        self.token, self.first, self.size = token, first, size


class Part:
    """less than a piece"""


def files(p):
    return p.ghost.setdefault('files', [])


def find_file(p, name):
    for f in files(p):
        if len(f['name']) == len(name) and all(S.same(x, y) for x, y in zip(f['name'], name)):
            return f
    for f in files(p):
        if zdecide(p, seq_eq(p, f['name'], name)):
            return f
    f = dict(name=list(name), data=None)
    files(p).append(f)
    return f


def setstate(p, ios, s):
    p.put(ios + STATE, p.get(ios + STATE, 4) | s, 4)


def fails(p, what):
    f = p.ghost.get('failing')
    if f is None:
        return False
    k = p.ghost['failures'] = p.ghost.get('failures', 0) + 1
    return p.branch2('%s %d: %s' % (f, k, what))


@model('vf_failing_files')
def _failing(p, a, ins, t, n):
    p.ghost['failing'] = M.iname(p, a[0])


@pattern(r'std::basic_(o|i)fstream<char, std::char_traits<char> >::basic_(o|i)fstream\(')
def _fctor(p, a, ins, t, n):
    d = demangle(n)
    out = '::basic_ofstream(' in d
    o = a[0]
    ios = o + (OIOS if out else IIOS)
    sb = o + (OFB if out else IFB)
    ios_init(p, ios, {o}, sb)
    p.oss[o] = sb
    p.streams[sb] = []
    g = p.ghost.setdefault('fstream', {})
    g[o] = None
    p.ghost.setdefault('rpos', {})[o] = 0
    if '(char const*' in d or '(std::__cxx11::basic_string' in d:
        name = cbytes(p, a[1]) if 'char const*' in d else sget(p, a[1])
        fopen(p, o, ios, out, name, a[2])
    p.run.assume_note('files: what is written is what is read afterwards, as long as no operation reports a failure (assumed contract of std::fstream)')


def fopen(p, o, ios, out, name, mode):
    f = find_file(p, name)
    if fails(p, 'open') or (not out and f['data'] is None):
        setstate(p, ios, FAIL)
        return
    sb = p.oss[o]
    p.ghost['fstream'][o] = f
    if out:
        if not mode & 1 or f['data'] is None:      # not appending
            f['data'] = []
    else:
        p.streams[sb] = list(f['data'])


@pattern(r'std::basic_(o|i)fstream<char, std::char_traits<char> >::close\(\)')
def _fclose(p, a, ins, t, n):
    o = a[0]
    out = 'basic_ofstream' in demangle(n)
    ios = o + (OIOS if out else IIOS)
    f = p.ghost['fstream'].get(o)
    if f is None or (out and fails(p, 'close')):
        if f is not None:
            f['data'] = [Part()]
        setstate(p, ios, FAIL)
    p.ghost['fstream'][o] = None


@pattern(r'std::basic_(o|i)fstream<char, std::char_traits<char> >::is_open\(\)')
def _fisopen(p, a, ins, t, n):
    return int(p.ghost['fstream'].get(a[0]) is not None)


@pattern(r'std::basic_(o|i)fstream<char, std::char_traits<char> >::~basic_')
def _fdtor(p, a, ins, t, n):
    o = a[0]
    f = p.ghost['fstream'].pop(o, None)
    if f is not None and 'basic_ofstream' in demangle(n) and fails(p, 'close'):
        f['data'] = [Part()]
    sb = p.oss.pop(o, None)
    p.streams.pop(sb, None)


@pattern(r'^(bool )?std::basic_ios<char, std::char_traits<char> >::(good|eof|fail|bad|rdstate|operator bool|operator!|clear|setstate)\(')
def _state(p, a, ins, t, n):
    f = re.search(r'>::(good|eof|fail|bad|rdstate|operator bool|operator!|clear|setstate)\(', demangle(n)).group(1)
    s = p.get(a[0] + STATE, 4)
    if f == 'setstate':
        return setstate(p, a[0], a[1])
    if f == 'clear':
        return p.put(a[0] + STATE, a[1], 4)
    if f == 'rdstate':
        return s
    return int({'good': s == 0, 'eof': s & EOF != 0, 'fail': s & (BAD | FAIL) != 0, 'bad': s & BAD != 0, 'operator bool': s & (BAD | FAIL) == 0, 'operator!': s & (BAD | FAIL) != 0}[f])


def emit(p, o, x):
    """x appended to the output; True when nothing failed"""
    ios = iosof(p, o)
    if p.get(ios + STATE, 4) != 0:
        return False
    sb = p.oss.get(o)
    f = p.ghost.get('fstream', {}).get(o)
    if o in p.ghost.get('fstream', {}):
        if f is None or fails(p, 'write'):
            if f is not None:
                f['data'] = f['data'] + [Part()]
            setstate(p, ios, BAD)
            return False
        f['data'] = f['data'] + list(x)
    elif sb is not None:
        M.ssync(p, sb, p.streams[sb] + list(x))
    return True


@pattern(r'std::(basic_ostream<char, std::char_traits<char> >|ostream)::(put|write)\(')
def _write(p, a, ins, t, n):
    if '::put(' in demangle(n):
        emit(p, a[0], [a[1]])
        return a[0]
    x = None
    if a[1] in p.ghost.get('opaque', {}):
        x = [Data(p.ghost['opaque'][a[1]], p.get(a[1], 8), opsize(p, a[1]))]
        p.check_goal(S._goal(p.icmp('eq', a[2], x[0].size, I64)), 'all elements of the matrix are written')
    elif a[1] in p.ghost.get('first', {}):
        s = sget(p, p.ghost['first'][a[1]])
        p.check_goal(S._goal(p.icmp('ule', a[2], slen(p, s), I64)), 'the bytes written are those of the text')
        x = S.sub(p, s, 0, a[2])
    elif a[1] in p.cstr:
        x = S.sub(p, list(p.cstr[a[1]]), 0, a[2])
    elif isinstance(a[2], int):
        x = rdtext(p, a[1], a[2])
    if x is None:
        raise Unsupported('write')
    emit(p, a[0], x)
    return a[0]


def opsize(p, d):
    tok = p.ghost['opaque'][d]
    if tok not in p.ghost.get('opsize', {}):
        raise Unsupported('size of an arbitrary matrix')
    return p.ghost['opsize'][tok]


@pattern(r'std::(basic_istream<char, std::char_traits<char> >|istream)::(peek|get|gcount)\(\)')
def _peek(p, a, ins, t, n):
    o = a[0]
    ios = iosof(p, o)
    d = demangle(n)
    if 'gcount' in d:
        return p.get(o + 8, 8)
    p.put(o + 8, 0, 8)
    tx, k = p.streams[p.oss[o]], p.ghost['rpos'].get(o, 0)
    if p.get(ios + STATE, 4):
        setstate(p, ios, FAIL)
        return MASK[32]
    if k >= len(tx) or isinstance(tx[k], Part):
        if k < len(tx):
            raise Unsupported('peek within a piece')
        setstate(p, ios, EOF if 'peek' in d else EOF | FAIL)
        return MASK[32]
    if isq(tx[k]) or isinstance(tx[k], Data):
        raise Unsupported('peek at a piece')
    if '::get(' in d:
        p.ghost['rpos'][o] = k + 1
        p.put(o + 8, 1, 8)
    return ext1(p, tx[k], 8, 32, 'zext')


@pattern(r'std::(basic_istream<char, std::char_traits<char> >|istream)::read\(')
def _read(p, a, ins, t, n):
    o, dst, cnt = a[0], a[1], a[2]
    ios = iosof(p, o)
    if p.get(ios + STATE, 4):
        p.put(o + 8, 0, 8)
        setstate(p, ios, FAIL)
        return o
    tx, k = p.streams[p.oss[o]], p.ghost['rpos'].get(o, 0)
    op, fst = p.ghost.get('opaque', {}), p.ghost.get('first', {})
    pos = p.ghost['rpos']

    def short():
        p.put(o + 8, UNDEF, 8)
        pos[o] = len(tx)
        setstate(p, ios, EOF | FAIL)
        return o
    if dst in op or dst in fst:
        if dst in op:
            p.check_goal(S._goal(p.icmp('ule', cnt, opsize(p, dst), I64)), 'the matrix has room for the elements read')
        else:
            p.check_goal(S._goal(p.icmp('ule', cnt, slen(p, sget(p, fst[dst])), I64)), 'the text has room for the bytes read')
        if p.truth(p.icmp('eq', cnt, 0, I64)):
            if k < len(tx) and isinstance(tx[k], Data) and p.truth(p.icmp('eq', tx[k].size, 0, I64)):
                if dst in op:
                    op[dst] = tx[k].token       # no elements: equal
                    p.put(dst, tx[k].first, 8)
                pos[o] = k + 1
            elif k < len(tx) and isq(tx[k]) and zdecide(p, z3.Length(tx[k]) == 0):
                pos[o] = k + 1
            return o
        if k >= len(tx) or isinstance(tx[k], Part):
            return short()
        it = tx[k]
        if dst in op and isinstance(it, Data):
            if not p.truth(p.icmp('eq', cnt, it.size, I64)) or not p.truth(p.icmp('eq', cnt, opsize(p, dst), I64)):
                raise Unsupported('part of the elements')
            op[dst] = it.token
            p.put(dst, it.first, 8)
            p.put(o + 8, cnt, 8)
            pos[o] = k + 1
            return o
        if dst in fst and isq(it):
            if not p.truth(p.icmp('eq', cnt, LInt(z3.Length(it)), I64)) or not p.truth(p.icmp('eq', cnt, slen(p, sget(p, fst[dst])), I64)):
                raise Unsupported('part of a text')
            sset(p, fst[dst], [it])
            p.put(o + 8, cnt, 8)
            pos[o] = k + 1
            return o
        raise Unsupported('pieces of another kind')
    if not isinstance(cnt, int):
        cnt = p.concretize(cnt, 64)
    for i in range(cnt):
        while k < len(tx) and (isinstance(tx[k], Data) and p.truth(p.icmp('eq', tx[k].size, 0, I64)) or isq(tx[k]) and zdecide(p, z3.Length(tx[k]) == 0)):
            k += 1
        if k >= len(tx) or isinstance(tx[k], Part):
            return short()
        if isq(tx[k]) or isinstance(tx[k], Data):
            raise Unsupported('bytes of a piece')
        p.put(dst + i, tx[k], 1)
        k += 1
    pos[o] = k
    p.put(o + 8, cnt, 8)
    return o


@model('vf_truncate_file')
def _truncate(p, a, ins, t, n):
    f = find_file(p, cbytes(p, a[0]))
    nm = M.iname(p, a[1])
    x = f['data']
    # the places to cut: before every item and within every piece
    places = []
    for i, it in enumerate(x):
        places.append((i, False))
        if isq(it) or isinstance(it, Data):
            places.append((i, True))
    k = p.choice(nm, len(places))
    i, inside = places[k]
    if inside:
        it = x[i]
        if isq(it):
            p.assume(K.zc(z3.Length(it) > 1))
        elif not p.truth(p.icmp('ugt', it.size, 0, I64)):
            raise PathAbort()
        f['data'] = x[:i] + [Part()]
    else:
        if isq(x[i]) or isinstance(x[i], Data):
            if p.truth(p.icmp('eq', LInt(z3.Length(x[i])) if isq(x[i]) else x[i].size, 0, I64)):
                raise PathAbort()      # nothing is cut off by cutting here but what the next place cuts off
        f['data'] = x[:i]


@model('vf_set_file_byte')
def _setbyte(p, a, ins, t, n):
    f = find_file(p, cbytes(p, a[0]))
    x = list(f['data'])
    x[-1 if a[1] else 0] = trunc1(p, a[2], 8)
    f['data'] = x


@pattern(r'(void )?boost::(algorithm::)?trim(_copy|_left|_right)?<std::__cxx11::basic_string')
def _trim(p, a, ins, t, n):
    """assumed contract: white space at both ends is taken off"""
    d = demangle(n)
    if 'trim<' not in d:
        raise Unsupported(d)
    s = sget(p, a[0])
    if S.rope(s):
        raise Unsupported('trim of a text of arbitrary length')

    def white(b):
        if isinstance(b, int):
            return b in (32, 9, 10, 11, 12, 13)
        v = p.bv(b, 8)
        return zdecide(p, z3.Or(v == 32, z3.And(z3.UGE(v, 9), z3.ULE(v, 13))))
    while s and white(s[-1]):
        s = s[:-1]
    while s and white(s[0]):
        s = s[1:]
    sset(p, a[0], s)
    p.run.assume_note('boost::trim takes white space off both ends (assumed contract)')
