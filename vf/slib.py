"""Abstract contracts of std::string (and of the associative containers) for sources compiled without inlining: a text is a
sequence of bytes and of texts of arbitrary length (z3 sequences), so that the proofs hold for texts of every length."""
import re
import z3
from . import cond as K
from . import models as M
from .models import sget, sset, sinit, beq, zor, zand, zdecide, cbytes, slen, NPOS, demangle, rdtext, _BS
from .engine import UNDEF, LInt, Unsupported, MASK, lexp, ContractFail

B8 = z3.BitVecSort(8)
SEQ = z3.SeqSort(B8)
EXACT, PATTERNS = {}, []


def model(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def pattern(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


class SModels(M.Models):
    def __init__(self, extra=None):
        M.Models.__init__(self, extra)
        self.exact.update(EXACT)
        self.patterns = list(PATTERNS) + self.patterns


def isq(b):
    return isinstance(b, z3.SeqRef)


def rope(bs):
    return any(isq(b) for b in bs)


def zseq(p, bs):
    """the text as one z3 sequence"""
    parts = [b if isq(b) else z3.Unit(z3.BitVecVal(b, 8) if isinstance(b, int) else p.bv(b, 8)) for b in bs]
    if not parts:
        return z3.Empty(SEQ)
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def model_text(m, n):
    v = m.eval(z3.Const(n, SEQ), model_completion=True)
    k = m.eval(z3.Length(v), model_completion=True).as_long()
    return ''.join('%02x' % m.eval(z3.simplify(v[i]), model_completion=True).as_long() for i in range(min(k, 4000)))


def same(x, y):
    if isinstance(x, int) or isinstance(y, int):
        return isinstance(x, int) and isinstance(y, int) and x == y
    return x.eq(y) if type(x) is type(y) else False


def seq_eq(p, x, y):
    """bool or z3 condition: equal texts"""
    x, y = list(x), list(y)
    cs = []
    for side in (0, -1):
        while x and y:
            a, b = x[side], y[side]
            if same(a, b):
                pass
            elif not isq(a) and not isq(b):
                cs.append(beq(p, a, b))
                if cs[-1] is False:
                    return False
            else:
                break
            x.pop(side)
            y.pop(side)
    if not rope(x) and not rope(y):
        if len(x) != len(y):
            return False
        return zand(cs + [beq(p, a, b) for a, b in zip(x, y)])
    if not x or not y:
        r = x or y
        if any(not isq(b) for b in r):
            return False
        return zand(cs + [z3.Length(b) == 0 for b in r])
    return zand(cs + [zseq(p, x) == zseq(p, y)])


def c1(p, c):
    """i1 value of a bool / z3 condition"""
    if isinstance(c, bool):
        return int(c)
    c = z3.simplify(c)
    if z3.is_true(c):
        return 1
    if z3.is_false(c):
        return 0
    return p.b1(K.zc(c))


def zi(p, v):
    """unsigned 64-bit value as int or z3 Int"""
    return p.lwide(v)


def zn(p, v):
    """a position or length as int or z3 Int; one of few values is decided"""
    if isinstance(v, (int, LInt)):
        return lexp(v)
    if isinstance(v, z3.BitVecRef):
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        k = v.decl().kind()
        if not (k == z3.Z3_OP_ITE and all(z3.is_bv_value(x) for x in v.children()[1:])
                or k == z3.Z3_OP_CONCAT and z3.is_bv_value(v.arg(0)) and sum(x.size() for x in v.children()[1:]) <= 3):
            return p.lwide(v)
    return p.concretize(v, 64)


def cut(p, bs, e):
    """position e (known to be within the text) as a split of the sequence: (left, right)"""
    if isinstance(e, int):
        pre = 0
        for i, b in enumerate(bs):
            if pre == e:
                return bs[:i], bs[i:]
            if isq(b):
                if p.truth(c1(p, z3.Length(b) >= e - pre)):
                    k = e - pre
                    return bs[:i] + [z3.simplify(z3.Extract(b, 0, k))], [z3.simplify(z3.Extract(b, k, z3.Length(b) - k))] + bs[i + 1:]
                w = zseq(p, bs[i:])
                k = e - pre
                return bs[:i] + [z3.Extract(w, 0, k)], [z3.Extract(w, k, z3.Length(w) - k)]
            pre += 1
        return bs, []
    acc = z3.IntVal(0)
    for i in range(len(bs) + 1):
        d = z3.simplify(acc - e)
        if z3.is_int_value(d) and d.as_long() == 0:
            return bs[:i], bs[i:]
        if z3.is_int_value(d) and d.as_long() > 0 and i and isq(bs[i - 1]):
            b, k = bs[i - 1], d.as_long()       # inside the text before
            if p.truth(c1(p, z3.Length(b) >= k)):
                m = z3.Length(b) - k
                return bs[:i - 1] + [z3.Extract(b, 0, m)], [z3.Extract(b, m, k)] + bs[i:]
        if i < len(bs):
            acc = z3.simplify(acc + (z3.Length(bs[i]) if isq(bs[i]) else 1))
    w = zseq(p, bs)
    return [z3.Extract(w, 0, e)], [z3.Extract(w, e, z3.Length(w) - e)]


def sub(p, bs, pos, n):
    """bs[pos, pos+n), pos within the text (decided by the caller)"""
    if not isinstance(pos, int):
        pos = zn(p, pos)
    r = cut(p, bs, pos)[1] if not (isinstance(pos, int) and pos == 0) else bs
    if isinstance(n, int) and n >= 1 << 63:
        return r
    ln = slen(p, r)
    if p.truth(p.icmp('ule', ln, n, I64)):
        return r
    return cut(p, r, zn(p, n))[0]


class _T:
    kind = 'int'
    width = 64


I64 = _T()


def args_of(d):
    """parameter text of a demangled member: between the last balanced pair of parentheses"""
    d = re.sub(r' const$', '', d)
    k, e = 0, len(d) - 1
    for i in range(e, -1, -1):
        k += (d[i] == ')') - (d[i] == '(')
        if k == 0:
            return d[i + 1:e]
    return ''


STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'


def fresh_cell(p, v):
    c = p.alloc(1, 'char')
    p.put(c, v, 1)
    return c


def cstring(p, bs):
    """address of a zero terminated copy"""
    if rope(bs):
        k = p.alloc(1 << 16, 'rope')
        p.cstr[k] = list(bs)
        return k
    k = p.alloc(len(bs) + 1, 'cstr')
    p.wrstr(k, list(bs) + [0])
    return k


def upto_zero(p, bs):
    """the text up to its first zero byte"""
    out = []
    known = p.ghost.setdefault('nozero', set())
    for b in bs:
        if isq(b):
            key = b.sexpr()
            if key not in known:
                if p.truth(c1(p, z3.Contains(b, z3.Unit(z3.BitVecVal(0, 8))))):
                    k = z3.IndexOf(b, z3.Unit(z3.BitVecVal(0, 8)), z3.IntVal(0))
                    r = z3.Extract(b, z3.IntVal(0), k)
                    known.update((r.sexpr(), z3.simplify(r).sexpr()))
                    return out + [r]
                known.add(key)
        elif zdecide(p, beq(p, b, 0)):
            return out
        out.append(b)
    return out


def at(p, bs, i, name):
    """byte at position i (== size gives the terminating zero)"""
    if isinstance(i, int):
        lead = next((k for k, b in enumerate(bs) if isq(b)), len(bs))
        if i < lead:
            return bs[i]
    n = slen(p, bs)
    p.check_goal(_goal(p.icmp('ule', i, n, I64)), name)
    if not isinstance(i, int):
        acc = z3.IntVal(0)
        for b in bs:
            d = z3.simplify(acc - zn(p, i))
            if z3.is_int_value(d) and d.as_long() == 0 and not isq(b):
                return b
            acc = acc + (z3.Length(b) if isq(b) else 1)
    if not rope(bs):
        if isinstance(i, int):
            return bs[i] if i < len(bs) else 0
    w, e = zseq(p, bs), zn(p, i)
    if isinstance(i, int):
        w, e = zseq(p, bs[lead:]), i - lead
    # the byte is a fresh variable: the formulas stay small
    v = z3.simplify(z3.If(z3.IntVal(e) < z3.Length(w) if isinstance(e, int) else e < z3.Length(w), w[e], z3.BitVecVal(0, 8)))
    return v


def _goal(c):
    return bool(c) if isinstance(c, int) else c


# ------------------------------------------------------------------ members
@pattern(_BS + r'basic_string(<.*>)?\(')
def _ctor(p, a, ins, t, n):
    ar = args_of(demangle(n))
    if ar in ('', 'std::allocator<char> const&'):
        sinit(p, a[0], [])
    elif ar.startswith('char const*, unsigned long'):
        sinit(p, a[0], sub(p, list(p.cstr[a[1]]), 0, a[2]) if a[1] in p.cstr else cbytes(p, a[1], p.concretize(a[2], 64)))
    elif ar.startswith('char const*, char const*'):
        sinit(p, a[0], cbytes(p, a[1], a[2] - a[1]))
    elif ar.startswith('char const*') or ar.startswith('char*, std::alloc'):
        sinit(p, a[0], cbytes(p, a[1]))
    elif ar.startswith('unsigned long, char'):
        sinit(p, a[0], rep(p, a[1], a[2]))
    elif ar.startswith(STR):
        s = sget(p, a[1])
        if ', unsigned long' in ar:
            substr(p, a[0], s, a[2], a[3] if ar.count('unsigned long') > 1 else NPOS)
        else:
            sinit(p, a[0], s)
            if '&&' in ar:
                sset(p, a[1], [])
    elif ar.startswith('__gnu_cxx::__normal_iterator'):
        sinit(p, a[0], cbytes(p, a[1], a[2] - a[1]))
    else:
        raise Unsupported('string constructor %s' % demangle(n))


def rep(p, k, c):
    """the byte c k times"""
    if not isinstance(k, int):
        if p.truth(p.icmp('eq', k, 0, I64)):
            return []
        e = zn(p, k)
        v = z3.Function('repeated', z3.IntSort(), B8, SEQ)(e, z3.BitVecVal(c & 255, 8) if isinstance(c, int) else p.bv(c, 8))
        p.assume(K.zc(z3.Length(v) == e))
        return [v]
    if k >= 1 << 62:
        p.throw_std('_ZTISt12length_error')
    if k > 1 << 16:
        raise Unsupported('text of %d bytes' % k)
    return [c] * k


def substr(p, dst, s, pos, k):
    if not p.truth(p.icmp('ule', pos, slen(p, s), I64)):
        p.throw_std('_ZTISt12out_of_range')
    sinit(p, dst, sub(p, s, pos, k))


@pattern(_BS + r'~basic_string\(')
def _dtor(p, a, ins, t, n):
    M._mdispose(p, a, ins, t, n)


@pattern(_BS + r'(size|length)\(\) const')
def _size(p, a, ins, t, n):
    return slen(p, sget(p, a[0]))


@pattern(_BS + r'empty\(\) const')
def _empty(p, a, ins, t, n):
    return c1(p, seq_eq(p, sget(p, a[0]), []))


@pattern(_BS + r'(operator\[\]|at)\(unsigned long\)')
def _index(p, a, ins, t, n):
    s = sget(p, a[0])
    if '::at(' in demangle(n) and not p.truth(p.icmp('ult', a[1], slen(p, s), I64)):
        p.throw_std('_ZTISt12out_of_range')
    if not rope(s):
        i = p.concretize(a[1], 64)
        if i > len(s):
            p.fail('the index is within the text', 'index %d of a text of %d bytes in %s' % (i, len(s), p.where()))
        return p.get(a[0], 8) + i
    c = fresh_cell(p, at(p, s, a[1], 'the index is within the text'))
    if isinstance(a[1], int) and a[1] == 0:
        p.ghost.setdefault('first', {})[c] = a[0]
    return c


@pattern(_BS + r'(front|back)\(\)')
def _ends(p, a, ins, t, n):
    s = sget(p, a[0])
    back = '::back(' in demangle(n)
    p.check_goal(_goal(p.icmp('ne', slen(p, s), 0, I64)), 'front and back of a text that is not empty')
    if not rope(s):
        if not s:
            raise ContractFail()
        return p.get(a[0], 8) + (len(s) - 1 if back else 0)
    b = s[-1 if back else 0]
    if isq(b):
        w = zseq(p, s)
        b = w[z3.Length(w) - 1] if back else w[0]
    return fresh_cell(p, b)


@pattern(_BS + r'(c_str|data)\(\)')
def _cstr(p, a, ins, t, n):
    s = sget(p, a[0])
    return cstring(p, s) if rope(s) else p.get(a[0], 8)


@pattern(_BS + r'c?(begin|end)\(\)')
def _begin(p, a, ins, t, n):
    s = sget(p, a[0])
    if rope(s):
        # usable for whole-text algorithms only
        k = p.alloc(1 << 16, 'rope')
        p.ghost.setdefault('send' if 'end()' in demangle(n) else 'sbegin', {})[k] = a[0]
        return k
    return p.get(a[0], 8) + (len(s) if 'end()' in demangle(n) else 0)


@pattern(_BS + r'(get_allocator|capacity|max_size)\(\)')
def _misc(p, a, ins, t, n):
    if 'get_allocator' in demangle(n):
        return None
    return NPOS >> 2


@pattern(_BS + r'(reserve|shrink_to_fit)\(')
def _reserve(p, a, ins, t, n):
    return None


@pattern(_BS + r'(operator=|assign|operator\+=|append|push_back)\(')
def _assign(p, a, ins, t, n):
    d = demangle(n)
    ar = args_of(d)
    old = sget(p, a[0]) if re.search(r'::(operator\+=|append|push_back)\(', d) else []
    if ar == 'char' or ar.startswith('char)'):
        x = [a[1]]
    elif ar.startswith('char const*, unsigned long'):
        x = sub(p, list(p.cstr[a[1]]), 0, a[2]) if a[1] in p.cstr else cbytes(p, a[1], p.concretize(a[2], 64))
    elif ar.startswith('char const*, char const*'):
        x = cbytes(p, a[1], a[2] - a[1])
    elif ar.startswith('char const*'):
        x = cbytes(p, a[1])
    elif ar.startswith('unsigned long, char'):
        x = rep(p, a[1], a[2])
    elif ar.startswith(STR):
        x = sget(p, a[1])
        if ', unsigned long' in ar:
            if not p.truth(p.icmp('ule', a[2], slen(p, x), I64)):
                p.throw_std('_ZTISt12out_of_range')
            x = sub(p, x, a[2], a[3])
    else:
        raise Unsupported('string assignment %s' % d)
    sset(p, a[0], old + x)
    if ar.startswith(STR) and '&&' in ar and a[0] != a[1]:
        sset(p, a[1], [])
    return a[0]


@pattern(_BS + r'(clear|pop_back)\(\)')
def _clear(p, a, ins, t, n):
    s = sget(p, a[0])
    if 'pop_back' in demangle(n):
        p.check_goal(_goal(p.icmp('ne', slen(p, s), 0, I64)), 'pop_back of a text that is not empty')
        s = cut(p, s, zn(p, p.binop('sub', slen(p, s), 1, 64)))[0]
    else:
        s = []
    sset(p, a[0], s)


@pattern(_BS + r'resize\(unsigned long(, char)?\)')
def _resize(p, a, ins, t, n):
    s = sget(p, a[0])
    c = a[2] if len(a) > 2 else 0
    if p.truth(p.icmp('ule', a[1], slen(p, s), I64)):
        return sset(p, a[0], cut(p, s, zn(p, a[1]))[0])
    k = p.binop('sub', a[1], slen(p, s), 64)
    sset(p, a[0], s + rep(p, k, c))


@pattern(_BS + r'substr\(unsigned long, unsigned long\) const')
def _substr(p, a, ins, t, n):
    substr(p, a[0], sget(p, a[1]), a[2], a[3])


@pattern(_BS + r'erase\(unsigned long, unsigned long\)')
def _erase(p, a, ins, t, n):
    s = sget(p, a[0])
    if not p.truth(p.icmp('ule', a[1], slen(p, s), I64)):
        p.throw_std('_ZTISt12out_of_range')
    l, r = cut(p, s, zn(p, a[1]))
    if isinstance(a[2], int) and a[2] >> 63 or p.truth(p.icmp('ule', slen(p, r), a[2], I64)):
        r = []
    else:
        r = cut(p, r, zn(p, a[2]))[1]
    sset(p, a[0], l + r)
    return a[0]


@pattern(_BS + r'(insert|replace)\(unsigned long, ')
def _insert(p, a, ins, t, n):
    d = demangle(n)
    ar = args_of(d)
    s = sget(p, a[0])
    if not p.truth(p.icmp('ule', a[1], slen(p, s), I64)):
        p.throw_std('_ZTISt12out_of_range')
    l, r = cut(p, s, zn(p, a[1]))
    k = 2
    ar = ar.split(', ', 1)[1]
    if '::replace(' in d:
        r = [] if p.truth(p.icmp('ule', slen(p, r), a[2], I64)) else cut(p, r, zn(p, a[2]))[1]
        ar = ar.split(', ', 1)[1]
        k = 3
    if ar.startswith('char const*, unsigned long'):
        x = cbytes(p, a[k], p.concretize(a[k + 1], 64))
    elif ar.startswith('char const*'):
        x = cbytes(p, a[k])
    elif ar.startswith('unsigned long, char'):
        x = rep(p, a[k], a[k + 1])
    elif ar == STR + ' const&':
        x = sget(p, a[k])
    else:
        raise Unsupported(d)
    sset(p, a[0], l + x + r)
    return a[0]


@pattern(_BS + r'(find_first_not_of|find_first_of|find_last_not_of|find_last_of|find|rfind)\(')
def _find(p, a, ins, t, n):
    d = re.sub(r' const$', '', demangle(n))
    ar = args_of(d)
    s = sget(p, a[0])
    w = sget(p, a[1]) if ar.startswith(STR) else None
    if w is None and ar.startswith('char const*'):
        w = cbytes(p, a[1]) if ar.count('unsigned long') < 2 else None
    if not rope(s) and not (w and rope(w)):
        return M._sfind(p, a, ins, t, n)
    m = re.search(r'::(find_first_not_of|find_first_of|find_last_not_of|find_last_of|find|rfind)\(', d).group(1)
    if ar.startswith('char,'):
        w = [a[1]]
    if w is None:
        raise Unsupported(d)
    pos = a[2]
    if m in ('find', 'find_first_of') and (m == 'find' or len(w) == 1):
        if not p.truth(p.icmp('ule', pos, slen(p, s), I64)):
            return NPOS
        r = scan(p, s, w, pos)
        if r is not None:
            return r
        z = zseq(p, s)
        r = z3.IndexOf(z, zseq(p, w), zi(p, pos))
    elif m in ('rfind', 'find_last_of') and (m == 'rfind' or len(w) == 1) and pos == NPOS:
        z = zseq(p, s)
        r = z3.LastIndexOf(z, zseq(p, w))
    elif m in ('find_first_not_of', 'find_first_of') and isinstance(pos, int) and pos == 0 and w and all(isinstance(b, int) for b in w):
        return first_class(p, s, w, m == 'find_first_of')
    else:
        raise Unsupported('%s in a text of arbitrary length' % m)
    if p.truth(c1(p, r < 0)):
        if m == 'find' and len(s) == 1 and isinstance(pos, int) and pos == 0 and len(w) == 1 and isinstance(w[0], int):
            p.ghost.setdefault('lacks', set()).add((s[0].get_id(), w[0]))
            p.ghost.setdefault('keep', []).append(s[0])
        return NPOS
    return p.lint(r)


def first_class(p, s, w, inside):
    """position of the first byte inside (outside) the set w"""
    k = 0
    while k < len(s) and not isq(s[k]):
        c = zor([beq(p, s[k], b) for b in w])
        if zdecide(p, c) == inside:
            return k
        k += 1
    rest = s[k:]
    if not rest:
        return NPOS
    rs = [z3.Re(z3.Unit(z3.BitVecVal(b, 8))) for b in sorted(set(w))]
    one = z3.Union(*rs) if len(rs) > 1 else rs[0]
    any1 = z3.Range(z3.Unit(z3.BitVecVal(0, 8)), z3.Unit(z3.BitVecVal(255, 8)))
    skip = z3.Intersect(any1, z3.Complement(one)) if inside else one
    z = zseq(p, rest)
    if p.truth(c1(p, z3.InRe(z, z3.Star(skip)))):
        return NPOS
    n = p.ghost['classes'] = p.ghost.get('classes', 0) + 1
    v = z3.Int('first position of a class %d' % n)
    p.assume(K.zc(z3.And(v >= 0, v < z3.Length(z), z3.InRe(z3.Extract(z, z3.IntVal(0), v), z3.Star(skip)),
                         z3.Not(z3.InRe(z3.Extract(z, v, z3.IntVal(1)), skip)))))
    return p.lint(z3.simplify(v + k))


def scan(p, s, w, pos):
    """find in a text whose pieces of arbitrary length are known to lack the bytes looked for; None when that is not known"""
    lacks = p.ghost.get('lacks', ())
    if not w or not all(isinstance(b, int) for b in w):
        return None
    l, r = cut(p, s, pos if isinstance(pos, int) else zn(p, pos))
    if any(isq(b) and b.decl().kind() != z3.Z3_OP_UNINTERPRETED for b in r):
        return None

    def match(i, k):
        while k < len(w):
            if i >= len(r):
                return False
            if isq(r[i]):
                if (r[i].get_id(), w[k]) not in lacks:
                    return None
                if not p.truth(c1(p, z3.Length(r[i]) == 0)):
                    return False
            elif isinstance(r[i], int):
                if r[i] != w[k]:
                    return False
                k += 1
            else:
                return None
            i += 1
        return True
    for i, b in enumerate(r):
        if isq(b):
            if (b.get_id(), w[0]) not in lacks:
                return None
            continue
        m = match(i, 0)
        if m is None:
            return None
        if m:
            return slen(p, l + r[:i])
    return NPOS


@pattern(_BS + r'compare\(')
def _compare(p, a, ins, t, n):
    d = re.sub(r' const$', '', demangle(n))
    ar = args_of(d)
    s = sget(p, a[0])
    k = 1
    if ar.startswith('unsigned long'):
        if not p.truth(p.icmp('ule', a[1], slen(p, s), I64)):
            p.throw_std('_ZTISt12out_of_range')
        s = sub(p, s, a[1], a[2])
        ar = ar.split(', ', 2)[2]
        k = 3
    if ar.startswith('char const*'):
        w = cbytes(p, a[k]) if ar == 'char const*' else cbytes(p, a[k], p.concretize(a[k + 1], 64))
    elif ar == STR + ' const&':
        w = sget(p, a[k])
    else:
        w = sget(p, a[k])
        if not p.truth(p.icmp('ule', a[k + 1], slen(p, w), I64)):
            p.throw_std('_ZTISt12out_of_range')
        w = sub(p, w, a[k + 1], a[k + 2])
    return three_way(p, s, w)


def three_way(p, s, w):
    if not rope(s) and not rope(w):
        for x, y in zip(s, w):
            if zdecide(p, beq(p, x, y)):
                continue
            return 1 if (x > y if isinstance(x, int) and isinstance(y, int) else zdecide(p, z3.UGT(p.bv(x, 8), p.bv(y, 8)))) else 0xffffffff
        return (len(s) - len(w)) & 0xffffffff
    c = seq_eq(p, s, w)
    if c is True:
        return 0
    p.ghost['cmp'] = p.ghost.get('cmp', 0) + 1
    v = z3.BitVec('cmp!%d' % p.ghost['cmp'], 32)
    if c is False:
        p.assume(K.zc(v != 0))
    else:
        p.assume(K.zc((v == 0) == c))
    return v


@pattern(_BS + r'swap\(')
def _swap(p, a, ins, t, n):
    x, y = sget(p, a[0]), sget(p, a[1])
    sset(p, a[0], y)
    sset(p, a[1], x)


# ------------------------------------------------------------------ free functions
@pattern(STR.replace('(', r'\(') + r' std::(operator\+|__str_concat)<char')
def _plus(p, a, ins, t, n):
    d = demangle(n)
    if '__str_concat' in d:
        # char const*, size, char const*, size, allocator
        raise Unsupported(d)
    ar = args_of(d)
    parts, k, cur = [], 0, ''
    for c in ar:
        k += (c in '<(') - (c in '>)')
        if c == ',' and k == 0:
            parts.append(cur.strip())
            cur = ''
        else:
            cur += c
    parts.append(cur.strip())
    out = []
    for v, ty in zip(a[1:], parts):
        out += [v] if ty == 'char' else (cbytes(p, v) if ty == 'char const*' else sget(p, v))
    sinit(p, a[0], out)
    for v, ty in zip(a[1:], parts):
        if ty.endswith('&&'):
            sset(p, v, [])


@pattern(r'bool std::operator(==|!=)<char, std::char_traits<char>, std::allocator<char> ?>\(')
def _eq(p, a, ins, t, n):
    d = demangle(n)
    ar = args_of(d)
    x = cbytes(p, a[0]) if ar.startswith('char const*') else sget(p, a[0])
    y = cbytes(p, a[1]) if ar.endswith(', char const*') else sget(p, a[1])
    r = c1(p, seq_eq(p, x, y))
    if 'operator!=' in d:
        return 1 - r if isinstance(r, int) else p.b1(K.cnot(r))
    return r


@pattern(r'bool std::operator(<|>|<=|>=)<char, std::char_traits<char>, std::allocator<char> ?>\(')
def _less(p, a, ins, t, n):
    d = demangle(n)
    ar = args_of(d)
    op = re.match(r'bool std::operator(<=|>=|<|>)<char', d).group(1)
    x = cbytes(p, a[0]) if ar.startswith('char const*') else sget(p, a[0])
    y = cbytes(p, a[1]) if ar.endswith(', char const*') else sget(p, a[1])
    r = three_way(p, x, y)
    if not isinstance(r, int):
        raise Unsupported('order of texts of arbitrary length')
    s = r - (1 << 32) if r >> 31 else r
    return int({'<': s < 0, '>': s > 0, '<=': s <= 0, '>=': s >= 0}[op])


@model('strcmp', 'strncmp')
def _strcmp(p, a, ins, t, n):
    if a[0] in p.cstr or a[1] in p.cstr:
        if n == 'strncmp':
            raise Unsupported('strncmp')
        return three_way(p, cbytes(p, a[0]), cbytes(p, a[1]))
    return M._memcmp(p, a, ins, t, n)


# ------------------------------------------------------------------ contract inputs
def text_input(p, nm):
    p.run.inputs[nm] = 'text'
    v = z3.Const(nm, SEQ)
    p.assume(K.zc(z3.Length(v) < 2 ** 62))
    p.run.assume_note('all texts together are shorter than 2^62 bytes')
    return v


@model('vf_text')
def _vtext(p, a, ins, t, n):
    """an arbitrary text, assigned to the string"""
    sset(p, a[1], [text_input(p, M.iname(p, a[0]))])


# texts of numbers: a fixed unknown text per type and value
def numtext(p, v, ty):
    if isinstance(v, int):
        return list(str(v if ty[0] == 'u' else M.tosigned(v, ty[1])).encode())
    if isinstance(v, float):
        v = z3.FPVal(v, z3.Float64())
    if isinstance(v, z3.FPRef):
        return [z3.Function('text of a double (to_string)', z3.Float64(), SEQ)(v)]
    if isinstance(v, LInt):
        raise Unsupported('text of a length')
    w = ty[1]
    return [z3.Function('text of a number %s%d' % ty, z3.BitVecSort(w), SEQ)(p.bv(v, w))]


_NT = {'int': ('s', 32), 'unsigned int': ('u', 32), 'long': ('s', 64), 'unsigned long': ('u', 64), 'long long': ('s', 64), 'unsigned long long': ('u', 64), 'double': ('d', 64), 'float': ('d', 64)}


@pattern(r'(std::__cxx11::basic_string.* )?std::__cxx11::to_string\((int|unsigned int|long|unsigned long|long long|unsigned long long|double|float)\)')
def _tostring(p, a, ins, t, n):
    sinit(p, a[0], numtext(p, a[1], _NT[re.search(r'to_string\((.*)\)', demangle(n)).group(1)]))


@model('llvm.load.relative.i64', 'llvm.load.relative.i32')
def _loadrel(p, a, ins, t, n):
    o = M.tosigned(p.get(a[0] + a[1], 4), 32)
    return (a[0] + o) & MASK[64]


# the format of a stream: the fields of its std::ios object
def iosof(p, o):
    return o + M.tosigned(p.get(p.get(o, 8) - 24, 8), 64)


PREC, WIDTH, FLAGS, FILL = 8, 16, 24, 224
ADJUST, BASE, OTHERF = 0xb0, 0x4a, 0x1 | 0x200 | 0x800 | 0x400 | 0x4000


def padding(p, o, x, num=False):
    """the text x as written by a formatted insertion into the stream o (which resets the width)"""
    ios = iosof(p, o)
    w, fl, fc = p.get(ios + WIDTH, 8), p.get(ios + FLAGS, 4), p.get(ios + FILL, 1)
    if not isinstance(fl, int):
        raise Unsupported('unknown stream flags')
    if num and (fl & BASE != 2 or fl & OTHERF):
        raise Unsupported('number format')
    p.put(ios + WIDTH, 0, 8)
    if isinstance(w, int) and w == 0:
        return x
    n = slen(p, x)
    if p.truth(p.icmp('ule', w, n, I64)):         # negative widths are not asked for
        return x
    r = rep(p, p.binop('sub', w, n, 64), fc)
    ad = fl & ADJUST
    if ad & 0x20:
        return x + r
    if ad & 0x10 and num:
        raise Unsupported('internal padding')
    return r + x


@pattern(r'^std::ios_base::(width|precision)\((long)?\)')
def _ioswidth(p, a, ins, t, n):
    d = demangle(n)
    f = a[0] + (WIDTH if '::width(' in d else PREC)
    old = p.get(f, 8)
    if '(long)' in d:
        p.put(f, a[1], 8)
    return old


@pattern(r'^std::ios_base::(setf|unsetf|flags)\(')
def _iosflags(p, a, ins, t, n):
    d = demangle(n)
    f = a[0] + FLAGS
    old = p.get(f, 4)
    if '::setf(std::_Ios_Fmtflags, ' in d:
        p.put(f, (old & ~a[2] | a[1] & a[2]) & 0xffffffff, 4)
    elif '::setf(' in d:
        p.put(f, old | a[1], 4)
    elif '::unsetf(' in d:
        p.put(f, old & ~a[1] & 0xffffffff, 4)
    elif '(std::' in d:
        p.put(f, a[1], 4)
    return old


@pattern(r'^(char )?std::basic_ios<char, std::char_traits<char> >::fill\((char)?\)')
def _iosfill(p, a, ins, t, n):
    old = p.get(a[0] + FILL, 1)
    if len(a) > 1:
        p.put(a[0] + FILL, a[1], 1)
    return old


@pattern(r'^(std::_Set\w+(<char>)? )?std::(setw|setfill|setprecision)(<char>)?\(')
def _iosmanip(p, a, ins, t, n):
    return a[0]


@pattern(r'std::basic_ostream<char, std::char_traits<char> >& std::operator<< ?<char, std::char_traits<char> >\(std::basic_ostream<char, std::char_traits<char> >&, std::_Set(w|fill|precision)')
def _iosmanip2(p, a, ins, t, n):
    ios = iosof(p, a[0])
    d = demangle(n)
    if '_Setw' in d:
        p.put(ios + WIDTH, p.cast('sext', a[1], 32, 64) if not isinstance(a[1], int) else M.tosigned(a[1], 32) & MASK[64], 8)
    elif '_Setprecision' in d:
        p.put(ios + PREC, M.tosigned(p.concretize(a[1], 32), 32) & MASK[64], 8)
    else:
        p.put(ios + FILL, a[1], 1)
    return a[0]


_FMT = {'std::left': (0x20, ADJUST), 'std::right': (0x80, ADJUST), 'std::internal': (0x10, ADJUST), 'std::dec': (2, BASE), 'std::hex': (8, BASE), 'std::oct': (0x40, BASE),
        'std::fixed': (4, 0x104), 'std::scientific': (0x100, 0x104), 'std::boolalpha': (1, 1), 'std::noboolalpha': (0, 1), 'std::showpos': (0x800, 0x800), 'std::noshowpos': (0, 0x800)}


@pattern(r'^std::(ostream|basic_ostream<char, std::char_traits<char> >)::operator<<\(std::(ios_base|basic_ios<char, std::char_traits<char> >|ios)& \(')
def _osmanip(p, a, ins, t, n):
    f = demangle(p.run.prog.addrf.get(a[1], '')).split('(')[0]
    if f not in _FMT:
        raise Unsupported('stream manipulator ' + f)
    v, m = _FMT[f]
    ios = iosof(p, a[0])
    p.put(ios + FLAGS, p.get(ios + FLAGS, 4) & ~m & 0xffffffff | v, 4)
    return a[0]


@pattern(r'^std::(left|right|internal|dec|hex|oct|fixed|scientific|boolalpha|noboolalpha|showpos|noshowpos)\(std::ios_base&\)')
def _fmtfun(p, a, ins, t, n):
    v, m = _FMT[demangle(n).split('(')[0]]
    p.put(a[0] + FLAGS, p.get(a[0] + FLAGS, 4) & ~m & 0xffffffff | v, 4)
    return a[0]


@model('_ZNKSt9type_info4nameEv')
def _typename(p, a, ins, t, n):
    return cstring(p, list(b'type'))


@pattern(r'std::basic_ostream<char, std::char_traits<char> >& std::(__ostream_insert|operator<<) ?<.*>\(')
def _ostext(p, a, ins, t, n):
    sb = p.oss.get(a[0])
    if sb is not None:
        d = demangle(n)
        tail = d[d.index('('):]
        if '__ostream_insert' in d:
            tx = sub(p, list(p.cstr[a[1]]), 0, a[2]) if a[1] in p.cstr else rdtext(p, a[1], a[2])
            if tx is None:
                raise Unsupported('output of unknown length')
        elif 'basic_string<' in tail:
            tx = sget(p, a[1])
        elif tail.rstrip(')').endswith('char const*'):
            tx = list(M.OPAQUE_TEXT) if a[1] is None else cbytes(p, a[1])
        elif tail.rstrip(')').endswith('char'):
            tx = [a[1]]
        else:
            raise Unsupported('output ' + d)
        from . import sfile
        sfile.emit(p, a[0], padding(p, a[0], tx))
    return a[0]




@pattern(r'.*> std::transform<__gnu_cxx::__normal_iterator<char')
def _transform(p, a, ins, t, n):
    """over a text of arbitrary length in place: some text of the same length"""
    if a[0] not in p.ghost.get('sbegin', {}):
        return p.run_function(p.mod.functions[n], a)
    s = p.ghost['sbegin'][a[0]]
    if p.ghost.get('send', {}).get(a[1]) != s or p.ghost['sbegin'].get(a[2]) != s:
        raise Unsupported('transform over part of a text')
    bs = sget(p, s)
    k = len(p.ghost.setdefault('mapped', []))
    v = z3.Const('transformed text %d' % k, SEQ)
    p.ghost['mapped'].append(v)
    p.assume(K.zc(z3.Length(v) == zn(p, slen(p, bs))))
    sset(p, s, [v])
    return a[1]


# ------------------------------------------------------------------ regular expressions (assumed contract of std::regex_search)
class Matcher:
    """leftmost match of a pattern over bytes that may be symbolic, as ECMAScript/egrep define it for these constructs"""

    def __init__(self, p, text, base):
        self.p, self.t, self.base = p, text, base
        self.memo = {}

    def is_(self, i, key, cond):
        k = (i, key)
        if k not in self.memo:
            self.memo[k] = bool(zdecide(self.p, cond))
        return self.memo[k]

    def byte(self, i, op, av):
        b = self.t[i]

        def rng(lo, hi):
            if isinstance(b, int):
                return lo <= b <= hi
            v = self.p.bv(b, 8)
            return v == lo if lo == hi else z3.And(z3.UGE(v, lo), z3.ULE(v, hi))
        n = str(op)
        if n == 'LITERAL':
            return self.is_(i, ('l', av), rng(av, av))
        if n == 'NOT_LITERAL':
            return not self.is_(i, ('l', av), rng(av, av))
        if n == 'ANY':
            return not self.is_(i, ('l', 10), rng(10, 10))
        if n == 'IN':
            neg = False
            cs = []
            for o, v in av:
                if str(o) == 'NEGATE':
                    neg = True
                elif str(o) == 'LITERAL':
                    cs.append(rng(v, v))
                elif str(o) == 'RANGE':
                    cs.append(rng(*v))
                else:
                    raise Unsupported('regular expression class')
            c = any(cs) if all(isinstance(x, bool) for x in cs) else z3.Or(*cs)
            return self.is_(i, ('in', repr(av)), c) != neg
        raise Unsupported('regular expression ' + n)

    def run(self, ops, i, g):
        """yields (end, groups) in order of preference"""
        if not ops:
            yield i, g
            return
        (op, av), rest = ops[0], ops[1:]
        n = str(op)
        if n == 'SUBPATTERN':
            for e, h in self.run(list(av[3]), i, g):
                h = dict(h)
                h[av[0]] = (i, e)
                yield from self.run(rest, e, h)
        elif n in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = av

            def rep(k, j, h):
                if n == 'MIN_REPEAT' and k >= lo:
                    yield from self.run(rest, j, h)
                if k < int(hi):
                    for e, h2 in self.run(list(sub), j, h):
                        if e > j:
                            yield from rep(k + 1, e, h2)
                if n == 'MAX_REPEAT' and k >= lo:
                    yield from self.run(rest, j, h)
            yield from rep(0, i, g)
        elif n == 'BRANCH':
            for alt in av[1]:
                yield from self.run(list(alt) + rest, i, g)
        elif n == 'AT':
            if str(av) in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
                if i == 0:
                    yield from self.run(rest, i, g)
            elif i == len(self.t):
                yield from self.run(rest, i, g)
        elif i < len(self.t) and self.byte(i, op, av):
            yield from self.run(rest, i + 1, g)


_RX = r'std::__cxx11::basic_regex<char, std::__cxx11::regex_traits<char> >::'


@pattern(_RX + r'basic_regex\(')
def _rxctor(p, a, ins, t, n):
    d = demangle(n)
    tx = sget(p, a[1]) if 'basic_string<char' in d[d.index('basic_regex('):] else cbytes(p, a[1])
    if not all(isinstance(b, int) for b in tx):
        raise Unsupported('symbolic regular expression')
    p.ghost[('regex', a[0])] = bytes(tx).decode('latin1')


@pattern(_RX + r'~basic_regex\(')
def _rxdtor(p, a, ins, t, n):
    p.ghost.pop(('regex', a[0]), None)


@pattern(r'bool std::regex_(search|match)<__gnu_cxx::__normal_iterator<char const\*')
def _rxsearch(p, a, ins, t, n):
    import re._parser as sp
    d = demangle(n)
    first, last, res, rx = a[0], a[1], a[2], a[3]
    pat = p.ghost.get(('regex', rx))
    if pat is None or 'match_results' not in d:
        raise Unsupported('regular expression call')
    txt = [p.load_byte(x) for x in range(first, last)]
    prog = sp.parse(pat)
    ng = prog.state.groups
    m = Matcher(p, txt, first)
    full = 'regex_match' in d
    hit = None
    for s in range(1 if full else len(txt) + 1):
        for e, g in m.run(list(prog), s, {}):
            if full and e != len(txt):
                continue
            hit = (s, e, g)
            break
        if hit:
            break
    subs = []
    if hit:
        s, e, g = hit
        subs = [(s, e, 1)] + [(g[k][0], g[k][1], 1) if k in g else (len(txt), len(txt), 0) for k in range(1, ng)]
        subs += [(len(txt), len(txt), 0), (0, s, int(s > 0)), (e, len(txt), int(e < len(txt)))]
    else:
        subs = [(len(txt), len(txt), 0)] * 3
    buf = p.alloc(24 * len(subs), 'heap')
    for k, (x, y, mt) in enumerate(subs):
        p.put(buf + 24 * k, first + x, 8)
        p.put(buf + 24 * k + 8, first + y, 8)
        p.put(buf + 24 * k + 16, mt, 1)
    p.put(res, buf, 8)
    p.put(res + 8, buf + 24 * len(subs), 8)
    p.put(res + 16, buf + 24 * len(subs), 8)
    p.put(res + 24, first, 8)
    p.run.assume_note('std::regex_search finds the leftmost match (assumed contract)')
    return int(bool(hit))


@pattern(r'^std::(ostream|basic_ostream<char, std::char_traits<char> >)::operator<<\(std::(ostream|basic_ostream<char, std::char_traits<char> >)& \(')
def _osfun(p, a, ins, t, n):
    f = demangle(p.run.prog.addrf.get(a[1], ''))
    sb = p.oss.get(a[0])
    if 'std::endl<' in f:
        x = [10]
    elif 'std::ends<' in f:
        x = [0]
    elif 'std::flush<' in f:
        x = []
    else:
        raise Unsupported('stream manipulator ' + f)
    if sb is not None:
        M.ssync(p, sb, p.streams[sb] + x)
    return a[0]


@pattern(r'.*std::(endl|flush|ends)<char')
def _osendl(p, a, ins, t, n):
    sb = p.oss.get(a[0])
    d = demangle(n)
    if sb is not None and 'flush' not in d:
        M.ssync(p, sb, p.streams[sb] + [10 if 'endl' in d else 0])
    return a[0]


@pattern(r'std::(basic_ostream<char, std::char_traits<char> >|ostream)& std::(basic_ostream<char, std::char_traits<char> >|ostream)::_M_insert<(.*)>\(|'
         r'std::(basic_ostream<char, std::char_traits<char> >|ostream)::operator<<\((int|unsigned int|long|unsigned long|short|unsigned short|long long|unsigned long long|bool|double)\)')
def _osnum(p, a, ins, t, n):
    d = demangle(n)
    m = re.search(r'_M_insert<(.*?)>\(', d) or re.search(r'operator<<\((.*?)\)', d)
    ty = m.group(1)
    sb = p.oss.get(a[0])
    v = a[1]
    if sb is None:
        return a[0]
    if ty in ('short', 'unsigned short', 'bool'):
        w = {'bool': 1}.get(ty, 16)
        v = v if isinstance(v, int) else p.cast('sext' if ty == 'short' else 'zext', v, w, 32)
        v = v & 0xffff if ty == 'unsigned short' else v & 1 if ty == 'bool' and isinstance(v, int) else v
        ty = 'int'
    if ty == 'double' and isinstance(v, (float, z3.FPRef)):
        ios = iosof(p, a[0])
        fl, pr = p.get(ios + FLAGS, 4), p.get(ios + PREC, 8)
        if not isinstance(fl, int) or not isinstance(pr, int):
            raise Unsupported('unknown stream format')
        x = z3.Function('text of a double %x %d' % (fl & ~ADJUST, pr), z3.Float64(), SEQ)(z3.FPVal(v, z3.Float64()) if isinstance(v, float) else v)
        M.ssync(p, sb, p.streams[sb] + padding(p, a[0], [x]))
        return a[0]
    if ty not in _NT or ty in ('double', 'float'):
        return M._osnum(p, a, ins, t, n)
    M.ssync(p, sb, p.streams[sb] + padding(p, a[0], numtext(p, v, _NT[ty]), True))
    return a[0]


# ------------------------------------------------------------------ the environment: variables are unset unless the contract says it is arbitrary
@model('getenv', 'secure_getenv')
def _getenv(p, a, ins, t, n):
    env = p.ghost.setdefault('env', [])
    nm = cbytes(p, a[0])
    for tx, r in env:
        if len(tx) == len(nm) and all(same(x, y) for x, y in zip(tx, nm)):
            return r
    for tx, r in env:
        if zdecide(p, seq_eq(p, tx, nm)):
            env.append((nm, r))
            return r
    r = 0
    if p.ghost.get('anyenv'):
        k = len(env)
        if p.branch2('%s defines %d' % (p.ghost['anyenv'], k)):
            r = cstring(p, [text_input(p, '%s value %d' % (p.ghost['anyenv'], k))])
    else:
        p.run.assume_note('no environment variable is set')
    env.append((nm, r))
    return r


@model('vf_arbitrary_environment')
def _anyenv(p, a, ins, t, n):
    p.ghost['anyenv'] = M.iname(p, a[0])
