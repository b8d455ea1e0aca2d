"""Contracts of std::string and std::ostream over symbolic texts.

A text is a sequence of parts: literal texts and opaque texts (terms of the uninterpreted sort Str); adjacent literals are
merged, so two texts built by the same concatenations are structurally equal however the concatenation was split up.
Texts made of literals alone stay concrete: loops over their characters are executed."""
from vc import *
from stdlib import *
from task import *

Str = z3.DeclareSort('Str')
CAT = z3.Function('cat', Str, Str, Str)
LEN = z3.Function('strlen', Str, I)
CH = z3.Function('ch', Str, I, I)              # character k as 0..255
DEC = z3.Function('dec', I, Str)               # decimal representation
FLT = z3.Function('flt', Fl, Str)
PAD = z3.Function('pad', I, Str)               # n blanks
RJ = z3.Function('right justified', Str, I, Str)
SUF = z3.Function('suffix', Str, I, Str)          # from a position to the end
CHR = z3.Function('chr', I, Str)               # the text of one character
_lit = {}


def lit(t):
    if t not in _lit: _lit[t] = z3.Const('lit!%d!%s' % (len(_lit), re.sub(r'\W', '_', t)[:20]), Str)
    return _lit[t]


def lens(e):
    """e with the length of every concatenation written as the sum of its parts' lengths"""
    if isint(e) or not z3.is_app(e): return e
    if e.decl().eq(LEN):
        a = e.arg(0)
        if z3.is_app(a) and a.decl().eq(CAT): return lens(LEN(a.arg(0))) + lens(LEN(a.arg(1)))
        for t, c in _lit.items():
            if c.eq(a): return z3.IntVal(len(t))
        return e
    if not e.num_args(): return e
    return e.decl()(*[lens(a) for a in e.children()])


def norm(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p: continue
            if out and isinstance(out[-1], str): out[-1] += p
            else: out.append(p)
        else: out.append(p)
    return tuple(out)


def same_part(a, b): return a == b if isinstance(a, str) and isinstance(b, str) else (not isinstance(a, str) and not isinstance(b, str) and a.eq(b))


def same(a, b): return len(a) == len(b) and all(same_part(x, y) for x, y in zip(a, b))


def term(parts):
    parts = norm(parts)
    if not parts: return lit('')
    r = None
    for p in parts:
        t = lit(p) if isinstance(p, str) else p
        r = t if r is None else CAT(r, t)
    return r


def conc(parts):
    parts = norm(parts)
    if not parts: return ''
    return parts[0] if len(parts) == 1 and isinstance(parts[0], str) else None


def teq(a, b):
    """formula: the two texts are equal"""
    a, b = norm(a), norm(b)
    if same(a, b): return True
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None: return ca == cb
    # common head and tail are dropped (cancellation)
    while a and b and same_part(a[-1], b[-1]) : a, b = a[:-1], b[:-1]
    n = 0
    while n < len(a) - 1 and n < len(b) - 1 and same_part(a[n], b[n]): n += 1
    return term(a) == term(b)


class StrX(Ghost):
    size = 32

    def __init__(s, parts): s.parts = norm(parts)

    def havoc(s, ex): return StrX((fresh('text', Str),))

    def facts(s): return []

    def __repr__(s): return 'StrX%r' % (s.parts,)


class StreamV(Ghost):
    def __init__(s, parts=(), width=0, fill=' '): s.parts, s.width, s.fill = norm(parts), width, fill

    def havoc(s, ex): return StreamV((fresh('written', Str),))

    def __repr__(s): return 'Stream%r' % (s.parts,)


def xs(ex, st, p):
    """text of the string object at p"""
    sync(ex, st, p)
    return xs_(ex, st, p)


def sync(ex, st, p):
    """characters may have been changed through a pointer into the string"""
    if p.reg is None or p.reg.kind == 'arr': return
    v = ex.getobj(st, p)
    g = st.ghost.get(('view', id(v))) if isinstance(v, StrX) else None
    if g is None: return
    r = g[0].reg
    rs = st.mem[r]
    if rs.arr:
        if rs.arr[0][1] is not r.orig: raise Undecided('characters of a symbolic text changed in place')
        return
    t = ''
    for i in range(r.size - 1):
        c = rs.cells[i][1]
        u = c.u() if isinstance(c, IntV) else None
        if not isint(u): raise Undecided('symbolic character in a text')
        t += chr(u)
    if t != conc(v.parts):
        n = StrX((t,))
        ex.setobj(st, p, n)
        r.text = n.parts
        st.ghost[('view', id(n))] = (g[0], n)


def xs_(ex, st, p):
    if p.reg is not None and p.reg.kind == 'arr':
        f = st.mem[p.reg].arr.get(p.off)
        if f is None or f[0] != 'str': raise Undecided('string in array %s' % p.reg)
        return (f[1](z(p.idx)),)
    v = ex.getobj(st, p)
    if v is None: return None
    if not isinstance(v, StrX): raise Undecided('not a text: %r at %s' % (v, p))
    return v.parts


def setxs(ex, st, p, parts):
    if p.reg is not None and p.reg.kind == 'arr':
        rs = st.rw(p.reg)
        fty, fn = rs.arr[p.off]
        i, t = z(p.idx), term(parts)
        rs.arr[p.off] = (fty, lambda k: z3.If(k == i, t, fn(k)))
        st.log((p.reg, 'arr', p.off))
        return True
    return ex.setobj(st, p, StrX(parts))


def ctext(ex, st, p):
    """text of the C string at p"""
    t = cstring(ex, st, p)
    if t is not None: return (t,)
    x = getattr(p.reg, 'text', None) if p.reg is not None else None
    if x is not None and isint(p.idx) and p.idx + p.off == 0: return x
    if x is not None and conc(x) is None:
        i = z3.simplify(z(p.idx) + p.off)
        st.assume(LEN(term(x)) >= 0)
        ex.oblige(st, 'C string within the text', And(i >= 0, i <= LEN(term(x))), 'safety')
        return (SUF(term(x), i),)
    raise Undecided('C string at %s' % (p,))


def charpart(ex, st, v):
    u = v.u()
    if isint(u): return chr(u)
    v = getattr(st, 'x', None)
    return CHR(u)


def view(ex, st, p):
    """pointer to the characters of the string at p; the same one every time while the string is not changed"""
    if p.reg is not None and p.reg.kind == 'arr': v = StrX(xs(ex, st, p))
    else: v = ex.getobj(st, p)
    if not isinstance(v, StrX): raise Undecided('not a text: %r' % (v,))
    key = ('view', id(v))
    g = st.ghost.get(key)
    if g is not None: return g[0]
    t = conc(v.parts)
    if t is not None:
        r = ex.alloc(st, 'chars', 'cells', size=len(t) + 1)
        for i, c in enumerate(t): st.rw(r).cells[i] = (1, IntV(8, ord(c)))
        st.rw(r).cells[len(t)] = (1, IntV(8, 0))
    else:
        e = term(v.parts)
        st.assume(LEN(e) >= 0, LEN(e) < ADDR, CH(e, LEN(e)) == 0)
        k = z3.Int('k!c')
        st.assume(z3.ForAll([k], And(CH(e, k) >= 0, CH(e, k) < 256), patterns=[CH(e, k)]))
        ps = norm(v.parts)
        if len(ps) > 1:        # the characters next to the end
            n = LEN(e)
            for x in reversed(ps):
                if isinstance(x, str):
                    for i, c in enumerate(x): st.assume(CH(e, n - len(x) + i) == ord(c))
                    n = n - len(x)
                else:
                    st.assume(LEN(x) >= 0, z3.Implies(LEN(x) > 0, CH(e, n - 1) == CH(x, LEN(x) - 1)))
                    n = n - LEN(x)
            st.assume(n == 0)
        r = ex.alloc(st, 'chars', 'arr', elemsize=1, ln=LEN(e) + 1)
        r.orig = lambda k: CH(e, z(k))
        st.rw(r).arr[0] = (1, r.orig)
    r.text = v.parts
    q = Ptr(r)
    st.ghost[key] = (q, v)
    return q


S = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::'
OS = r'std::basic_ostream<char, std::char_traits<char> ?>&'
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
REGX = []


def con(rx):
    def d(f):
        REGX.append((rx, f))
        return f
    return d


def sret(ex, st, ci, parts): return ret(st) if ex.setobj(st, ci.args[0], StrX(parts)) else []


@con(S + r'basic_string\(\)$')
def x0(ex, st, ci): return sret(ex, st, ci, ())
@con(S + r'basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)$')
def x1(ex, st, ci): return sret(ex, st, ci, ctext(ex, st, ci.args[1]))
@con(S + r'basic_string\(std::__cxx11::basic_string<.*> ?(const&|&&)\)$')
def x2(ex, st, ci): return sret(ex, st, ci, xs(ex, st, ci.args[1]))
@con(S + r'basic_string(<.*>)?\(unsigned long, char, std::allocator<char> const&\)$')
def x3(ex, st, ci):
    n = ci.args[1].u()
    if not isint(n): raise Undecided('string of symbolic length')
    return sret(ex, st, ci, [charpart(ex, st, ci.args[2])] * n)
@con(S + r'~basic_string\(\)$')
def x4(ex, st, ci): return ret(st)
@con(S + r'operator=\(' + STR + r' ?(const&|&&)\)$')
def x5(ex, st, ci): return ret(st, ci.args[0]) if setxs(ex, st, ci.args[0], xs(ex, st, ci.args[1])) else []
@con(S + r'operator=\(char const\*\)$')
def x6(ex, st, ci): return ret(st, ci.args[0]) if setxs(ex, st, ci.args[0], ctext(ex, st, ci.args[1])) else []
@con(S + r'(operator\+=|append)\(' + STR + r' ?const&\)$')
def x7(ex, st, ci): return ret(st, ci.args[0]) if setxs(ex, st, ci.args[0], xs(ex, st, ci.args[0]) + xs(ex, st, ci.args[1])) else []
@con(S + r'(operator\+=|append)\(char const\*\)$')
def x8(ex, st, ci): return ret(st, ci.args[0]) if setxs(ex, st, ci.args[0], xs(ex, st, ci.args[0]) + ctext(ex, st, ci.args[1])) else []
@con(S + r'(operator\+=|push_back)\(char\)$')
def x9(ex, st, ci): return ret(st, ci.args[0]) if setxs(ex, st, ci.args[0], xs(ex, st, ci.args[0]) + (charpart(ex, st, ci.args[1]),)) else []


@con(r'^' + STR + r' std::operator\+ ?<')
def xplus(ex, st, ci):
    a = []
    ts = re.search(r'\((.*)\)$', ci.dem[ci.dem.index('operator+'):]).group(1)
    sig = re.sub(STR, 'STRING', ts).split(', ')
    for p, t in zip(ci.args[1:], sig[-2:]):
        if 'STRING' in t: a += xs(ex, st, p)
        elif 'char const*' in t: a += ctext(ex, st, p)
        elif t.strip() == 'char': a.append(charpart(ex, st, p))
        else: raise Undecided('operator+ ' + t)
    return sret(ex, st, ci, a)


def lenof(st, parts):
    t = conc(parts)
    if t is not None: return len(t)
    e = term(parts)
    st.assume(LEN(e) >= 0, LEN(e) < ADDR)
    for p in norm(parts):
        if isinstance(p, str): st.assume(LEN(e) > 0)
    return LEN(e)


@con(S + r'(size|length)\(\) const$')
def xsize(ex, st, ci): return ret(st, IntV(64, lenof(st, xs(ex, st, ci.args[0]))))
@con(S + r'empty\(\) const$')
def xempty(ex, st, ci):
    n = lenof(st, xs(ex, st, ci.args[0]))
    return ret(st, BoolV(n == 0 if not isint(n) else z3.BoolVal(n == 0)))
@con(S + r'clear\(\)$')
def xclear(ex, st, ci): return ret(st) if setxs(ex, st, ci.args[0], ()) else []
@con(S + r'(data|c_str)\(\)( const)?$')
def xdata(ex, st, ci): return ret(st, view(ex, st, ci.args[0]))


@con(S + r'(operator\[\]|at)\(unsigned long\)( const)?$')
def xindex(ex, st, ci):
    p = view(ex, st, ci.args[0])
    i = ci.args[1].u()
    n = lenof(st, p.reg.text)
    if isint(i) and isint(n):
        ex.oblige(st, 'string index', i <= n, 'safety')
        return ret(st, Ptr(p.reg, 0, i)) if i <= n else []
    ex.oblige(st, 'string index', And(z(i) >= 0, z(i) <= n), 'safety')
    return ret(st, Ptr(p.reg, i, 0))


NPOS = (1 << 64) - 1


NOHASH = set()          # opaque texts (by declaration) that hold no '#'


def isnum(e): return isint(e) or (z3.is_int_value(e))


def deif(ex, st, e):
    """e without case distinctions that the path decides"""
    if isint(e) or not z3.is_app(e) or not e.num_args(): return e
    if e.decl().kind() == z3.Z3_OP_ITE:
        c = e.arg(0)
        if ex.prover.prove(st.pc, c)[0] == 'proved': return deif(ex, st, e.arg(1))
        if ex.prover.prove(st.pc, z3.Not(c))[0] == 'proved': return deif(ex, st, e.arg(2))
        return e
    if e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS): return e.decl()(*[deif(ex, st, a) for a in e.children()])
    return e


def split(ex, st, parts, pos):
    """(parts before, parts after) position pos"""
    parts = norm(parts)
    if not isint(pos):
        pos = z3.simplify(deif(ex, st, pos))
        if z3.is_int_value(pos): pos = pos.as_long()
    t = conc(parts)
    if t is not None and isint(pos): return (t[:pos],), (t[pos:],)
    for i in range(len(parts) + 1):
        pre = parts[:i]
        n = conc(pre)
        l = z3.IntVal(len(n)) if n is not None else LEN(term(pre))
        d = z3.simplify(z(pos) - l)
        if not z3.is_int_value(d): d = z3.simplify(lens(z(pos)) - lens(l))
        if not z3.is_int_value(d): continue
        d = d.as_long()
        if d == 0: return pre, parts[i:]
        if d > 0 and i < len(parts) and isinstance(parts[i], str) and d <= len(parts[i]): return norm(pre + (parts[i][:d],)), norm((parts[i][d:],) + parts[i + 1:])
        if d < 0 and i > 0 and isinstance(parts[i - 1], str) and -d <= len(parts[i - 1]): return norm(parts[:i - 1] + (parts[i - 1][:d],)), norm((parts[i - 1][d:],) + parts[i:])
    for i in range(len(parts) + 1):          # not the same expression, but the same number?
        l = z3.simplify(position(parts[:i]) if i else z3.IntVal(0)) if i and conc(parts[:i]) is None else z3.IntVal(len(conc(parts[:i]) or ''))
        if ex.prover.prove_light(st.pc + [x >= 0 for x in lenterms(l)], z(pos) == l): return parts[:i], parts[i:]
    return None


def lenterms(e):
    if e.decl().eq(LEN): return [e]
    return [y for c in e.children() for y in lenterms(c)]


def position(parts):
    n = conc(parts)
    return len(n) if n is not None else LEN(term(parts))


@con(S + r'(find|rfind)\(char, unsigned long\) const$')
def xfind(ex, st, ci):
    parts = norm(xs(ex, st, ci.args[0]))
    t = conc(parts)
    c, p = ci.args[1].u(), ci.args[2].u()
    if not isint(c): raise Undecided('find of a symbolic character')
    if t is None:
        if '::rfind' not in ci.dem: raise Undecided('find in a symbolic text')
        if not isint(p) or p != NPOS:
            r = split(ex, st, parts, p + 1)
            if r is None: raise Undecided('rfind in a symbolic text before %s of %s' % (p, parts))
            parts = norm(r[0])
        for i in range(len(parts) - 1, -1, -1):
            if isinstance(parts[i], str):
                k = parts[i].rfind(chr(c))
                if k >= 0:
                    pre = norm(parts[:i] + (parts[i][:k],))
                    e = position(pre)
                    st.assume(z(e) >= 0, z(e) < ADDR, z(e) == lens(z(e)))
                    return ret(st, IntV(64, e))
            elif chr(c) != '#' or parts[i].decl().name() not in NOHASH: raise Undecided('rfind in a symbolic text')
        raise Undecided('rfind in a symbolic text')
    if not isint(p): raise Undecided('find from a symbolic position')
    r = t.find(chr(c), p) if '::find' in ci.dem else t.rfind(chr(c), 0, min(p + 1, len(t)) if p < NPOS else len(t))
    return ret(st, IntV(64, NPOS if r < 0 else r))


@con(S + r'insert\(unsigned long, std::__cxx11::basic_string<.*> const&\)$')
def xinsert(ex, st, ci):
    r = split(ex, st, xs(ex, st, ci.args[0]), ci.args[1].u())
    if r is None: raise Undecided('insert into a symbolic text')
    return ret(st, ci.args[0]) if setxs(ex, st, ci.args[0], norm(r[0] + xs(ex, st, ci.args[2]) + r[1])) else []


@con(S + r'(find|rfind)\(char const\*, unsigned long\) const$')
def xfinds(ex, st, ci):
    t, p = conc(norm(xs(ex, st, ci.args[0]))), ci.args[2].u()
    k = cstring(ex, st, ci.args[1])
    if t is None or k is None or not isint(p): raise Undecided('find in a symbolic text')
    r = t.find(k, p) if '::find' in ci.dem else t.rfind(k, 0, min(p + len(k), len(t)) if p < NPOS else len(t))
    return ret(st, IntV(64, NPOS if r < 0 else r))


@con(S + r'substr\(unsigned long, unsigned long\) const$')
def xsubstr(ex, st, ci):
    p = xs(ex, st, ci.args[1])
    t = conc(p)
    a, n = ci.args[2].u(), ci.args[3].u()
    if isint(a) and a == 0 and isint(n) and n == NPOS: return sret(ex, st, ci, p)
    if t is None or not isint(a) or not isint(n):
        r = split(ex, st, p, a)
        if r is None: raise Undecided('substr of a symbolic text')
        r = r[1]
        if not (isint(n) and n == NPOS):
            r2, r = r, split(ex, st, r, n)
            if r is None: raise Undecided('substr of a symbolic text %s to %s' % (r2, n))
            r = r[0]
        return sret(ex, st, ci, r)
    ex.oblige(st, 'substr position', a <= len(t), 'safety')
    return sret(ex, st, ci, (t[a:a + n],))


@con(S + r'(begin|end)\(\)( const)?$')
def xbegin(ex, st, ci):
    q = view(ex, st, ci.args[0])
    return ret(st, q if 'begin' in ci.dem else Ptr(q.reg, position(q.reg.text), 0))


NOSP = z3.Function('without white space', Str, Str)
JUNK = z3.Function('left over', Str, Str)


def h_remove_if(ex, st, ci):
    """std::remove_if(begin, end, isspace) over a whole text"""
    a, b = ci.args[0], ci.args[1]
    sel = [(r, o, v) for r, rs in st.mem.items() if rs.cells for o, (sz, v) in rs.cells.items() if isinstance(v, StrX) and ('view', id(v)) in st.ghost and st.ghost[('view', id(v))][0].reg is a.reg]
    if len(sel) != 1 or a.reg is not b.reg or not isint(a.idx) or a.idx + a.off: raise Undecided('remove_if')
    if not (isinstance(ci.args[2], FnPtr) and re.search('[iI]sspace', ci.args[2].name)): raise Undecided('remove_if predicate %r' % (ci.args[2],))
    reg, off, v = sel[0]
    ex.oblige(st, 'remove_if goes to the end of the text', z(b.idx) + b.off == position(v.parts), 'safety')
    t = conc(v.parts)
    if t is None:
        e = term(v.parts)
        n = StrX((NOSP(e), JUNK(e)))
        st.assume(LEN(NOSP(e)) >= 0, LEN(NOSP(e)) <= LEN(e))
    else:
        u = ''.join(c for c in t if c not in ' \t\n\v\f\r')
        n = StrX((u + t[len(u):],))
    ex.setobj(st, Ptr(reg, 0, off), n)
    if t is None:
        r2 = st.rw(a.reg)
        a.reg.orig = lambda k: CH(term(n.parts), z(k))
        r2.arr[0] = (1, a.reg.orig)
        pos = LEN(NOSP(e))
    else:
        for i, c in enumerate(n.parts[0] if n.parts else ''): st.rw(a.reg).cells[i] = (1, IntV(8, ord(c)))
        pos = len(u)
    a.reg.text = n.parts
    st.ghost[('view', id(n))] = (Ptr(a.reg), n)
    return ret(st, Ptr(a.reg, pos, 0))


REGX.append((r'remove_if<', h_remove_if))


@con(S + r'erase\(__gnu_cxx::__normal_iterator')
def xerase(ex, st, ci):
    p = xs(ex, st, ci.args[0])
    a, b = ci.args[1], ci.args[2]
    x, y = split(ex, st, p, a.idx + a.off), split(ex, st, p, b.idx + b.off)
    if x is None or y is None: raise Undecided('erase')
    setxs(ex, st, ci.args[0], x[0] + y[1])
    q = view(ex, st, ci.args[0])
    return ret(st, Ptr(q.reg, position(x[0]), 0))


NUM = z3.Function('number', Str, I)            # strtoul, base 10


@con(r'^(__isoc23_)?strtoul$')
def xstrtoul(ex, st, ci):
    p = ci.args[0]
    x = getattr(p.reg, 'text', None)
    if x is None: raise Undecided('strtoul')
    r = split(ex, st, x, z3.simplify(z(p.idx) + p.off) if not isint(p.idx) else p.idx + p.off)
    if r is None: raise Undecided('strtoul in the middle of a text %s %s' % (p, x))
    e = NUM(term(r[1]))
    st.assume(e >= 0, e < 1 << 63)
    return ret(st, IntV(64, e))


@con(r'^bool std::operator(==|!=) ?<char')
def xeq(ex, st, ci):
    a = xs(ex, st, ci.args[0])
    b = ctext(ex, st, ci.args[1]) if ci.dem.endswith('char const*)') else xs(ex, st, ci.args[1])
    e = teq(a, b)
    if isinstance(e, bool): e = z3.BoolVal(e)
    return ret(st, BoolV(z3.Not(e) if 'operator!=' in ci.dem else e))


# ---------------------------------------------------------------- output streams
def skey(p): return 'stream%d+%d' % (p.reg.id, p.idx + p.off)


def stream(st, p):
    g = st.ghost.get(skey(p)) if p.reg is not None and isint(p.idx) else None
    if g is None: raise Undecided('unknown stream %s' % (p,))
    return g


def put(st, p, parts, padok=True):
    g = stream(st, p)
    w = g.width
    if not (isint(w) and w == 0):
        t = conc(parts)
        if isint(w) and t is not None: parts = (t.rjust(w, g.fill),)
        elif t == '' and g.fill == ' ': parts = (PAD(z(w)),)
        elif g.fill == ' ': parts = (RJ(term(parts), z(w)),)
        else: raise Undecided('padded output')
    st.ghost[skey(p)] = StreamV(g.parts + tuple(parts), 0, g.fill)
    st.log(('ghost', skey(p)))
    return ret(st, p)


OSS = r'^std::__cxx11::basic_ostringstream<char, std::char_traits<char>, std::allocator<char> >::'


@con(OSS + r'basic_ostringstream\(\)$')
def oss(ex, st, ci):
    st.ghost[skey(ci.args[0])] = StreamV()
    st.log(('ghost', skey(ci.args[0])))
    return ret(st)
@con(OSS + r'~basic_ostringstream\(\)$')
def ossd(ex, st, ci): return ret(st)
@con(OSS + r'str\(\) const$')
def ossstr(ex, st, ci): return sret(ex, st, ci, stream(st, ci.args[1]).parts)


@con(OS + r' std::operator<< ?<')
def osop(ex, st, ci):
    tail = ci.dem[ci.dem.index('operator<<'):]
    a = ci.args[1]
    if tail.endswith(', char const*)'): return put(st, ci.args[0], ctext(ex, st, a))
    if tail.endswith(', char)') or tail.endswith(', unsigned char)') or tail.endswith(', signed char)'): return put(st, ci.args[0], (charpart(ex, st, a),))
    if 'std::_Setw' in tail or 'std::_Setfill' in tail:
        g = stream(st, ci.args[0])
        v = a.u() if isinstance(a, IntV) else None
        if v is None: raise Undecided('stream manipulator argument')
        if '_Setw' in tail: g = StreamV(g.parts, a.s_(), g.fill)
        else: g = StreamV(g.parts, g.width, chr(v))
        st.ghost[skey(ci.args[0])] = g
        st.log(('ghost', skey(ci.args[0])))
        return ret(st, ci.args[0])
    if re.search(r'basic_string<.*> const&\)$', tail): return put(st, ci.args[0], xs(ex, st, a))
    raise Undecided('output of ' + tail[:80])


@con(r'^(?:std::ostream|std::basic_ostream<char, std::char_traits<char> ?>)::operator<<\(')
def osmem(ex, st, ci):
    a = ci.args[1]
    if isinstance(a, FnPtr):
        if 'endl' in a.name: return put(st, ci.args[0], ('\n',))
        raise Undecided('manipulator ' + a.name)
    if isinstance(a, FloatV): return put(st, ci.args[0], (FLT(a.e),))
    ty = re.search(r'\((.*)\)$', ci.dem).group(1)
    if ty == 'bool': raise Undecided('output of bool')
    if isinstance(a, IntV):
        e = a.u() if ty.startswith('unsigned') else a.s_()
        return put(st, ci.args[0], (str(e) if isint(e) else DEC(e),))
    raise Undecided('output of ' + ty)


@con(r'^std::setw\(int\)$')
def setw(ex, st, ci): return ret(st, ci.args[0])
@con(r'^std::_Setfill<char> std::setfill<char>\(char\)$')
def setfill(ex, st, ci): return ret(st, ci.args[0])


@con(r'^(isgraph|isspace|tolower|isalnum|isalpha|isprint)$')
def ctype(ex, st, ci):
    v = ci.args[0].s_()
    if not isint(v): raise Undecided('character class of a symbolic character')
    ex.oblige(st, 'character class argument', -1 <= v < 256, 'safety')
    c = chr(v) if 0 <= v < 128 else ''
    r = {'isgraph': 33 <= v <= 126, 'isspace': c != '' and c in ' \t\n\v\f\r', 'isprint': 32 <= v <= 126, 'isalnum': c.isalnum(), 'isalpha': c.isalpha()}
    if ci.dem == 'tolower': return ret(st, IntV(32, ord(c.lower()) if c else v))
    return ret(st, IntV(32, 1 if r[ci.dem] else 0))


@con(r'^strlen$')
def cstrlen(ex, st, ci):
    t = cstring(ex, st, ci.args[0])
    if t is None: raise Undecided('strlen')
    return ret(st, IntV(64, len(t)))


def mk_text(ex, st, name, parts=None):
    r = ex.alloc(st, name, 'cells', size=32)
    if parts is None: parts = (z3.Const(name, Str),)
    st.rw(r).cells[0] = (32, StrX(parts))
    return Ptr(r), norm(parts)


def mk_stream(ex, st, name='o'):
    """an output stream of the application; what it holds already is unknown"""
    vt = ex.alloc(st, name + ' vtable', 'cells', size=32)
    st.rw(vt).cells[0] = (8, IntV(64, 8))
    r = ex.alloc(st, name, 'cells', size=272)
    st.rw(r).cells[0] = (8, Ptr(vt, 0, 24))
    st.ghost[skey(Ptr(r))] = StreamV((z3.Const(name + '.before', Str),))
    return r
