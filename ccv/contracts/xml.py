"""C08/C09: what xml_pack writes, character by character of the markup; see strs.py for texts"""
from vc import *
from stdlib import *
from stl import *
from task import *
from contracts.strs import *
from contracts.pack_core import sym_int, ob

TU = 'xml.cc'
ENT = {'&': '&amp;', '<': '&lt;', '>': '&gt;', "'": '&apos;', '"': '&quot;'}


def Q(c):
    """the specified representation of one character of text"""
    if chr(c) in ENT: return ENT[chr(c)]
    if c >= 0x80 or 33 <= c <= 126: return chr(c)
    return '&#%04d;' % c


class Quote(Task):
    name = 'xml_quote'
    func = r'^ccv_quote\('
    tu = TU
    contracts = REGX
    variants = tuple(range(256))

    def setup(s, ex, st, variant):
        s.p, _ = mk_text(ex, st, 'result')
        return [s.p, IntV(8, variant)]

    def post(s, ex, o, variant):
        ob(ex, o, 'no exception', o.kind == 'ret')
        if o.kind == 'ret': ob(ex, o, 'text of character %d' % variant, teq(xs(ex, o.st, s.p), (Q(variant),)))
        frame(ex, o, ex.st0, {s.p.reg})


quote = [Quote()]


# ---------------------------------------------------------------- writing
TAIL = z3.Function('tail', Str, Str)           # last component of a path
LEVEL = z3.Function('level', Str, I)           # number of components
QT = z3.Function('quoted', I, Str)
EV = z3.Function('element', I, Str, I, Val, Str)      # what an element's own descriptor writes: type, path, nesting level, value
SYM = z3.Function('symbol', I, Str)            # symbol of an enumeration value
OBJ = {'Elem': 1, 'Key': 2}
CLS = r'^classdesc::xml_pack_t::'


def h_level(ex, st, ci):
    e = term(xs(ex, st, ci.args[1]))
    st.assume(LEVEL(e) >= 0, LEVEL(e) < 1 << 31)
    return ret(st, IntV(32, LEVEL(e), 's'))


def h_tail(ex, st, ci): return sret(ex, st, ci, (TAIL(term(xs(ex, st, ci.args[1]))),))


def h_quote(ex, st, ci):
    c = ci.args[1].u()
    if not isint(c) and c.decl().eq(CH): ex.task.seen(ex, st, c.arg(1))
    return sret(ex, st, ci, (Q(c) if isint(c) else QT(c),))


def h_ios_not(ex, st, ci): return ret(st, BoolV(z3.Bool('stream failed')))


def elem_val(ex, st, p):
    if p.reg is not None and p.reg.kind == 'arr':
        if ex.access(st, p, 1, 'element') is None: return None
        f = st.mem[p.reg].arr.get(p.off)
        if not f or f[0] != 'val': raise Undecided('element access')
        return f[1](z(p.idx))
    c = st.mem[p.reg].cells.get(p.idx + p.off)
    if c is None or not isinstance(c[1], ValV): raise Undecided('element value')
    return c[1].e


def h_elem(ex, st, ci):
    tag = OBJ[re.search(r'(\w+)( const)?&\)$', ci.dem).group(1)]
    p = ci.args[2]
    v = elem_val(ex, st, p)
    if v is None: return []
    t = ex.task
    lev = ex.load(st, Ptr(t.x, 0, t.m['taglevel']), TInt(32)).s_()
    if p.reg.kind == 'arr': t.seen(ex, st, z(p.idx))
    d = term(xs(ex, st, ci.args[1]))
    put(st, Ptr(t.o), (EV(tag, d, z(lev), v),))
    return ret(st)


WRITE = [(CLS + r'level\(', h_level), (r'^classdesc::tail(\[.*\])?\(', h_tail), (r'^classdesc::xml_quote(\[.*\])?\(', h_quote),
         (r'^std::(basic_)?ios(<.*>)?::operator!\(\) const$', h_ios_not), (r'^ccv_xpack\(', h_elem)] + REGX


# an object of class type writes itself as one element: what it writes depends on its path, the nesting level and its value
ITEM = [(r'^void (classdesc::)?xml_pack<(Elem|Key)( const)?>\(classdesc::xml_pack_t&, std::__cxx11::basic_string<.*> const&, (Elem|Key)( const)?&\)$', h_elem)]


class Write(Task):
    """common set-up: an xml_pack_t in any state, writing to a stream in any state"""
    tu = TU
    contracts = WRITE
    abort = False
    must = ('ret', 'throw')

    def seen(s, ex, st, i): pass

    def mk(s, ex, st):
        s.m = ex.mod.members['xml_pack_t']
        s.o = mk_stream(ex, st)
        s.x = ex.alloc(st, 'xml_pack', 'cells', size=64)
        m = s.m
        s.lev = fresh('taglevel')
        st.assume(s.lev >= 0, s.lev < 1 << 30)
        s.pretty = z3.Bool('prettyPrint')
        c = st.rw(s.x).cells
        c[m['o']] = (8, Ptr(s.o))
        c[m['taglevel']] = (4, IntV(32, s.lev, 's'))
        s.schema = z3.Const('schema', Str)
        c[m['schema']] = (32, StrX((s.schema,)))
        c[m['prettyPrint']] = (1, BoolV(s.pretty))
        c[m['abort']] = (1, IntV(8, 1 if s.abort else 0))
        s.d, _ = mk_text(ex, st, 'd')
        s.dt = z3.Const('d', Str)
        s.o0 = st.ghost[skey(Ptr(s.o))].parts
        st.assume(LEVEL(s.dt) >= 0, LEVEL(s.dt) < 1 << 30, LEN(s.schema) >= 0)
        return [Ptr(s.x), s.d]

    def written(s, o): return o.st.ghost[skey(Ptr(s.o))].parts

    def case(s):
        """(formula, pretty?, tag?, schema?)"""
        L = LEVEL(s.dt)
        for pr in (False, True):
            for tg in (False, True):
                for sc in ((False, True) if tg else (False,)):
                    f = [s.pretty if pr else z3.Not(s.pretty), (s.lev < L) if tg else z3.Not(s.lev < L)]
                    if tg: f.append(And(L == 1, LEN(s.schema) > 0) if sc else z3.Not(And(L == 1, LEN(s.schema) > 0)))
                    yield And(*f), pr, tg, sc

    def open(s, pr, tg, sc):
        if not tg: return ()
        return ((PAD(LEVEL(s.dt)),) if pr else ()) + ('<', TAIL(s.dt)) + ((' xmlns="', s.schema, '"') if sc else ()) + ('>',) + (('\n',) if pr else ())

    def close(s, pr, tg):
        if not tg: return ()
        return ((PAD(LEVEL(s.dt)),) if pr else ()) + ('</', TAIL(s.dt), '>') + (('\n',) if pr else ())

    def leaf(s, pr, text): return ((PAD(LEVEL(s.dt)),) if pr else ()) + ('<', TAIL(s.dt), '>') + tuple(text) + ('</', TAIL(s.dt), '>') + (('\n',) if pr else ())

    def fin(s, ex, o, allowed=()):
        c = o.st.mem[s.x].cells[s.m['taglevel']][1]
        ob(ex, o, 'nesting level restored', z(c.s_()) == s.lev)
        frame(ex, o, ex.st0, set(allowed))


class Leaf(Write):
    """a value without structure: one element holding its text"""
    def __init__(s, nm, ty, text): s.name, s.func, s.ty, s.text = 'xml_pack(%s)' % nm, r'^ccv_pack_%s$' % nm.replace(' ', ''), ty, text

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        s.p, s.v = s.ty(s, ex, st)
        return a + [s.p]

    def post(s, ex, o, variant):
        bad = z3.Bool('stream failed')
        if s.abort:
            ob(ex, o, 'packing aborted', o.kind == 'throw')
            ob(ex, o, 'nothing written', teq(s.written(o), s.o0))
            return
        ob(ex, o, 'exception exactly if the stream fails', bad if o.kind == 'throw' else z3.Not(bad))
        for pr in (False, True):
            for cond, text in s.text(s, s.v):
                g = And(s.pretty if pr else z3.Not(s.pretty), cond)
                e = teq(s.written(o), s.o0 + s.leaf(pr, text))
                ob(ex, o, 'element written (%s)' % ('pretty' if pr else 'plain'), z3.Implies(g, e if not isinstance(e, bool) else z3.BoolVal(e)))
        s.fin(ex, o)


def t_int(w, signed):
    def f(s, ex, st):
        r = ex.alloc(st, 'a', 'cells', size=w // 8)
        e = fresh('a')
        st.assume(*([e >= -(1 << (w - 1)), e < 1 << (w - 1)] if signed else [e >= 0, e < 1 << w]))
        st.rw(r).cells[0] = (w // 8, IntV(w, e, 's' if signed else 'u'))
        return Ptr(r), e
    return f


def t_str(s, ex, st):
    p, _ = mk_text(ex, st, 'a')
    s.a = z3.Const('a', Str)
    st.assume(LEN(s.a) >= 0, LEN(s.a) < ADDR, QS(s.a, 0) == lit(''))
    return p, s.a


QS = z3.Function('quoted prefix', Str, I, Str)      # QS(a,0)="", QS(a,i+1)=QS(a,i)+quoted(a[i])


class LeafStr(Leaf):
    def seen(s, ex, st, i): st.assume(QS(s.a, i + 1) == z3.If(QS(s.a, i) == lit(''), CAT(lit(''), QT(CH(s.a, i))), CAT(QS(s.a, i), QT(CH(s.a, i)))))

    def loopcands(s, c): return []


true = z3.BoolVal(True)
decimal = lambda s, v: [(true, (DEC(v),))]
quoted = lambda s, v: [(true, (QT(v % 256),))]
leaves = [Leaf(n, t_int(w, sg), decimal) for n, w, sg in (('int', 32, 1), ('unsigned', 32, 0), ('short', 16, 1), ('ushort', 16, 0), ('long', 64, 1), ('ulong', 64, 0), ('llong', 64, 1), ('ullong', 64, 0))]
leaves += [Leaf(n, t_int(8, 0), lambda s, v: [(true, (QT(v),))]) for n in ('char', 'schar', 'uchar')]
leaves += [Leaf('bool', t_int(8, 0), lambda s, v: [(v == 1, ('true',)), (v == 0, ('false',))])]


class LeafText(Leaf):
    def seen(s, ex, st, i): st.assume(QS(s.a, i + 1) == CAT(QS(s.a, i), QT(CH(s.a, i))))

    def loops(s, c):
        from contracts.pack_stl import sources
        out = []
        for nm, g in sources(c):
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 0, i <= LEN(s.a)))
            for (reg, off) in s.texts(c): mk('quoted so far %s' % reg.name, lambda c, i, reg=reg, off=off: term(c.st.mem[reg].cells[off][1].parts) == QS(s.a, i))
        return out

    def texts(s, c):
        return sorted({(m[0], m[2]) for m in c.modset if m[0] != 'ghost' and m[1] == 'cell' and m[2] in c.st.mem[m[0]].cells and isinstance(c.st.mem[m[0]].cells[m[2]][1], StrX)}, key=str)


def t_enum(s, ex, st):
    r = ex.alloc(st, 'a', 'cells', size=4)
    e = fresh('a')
    st.assume(e >= 0, e < 1 << 32)
    st.rw(r).cells[0] = (4, IntV(32, e, 'u'))
    return Ptr(r), e


def h_sym(ex, st, ci):
    v = ex.load(st, ci.args[1], TInt(32)).u()
    return sret(ex, st, ci, (SYM(v),))


def t_cdata(s, ex, st):
    p, _ = mk_text(ex, st, 'a')
    s.a = z3.Const('a', Str)
    return p, s.a


CD = z3.Function('CDATA sections', Str, Str)


def h_cdata(ex, st, ci): return put(st, ci.args[0], (CD(term(xs(ex, st, ci.args[1]))),))


leaves += [LeafText('string', t_str, lambda s, v: [(true, (QS(v, LEN(v)),))])]
e = Leaf('enum', t_enum, lambda s, v: [(true, (SYM(v),))])
e.contracts = [(r'^classdesc::Enum_handle<.*>::Enum_handle\(', lambda ex, st, ci: (ex.store(st, ci.args[0], ci.args[1], TPtr()), ret(st))[1]),
               (r'^classdesc::Enum_handle<.*>::operator std::__cxx11::basic_string', lambda ex, st, ci: h_sym(ex, st, type('C', (), {'args': [ci.args[0], ex.load(st, ci.args[1], TPtr())]})))] + WRITE
leaves += [e]
e = Leaf('cdata', t_cdata, lambda s, v: [(true, (CD(v),))])
e.contracts = [(r'^classdesc::operator<<\(', h_cdata)] + WRITE
leaves += [e]


def aborted(t, nm):
    import copy
    r = copy.copy(t)
    r.abort, r.name, r.must = True, t.name + ' aborted', ('throw',)
    return r


leaves += [aborted(leaves[0], 'int')]

SEQ = z3.Function('elements', Str, I, Str)     # SEQ(b,0)=b; SEQ(b,i+1)=SEQ(b,i)+element i
EV2 = z3.Function('pair element', Str, I, Val, Val, Str)


def h_pair(ex, st, ci):
    p, t = ci.args[2], ex.task
    lev = ex.load(st, Ptr(t.x, 0, t.m['taglevel']), TInt(32)).s_()
    vals = [elem_val(ex, st, Ptr(p.reg, p.idx, p.off + o)) for o in (0, 4)]
    if None in vals: return []
    if p.reg.kind == 'arr': t.seen(ex, st, z(p.idx))
    put(st, Ptr(t.o), (EV2(term(xs(ex, st, ci.args[1])), z(lev), *vals),))
    return ret(st)


class Elems(Write):
    """a container: start tag, the elements in order, end tag"""
    must = ('ret',)
    names = {'Elem': 'Elem', 'pair': 'pair'}

    def __init__(s, kind):
        from contracts.pack_stl import SHAPES
        s.kind = kind
        s.sh = [v for v in SHAPES.values() if v.kind == kind][0]
        s.name, s.func = 'xml_pack(%s)' % kind, '^ccv_pack_%s$' % kind
        s.contracts = ITEM + WRITE if s.sh.s == 1 else [(r'^void (classdesc::)?xml_pack<std::pair<.*> ?(const)?>\(classdesc::xml_pack_t&, std::__cxx11::basic_string<.*> const&, std::pair<.*&\)$', h_pair)] + WRITE

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        s.p, s.reg = mk_seq(ex, st, s.kind, 'a', s.sh.elemsize, s.sh.lay())
        s.n = st.mem[s.reg].len
        s.vals = [st.mem[s.reg].arr[o][1] for o, t in s.sh.fields]
        s.common(st)
        return a + [s.p]

    def common(s, st):
        b = z3.Const('b!q', Str)
        st.assume(z3.ForAll([b], SEQ(b, 0) == b, patterns=[SEQ(b, 0)]))
        s.inlev = z3.If(s.lev < LEVEL(s.dt), LEVEL(s.dt), s.lev)

    def ev(s, i):
        if s.sh.s == 1: return EV(1, term((s.dt, '.Elem')), s.inlev, s.vals[0](i))
        return EV2(term((s.dt, '.pair')), s.inlev, s.vals[0](i), s.vals[1](i))

    def seen(s, ex, st, i):
        b, j = z3.Const('b!q', Str), fresh('i')
        st.assume(j == i, z3.ForAll([b], SEQ(b, j + 1) == CAT(SEQ(b, j), s.ev(i)), patterns=[SEQ(b, j)]))

    def loops(s, c):
        from contracts.pack_stl import sources
        out = []
        key = skey(Ptr(s.o))
        for nm, g in sources(c):
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 0, i <= s.n))
            mk('written so far', lambda c, i: term(c.st.ghost[key].parts) == SEQ(term(c.entry.ghost[key].parts), i))
        return out

    def post(s, ex, o, variant):
        ob(ex, o, 'no exception', o.kind == 'ret')
        for cond, pr, tg, sc in s.case():
            want = (SEQ(term(s.o0 + s.open(pr, tg, sc)), s.n),) + s.close(pr, tg)
            ob(ex, o, 'tag, elements in order, end tag (%s%s%s)' % ('pretty ' if pr else '', 'tag ' if tg else '', 'schema' if sc else ''), z3.Implies(cond, term(s.written(o)) == term(want)))
        s.fin(ex, o)


class ArrX(Elems):
    def __init__(s, dims):
        s.dims = dims
        s.name, s.func = 'xml_pack(Elem%s)' % ('[]' * dims), '^ccv_pack_arr%d$' % dims
        from contracts.pack_stl import Seq
        s.contracts = ITEM + WRITE
        s.sh = Seq('vector', [(0, 1)])

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        n = sym_int(ex, st, 'n', 64, ADDR)
        ext = [n]
        s.n = n.e
        st.assume(n.e >= 1)
        for j in range(1, s.dims):
            m = sym_int(ex, st, 'm%d' % j, 32, 1 << 31)
            ext.append(m)
            st.assume(m.e >= 1, s.n < ADDR)
            s.n = s.n * m.e
        st.assume(s.n >= 0, s.n * 4 < ADDR)
        s.reg = new_storage(ex, st, 'a', 4, {0: 'val'}, s.n)
        s.vals = [st.mem[s.reg].arr[0][1]]
        s.common(st)
        return a + [Ptr(s.reg)] + ext


class PairX(Write):
    name, func = 'xml_pack(pair)', '^ccv_pack_pair$'
    contracts = ITEM + WRITE
    must = ('ret',)

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        r = ex.alloc(st, 'a', 'cells', size=8)
        s.v = [fresh('first', Val), fresh('second', Val)]
        for i in (0, 1): st.rw(r).cells[4 * i] = (4, ValV(s.v[i]))
        s.inlev = z3.If(s.lev < LEVEL(s.dt), LEVEL(s.dt), s.lev)
        return a + [Ptr(r)]

    def body(s): return (EV(2, term((s.dt, '.first')), s.inlev, s.v[0]), EV(1, term((s.dt, '.second')), s.inlev, s.v[1]))

    def post(s, ex, o, variant):
        ob(ex, o, 'no exception', o.kind == 'ret')
        for cond, pr, tg, sc in s.case():
            want = s.o0 + s.open(pr, tg, sc) + s.body() + s.close(pr, tg)
            ob(ex, o, 'tag, members in order, end tag (%s%s%s)' % ('pretty ' if pr else '', 'tag ' if tg else '', 'schema' if sc else ''), z3.Implies(cond, term(s.written(o)) == term(want)))
        s.fin(ex, o)


class ElemX(PairX):
    name, func = 'xml_pack(class)', '^ccv_pack_elem$'
    contracts = WRITE

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        r = ex.alloc(st, 'a', 'cells', size=4)
        s.v = fresh('a', Val)
        st.rw(r).cells[0] = (4, ValV(s.v))
        s.inlev = z3.If(s.lev < LEVEL(s.dt), LEVEL(s.dt), s.lev)
        return a + [Ptr(r)]

    def body(s): return (EV(1, s.dt, s.inlev, s.v),)


DOTS = z3.Function('dots', Str, I, I)          # number of '.' among the first i characters


class Level(Write):
    """level(d): 0 for the empty path, otherwise one more than the number of dots"""
    name, func = 'xml_pack_t::level', CLS + r'level\('
    contracts = REGX
    must = ('ret',)

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        e = s.dt
        k = z3.Int('k!l')
        st.assume(LEN(e) >= 0, LEN(e) < 1 << 30)
        st.assume(z3.ForAll([k], z3.Implies(And(k >= 0, k < LEN(e)), CH(e, k) != 0), patterns=[CH(e, k)]))      # a path has no NUL in it
        st.assume(DOTS(e, 0) == 0)
        st.assume(z3.ForAll([k], z3.Implies(k >= 0, DOTS(e, k + 1) == DOTS(e, k) + z3.If(CH(e, k) == ord('.'), 1, 0)), patterns=[CH(e, k)]))
        return a

    def loops(s, c):
        from contracts.pack_stl import sources
        out = []
        e = s.dt
        src = sources(c)
        for nm, g in src:
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 0, i <= LEN(e)))
            mk('count', lambda c, i: And(DOTS(e, i) >= 0, DOTS(e, i) <= i))
            mk('unfold', lambda c, i: z3.Implies(And(i >= 0, i <= LEN(e)), DOTS(e, i + 1) == DOTS(e, i) + z3.If(CH(e, i) == ord('.'), 1, 0)))
            for nm2, g2 in src:
                if nm2 != nm:
                    for k in (0, 1): out.append(('dots(%s,%s,%d)' % (nm, nm2, k), lambda c, g=g, g2=g2, k=k: None if g(c) is None or g2(c) is None else g2(c) == DOTS(e, g(c)) + k))
        return out

    def post(s, ex, o, variant):
        ob(ex, o, 'no exception', o.kind == 'ret')
        if o.kind == 'ret': ob(ex, o, 'number of components', o.val.s_() == z3.If(LEN(s.dt) == 0, 0, 1 + DOTS(s.dt, LEN(s.dt))))
        frame(ex, o, ex.st0)


writes = leaves + [Elems(k) for k in ('vector', 'list', 'deque', 'set', 'multiset', 'map', 'multimap')] + [ArrX(k) for k in range(1, 6)] + [PairX(), ElemX(), Level()]

ISNAN, ISINF = z3.Function('isnan', Fl, B), z3.Function('isinf', Fl, B)
NEG = lambda e, w: z3.Function('fcmp_olt', Fl, Fl, B)(e, z3.Const('fc_%s_0.000000e+00' % ('float' if w == 32 else 'double'), Fl))


def t_flt(w):
    def f(s, ex, st):
        r = ex.alloc(st, 'a', 'cells', size=w // 8)
        e = fresh('a', Fl)
        st.rw(r).cells[0] = (w // 8, FloatV('float' if w == 32 else 'double', e))
        st.assume(z3.Not(And(ISNAN(e), ISINF(e))))
        return Ptr(r), e
    return f


def t_flt_text(w):
    return lambda s, v: [(ISNAN(v), ('NaN',)), (And(ISINF(v), NEG(v, w)), ('-INF',)), (And(ISINF(v), z3.Not(NEG(v, w))), ('INF',)), (And(z3.Not(ISINF(v)), z3.Not(ISNAN(v))), (FLT(v),))]


FL = [(r'^std::isnan\(', lambda ex, st, ci: ret(st, BoolV(ISNAN(ci.args[0].e)))), (r'^std::isinf\(', lambda ex, st, ci: ret(st, BoolV(ISINF(ci.args[0].e))))]
for n, w in (('float', 32), ('double', 64)):
    e = Leaf(n, t_flt(w), t_flt_text(w))
    e.contracts = FL + WRITE
    writes.append(e)
