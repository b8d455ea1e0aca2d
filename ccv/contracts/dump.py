"""C20: the text that dump writes (dump_base.h, dump_epilogue.h); texts as in strs.py"""
from contracts.xml import *
from contracts.xml import FL as FLC, SYM
from contracts import strs
from contracts.strs import SUF
from contracts.pack_stl import sources, SHAPES, Seq
from stl import *

TU = 'dump.cc'
HEAD = z3.Function('head of a line', Str, Str)           # what format() writes for a path: a space per dot, the last component, a colon
TAB = z3.Function('number of dots', Str, I)              # what it returns
OBJ_ = z3.Function('members', I, Str, Val, Str)          # what the descriptor of an opaque class writes: class, path, value
SP = z3.Function('spaces after', Str, I, Str)            # SP(b,0)=b; SP(b,n+1)=SP(b,n)+' '
AFTER = z3.Function('after the last dot', Str, I, I)     # of the first i characters
LNUM = {'Elem': 1, 'Key': 2}
MORE = z3.Function('described', I, Str, Val, Str)        # a whole opaque object (HEAD { members })
PAIR = z3.Function('described pair', Str, Val, Val, Str)


def h_format(ex, st, ci):
    e = term(xs(ex, st, ci.args[1]))
    r = put(st, ci.args[0], (HEAD(e),))
    st.assume(TAB(e) >= 0, TAB(e) < 1 << 30)
    return ret(st, IntV(32, TAB(e), 's'))


def opaque(F):
    def h(ex, st, ci):
        tag = LNUM[re.search(r'(\w+)( const)?&\)$', ci.dem).group(1)]
        v = elem_val(ex, st, ci.args[2])
        if v is None: return []
        if ci.args[2].reg.kind == 'arr': ex.task.seen(ex, st, z(ci.args[2].idx))
        put(st, ci.args[0], (F(tag, term(xs(ex, st, ci.args[1])), v),))
        return ret(st)
    return h


def value(ex, st, p):
    """value or number at p"""
    if p.reg.kind == 'arr' and isinstance(st.mem[p.reg].arr.get(p.off, (0,))[0], int):
        v = ex.load(st, p, TInt(32))
        return None if v is None else v.s_()
    if p.reg.kind != 'arr' and isinstance(st.mem[p.reg].cells.get(p.idx + p.off, (0, 0))[1], IntV): return ex.load(st, p, TInt(32)).s_()
    return elem_val(ex, st, p)


PAIRF = {}


def pairf(*vs):
    k = tuple(v.sort().name() for v in vs)
    if k not in PAIRF: PAIRF[k] = z3.Function('described pair ' + '/'.join(k), Str, *[v.sort() for v in vs], Str)
    return PAIRF[k]


def h_pair(ex, st, ci):
    p = ci.args[2]
    vs = [value(ex, st, Ptr(p.reg, p.idx, p.off + o)) for o in (0, 4)]
    if None in vs: return []
    if p.reg.kind == 'arr': ex.task.seen(ex, st, z(p.idx))
    put(st, ci.args[0], (pairf(*vs)(term(xs(ex, st, ci.args[1])), *vs),))
    return ret(st)


def h_bool(ex, st, ci):
    a = ci.args[1]
    e = z3.If(a.b, 1, 0) if isinstance(a, BoolV) else a.u()
    return put(st, ci.args[0], (DEC(e),))


def h_num(ex, st, ci):
    """a number from a container: its place in the sequence is noted"""
    a = ci.args[1]
    t = ex.task
    for e in subterms(a.u()):
        if e.decl().kind() == z3.Z3_OP_SELECT: t.seen(ex, st, e.arg(1))
    return osmem(ex, st, ci)


def subterms(e):
    if isint(e): return []
    return [e] + [y for c in e.children() for y in subterms(c)]


D_ = r'\(classdesc::dump_t&, std::__cxx11::basic_string<.*> const&, '
BOOLC = [(r'^(?:std::ostream|std::basic_ostream<char, std::char_traits<char> ?>)::operator<<\(bool\)', h_bool)]
NUMC = [(r'^(?:std::ostream|std::basic_ostream<char, std::char_traits<char> ?>)::operator<<\(int\)', h_num)]
FMT = [(r'^classdesc::format\(', h_format)]
XD = [(r'^ccv_xdump\(', opaque(OBJ_))]
BASE_ = FMT + XD + BOOLC + REGX
OBJC = [(r'classdesc::dump<(Elem|Key)>' + D_ + r'(Elem|Key) const&\)$', opaque(MORE))]
PAIRC = [(r'classdesc::dump<.*' + D_ + r'std::pair<.*> ?&, classdesc::dummy<\d>\)$', h_pair)]


class Dump(Task):
    tu = TU
    contracts = BASE_
    must = ('ret',)

    def seen(s, ex, st, i): pass

    def mk(s, ex, st):
        s.o = mk_stream(ex, st)
        s.d, _ = mk_text(ex, st, 'd')
        s.dt = z3.Const('d', Str)
        s.o0 = st.ghost[skey(Ptr(s.o))].parts
        st.assume(LEN(s.dt) >= 0)
        return [Ptr(s.o), s.d]

    def written(s, o): return o.st.ghost[skey(Ptr(s.o))].parts

    def line(s, *text): return (HEAD(s.dt),) + text + ('\n',)

    def close(s, t='}'): return (strs.RJ(lit(t), TAB(s.dt) + 2), '\n')

    def wrote(s, ex, o, want, label='written'):
        ob(ex, o, 'no exception', o.kind == 'ret')
        e = teq(s.written(o), s.o0 + tuple(want))
        ob(ex, o, label, e if not isinstance(e, bool) else z3.BoolVal(e))
        frame(ex, o, ex.st0)


class Leaf_(Dump):
    """a value: one line"""
    def __init__(s, nm, ty, text): s.name, s.func, s.ty, s.text = 'dump(%s)' % nm, r'^ccv_dump_%s$' % nm, ty, text

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        s.p, s.v = s.ty(s, ex, st)
        return a + [s.p]

    def post(s, ex, o, variant): s.wrote(ex, o, s.line(*s.text(s.v)))


def t_val(s, ex, st):
    r = ex.alloc(st, 'a', 'cells', size=4)
    v = fresh('a', Val)
    st.rw(r).cells[0] = (4, ValV(v))
    return Ptr(r), v


def t_text(s, ex, st): return mk_text(ex, st, 'a')[0], z3.Const('a', Str)


def t_arg(s, ex, st):
    e = fresh('a')
    st.assume(e >= -(1 << 31), e < 1 << 31)
    return IntV(32, e, 's'), e


dec = lambda v: (DEC(v),)
values = [Leaf_(n, t_int(w, sg), dec) for n, w, sg in (('int', 32, 1), ('unsigned', 32, 0), ('short', 16, 1), ('ushort', 16, 0), ('long', 64, 1), ('ulong', 64, 0), ('llong', 64, 1), ('ullong', 64, 0), ('cint', 32, 1))]
values += [Leaf_(n, t_int(8, 0), lambda v: (CHR(v),)) for n in ('char', 'schar', 'uchar')]


def t_bool(s, ex, st):
    p, e = t_int(8, 0)(s, ex, st)
    st.assume(e <= 1)
    return p, e


values += [Leaf_('bool', t_bool, dec), Leaf_('string', t_text, lambda v: (v,)), Leaf_('static', t_arg, dec)]
values += [Leaf_(n, t_flt(w), lambda v: (FLT(v),)) for n, w in (('float', 32), ('double', 64))]
e = Leaf_('enum', t_enum, lambda v: (SYM(v),))
e.contracts = [(r'^classdesc::Enum_handle<.*>::Enum_handle\(Colour', lambda ex, st, ci: (ex.store(st, ci.args[0], ci.args[1], TPtr()), ret(st))[1]),
               (r'^classdesc::Enum_handle<.*>::operator std::__cxx11::basic_string', lambda ex, st, ci: h_sym(ex, st, type('C', (), {'args': [ci.args[0], ex.load(st, ci.args[1], TPtr())]})))] + BASE_
values += [e]


class Obj_(Leaf_):
    """an object of a class: its members, in braces"""
    def post(s, ex, o, variant): s.wrote(ex, o, (HEAD(s.dt), '{\n', OBJ_(1, s.dt, s.v)) + s.close())


class Nothing_(Leaf_):
    def post(s, ex, o, variant): s.wrote(ex, o, ())


class Method_(Nothing_):
    def setup(s, ex, st, variant): return Leaf_.setup(s, ex, st, variant) + [sym_int(ex, st, 'm', 64), sym_int(ex, st, 'adj', 64)]


values += [Obj_('elem', t_val, None), Obj_('celem', t_val, None), Obj_('base', t_val, None), Nothing_('exclude', t_val, None), Method_('method', t_val, None)]


class Seq_(Dump):
    """a container: a line with the elements (numbers), or each element in braces, in order"""
    def __init__(s, nm, kind, fields):
        s.nm, s.kind, s.fields = nm, kind, fields
        s.name, s.func = 'dump(%s)' % nm, '^ccv_dump_%s$' % nm
        s.num = fields == [4]
        s.contracts = (NUMC if s.num else OBJC + PAIRC) + BASE_

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        s.p, s.reg = mk_seq(ex, st, s.kind, 'a', 4 * len(s.fields), {4 * i: t for i, t in enumerate(s.fields)})
        s.n = st.mem[s.reg].len
        s.common(st)
        return a + [s.p]

    def common(s, st):
        s.vals = [st.mem[s.reg].arr[4 * i][1] for i in range(len(s.fields))]
        b = z3.Const('b!q', Str)
        st.assume(z3.ForAll([b], SEQ(b, 0) == b, patterns=[SEQ(b, 0)]))
        st.assume(TAB(s.dt) >= 0, TAB(s.dt) < 1 << 30)

    def val(s, j, i):
        v = s.vals[j](i)
        return z3.If(v >= 1 << 31, v - (1 << 32), v) if s.fields[j] == 4 else v

    def ev(s, b, i):
        """b followed by element i"""
        if s.num: return term((b, PAD(TAB(s.dt)), DEC(s.val(0, i))))
        p = term((s.dt, '[', DEC(i), ']'))
        vs = [s.val(j, i) for j in range(len(s.fields))]
        t = MORE(1, p, vs[0]) if len(vs) == 1 else pairf(*vs)(p, *vs)
        return term((b,) + s.close('{') + (t,) + s.close('}'))

    def seen(s, ex, st, i):
        b, j = z3.Const('b!q', Str), fresh('i')
        st.assume(j == i, z3.ForAll([b], SEQ(b, j + 1) == s.ev(SEQ(b, j), j), patterns=[SEQ(b, j)]))

    def loops(s, c):
        out = []
        key = skey(Ptr(s.o))
        src = sources(c)
        for nm, g in src:
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 0, i <= s.n))
            mk('written so far', lambda c, i: term(c.st.ghost[key].parts) == SEQ(term(c.entry.ghost[key].parts), i))
            for nm2, g2 in src:
                if nm2 < nm: out.append(('in step(%s,%s)' % (nm, nm2), lambda c, g=g, g2=g2: None if g(c) is None or g2(c) is None else g(c) == g2(c)))
        return out

    def post(s, ex, o, variant):
        b = s.o0 + (HEAD(s.dt),) + (() if s.num else ('\n',))
        want = (SEQ(term(b), s.n),) + (('\n',) if s.num else ())
        ob(ex, o, 'no exception', o.kind == 'ret')
        ob(ex, o, 'all elements in order', term(s.written(o)) == term(want))
        frame(ex, o, ex.st0)


class Arr_(Seq_):
    def __init__(s, nm, dims, fields):
        Seq_.__init__(s, nm + str(dims), 'vector', fields)
        s.dims = dims

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        n = sym_int(ex, st, 'n', 64, ADDR)
        ext = [n]
        s.n = n.e
        st.assume(n.e >= 1)
        for j in range(1, s.dims):
            m = sym_int(ex, st, 'm%d' % j, 32, 1 << 31)
            ext.append(m)
            st.assume(m.e >= 1, s.n < ADDR)
            s.n = s.n * m.e
        st.assume(s.n >= 1, s.n * 4 < ADDR)
        s.reg = new_storage(ex, st, 'a', 4, {0: s.fields[0]}, s.n)
        s.common(st)
        return a + [Ptr(s.reg)] + ext


class Pair_(Dump):
    def __init__(s, nm, fields):
        s.name, s.func, s.fields = 'dump(%s)' % nm, '^ccv_dump_%s$' % nm, fields
        s.contracts = OBJC + BASE_

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        r = ex.alloc(st, 'a', 'cells', size=8)
        s.v = []
        for i, t in enumerate(s.fields):
            if t == 'val': v = fresh('a%d' % i, Val); c = ValV(v)
            else:
                v = fresh('a%d' % i)
                st.assume(v >= -(1 << 31), v < 1 << 31)
                c = IntV(32, v, 's')
            st.rw(r).cells[4 * i] = (4, c)
            s.v.append(v)
        return a + [Ptr(r)]

    def post(s, ex, o, variant):
        a, b = s.v
        first = ('[', DEC(a), ']=') if s.fields[0] == 4 else (MORE(2, term(('[.', s.dt, ']=')), a),)
        s.wrote(ex, o, first + ((DEC(b),) if s.fields[1] == 4 else (MORE(1, s.dt, b),)), 'key, value')


seqs = [Seq_(k, k, ['val']) for k in ('vector', 'list', 'deque', 'set', 'multiset')] + [Seq_('i' + k, k, [4]) for k in ('vector', 'list', 'deque', 'set')]
seqs += [Seq_('map', 'map', ['val', 'val']), Seq_('multimap', 'multimap', ['val', 'val']), Seq_('mapie', 'map', [4, 'val']), Seq_('mapii', 'map', [4, 4])]
seqs += [Pair_('pair', ['val', 'val']), Pair_('pairie', [4, 'val']), Pair_('pairii', [4, 4])]
seqs += [Arr_('arr', k, ['val']) for k in range(1, 6)] + [Arr_('iarr', k, [4]) for k in range(1, 6)]


class Fmt(Dump):
    """format(o,d): a space for each dot of d, what follows the last one, a colon; the number of dots is returned"""
    name, func = 'format', r'^classdesc::format\('
    ematch = True
    contracts = REGX

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        e, k, b = s.dt, z3.Int('k!l'), z3.Const('b!q', Str)
        st.assume(LEN(e) < 1 << 30)
        st.assume(z3.ForAll([k], z3.Implies(And(k >= 0, k < LEN(e)), CH(e, k) != 0), patterns=[CH(e, k)]))      # a path has no NUL in it
        st.assume(DOTS(e, 0) == 0, AFTER(e, 0) == 0)
        st.assume(z3.ForAll([k], z3.Implies(k >= 0, DOTS(e, k + 1) == DOTS(e, k) + z3.If(CH(e, k) == ord('.'), 1, 0)), patterns=[CH(e, k)]))
        st.assume(z3.ForAll([k], z3.Implies(k >= 0, AFTER(e, k + 1) == z3.If(CH(e, k) == ord('.'), k + 1, AFTER(e, k))), patterns=[CH(e, k)]))
        st.assume(z3.ForAll([b], SP(b, 0) == b, patterns=[SP(b, 0)]))
        st.assume(z3.ForAll([b, k], z3.Implies(k >= 0, SP(b, DOTS(e, k) + 1) == CAT(SP(b, DOTS(e, k)), lit(' '))), patterns=[z3.MultiPattern(SP(b, DOTS(e, k)), CH(e, k))]))
        return a

    def loops(s, c):
        out = []
        e = s.dt
        key = skey(Ptr(s.o))
        src = sources(c)
        for nm, g in src:
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 0, i <= LEN(e)))
            mk('count', lambda c, i: And(DOTS(e, i) >= 0, DOTS(e, i) <= i, AFTER(e, i) >= 0, AFTER(e, i) <= i))
            mk('unfold', lambda c, i: z3.Implies(And(i >= 0, i <= LEN(e)), And(DOTS(e, i + 1) == DOTS(e, i) + z3.If(CH(e, i) == ord('.'), 1, 0), AFTER(e, i + 1) == z3.If(CH(e, i) == ord('.'), i + 1, AFTER(e, i)))))
            mk('written so far', lambda c, i: term(c.st.ghost[key].parts) == SP(term(c.entry.ghost[key].parts), DOTS(e, i)))
            for nm2, g2 in src:
                if nm2 != nm:
                    out.append(('dots(%s,%s)' % (nm, nm2), lambda c, g=g, g2=g2: None if g(c) is None or g2(c) is None else g2(c) == DOTS(e, g(c))))
                    out.append(('after(%s,%s)' % (nm, nm2), lambda c, g=g, g2=g2: None if g(c) is None or g2(c) is None else g2(c) == AFTER(e, g(c))))
        return out

    def post(s, ex, o, variant):
        e = s.dt
        ob(ex, o, 'no exception', o.kind == 'ret')
        if o.kind == 'ret': ob(ex, o, 'number of dots', o.val.s_() == DOTS(e, LEN(e)))
        ob(ex, o, 'spaces, last component, colon', term(s.written(o)) == term((SP(term(s.o0), DOTS(e, LEN(e))), SUF(e, AFTER(e, LEN(e))), ':')))
        frame(ex, o, ex.st0)


seqs.append(Fmt())


class Shared_(Dump):
    """a shared_ptr: what it refers to, or null"""
    std = 'c++11'
    variants = ('null', 'object')

    def __init__(s, nm, num): s.name, s.func, s.num, s.contracts = 'dump(%s)' % nm, '^ccv_dump_%s$' % nm, num, OBJC + BASE_

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        r = ex.alloc(st, 'a', 'cells', size=16)
        c = st.rw(r).cells
        c[8] = (8, NULL)
        if variant == 'null': c[0] = (8, NULL)
        else:
            p, s.v = (t_int(32, 1) if s.num else t_val)(s, ex, st)
            c[0] = (8, p)
        return a + [Ptr(r)]

    def post(s, ex, o, variant): s.wrote(ex, o, s.line('null') if variant == 'null' else s.line(DEC(s.v)) if s.num else (MORE(1, s.dt, s.v),))


values += [Shared_('shared', False), Shared_('sharedint', True)]
for t in list(seqs):
    if not isinstance(t, Fmt):
        import copy
        t = copy.copy(t)
        t.std, t.name = 'c++11', t.name + ' (c++11)'
        seqs.append(t)
