"""C08: what xml_unpack reads back.  The parsed document is the pair of maps contentMap (path -> text) and tokenCount (path -> number);
paths are normalised by addHashNoughts (uninterpreted: BASE#NUMBER)."""
from vc import *
from stdlib import *
from stl import *
from task import *
from contracts.strs import *
from contracts.pack_core import sym_int, ob
from contracts.enumkeys import MapV, ENDIDX, it_deref
from contracts.xml import elem_val, SYM, t_int, OBJ

TU = 'xml.cc'
KID = z3.Function('path id', Str, I)
BASE, LAB = z3.Function('path without last label', Str, Str), z3.Function('last label', Str, Str)
NOHASH.add('last label')
PRES, CNT = z3.Function('present', Str, B), z3.Function('number of elements', Str, I)
UV = z3.Function('element read', I, Str, Val, Val)     # type, path, value before
READ = {}                                              # stream extraction by type
SYMVAL = z3.Function('value of symbol', Str, I)
U = r'^(?:void )?classdesc::xml_unpack_t::'


def hashed(e): return (BASE(e), '#', LAB(e))


def h_ahn(ex, st, ci): return sret(ex, st, ci, hashed(term(xs(ex, st, ci.args[2]))))


def gmap(ex, st, p):
    v = ex.getobj(st, p)
    if not isinstance(v, MapV): raise Undecided('not a map: %r' % (v,))
    return v


def m_key(ex, st, p): return KID(term(xs(ex, st, p)))


def m_find(ex, st, ci):
    v = gmap(ex, st, ci.args[0])
    k = m_key(ex, st, ci.args[1])
    dom = st.mem[v.reg].arr[-1][1]
    s2 = st.fork()
    st.assume(dom(k) == 1, k >= 0)
    s2.assume(dom(k) != 1)
    return ret(st, Ptr(v.reg, k)) + ret(s2, Ptr(v.reg, ENDIDX))


def m_end(ex, st, ci): return ret(st, Ptr(gmap(ex, st, ci.args[0]).reg, ENDIDX))


def m_count(ex, st, ci):
    v = gmap(ex, st, ci.args[0])
    return ret(st, IntV(64, z3.If(st.mem[v.reg].arr[-1][1](m_key(ex, st, ci.args[1])) == 1, 1, 0)))


def m_index(ex, st, ci):
    v = gmap(ex, st, ci.args[0])
    k = m_key(ex, st, ci.args[1])
    rs = st.rw(v.reg)
    dom = rs.arr[-1][1]
    fty, vf = rs.arr[32]
    st.log((v.reg, 'arr', -1)); st.log((v.reg, 'arr', 32))
    rs.arr[-1] = (1, lambda x: z3.If(x == k, 1, dom(x)))
    z0 = lit('') if fty == 'str' else z3.IntVal(0)
    rs.arr[32] = (fty, lambda x: z3.If(z3.And(x == k, dom(k) != 1), z0, vf(x)))
    return ret(st, Ptr(v.reg, k, 32))


MP = r'^std::map<.*>::'
MAPS = [(MP + r'operator\[\]\(', m_index), (MP + r'find\(', m_find), (r'^std::map<std::__cxx11.*>::end\(\)( const)?$', m_end), (MP + r'count\(', m_count), (IT + r'operator(\*|->)\(\) const$', it_deref)]
PATHS = [(r'^classdesc::xml_unpack_t::addHashNoughts\(', h_ahn)] + MAPS


def h_present(ex, st, ci): return ret(st, BoolV(PRES(term(xs(ex, st, ci.args[1])))))


def h_count(ex, st, ci):
    e = CNT(term(xs(ex, st, ci.args[1])))
    st.assume(e >= 0, e < 1 << 32)
    return ret(st, IntV(64, e))


def fresh_elem(v): return v is UNDEF or isinstance(v, IntV) and isint(v.e) and v.e == 0      # default constructed


def h_elem(ex, st, ci):
    tag = OBJ[re.search(r'(\w+)( const)?&\)$', ci.dem).group(1)]
    p = ci.args[2]
    d = term(xs(ex, st, ci.args[1]))
    if p.reg is not None and p.reg.kind == 'cells' and fresh_elem(st.mem[p.reg].cells.get(p.idx + p.off, (0, UNDEF))[1]):
        old = UNDEFVAL
    else:
        old = elem_val(ex, st, p)
        if old is None: return []
    x = UV(tag, d, old)
    if p.reg.kind == 'arr':
        rs = st.rw(p.reg)
        fn = rs.arr[p.off][1]
        i = z(p.idx)
        rs.arr[p.off] = ('val', lambda k: z3.If(k == i, x, fn(k)))
        st.log((p.reg, 'arr', p.off))
    else: ex.setcell(st, p.reg, p.idx + p.off, 4, ValV(x))
    return ret(st)


UNDEFVAL = z3.Const('default element', Val)
READS = [(r'^classdesc::xml_unpack_t::present\(', h_present), (r'^classdesc::xml_unpack_t::count\(', h_count), (r'^ccv_xunpack\(', h_elem)] + PATHS + REGX


def mk_map(ex, st, nm, text):
    m = ex.alloc(st, nm, 'arr', elemsize=40)
    D, A = fresh(nm + '.dom', z3.ArraySort(I, I)), fresh(nm + '.val', z3.ArraySort(I, Str if text else I))
    k = z3.Int('k!t')
    if not text: st.assume(z3.ForAll([k], And(z3.Select(A, k) >= 0, z3.Select(A, k) < (1 << 32)), patterns=[z3.Select(A, k)]))
    st.rw(m).arr.update({-1: (1, lambda k, D=D: z3.Select(D, k)), 32: ('str' if text else 4, lambda k, A=A: z3.Select(A, k))})
    return m


class Read(Task):
    tu = TU
    contracts = READS
    missing = None                # missingException

    def mk(s, ex, st):
        m = s.m = ex.mod.members['xml_unpack_t']
        s.x = ex.alloc(st, 'xml_unpack', 'cells', size=104)
        s.cm, s.tc = mk_map(ex, st, 'contentMap', True), mk_map(ex, st, 'tokenCount', False)
        c = st.rw(s.x).cells
        c[m['contentMap']] = (48, MapV(s.cm, True))
        c[m['tokenCount']] = (48, MapV(s.tc, True))
        s.me = z3.Bool('missingException')
        c[m['missingException']] = (1, BoolV(s.me))
        s.d, _ = mk_text(ex, st, 'd')
        s.dt = z3.Const('d', Str)
        st.assume(LEN(s.dt) >= 0)
        kid = KID(term(hashed(s.dt)))
        s.has = st.mem[s.cm].arr[-1][1](kid) == 1
        s.text = st.mem[s.cm].arr[32][1](kid)
        return [Ptr(s.x), s.d]

    def fin(s, ex, o, allowed=()): frame(ex, o, ex.st0, {s.tc} | set(allowed))


class Plain(Read):
    """fundamental types"""
    must = ('ret', 'throw')

    def __init__(s, nm, ty, val):
        s.name, s.func, s.ty, s.val = 'xml_unpack(%s)' % nm, '^ccv_unpack_%s$' % nm, ty, val

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        s.p, s.v = s.ty(s, ex, st)
        return a + [s.p]

    def newval(s, o):
        v = o.st.mem[s.p.reg].cells[0][1]
        return v.e if isinstance(v, FloatV) else term(v.parts) if isinstance(v, StrX) else z(v.u())

    def oldval(s, ex):
        v = ex.st0.mem[s.p.reg].cells[0][1]
        return v.e if isinstance(v, FloatV) else term(v.parts) if isinstance(v, StrX) else z(v.u())

    def keyfor(s): return term(hashed(s.dt))

    def post(s, ex, o, variant):
        there = Or(s.has, PRES(s.keyfor()))
        ob(ex, o, 'exception exactly if asked for and the data is missing', (o.kind == 'throw') == And(s.me, z3.Not(there)))
        n, old = s.newval(o), s.oldval(ex)
        if o.kind == 'ret':
            ob(ex, o, 'value read', z3.Implies(s.has, s.val(s, n)))
            s.absent(ex, o, n, old)
        else: ob(ex, o, 'value unchanged by failure', n == old)
        s.fin(ex, o, {(s.p.reg, 0)})

    def absent(s, ex, o, n, old): ob(ex, o, 'value unchanged if not in the stream', z3.Implies(z3.Not(s.has), n == old))


def rd(ty, sort=I): return READ.setdefault(ty, z3.Function('read_' + ty.replace(' ', '_'), Str, sort))


def iss(ex, st, ci):
    st.ghost[('in', skey(ci.args[0]))] = term(xs(ex, st, ci.args[1]))
    return ret(st)


def iss_get(ex, st, ci):
    g = st.ghost.get(('in', skey(ci.args[0])))
    if g is None: raise Undecided('input stream')
    ty = re.search(r'(\w[\w ]*)&\)$', ci.dem).group(1)
    p = ci.args[1]
    old = st.mem[p.reg].cells.get(p.idx + p.off)
    if ty in ('float', 'double'):
        ex.store(st, p, FloatV(ty, rd(ty, Fl)(g)), TFloat(ty))
        return ret(st, ci.args[0])
    w = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32}.get(ty, 64)
    e = rd(ty)(g)
    st.assume(e >= 0, e < 1 << w)
    ex.store(st, p, IntV(w, e), TInt(w))
    del st.ghost[('in', skey(ci.args[0]))]
    return ret(st, ci.args[0])


ISS = r'^std::__cxx11::basic_istringstream<char, std::char_traits<char>, std::allocator<char> ?>::'
Plain.contracts = [(ISS + r'basic_istringstream\(std::__cxx11::basic_string<.*> const&, ', iss), (ISS + r'~basic_istringstream\(\)$', lambda ex, st, ci: ret(st)),
                   (r'^(?:std::istream|std::basic_istream<char.*>)::operator>>\((?:short|unsigned short|int|unsigned int|long|unsigned long|long long|unsigned long long|float|double)&\)$', iss_get),
                   (r'std::operator>> ?<.*>\(std::basic_istream<.*>&, (?:signed char|unsigned char|char)&\)$', iss_get)] + READS


def t_val(w, size=None):
    def f(s, ex, st):
        p, e = t_int(w, 0)(s, ex, st)
        return p, e
    return f


def t_flt(k, n):
    def f(s, ex, st):
        r = ex.alloc(st, 'a', 'cells', size=n)
        e = fresh('a', Fl)
        st.rw(r).cells[0] = (n, FloatV(k, e))
        return Ptr(r), e
    return f


def t_txt(s, ex, st):
    p, _ = mk_text(ex, st, 'a')
    return p, z3.Const('a', Str)


plain = [Plain(n, t_int(w, 0), lambda s, v, ty=ty: v == rd(ty)(s.text)) for n, ty, w in
         (('int', 'int', 32), ('unsigned', 'unsigned int', 32), ('short', 'short', 16), ('ushort', 'unsigned short', 16), ('long', 'long', 64), ('ulong', 'unsigned long', 64),
          ('llong', 'long long', 64), ('ullong', 'unsigned long long', 64))]
plain += [Plain(n, t_int(8, 0), lambda s, v, ty=ty: z3.If(LEN(s.text) == 1, v == CH(s.text, 0), v == rd(ty)(s.text))) for n, ty in (('char', 'char'), ('schar', 'signed char'), ('uchar', 'unsigned char'))]
plain += [Plain(k, t_flt(k, n), lambda s, v, k=k: v == rd(k, Fl)(s.text)) for k, n in (('float', 4), ('double', 8))]


class Text(Plain):
    def absent(s, ex, o, n, old):
        ob(ex, o, 'an element without content is the empty string', z3.Implies(And(z3.Not(s.has), PRES(s.keyfor())), n == lit('')))
        ob(ex, o, 'value unchanged if not in the stream', z3.Implies(And(z3.Not(s.has), z3.Not(PRES(s.keyfor()))), n == old))


plain += [Text(n, t_txt, lambda s, v: v == s.text) for n in ('string', 'cdata')]


# ---------------------------------------------------------------- bool: every text that xml_pack writes, and the other accepted words
TRUE_WORDS, FALSE_WORDS = ('true', '1', 't', 'y', 'yes', 'on', ' TRUE\n', 'T', '\tYes ', 'On'), ('false', '0', '', 'f', 'no', 'off', ' False ', '2', 'tru', 'truee')


class Bool(Read):
    name, func = 'xml_unpack(bool)', '^ccv_unpack_bool$'
    variants = TRUE_WORDS + FALSE_WORDS
    must = ('ret', 'throw')

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        kid = KID(term(hashed(s.dt)))
        rs = st.rw(s.cm)
        fn = rs.arr[32][1]
        s.p, s.v = t_int(8, 0)(s, ex, st)
        st.assume(s.v < 2, kid >= 0)
        # the content is known: a text object holding the word
        s.word = ex.alloc(st, 'word', 'cells', size=32)
        st.rw(s.word).cells[0] = (32, StrX((variant,)))
        return a + [s.p]

    def post(s, ex, o, variant):
        there = Or(s.has, PRES(term(hashed(s.dt))))
        ob(ex, o, 'exception exactly if asked for and the data is missing', (o.kind == 'throw') == And(s.me, z3.Not(there)))
        n = z(ex.toint(o.st.mem[s.p.reg].cells[0][1], 8).u())
        if o.kind == 'ret':
            ob(ex, o, 'value of "%s"' % variant.strip(), z3.Implies(s.has, n == (1 if variant in TRUE_WORDS else 0)))
            ob(ex, o, 'value unchanged if not in the stream', z3.Implies(z3.Not(s.has), n == s.v))
        else: ob(ex, o, 'value unchanged by failure', n == s.v)
        s.fin(ex, o, {(s.p.reg, 0)})


def h_deref_word(ex, st, ci):
    p = it_get(ex, st, ci.args[0])
    ex.oblige(st, 'iterator-dereferenceable', And(z(p.idx) != ENDIDX, st.mem[p.reg].arr[-1][1](z(p.idx)) == 1, z(p.idx) == KID(term(hashed(ex.task.dt)))), 'safety')
    return ret(st, Ptr(ex.task.word, 0, -32))


Bool.contracts = [(IT + r'operator(\*|->)\(\) const$', h_deref_word)] + READS


# ---------------------------------------------------------------- enums
class EnumR(Plain):
    def __init__(s): s.name, s.func, s.ty = 'xml_unpack(enum)', '^ccv_unpack_enum$', t_int(32, 0)

    def post(s, ex, o, variant):
        there = Or(s.has, PRES(s.keyfor()))
        ob(ex, o, 'exception exactly if asked for and the data is missing', (o.kind == 'throw') == And(s.me, z3.Not(there)))
        n, old = s.newval(o), s.oldval(ex)
        if o.kind == 'ret':
            ob(ex, o, 'value of the symbol, white space removed', z3.Implies(And(s.has, PRES(s.dt)), n == SYMVAL(NOSP(s.text))))
            ob(ex, o, 'value unchanged if not in the stream', z3.Implies(z3.Not(PRES(s.dt)), n == old))
        else: ob(ex, o, 'value unchanged by failure', n == old)
        s.fin(ex, o, {(s.p.reg, 0)})


def h_eh(ex, st, ci):
    ex.store(st, ci.args[0], ci.args[1], TPtr())
    return ret(st)


def h_ehcopy(ex, st, ci):
    ex.store(st, ci.args[0], ex.load(st, ci.args[1], TPtr()), TPtr())
    return ret(st)


def h_eset(ex, st, ci):
    p = ex.load(st, ci.args[0], TPtr())
    e = SYMVAL(term(xs(ex, st, ci.args[1])))
    st.assume(e >= 0, e < 1 << 32)
    ex.store(st, p, IntV(32, e), TInt(32))
    return ret(st, ci.args[0])


EnumR.contracts = [(r'^classdesc::Enum_handle<.*>::Enum_handle\(classdesc::Enum_handle', h_ehcopy), (r'^classdesc::Enum_handle<.*>::Enum_handle\(', h_eh),
                   (r'^classdesc::Enum_handle<.*>::operator=\(std::__cxx11::basic_string', h_eset)] + Plain.contracts


# ---------------------------------------------------------------- containers
class Cont(Read):
    must = ('ret',)

    def __init__(s, kind):
        from contracts.pack_stl import SHAPES
        s.kind = kind
        s.sh = [v for v in SHAPES.values() if v.kind == kind][0]
        s.name, s.func = 'xml_unpack(%s)' % kind, '^ccv_unpack_%s$' % kind

    def layout(s, ex, dem): return s.sh.elemsize, s.sh.lay()

    def path(s, i): return ('.Elem' if s.sh.s == 1 else '.pair',)

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        s.p, s.reg = mk_seq(ex, st, s.kind, 'a', s.sh.elemsize, s.sh.lay())
        s.n0 = st.mem[s.reg].len
        s.old = {o: f[1] for o, f in st.mem[s.reg].arr.items()}
        s.names(st)
        return a + [s.p]

    def names(s, st):
        s.elt = '.Elem' if s.sh.s == 1 else '.pair'
        s.assoc = s.kind in ('set', 'multiset', 'map', 'multimap')
        s.empty = LEN(s.dt) == 0
        s.cnt = CNT(term((s.dt, s.elt)))
        # an associative container at the top has no leading dot
        if s.assoc: st.assume(z3.Not(s.empty))
        st.assume(s.cnt >= 0, s.cnt < 1 << 32)
        k = z3.Int('k!v')
        if s.kind in ('set', 'map'): st.assume(z3.ForAll([k], z3.Implies(And(k >= 0, k + 1 < s.cnt), LT(s.vkey(k), s.vkey(k + 1)))))
        if s.kind in ('multiset', 'multimap'): st.assume(z3.ForAll([k], z3.Implies(And(k >= 0, k + 1 < s.cnt), z3.Not(LT(s.vkey(k + 1), s.vkey(k))))))

    def vkey(s, i): return s.val(0, i, UNDEFVAL)

    def val(s, off, i, old):
        """the element read at position i"""
        if s.sh.s == 1: return UV(1, term((s.dt, s.elt + '#', DEC(i))), old)
        return UV((2, 1)[off // 4], term((s.dt, s.elt + '#', DEC(i), ('.first', '.second')[off // 4])), old)

    def ready(s, c): return c.st.mem[s.reg].len

    def loops(s, c):
        from contracts.pack_stl import sources
        out = []
        for nm, g in sources(c):
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 0, i <= s.cnt))
            if s.assoc:
                mk('count', lambda c, i: c.st.mem[s.reg].len == i)
                mk('order', lambda c, i: z3.Implies(And(i >= 1, i < s.cnt), LT(s.vkey(i - 1), s.vkey(i)) if s.kind in ('set', 'map') else z3.Not(LT(s.vkey(i), s.vkey(i - 1)))))
                for o, t in s.sh.fields: mk('elements read %d' % o, lambda c, i, o=o: s.all(i, lambda k: c.st.mem[s.reg].arr[o][1](k) == s.val(o, k, UNDEFVAL)))
            else:
                mk('elements read', lambda c, i: s.all(i, lambda k: c.st.mem[s.reg].arr[0][1](k) == s.val(0, k, c.entry.mem[s.reg].arr[0][1](k))))
                mk('rest untouched', lambda c, i: s.all(None, lambda k: z3.Implies(k >= i, c.st.mem[s.reg].arr[0][1](k) == c.entry.mem[s.reg].arr[0][1](k))))
        src = sources(c)
        for a, ga in src:
            for b, gb in src:
                if a < b: out.append(('%s==%s' % (a, b), lambda c, ga=ga, gb=gb: None if ga(c) is None or gb(c) is None else ga(c) == gb(c)))
        return out

    def all(s, n, f):
        k = z3.Int('k!a')
        return z3.ForAll([k], z3.Implies(k >= 0 if n is None else And(k >= 0, k < n), f(k)))

    def post(s, ex, o, variant):
        ob(ex, o, 'no exception', o.kind == 'ret')
        rs = o.st.mem[s.reg]
        there = Or(s.empty, PRES(s.dt))
        k = fresh('k')
        ob(ex, o, 'number of elements', z3.Implies(there, rs.len == s.cnt))
        for off, t in s.sh.fields:
            if s.assoc: ob(ex, o, 'elements in order (%d)' % off, z3.Implies(And(there, k >= 0, k < s.cnt), rs.arr[off][1](k) == s.val(off, k, UNDEFVAL)))
            else:
                d = z3.Const('d!v', Val)
                ob(ex, o, 'elements in order (%d)' % off, z3.Implies(And(there, k >= 0, k < s.cnt), z3.Exists([d], rs.arr[off][1](k) == s.val(off, k, d))))
            ob(ex, o, 'unchanged if not in the stream (%d)' % off, z3.Implies(z3.Not(there), And(rs.len == s.n0, rs.arr[off][1](k) == s.old[off](k))))
        s.fin(ex, o, {s.reg, s.p.reg})


class Arr(Cont):
    def __init__(s, dims):
        from contracts.pack_stl import Seq
        s.dims, s.kind, s.sh = dims, 'array', Seq('vector', [(0, 1)])
        s.name, s.func = 'xml_unpack(Elem%s)' % ('[]' * dims), '^ccv_unpack_arr%d$' % dims

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        n = sym_int(ex, st, 'n', 64, ADDR)
        ext = [n]
        s.n = n.e
        st.assume(n.e >= 1)
        for j in range(1, s.dims):
            m = sym_int(ex, st, 'm%d' % j, 32, 1 << 31)
            ext.append(m)
            st.assume(m.e >= 1, s.n < ADDR)
            s.n = s.n * m.e
        st.assume(s.n >= 0, s.n * 4 < ADDR)
        s.reg = new_storage(ex, st, 'a', 4, {0: 'val'}, s.n)
        s.old = {0: st.mem[s.reg].arr[0][1]}
        s.names(st)
        s.cnt = s.n
        return a + [Ptr(s.reg)] + ext

    def post(s, ex, o, variant):
        ob(ex, o, 'no exception', o.kind == 'ret')
        k = fresh('k')
        ob(ex, o, 'every element read', z3.Implies(And(k >= 0, k < s.n), o.st.mem[s.reg].arr[0][1](k) == s.val(0, k, s.old[0](k))))
        s.fin(ex, o, {s.reg})


class PairR(Read):
    name, func = 'xml_unpack(pair)', '^ccv_unpack_pair$'

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        s.r = ex.alloc(st, 'a', 'cells', size=8)
        s.v = [fresh('first', Val), fresh('second', Val)]
        for i in (0, 1): st.rw(s.r).cells[4 * i] = (4, ValV(s.v[i]))
        return a + [Ptr(s.r)]

    def post(s, ex, o, variant):
        ob(ex, o, 'no exception', o.kind == 'ret')
        for i in (0, 1): ob(ex, o, ('first', 'second')[i], o.st.mem[s.r].cells[4 * i][1].e == UV(2 - i, term((s.dt, ('.first', '.second')[i])), s.v[i]))
        s.fin(ex, o, {s.r})


class ElemR(PairR):
    name, func = 'xml_unpack(class)', '^ccv_unpack_elem$'

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        s.r = ex.alloc(st, 'a', 'cells', size=4)
        s.v = fresh('a', Val)
        st.rw(s.r).cells[0] = (4, ValV(s.v))
        return a + [Ptr(s.r)]

    def post(s, ex, o, variant):
        ob(ex, o, 'no exception', o.kind == 'ret')
        ob(ex, o, 'read by its own descriptor', o.st.mem[s.r].cells[0][1].e == UV(1, s.dt, s.v))
        s.fin(ex, o, {s.r})


# ---------------------------------------------------------------- present, count, exists
class Present(Read):
    name, func = 'xml_unpack_t::present', r'^classdesc::xml_unpack_t::present\('
    contracts = PATHS + REGX

    def post(s, ex, o, variant):
        ob(ex, o, 'no exception', o.kind == 'ret')
        if o.kind != 'ret': return
        ob(ex, o, 'result', ex.truth(o.val) == s.want())
        s.fin(ex, o, {s.d.reg})

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        rs = st.mem[s.tc]
        s.dom, s.num = rs.arr[-1][1], rs.arr[32][1]
        s.k = KID(BASE(s.dt))
        st.assume(s.k >= 0)
        return a

    def want(s): return And(s.dom(s.k) == 1, NUM(LAB(s.dt)) < s.num(s.k))


class Count(Present):
    name, func = 'xml_unpack_t::count', r'^classdesc::xml_unpack_t::count\('

    def post(s, ex, o, variant):
        ob(ex, o, 'no exception', o.kind == 'ret')
        if o.kind != 'ret': return
        ob(ex, o, 'number of elements', o.val.u() == z3.If(s.dom(s.k) == 1, s.num(s.k), 0))
        d, n = o.st.mem[s.tc].arr[-1][1], o.st.mem[s.tc].arr[32][1]
        k = fresh('k')
        st = o.st
        ob(ex, o, 'other counts unchanged', z3.If(d(k) == 1, n(k), 0) == z3.If(s.dom(k) == 1, s.num(k), 0))
        s.fin(ex, o, {s.d.reg})


reads = plain + [Bool(), EnumR(), Present(), Count(), PairR(), ElemR()] + [Cont(k) for k in ('vector', 'list', 'deque', 'set', 'multiset', 'map', 'multimap')] + [Arr(k) for k in range(1, 6)]


# ---------------------------------------------------------------- addHashNoughts, character by character
SUB = z3.Function('substring', I, I, Str)                     # of the key
T_, H_ = z3.Function('normalised prefix', I, Str), z3.Function('label read', I, B)


def h_sub(ex, st, ci):
    a, n = z(ci.args[2].u()), z(ci.args[3].u())
    l = LEN(ex.task.dt)
    ex.oblige(st, 'substr position', And(a >= 0, a <= l), 'safety')
    return sret(ex, st, ci, (SUB(a, z3.If(a + n > l, l, a + n)),))


def h_at(ex, st, ci):
    ex.task.seen(ex, st, z(ci.args[1].u()))
    return xindex(ex, st, ci)


class Norm(Read):
    """"#0" is inserted at the end of every component that has no label"""
    ematch = True
    name, func = 'xml_unpack_t::addHashNoughts', r'^classdesc::xml_unpack_t::addHashNoughts\('
    contracts = [(S + r'substr\(unsigned long, unsigned long\) const$', h_sub), (S + r'operator\[\]\(unsigned long\)( const)?$', h_at)] + REGX
    must = ('ret',)

    def seen(s, ex, st, k):
        """the definitions, at position k"""
        e, x, i = s.dt, z3.Const('x!n', Str), z3.Int('i!n')
        c, inr = CH(e, k), And(k >= 0, k < LEN(e))
        hash, dot = ord('#'), ord('.')
        st.assume(H_(k + 1) == z3.If(c == hash, True, z3.If(c == dot, False, H_(k))))
        st.assume(T_(k + 1) == z3.If(And(c == dot, z3.Not(H_(k))), CAT(CAT(T_(k), lit('#0')), CHR(c)), CAT(T_(k), CHR(c))))
        st.assume(z3.ForAll([x, i], z3.Implies(And(0 <= i, i <= k, inr), CAT(x, SUB(i, k + 1)) == CAT(CAT(x, SUB(i, k)), CHR(c))), patterns=[CAT(x, SUB(i, k + 1))]))

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        s.res = ex.alloc(st, 'result', 'cells', size=32)
        e, k, x, i = s.dt, z3.Int('k!n'), z3.Const('x!n', Str), z3.Int('i!n')
        st.assume(LEN(e) < 1 << 30)
        st.assume(T_(0) == lit(''), H_(0) == False)
        hash, dot = ord('#'), ord('.')
        st.assume(z3.ForAll([x, i], CAT(x, SUB(i, i)) == x, patterns=[CAT(x, SUB(i, i))]))
        s.seen(ex, st, z3.IntVal(0))
        return [Ptr(s.res)] + a

    def loops(s, c):
        from contracts.pack_stl import sources
        e = s.dt
        out = []
        src = sources(c)
        txt = [(reg, off) for (reg, off) in [(m[0], m[2]) for m in c.modset if m[0] != 'ghost' and m[1] == 'cell'] if off in c.st.mem[reg].cells and isinstance(c.st.mem[reg].cells[off][1], StrX)]
        flags = [nm for nm, v in c.phis.items() if isinstance(v, BoolV) or isinstance(v, IntV) and v.w <= 8]
        for f in flags: out.append(('bool %s' % f, lambda c, f=f: True if isinstance(c.phis[f], BoolV) else z(c.phis[f].u()) <= 1))
        for nm, g in src:
            if nm in flags: continue
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 0, i <= LEN(e) + 1))
            mk('at most length', lambda c, i: i <= LEN(e))
            mk('unfold', lambda c, i: z3.Implies(And(i >= 0, i <= LEN(e)), CH(e, i) == CH(e, i)))
            for f in flags: mk('label read %s' % f, lambda c, i, f=f: None if c.phis.get(f) is None else Or(i > LEN(e), ex_truth(s, c.phis[f]) == H_(i)))
            for f in flags: mk('label read at end %s' % f, lambda c, i, f=f: None if c.phis.get(f) is None else Or(i <= LEN(e), ex_truth(s, c.phis[f]) == H_(LEN(e))))
            for nm2, g2 in src:
                if nm2 == nm or nm2 in flags: continue
                mk('not after %s' % nm2, lambda c, i, g2=g2: i <= g2(c))
                for reg, off in txt:
                    T = lambda c, reg=reg, off=off: (lambda t: None if t is None else t)(texteq(c, reg, off))
                    mk('normalised so far %s %s' % (nm2, reg.name), lambda c, i, g2=g2, T=T: None if T(c) is None else Or(g2(c) > LEN(e), CAT(T(c), SUB(i, g2(c))) == T_(g2(c))))
                    mk('normalised at end %s %s' % (nm2, reg.name), lambda c, i, g2=g2, T=T: None if T(c) is None else Or(g2(c) <= LEN(e), CAT(T(c), SUB(i, LEN(e))) == T_(LEN(e))))
        return out

    def post(s, ex, o, variant):
        ob(ex, o, 'no exception', o.kind == 'ret')
        if o.kind != 'ret': return
        n = LEN(s.dt)
        got = term(xs(ex, o.st, Ptr(s.res)))
        ob(ex, o, 'every component gets its label', z3.If(H_(n), got == T_(n), got == CAT(T_(n), lit('#0'))))
        frame(ex, o, ex.st0, {s.res})


def ex_truth(s, v):
    return z(s.ex.truth(v)) if not isinstance(v, BoolV) else v.b


def texteq(c, reg, off):
    v = c.st.mem[reg].cells.get(off)
    return term(v[1].parts) if v is not None and isinstance(v[1], StrX) else None


reads.append(Norm())
