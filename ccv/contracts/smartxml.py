"""C07: smart pointers in XML (polyAccessXMLPack.h) and the mixin of polyXMLBase.h.  Paths are texts; what xml_pack_t, xml_unpack_t and the objects do is a contract"""
from contracts.smart import *
from contracts.strs import *
from contracts.smart import *
from contracts.smart import S
TU = 'smartxml.cc'
STD = 'c++11'


class Txt:
    """a text in an event"""
    def __init__(s, parts): s.parts = norm(parts)
    def __repr__(s): return repr(s.parts)


def ev_eq(ex, st, a, b):
    if len(a) != len(b) or a[0] != b[0]: return False
    fs = []
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, Txt): fs.append(isinstance(y, Txt) and teq(x.parts, y.parts))
        elif isinstance(x, str) or isinstance(y, str): fs.append(isinstance(x, str) and isinstance(y, str) and x == y)
        else: fs.append(valeq(ex, x, y))
    return And(*fs)


def expect(ex, o, want):
    got = trace(o.st)
    ob(ex, o, 'calls: %d expected' % len(want), len(got) == len(want))
    if len(got) != len(want): return
    for i, (g, w) in enumerate(zip(got, want)): ob(ex, o, 'calls: %d is %s' % (i, w[0]), ev_eq(ex, o.st, g, w))


def txt(ex, st, p): return Txt(xs(ex, st, p))


def k_tag(ex, st, ci):
    bad = throwing(st)
    t = txt(ex, st, ci.args[2])
    note(st, 'tag', ci.args[1], t)
    ex.setcell(st, ci.args[0].reg, ci.args[0].off, 48, TagV((ci.args[1], t)))
    return bad + ret(st)


class TagV(Ghost):
    def __init__(s, v): s.v = v


def k_endtag(ex, st, ci):
    c = st.mem[ci.args[0].reg].cells.get(ci.args[0].off)
    if not c or not isinstance(c[1], TagV): raise Undecided('tag')
    note(st, 'endtag', *c[1].v)
    return ret(st)


def k_write(ex, st, ci):
    v = ex.load(st, ci.args[2], TInt(32))
    note(st, 'write', ci.args[0], txt(ex, st, ci.args[1]), v)
    return throwing(st) + ret(st)


def k_read(ex, st, ci):
    bad = throwing(st)
    v = sym_int(ex, st, 'value in the stream', 32, signed=True)
    old = ex.load(st, ci.args[2], TInt(32)) if ex.task.uninit is False else None
    ex.store(st, ci.args[2], v, TInt(32))
    note(st, 'read', ci.args[0], txt(ex, st, ci.args[1]), v)
    return bad + ret(st)


def k_count(ex, st, ci):
    t = xs(ex, st, ci.args[1])
    n = fresh('count')
    st.assume(n >= 0); st.assume(n < (1 << 32))
    for p, r in st.ghost.get('counts', ()): st.assume(z3.Implies(teq(p, t), n == r))      # a function of the path
    st.ghost['counts'] = st.ghost.get('counts', ()) + ((norm(t), n),)
    return throwing(st) + ret(st, IntV(64, n))


def k_present(ex, st, ci): raise Undecided('present() of a smart pointer')


def k_contents(ex, st, ci):
    """contents of an object: operator()(stream, path, object)"""
    p = ci.args[3]
    ex.oblige(st, 'object exists', p.reg is not None and st.mem[p.reg].alive and bool(st.ghost.get(('alive', p.reg))), 'safety')
    note(st, 'contents', ci.args[1], txt(ex, st, ci.args[2]), p)
    return throwing(st) + ret(st)


def k_virtual(ex, st, ci):
    alive(ex, st, ci.args[0], 'packing')
    note(st, 'contents', ci.args[1], txt(ex, st, ci.args[2]), ci.args[0])
    return throwing(st) + ret(st)


def k_generic(ex, st, ci):
    """xml_(un)pack of a class: its contents, within its own tag (proved: C09, C08)"""
    p = ci.args[2]
    ex.oblige(st, 'object exists', p.reg is not None and st.mem[p.reg].alive and bool(st.ghost.get(('alive', p.reg))), 'safety')
    note(st, 'whole', ci.args[0], txt(ex, st, ci.args[1]), p)
    return throwing(st) + ret(st)


XCS = [(r'^classdesc::xml_pack_t::Tag::Tag\(', k_tag), (r'^classdesc::xml_pack_t::Tag::~Tag\(\)$', k_endtag), (r'^.*classdesc::xml_pack_t::pack<int>\(', lambda ex, st, ci: k_write(ex, st, ci)), (r'^.*classdesc::xml_unpack_t::unpack<int>\(', k_read),
       (r'^classdesc::xml_unpack_t::count\(', k_count), (r'^classdesc::xml_unpack_t::present\(', k_present),
       (r'^classdesc_access::access_xml_(un)?pack<(Node|X1)>::operator\(\)', k_contents), (r'^(Node|X1)::\1\(', n_ctor), (r'^(Node|X1)::~\1\(\)$', n_dtor),
       (r'^@?virtual_type$', v_type), (r'^@?virtual_(un)?pack$', k_virtual), (r'^@?virtual_delete$', v_delete), (r'^XB::create\(int\)$', create)] + COUNTS

XBV = ('pack', 'unpack', 'destroy', 'delete', 'type')


class X(S):
    contracts = XCS + REGX
    vtable = XBV
    uninit = True

    def streams(s, ex, st):
        s.b = ex.alloc(st, 'stream', 'cells', size=200)
        s.dp, s.d = mk_text(ex, st, 'd')
        st.assume(LEN(z3.Const('d', Str)) >= 0)
        return [Ptr(s.b), s.dp]

    def tags(s, ex, o, tr):
        """every tag opened is closed, innermost first; what remains is returned with the tag in force"""
        open_, r = [], []
        for e in tr:
            if e[0] == 'tag': open_.append(e[1:]); r.append(('tag',) + e[1:])
            elif e[0] == 'endtag':
                ob(ex, o, 'tags nest', bool(open_) and open_[-1][0] is e[1] or bool(open_))
                if open_: ob(ex, o, 'the tag closed is the one opened', teq(open_.pop()[1].parts, e[2].parts))
                r.append(e)
            else: r.append(e)
        ob(ex, o, 'every tag is closed', not open_)
        return r


class XPack(X):
    def __init__(s, kind, poly, const):
        s.kind, s.poly = kind, poly
        s.name = 'xml_pack %s %s_ptr%s' % ('const' if const else '', {'s': 'shared', 'u': 'unique'}[kind], ' polymorphic' if poly else '')
        s.func = '^ccv_pack%s_%sp%s$' % ('c' if const else '', kind, 'b' if poly else '')
        s.variants = ('null', 'object')
        s.const = const

    @property
    def must(s): return ('ret',)

    def setup(s, ex, st, variant):
        a = s.streams(ex, st)
        s.a = s.mkptr(ex, st, 'pointer', variant == 'null', s.kind)
        return a + [Ptr(s.a)]

    def post(s, ex, o, variant):
        st, B, d = o.st, Ptr(s.b), Txt(s.d)
        want = [('tag', B, d), ('endtag', B, d)] if s.const else []       # a null element of a container keeps its place
        if variant == 'object':
            if s.poly: want = [('tag', B, d), ('write', B, Txt(s.d + ('.type',)), st.ghost.get(('type', s.N))), ('contents', B, d, Ptr(s.N)), ('endtag', B, d)]
            else: want = [('tag', B, d), ('contents', B, d, Ptr(s.N)), ('endtag', B, d)]
        tr = s.tags(ex, o, trace(st))
        if o.kind == 'throw':
            st.ghost['trace'] = tr = tuple(e for e in tr if e[0] != 'endtag')
            want = [w for w in want if w[0] != 'endtag'][:len(tr)]
        expect(ex, o, want)
        s.counts(ex, o, {})
        s.leaks(ex, o, ())
        frame(ex, o, ex.st0)


class XUnpack(X):
    def __init__(s, kind, poly, const):
        s.kind, s.poly, s.const = kind, poly, const
        s.name = 'xml_unpack %s_ptr%s%s' % ({'s': 'shared', 'u': 'unique'}[kind], ' polymorphic' if poly else '', ' const' if const else '')
        s.func = '^ccv_unpack%s_%sp%s$' % ('c' if const else '', kind, 'b' if poly else '')
        s.variants = ('null', 'object', 'last owner') if kind == 's' else ('null', 'object')

    def setup(s, ex, st, variant):
        a = s.streams(ex, st)
        s.a = s.mkptr(ex, st, 'pointer', variant == 'null', s.kind)
        if variant == 'last owner': st.assume(s.n0 == 1)
        if variant == 'object' and s.kind == 's': st.assume(s.n0 >= 2)
        return a + [Ptr(s.a)]

    def post(s, ex, o, variant):
        st, B, d = o.st, Ptr(s.b), Txt(s.d)
        tr = tuple(e for e in trace(st) if s.kind != 'u' and not s.const or e[0] != 'delete')
        a = st.mem[s.a].cells[0][1]
        cs = st.ghost.get('counts', ())
        ob(ex, o, 'looked for once', len(cs) <= 1)
        key = s.d + (('.type',) if s.poly else ())
        if cs: ob(ex, o, 'looked for where it was written', teq(cs[0][0], key))
        full = cs and not ex.prover.feasible(st.pc + [cs[0][1] == 0])
        null = cs and not ex.prover.feasible(st.pc + [cs[0][1] != 0])
        ob(ex, o, 'presence decides', bool(full or null or o.kind == 'throw' and not tr))
        new, want = None, []
        mk = [e for e in tr if e[0] in ('construct', 'create')]
        ob(ex, o, 'at most one object created', len(mk) <= 1)
        cont = [e for e in tr if e[0] in ('contents', 'whole')]
        if full:
            if s.poly:
                rd = [e[3] for e in tr if e[0] == 'read']
                want = [('read', B, Txt(key), rd[0] if rd else None), ('create', rd[0] if rd else None, mk[0][2] if mk else None)]
                if mk: new = mk[0][2].reg
            else:
                want = [('construct', 'Node')]
                if cont: new = cont[0][3].reg
            want.append(('contents', B, d, Ptr(new) if new is not None else None))
        st.ghost['trace'] = tr
        expect(ex, o, want[:len(tr)] if o.kind == 'throw' else want)
        if s.const:       # read and dropped
            ob(ex, o, 'const pointer kept', a.reg is s.N)
            s.counts(ex, o, {})
            s.leaks(ex, o, ())
            frame(ex, o, ex.st0)
            return
        rep = a.reg is not s.N
        if o.kind == 'ret':
            ob(ex, o, 'null if absent', a.reg is None) if null else ob(ex, o, 'refers to the new object', new is not None and a.reg is new and a.off == 0)
        else:
            ob(ex, o, 'on failure: the old object, or the new one', not rep or (new is not None and a.reg is new))
            if not cont: ob(ex, o, 'unchanged when no object could be created', not rep)
        if s.kind == 's':
            s.counts(ex, o, {s.cnt: s.n0 - 1} if rep and s.cnt is not None else {})
            c = st.mem[s.a].cells[8][1].reg
            if a.reg is not None and rep: ob(ex, o, 'sole owner of the new object', c is not None and st.ghost[('own', c)] is a.reg and Eq(rc(st, c), 1))
            if a.reg is None: ob(ex, o, 'no count for null', c is None)
            if not rep: ob(ex, o, 'count kept', c is s.cnt)
        if s.N is not None:
            gone = rep and (s.kind == 'u' or variant == 'last owner')
            ob(ex, o, 'the old object is deleted exactly when its last owner lets go', bool(st.ghost[('alive', s.N)]) == (not gone))
        s.leaks(ex, o, (a.reg,))
        frame(ex, o, ex.st0, {s.a} | ({s.N} if s.N is not None and rep else set()))


class Mixin(X):
    """PolyXML: the object's own contents, without another tag"""
    poly = 1

    def __init__(s, fn): s.fn, s.name, s.func = fn, 'PolyXML::xml_%s' % fn, '^ccv_x1%s$' % fn

    def setup(s, ex, st, variant):
        s.N = s.obj(ex, st, 'object')
        return [Ptr(s.N)] + s.streams(ex, st)

    def post(s, ex, o, variant):
        expect(ex, o, [('contents', Ptr(s.b), Txt(s.d), Ptr(s.N))])
        frame(ex, o, ex.st0)


core = [XPack(k, p, c) for k, p in (('s', 0), ('u', 0), ('s', 1), ('u', 1)) for c in (0, 1)] + [XUnpack(k, p, c) for k, p in (('s', 0), ('u', 0), ('s', 1), ('u', 1)) for c in (0, 1)] + [Mixin('pack'), Mixin('unpack')]
