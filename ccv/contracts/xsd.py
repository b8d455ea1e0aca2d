"""C18: the schema writer.  Two layers: the methods of xsd_generate_t on the text of the definition being collected, and the
xsd_generate functions on the sequence of method calls they make."""
from vc import *
from stdlib import *
from task import *
from contracts.strs import *
from contracts.pack_core import sym_int, ob
from contracts.trace import trace, note
from contracts.pack_stl import sources
from stl import *

TU = 'xsd.cc'
STD = 'c++11'
G = r'^(?:void |bool |std::__cxx11::basic_string<.*> )?classdesc::xsd_generate_t::'
TAIL = z3.Function('last component', Str, Str)
PRE, REST = z3.Function('first characters', Str, I, Str), z3.Function('characters from', Str, I, Str)
DOT = z3.Function('has a dot', Str, B)
ISOPEN = z3.Function('definition being collected', Str, B)


def TX(ex, st, p): return norm(xs(ex, st, p))


def h_tail(ex, st, ci):
    t = xs(ex, st, ci.args[1])
    c = conc(t)
    return sret(ex, st, ci, (c.rsplit('.', 1)[-1],) if c is not None else (TAIL(term(t)),))


def h_find(ex, st, ci):
    t, c = xs(ex, st, ci.args[0]), ci.args[1]
    if conc(t) is not None: return xfind(ex, st, ci) if 'char const*' not in ci.dem else xfinds(ex, st, ci)
    e = term(t)
    if isinstance(c, IntV) and isint(c.u()) and chr(c.u()) == '.' and ci.args[2].u() == 0:
        s2, k = st.fork(), fresh('found')
        st.assume(DOT(e), k >= 0, k < LEN(e), LEN(e) < ADDR)
        s2.assume(z3.Not(DOT(e)))
        return ret(st, IntV(64, k)) + ret(s2, IntV(64, NPOS))
    k = fresh('found')         # somewhere, or nowhere
    st.assume(LEN(e) >= 0, LEN(e) < ADDR, Or(And(k >= 0, k < LEN(e)), k == NPOS))
    return ret(st, IntV(64, k))


def h_substr(ex, st, ci):
    t, a, n = xs(ex, st, ci.args[1]), ci.args[2].u(), ci.args[3].u()
    if conc(t) is not None and isint(a) and isint(n): return xsubstr(ex, st, ci)
    e = term(t)
    if isint(a) and isint(n) and a == 0 and n < 16: return sret(ex, st, ci, (PRE(e, n),))
    if isint(a) and n == NPOS and a < 16:
        # fewer characters than that: throws
        st.assume(LEN(e) >= 0)
        ex.oblige(st, 'substr position', Or(z3.BoolVal(ex.task.longenough(e, a) is True), LEN(e) >= a) if ex.task.longenough(e, a) is not None else LEN(e) >= a, 'safety')
        return sret(ex, st, ci, (REST(e, a),))
    return sret(ex, st, ci, (fresh('piece', Str),))


STRS = [(r'classdesc::tail\(', h_tail), (S + r'find\(', h_find), (S + r'substr\(unsigned long, unsigned long\) const$', h_substr)]


# ------------------------------------------------------------------ the methods
VT = r'^std::vector<classdesc::xsd_generate_t::TypeBeingAddedTo, .*>::'


def v_empty(ex, st, ci): return ret(st, BoolV(ex.task.empty))


def v_back(ex, st, ci):
    ex.oblige(st, 'back() of a vector that is not empty', z3.Not(ex.task.empty) if st.ghost['pushed'] == 0 else True, 'safety')
    return ret(st, Ptr(st.ghost['top']))


def v_push(ex, st, ci):
    t = ex.task
    p = ci.args[1]
    r = ex.alloc(st, 'new top', 'cells', size=104)
    for o, sz in t.lay:
        v = StrX(xs(ex, st, Ptr(p.reg, p.idx, p.off + o))) if sz == 32 else ex.load(st, Ptr(p.reg, p.idx, p.off + o), TInt(8))
        st.rw(r).cells[o] = (sz, v)
    st.ghost['top'], st.ghost['pushed'] = r, st.ghost['pushed'] + 1
    note(st, 'push')
    return ret(st)


def v_pop(ex, st, ci):
    ex.oblige(st, 'pop_back() of a vector that is not empty', z3.Not(ex.task.empty), 'safety')
    note(st, 'pop')
    return ret(st)


def v_size(ex, st, ci): return ret(st, IntV(64, ex.task.n))


def v_at(ex, st, ci):
    i = ci.args[1].u()
    ex.oblige(st, 'index', And(z(i) >= 0, z(i) < ex.task.n), 'safety')
    return ret(st, Ptr(ex.task.stack, i, 0))


def m_defs(ex, st, ci):
    t = ex.task
    off = ci.args[0].off + (ci.args[0].idx if isint(ci.args[0].idx) else 0)
    k = TX(ex, st, ci.args[1])
    if off == t.m['dependencies']:
        st.ghost['depkey'] = k
        return ret(st, Ptr(t.depset))
    ex.oblige(st, 'the definition that is meant', teq(k, t.key(st)), 'pre')
    return ret(st, Ptr(t.defn))


def m_count(ex, st, ci):
    t = ex.task
    ex.oblige(st, 'the definition that is meant', teq(TX(ex, st, ci.args[1]), t.key(st)), 'pre')
    return ret(st, IntV(64, z3.If(t.known, 1, 0)))


def s_insert(ex, st, ci):
    if ci.args[0].reg is not ex.task.depset: raise Undecided('insert into an unknown set')
    note(st, 'insert', st.ghost['depkey'], TX(ex, st, ci.args[1]))
    return ret(st, AggV([Ptr(ex.task.depset, 0, 0), IntV(8, 1)]))


def h_dep(ex, st, ci):
    note(st, 'dep', TX(ex, st, ci.args[1]), TX(ex, st, ci.args[2]))
    return ret(st)


def m_insert(ex, st, ci):
    """insert(pair) into the definitions: only if there is none yet"""
    t = ex.task
    o, p = ci.args[0], ci.args[1]
    if o.off + (o.idx if isint(o.idx) else 0) != t.m['xsdDefs']: raise Undecided('insert into another map')
    ex.oblige(st, 'the definition that is meant', teq(TX(ex, st, p), t.key(st)), 'pre')
    v = xs(ex, st, Ptr(p.reg, p.idx, p.off + 32))
    s2 = st.fork()
    st.assume(t.known)
    s2.assume(z3.Not(t.known))
    s2.rw(t.defn).cells[0] = (32, StrX(norm(v)))
    s2.log((t.defn, 'cell', 0, 32))
    return [Outcome('ret', s, AggV([Ptr(t.defn), IntV(8, i)])) for i, s in enumerate((st, s2))]


def h_compare(ex, st, ci):
    """compare(0, n, text) of an unknown text: 0 exactly if its first n characters are that text"""
    t, a, n, w = xs(ex, st, ci.args[0]), ci.args[1].u(), ci.args[2].u(), ci.args[3]
    w = norm(ctext(ex, st, w) if 'char const*)' in ci.dem else xs(ex, st, w))
    a, n = [x if isint(x) else (z3.simplify(x).as_long() if z3.is_int_value(z3.simplify(x)) else x) for x in (a, n)]
    if not (isint(a) and isint(n)) or a != 0 or n >= 16: raise Undecided('string::compare of %s, %s' % (a, n))
    r = fresh('order')
    st.assume(r >= 0, r < 1 << 32, (r == 0) == teq((PRE(term(t), n),), w))
    return ret(st, IntV(32, r))


def v_iter(ex, st, ci):
    end = '::end(' in ci.dem or '::cend(' in ci.dem
    return ret(st, Ptr(ex.task.stack, ex.task.n if end else 0, 0))


METH = STRS + [(VT + r'empty\(\) const$', v_empty), (VT + r'back\(\)( const)?$', v_back), (VT + r'push_back\(', v_push), (VT + r'pop_back\(', v_pop),
               (VT + r'size\(\) const$', v_size), (VT + r'operator\[\]\(', v_at),
               (r'^std::map<std::__cxx11::basic_string<.*>::operator\[\]\(', m_defs), (r'^std::map<std::__cxx11::basic_string<.*>::count\(', m_count),
               (r'^std::set<std::__cxx11::basic_string<.*>::insert\(', s_insert), (VT + r'c?(begin|end)\(\)( const)?$', v_iter),
               (r'std::map<std::__cxx11::basic_string<.*>::(insert|emplace)(<.*>)?\(std::pair', m_insert), (S + r'compare\(unsigned long, unsigned long, ', h_compare),
               (r'^classdesc::exception::exception\(std::__cxx11', lambda ex, st, ci: ret(st))]
DEP = (G + r'addDependency\(', h_dep)


class Method(Task):
    """a method on an xsd_generate_t in any state: DEF is the text collected for the type that is meant, TOP the innermost open type"""
    must = ('ret',)

    def __init__(s, nm, args, contracts=(), must=('ret',)):
        s.name, s.func, s.args = 'xsd_generate_t::' + nm, '^ccv_%s' % nm + '$', args
        s.contracts, s.must = list(contracts) + METH + REGX, must

    def longenough(s, e, a): return None

    def setup(s, ex, st, variant):
        s.m, tm = ex.mod.members['xsd_generate_t'], ex.mod.members['TypeBeingAddedTo']
        s.tm = tm
        s.lay = [(tm[k], 1) for k in ('complete', 'sequenceAdded', 'derivedFromString')] + [(tm[k], 32) for k in ('name', 'description', 'baseClass')]
        s.g = ex.alloc(st, 'g', 'cells', size=240)
        s.opt = z3.Bool('optional')
        s.rn, s.rt = z3.Const('root name', Str), z3.Const('root type', Str)
        c = st.rw(s.g).cells
        c[s.m['optional']] = (1, BoolV(s.opt))
        c[s.m['rootName']], c[s.m['rootType']] = (32, StrX((s.rn,))), (32, StrX((s.rt,)))
        s.top = ex.alloc(st, 'top', 'cells', size=104)
        c = st.rw(s.top).cells
        s.tc, s.ts, s.td = z3.Bool('complete'), z3.Bool('sequence opened'), z3.Bool('derived from string')
        for k, v in (('complete', s.tc), ('sequenceAdded', s.ts), ('derivedFromString', s.td)): c[tm[k]] = (1, BoolV(v))
        s.tn, s.tdesc, s.tb = [z3.Const(k, Str) for k in ('open type', 'its description', 'its base')]
        for k, v in (('name', s.tn), ('description', s.tdesc), ('baseClass', s.tb)): c[tm[k]] = (32, StrX((v,)))
        s.defn = ex.alloc(st, 'definition', 'cells', size=32)
        s.def0 = z3.Const('definition so far', Str)
        st.rw(s.defn).cells[0] = (32, StrX((s.def0,)))
        s.depset = ex.alloc(st, 'dependencies of the type', 'cells', size=48)
        s.empty, s.known = z3.Bool('no open type'), z3.Bool('type is defined')
        st.ghost['top'], st.ghost['pushed'], st.ghost['trace'] = s.top, 0, ()
        a = [mk_text(ex, st, x)[0] for x in s.args]
        s.at = [z3.Const(x, Str) for x in s.args]
        for t in s.at + [s.tn, s.tdesc, s.tb, s.def0]: st.assume(LEN(t) >= 0, LEN(t) < ADDR, (LEN(t) == 0) == (t == lit('')))
        s.pre(ex, st)
        return [Ptr(s.g)] + a

    def pre(s, ex, st): pass

    def key(s, st): return (s.tn,)

    def now(s, o): return o.st.mem[s.defn].cells[0][1].parts

    def cell(s, o, reg, k):
        v = o.st.mem[reg].cells[s.tm[k]][1]
        return v.parts if isinstance(v, StrX) else (v.b if isinstance(v, BoolV) else z(v.u()) != 0)

    def cases(s, o, cs):
        """[(condition, parts the definition ends up with)]: exactly one applies"""
        ob(s.ex, o, 'cases complete', Or(*[c for c, _ in cs]))
        for i, (c, w) in enumerate(cs):
            e = teq(s.now(o), w)
            ob(s.ex, o, 'text of the definition %d' % i, z3.Implies(c, e if not isinstance(e, bool) else z3.BoolVal(e)))

    def events(s, ex, o, want):
        got = trace(o.st)
        ob(ex, o, 'effects: %s' % [w[0] for w in want], [g[0] for g in got] == [w[0] for w in want])
        if len(got) == len(want):
            for g, w in zip(got, want):
                for x, y in zip(g[1:], w[1:]): ob(ex, o, 'effect %s' % g[0], teq(x, y))


def dec(ex, o, f):
    """is f decided on this path?"""
    if ex.prover.prove(o.st.pc, f)[0] == 'proved': return True
    if ex.prover.prove(o.st.pc, z3.Not(f))[0] == 'proved': return False
    return None


class AddMember(Method):
    def post(s, ex, o, variant):
        nm, ty = s.at
        live = And(LEN(nm) > 0, z3.Not(s.empty), z3.Not(s.tc))
        D = (s.def0,)
        el = lambda opt: ('      <xs:element name="', nm, '" type="', ty) + (('" minOccurs="0',) if opt else ()) + ('"/>\n',)
        s.cases(o, [(z3.Not(live), D)] + [(And(live, s.ts if q else z3.Not(s.ts), s.opt if p else z3.Not(s.opt)), D + (() if q else ('    <xs:sequence>\n',)) + el(p)) for q in (0, 1) for p in (0, 1)])
        l = dec(ex, o, live)
        ob(ex, o, 'acts or not', l is not None)
        s.events(ex, o, [('dep', (s.tn,), (ty,))] if l else [])
        ob(ex, o, 'sequence opened', s.cell(o, s.top, 'sequenceAdded') == Or(s.ts, live))
        frame(ex, o, ex.st0, {s.defn, (s.top, s.tm['sequenceAdded'])})


class AddBase(Method):
    def post(s, ex, o, variant):
        b, = s.at
        live = And(z3.Not(s.empty), z3.Not(s.tc))
        new, ok = And(live, LEN(s.tb) == 0), b != lit('xs::string')
        clash = And(live, LEN(s.tb) > 0, s.tb != b)
        ob(ex, o, 'exception exactly for a second base class', clash if o.kind == 'throw' else z3.Not(clash))
        s.cases(o, [(z3.Not(new), (s.def0,)), (And(new, ok), (s.def0, '      <xs:complexContent>\n      <xs:extension base="', b, '">\n')), (z3.Not(ok), s.now(o))])
        e = teq(s.cell(o, s.top, 'baseClass'), (b,))
        f = teq(s.cell(o, s.top, 'baseClass'), (s.tb,))
        ob(ex, o, 'base class noted', And(z3.Implies(new, e), z3.Implies(z3.Not(new), f)))
        s.events(ex, o, [])
        frame(ex, o, ex.st0, {s.defn, (s.top, s.tm['baseClass'])})


class AddDep(Method):
    def longenough(s, e, a): return True if a == 4 else None         # it starts with the 4 characters tns:

    def post(s, ex, o, variant):
        ty, d = s.at
        l = dec(ex, o, PRE(d, 4) == lit('tns:'))
        ob(ex, o, 'recorded or not', l is not None)
        s.events(ex, o, [('insert', (ty,), (REST(d, 4),))] if l else [])
        s.cases(o, [(z3.BoolVal(True), (s.def0,))])
        frame(ex, o, ex.st0)


class OpenType(Method):
    def key(s, st): return (s.at[0],)

    def post(s, ex, o, variant):
        ty, d = s.at
        s.cases(o, [(s.known, (s.def0,)), (z3.Not(s.known), ('  <xs:complexType name="', ty, '">\n'))])
        s.events(ex, o, [('push',)])
        r = o.st.ghost['top']
        for k, v in (('name', (ty,)), ('description', (d,)), ('baseClass', ())): ob(ex, o, 'opened with its %s' % k, teq(s.cell(o, r, k), v))
        ob(ex, o, 'opened complete exactly if it is defined already', s.cell(o, r, 'complete') == s.known)
        ob(ex, o, 'opened without a sequence', z3.Not(s.cell(o, r, 'sequenceAdded')))
        frame(ex, o, ex.st0, {s.defn})


class CloseType(Method):
    def pre(s, ex, st): st.assume(z3.Not(s.empty))

    def post(s, ex, o, variant):
        anyel = '      <xs:any minOccurs="0" namespace="##other" maxOccurs="unbounded" processContents="lax"/>\n'
        D, E, X = (s.def0,), '    </xs:sequence>\n', '      </xs:extension>\n      </xs:complexContent>\n'
        nb, fin = LEN(s.tb) == 0, '  </xs:complexType>\n'
        live = z3.Not(s.tc)
        N = z3.Not
        s.cases(o, [(s.tc, D), (And(live, nb, s.ts), D + (anyel + E + fin,)), (And(live, nb, N(s.ts)), D + ('    <xs:sequence>\n' + anyel + E + fin,)),
                    (And(live, N(nb), s.ts), D + (E + X + fin,)), (And(live, N(nb), N(s.ts)), D + (X + fin,))])
        s.events(ex, o, [('pop',)])
        frame(ex, o, ex.st0, {s.defn, s.top})


class DefineType(Method):
    def key(s, st): return (s.at[0],)

    def post(s, ex, o, variant):
        s.cases(o, [(s.known, (s.def0,)), (z3.Not(s.known), (s.at[1],))])
        s.events(ex, o, [])
        frame(ex, o, ex.st0, {s.defn})


class CurDesc(Method):
    def setup(s, ex, st, variant):
        g, = Method.setup(s, ex, st, variant)
        s.r, _ = mk_text(ex, st, 'result')
        return [s.r, g]

    def post(s, ex, o, variant):
        now = xs(ex, o.st, s.r)
        e, f = teq(now, ()), teq(now, (s.tdesc,))
        ob(ex, o, 'description of the innermost open type', And(z3.Implies(s.empty, e), z3.Implies(z3.Not(s.empty), f)))
        frame(ex, o, ex.st0, {s.r.reg})


class IsOpen(Method):
    def pre(s, ex, st):
        s.n = fresh('open types')
        A = z3.Const('names of open types', z3.ArraySort(I, Str))
        st.assume(s.n >= 0, s.n < 1 << 40)
        s.nm = lambda k: z3.Select(A, z(k))
        s.stack = new_storage(ex, st, 'open types', 104, {}, s.n)
        st.rw(s.stack).arr[s.tm['name']] = ('str', s.nm)
        st.assume(s.empty == (s.n == 0))

    def loops(s, c):
        out = []
        for nm, g in sources(c):
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            k = z3.Int('k!o')
            mk('range', lambda c, i: And(i >= 0, i <= s.n))
            mk('not so far', lambda c, i: z3.ForAll([k], z3.Implies(And(k >= 0, k < i), s.nm(k) != s.at[0]), patterns=[s.nm(k)]))
            for fn in [n for n, v in c.phis.items() if isinstance(v, BoolV) or isinstance(v, IntV) and v.w == 8]:
                def fl(c, fn=fn):
                    v = c.phis.get(fn)
                    return v.b if isinstance(v, BoolV) else (z(v.u()) != 0 if isinstance(v, IntV) else None)
                mk('%s: found' % fn, lambda c, i, fl=fl: None if fl(c) is None else fl(c) == z3.Exists([k], And(k >= 0, k < i, s.nm(k) == s.at[0])))
                mk('%s: found just now' % fn, lambda c, i, fl=fl: None if fl(c) is None else z3.Implies(fl(c), And(i > 0, s.nm(i - 1) == s.at[0])))
                mk('%s: none found' % fn, lambda c, i, fl=fl: None if fl(c) is None else z3.Implies(z3.Not(fl(c)), z3.ForAll([k], z3.Implies(And(k >= 0, k < i), s.nm(k) != s.at[0]), patterns=[s.nm(k)])))
        return out

    def post(s, ex, o, variant):
        k = z3.Int('k!o')
        v = o.val
        r = v.b if isinstance(v, BoolV) else z(v.u()) != 0
        ob(ex, o, 'true exactly if the type is open', r == z3.Exists([k], And(k >= 0, k < s.n, s.nm(k) == s.at[0])))
        frame(ex, o, ex.st0)


methods = [AddMember('addMember', ['name', 'member type'], [DEP]), AddBase('addBase', ['base'], must=('ret', 'throw')), AddDep('addDependency', ['type', 'dependency']),
           OpenType('openType', ['type', 'description']), CloseType('closeType', []), DefineType('defineType', ['type', 'text']), CurDesc('currentDescription', []), IsOpen('isOpen', ['type'])]


# ------------------------------------------------------------------ the functions
def ev(kind, *ix):
    def h(ex, st, ci):
        note(st, kind, *[TX(ex, st, ci.args[i]) for i in ix], optional(ex, st))
        return ret(st)
    return h


def optional(ex, st):
    v = ex.load(st, Ptr(ex.task.g, 0, ex.task.m['optional']), TInt(8))
    return v.b if isinstance(v, BoolV) else z(v.u()) != 0


def h_open(ex, st, ci):
    d = TX(ex, st, ci.args[2])
    note(st, 'open', TX(ex, st, ci.args[1]), d, optional(ex, st))
    st.ghost['descs'] = st.ghost['descs'] + (d,)
    return ret(st)


def h_close(ex, st, ci):
    ex.oblige(st, 'closeType() after openType()', len(st.ghost['descs']) > 1, 'pre')
    note(st, 'close', optional(ex, st))
    st.ghost['descs'] = st.ghost['descs'][:-1]
    return ret(st)


def h_desc(ex, st, ci): return sret(ex, st, ci, st.ghost['descs'][-1])


def h_isopen(ex, st, ci): return ret(st, BoolV(ISOPEN(term(TX(ex, st, ci.args[1])))))


def h_fields(ex, st, ci):
    note(st, 'fields', (re.search(r'(Elem|Key)&\)', ci.dem).group(1),), TX(ex, st, ci.args[1]), optional(ex, st))
    return ret(st)


FREE = STRS[:2] + [(G + r'addMember\(', ev('member', 1, 2)), (G + r'addBase\(', ev('base', 1)), (G + r'addDependency\(', ev('dep', 1, 2)), (G + r'defineType\(', ev('define', 1, 2)),
               (G + r'openType\(', h_open), (G + r'closeType\(', h_close), (G + r'currentDescription', h_desc), (G + r'isOpen\(', h_isopen), (r'^ccv_fields\(', h_fields)]
D = z3.Const('d', Str)
CUR = z3.Const('current description', Str)
ELEM, KEY, TELEM, TKEY = 'space__Elem_some__Param_', 'space__Key', 'tns:space__Elem_some__Param_', 'tns:space__Key'


class Gen(Task):
    """xsd_generate(g,d,a): the calls it makes"""
    must = ('ret',)
    contracts = FREE + REGX

    def __init__(s, nm, call=None): s.name, s.func, s.nm = 'xsd_generate(%s)' % nm, '^ccv_%s$' % nm, nm

    def longenough(s, e, a): return None

    def setup(s, ex, st, variant):
        s.m = ex.mod.members['xsd_generate_t']
        s.g = ex.alloc(st, 'g', 'cells', size=240)
        s.opt = z3.Bool('optional')
        s.rn, s.rt = z3.Const('root name', Str), z3.Const('root type', Str)
        c = st.rw(s.g).cells
        c[s.m['optional']] = (1, BoolV(s.opt))
        c[s.m['rootName']], c[s.m['rootType']] = (32, StrX((s.rn,))), (32, StrX((s.rt,)))
        st.ghost['trace'], st.ghost['descs'] = (), ((CUR,),)
        s.d, _ = mk_text(ex, st, 'd')
        for t in (D, CUR): st.assume(LEN(t) >= 0, LEN(t) < ADDR, (LEN(t) == 0) == (t == lit('')))
        return [Ptr(s.g), s.d] + s.arg(ex, st)

    def arg(s, ex, st): return [Ptr(ex.alloc(st, 'a', 'cells', size=64))]

    def want(s): return []

    def root(s): return None, False        # (type, condition)

    def post(s, ex, o, variant):
        ob(ex, o, 'no exception', o.kind == 'ret')
        got = trace(o.st)
        s.calls(ex, o, got)
        ty, c = s.root()
        rn, rt = [o.st.mem[s.g].cells[s.m[k]][1].parts for k in ('rootName', 'rootType')]
        B_ = lambda e: z3.BoolVal(e) if isinstance(e, bool) else e
        f = And(B_(teq(rn, (s.rn,))), B_(teq(rt, (s.rt,))))
        if ty: f = z3.If(c, And(B_(teq(rn, (D,))), B_(teq(rt, (ty,)))), f)
        ob(ex, o, 'root element', f)
        ob(ex, o, 'optional restored', optional(ex, o.st) == s.opt)
        frame(ex, o, ex.st0, {(s.g, s.m[k]) for k in ('rootName', 'rootType', 'optional')})

    def calls(s, ex, o, got):
        """got against want(): the calls outside of openType..closeType in any order between kinds, those inside in order"""
        want = s.want(ex, o)
        depth, outer, inner = 0, [], []
        for g in got:
            if g[0] == 'close': depth -= 1
            if g[0] == 'member' and conc(g[1]) == '': continue       # addMember: nothing happens without a name
            (inner if depth or g[0] in ('open', 'close', 'fields') else outer).append(g)
            if g[0] == 'open': depth += 1
        for lab, gs, ws in (('outside', outer, [w for w in want if not w[-1]]), ('inside', inner, [w for w in want if w[-1]])):
            if lab == 'outside': gs, ws = sorted(gs, key=lambda g: g[0]), sorted(ws, key=lambda w: w[0])
            ok = [g[0] for g in gs] == [w[0] for w in ws]
            ob(ex, o, 'calls %s: %s' % (lab, ' '.join(w[0] for w in ws)), ok)
            if not ok: continue
            for g, w in zip(gs, ws):
                for i, (x, y) in enumerate(zip(g[1:-1], w[1:-2])):
                    if y is not None: ob(ex, o, '%s: argument %d' % (g[0], i), teq(plain(x), plain(norm(y))))
                if w[-2] is not None: ob(ex, o, '%s: optional or not' % g[0], g[-1] == w[-2])


def plain(parts):
    """white space between tags does not matter"""
    return tuple(re.sub(r'>\s+(?=<)', '>', re.sub(r'^\s+(?=<)', '', p)).strip('\n') if isinstance(p, str) else p for p in parts)


def scope(ex, o, name, el, d, opt=None):
    """openType, the members, closeType - unless the type is open already"""
    l = dec(ex, o, ISOPEN(lit(name)))
    ob(ex, o, 'goes into the members of %s exactly if it is not open' % el, l is not None)
    if l: return []
    return [('open', (name,), d, None, 1), ('fields', (el,), d, z3.BoolVal(False), 1), ('close', None, 1)]


class Simple(Gen):
    def __init__(s, nm, ty): s.ty = ty; Gen.__init__(s, nm)
    def want(s, ex, o): return [('member', (TAIL(D),), (s.ty,), s.opt, 0)]


class Nothing(Gen):
    def want(s, ex, o): return []


class Class(Gen):
    def base(s, ex, o): return dec(ex, o, D == CUR)
    def root(s): return TELEM, And(LEN(D) > 0, z3.Not(DOT(D)), D != CUR)
    opts = None

    def want(s, ex, o):
        b = s.base(ex, o)
        ob(ex, o, 'base class or member', b is not None)
        op = s.opt if s.opts is None else z3.BoolVal(s.opts)
        return [('base', (TELEM,), None, 0) if b else ('member', (TAIL(D),), (TELEM,), op, 0)] + scope(ex, o, ELEM, 'Elem', (D,))


class OnBase(Class):
    """xsd_generate_onbase: an element called after the base class"""
    DD = (D, '.base_space__Elem_some__Param_')
    def base(s, ex, o): return dec(ex, o, teq(s.DD, (CUR,)))
    def root(s): return None, False
    def setup(s, ex, st, variant):
        a = Gen.setup(s, ex, st, variant)
        st.assume(DOT(term(s.DD)))
        return a

    def want(s, ex, o):
        b = s.base(ex, o)
        ob(ex, o, 'base class or member', b is not None)
        return [('base', (TELEM,), None, 0) if b else ('member', (TAIL(term(s.DD)),), (TELEM,), s.opt, 0)] + scope(ex, o, ELEM, 'Elem', s.DD)


class Shared(Class):
    opts = True


class Cont(Gen):
    def want(s, ex, o):
        el, te = ('pair', 'tns:std__pair_const_space__Key_space__Elem_some__Param__') if 'map' in s.nm else ('Elem', TELEM)
        ty = 'std__%s_%s%s_' % (s.nm, 'space__Key_' if 'map' in s.nm else '', ELEM)
        text = '  <xs:complexType name="%s">\n    <xs:sequence minOccurs="0" maxOccurs="unbounded">\n      <xs:element name="%s" type="%s"/>\n    </xs:sequence>\n  </xs:complexType>\n' % (ty, el, te)
        r = [('member', (TAIL(D),), ('tns:' + ty,), s.opt, 0), ('define', (ty,), (text,), None, 0), ('dep', (ty,), (te,), None, 0)]
        if 'map' not in s.nm: return r + scope(ex, o, ELEM, 'Elem', None)
        return r + inpair(ex, o, te[4:], ())


class Pair(Gen):
    def setup(s, ex, st, variant):
        a = Gen.setup(s, ex, st, variant)
        for x in ('.first', '.second'): st.assume(DOT(term((D, x))), term((D, x)) != D)       # longer than D, and with a dot
        return a

    def want(s, ex, o): return inpair(ex, o, 'std__pair_space__Key_%s_' % ELEM, (D,)) + [('member', (TAIL(D),), ('tns:std__pair_space__Key_%s_' % ELEM,), s.opt, 0)]


def inpair(ex, o, ty, d):
    """the members of a pair: first and second"""
    r = [('open', (ty,), d, None, 1)]
    for nm, el, short in (('first', KEY, 'Key'), ('second', ELEM, 'Elem')):
        x = d + ('.' + nm,)
        n = (TAIL(term(x)),) if d else (nm,)
        r += [('member', n, ('tns:' + el,), z3.BoolVal(False), 1)] + scope(ex, o, el, short, x)
    return r + [('close', None, 1)]


class Array(Gen):
    """xsd_generate(g,d,is_array(),a,rank,n0,...): all extents, of a rank of 1 to 5"""
    def __init__(s, rank): s.rank = rank; Gen.__init__(s, 'arr%d' % rank)

    def arg(s, ex, st):
        s.n = [z3.Int('extent %d' % i) for i in range(s.rank)]
        s.total = z3.IntVal(1)
        for i, n in enumerate(s.n):
            s.total = n if not i else s.total * n
            st.assume(n >= 1, n < 1 << (63 if i == 0 else 31), s.total >= 1, s.total < 1 << 62)
        return [Ptr(ex.alloc(st, 'a', 'cells', size=64))] + [IntV(64 if i == 0 else 32, n) for i, n in enumerate(s.n)]

    def want(s, ex, o):
        ty = ('__builtin_array_%s' % ELEM,)
        for n in s.n: ty += ('_', DEC(n))
        N = DEC(s.total)
        text = ('  <xs:complexType name="',) + ty + ('">\n    <xs:sequence minOccurs="', N, '" maxOccurs="', N, '">\n      <xs:element name="Elem" type="%s"/>\n    </xs:sequence>\n  </xs:complexType>\n' % TELEM,)
        return [('member', (TAIL(D),), ('tns:',) + ty, s.opt, 0), ('define', ty, text, None, 0), ('dep', ty, (TELEM,), None, 0)] + scope(ex, o, ELEM, 'Elem', None)


core = [Simple(n, 'xs:' + t) for n, t in dict(bool='boolean', char='string', schar='string', uchar='string', short='short', ushort='unsignedShort', int='int', uint='unsignedInt', long='long', ulong='unsignedLong',
        llong='long', ullong='unsignedLong', float='float', double='double', ldouble='double', string='string', wstring='string').items()]
core += [Nothing('exclude'), Nothing('conststatic'), Class('elem'), OnBase('onbase'), Shared('shared')]
core += [Cont(k) for k in ('vector', 'list', 'deque', 'set', 'multiset')]
core += [Cont('map'), Cont('multimap'), Pair('pair')]
core += [Array(k) for k in (1, 2, 3, 4, 5)]


class StdArray(Gen):
    std = 'c++17'

    def want(s, ex, o):
        ty = 'std__array_%s_7_' % ELEM
        text = '  <xs:complexType name="%s">\n    <xs:sequence minOccurs="7" maxOccurs="7">\n      <xs:element name="Elem" type="%s"/>\n    </xs:sequence>\n  </xs:complexType>\n' % (ty, TELEM)
        return [('member', (TAIL(D),), ('tns:' + ty,), s.opt, 0), ('define', (ty,), (text,), None, 0), ('dep', (ty,), (TELEM,), None, 0)] + scope(ex, o, ELEM, 'Elem', None)


class Tuple(Gen):
    std = 'c++17'
    ms = (('.Key', KEY, 'Key'), ('.Elem', ELEM, 'Elem'))

    def setup(s, ex, st, variant):
        a = Gen.setup(s, ex, st, variant)
        for x, _, _ in s.ms: st.assume(DOT(term((D, x))), term((D, x)) != D)
        return a

    def want(s, ex, o):
        ty = 'std__tuple_space__Key_%s_' % ELEM
        r = [('open', (ty,), (D,), None, 1)]
        for x, el, short in s.ms: r += [('member', (TAIL(term((D, x))),), ('tns:' + el,), z3.BoolVal(False), 1)] + scope(ex, o, el, short, (D, x))
        return r + [('close', None, 1), ('member', (TAIL(D),), ('tns:' + ty,), s.opt, 0)]


modern = [StdArray('stdarray'), Tuple('tuple')]
