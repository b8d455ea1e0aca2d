"""C07: smart pointers and polymorphic objects.  The code of std::shared_ptr, weak_ptr and unique_ptr is executed; only the reference count itself is a contract"""
from contracts.trace import *
from contracts.pack_core import mk_pack
from contracts.graph import w_append, r_popoff, throwing
import task

TU = 'smart.cc'
STD = 'c++11'
NEVER = '@_ZTISt9bad_alloc'


# ---------------------------------------------------------------- reference counts (std::__shared_count, std::__weak_count)
def pi(ex, st, p):
    v = ex.load(st, p, TPtr())
    if not isinstance(v, Ptr): raise Undecided('reference count pointer %r' % (v,))
    return v.reg


def rc(st, r): return st.ghost[('rc', r)]


def mkcount(ex, st, obj, n=1):
    r = ex.alloc(st, 'count', 'cells', size=16)
    st.ghost[('rc', r)] = z(n)
    st.ghost[('own', r)] = obj
    return r


def c_null(ex, st, ci):
    ex.store(st, ci.args[0], NULL, TPtr())
    return ret(st)


def dispose(ex, st, obj):
    """the last owner is gone"""
    if obj is None: return
    ex.oblige(st, 'object deleted once, while alive', bool(st.ghost.get(('alive', obj), st.mem[obj].alive)), 'safety')
    st.ghost[('alive', obj)] = False
    ex.kill(st, obj)


def release(ex, st, r):
    if r is None: return
    n = rc(st, r)
    ex.oblige(st, 'count is positive', n > 0, 'safety')
    st.ghost[('rc', r)] = n - 1
    if not ex.prover.feasible(st.pc + [n != 1]): dispose(ex, st, st.ghost[('own', r)])


def c_own(ex, st, ci):
    bad = st.fork()
    q = ci.args[1]
    if q.reg is not None: dispose(ex, bad, q.reg)
    ex.store(st, ci.args[0], Ptr(mkcount(ex, st, q.reg)), TPtr())
    return [Outcome('throw', bad, Exc(NEVER, NULL))] + ret(st)


def c_copy(ex, st, ci):
    r = pi(ex, st, ci.args[1])
    if r is not None: st.ghost[('rc', r)] = rc(st, r) + 1
    ex.store(st, ci.args[0], NULL if r is None else Ptr(r), TPtr())
    return ret(st)


def c_dtor(ex, st, ci):
    release(ex, st, pi(ex, st, ci.args[0]))
    return ret(st)


def c_assign(ex, st, ci):
    a, b = pi(ex, st, ci.args[0]), pi(ex, st, ci.args[1])
    if a is not b:
        if b is not None: st.ghost[('rc', b)] = rc(st, b) + 1
        release(ex, st, a)
        ex.store(st, ci.args[0], NULL if b is None else Ptr(b), TPtr())
    return ret(st, ci.args[0])


def c_lock(ex, st, ci):
    r = pi(ex, st, ci.args[1])
    if r is None or not ex.prover.feasible(st.pc + [rc(st, r) != 0]):
        ex.store(st, ci.args[0], NULL, TPtr())
    else:
        if ex.prover.feasible(st.pc + [rc(st, r) == 0]): raise Undecided('may be expired')
        st.ghost[('rc', r)] = rc(st, r) + 1
        ex.store(st, ci.args[0], Ptr(r), TPtr())
    return ret(st)


def c_use(ex, st, ci):
    r = pi(ex, st, ci.args[0])
    return ret(st, IntV(64, 0 if r is None else rc(st, r)))


SC = r'^std::__shared_count<.*>::'
COUNTS = [(SC + r'__shared_count\(\)$', c_null), (SC + r'__shared_count<.*>\([^()]*\*\)$', c_own), (SC + r'__shared_count\(std::__shared_count<[^<>]*> const&\)$', c_copy),
          (SC + r'__shared_count\(std::__weak_count<.*> const&, std::nothrow_t\)$', c_lock), (SC + r'~__shared_count\(\)$', c_dtor), (SC + r'operator=\(std::__shared_count<[^<>]*> const&\)$', c_assign), (SC + r'_M_get_use_count\(\) const$', c_use)]


# ---------------------------------------------------------------- opaque classes
def contents(ex, st, ci):
    p = ci.args[3]
    ex.oblige(st, 'object exists', p.reg is not None and st.mem[p.reg].alive and bool(st.ghost.get(('alive', p.reg))), 'safety')
    note(st, 'contents', ci.args[1], p)
    return throwing(st) + ret(st)


def n_ctor(ex, st, ci):
    p = ci.args[0]
    bad = throwing(st)
    st.ghost[('alive', p.reg)] = True
    st.ghost[('dyn', p.reg)] = re.match(r'(\w+)::', ci.dem).group(1)
    if ex.task.poly: vptr(ex, st, p.reg)
    note(st, 'construct', ci.dem.split('::')[0], *ci.args[1:])
    return bad + ret(st)


def n_dtor(ex, st, ci):
    p = ci.args[0]
    ex.oblige(st, 'object destroyed once, while alive', bool(st.ghost.get(('alive', p.reg))), 'safety')
    st.ghost[('alive', p.reg)] = False
    return ret(st)


def n_assign(ex, st, ci):
    note(st, 'copyto', ci.args[0], ci.args[1])
    return throwing(st) + ret(st, ci.args[0])


def alive(ex, st, p, what):
    ex.oblige(st, '%s of an existing object' % what, isinstance(p, Ptr) and p.reg is not None and st.mem[p.reg].alive and bool(st.ghost.get(('alive', p.reg))), 'safety')


def mkobj(ex, st, name, heap=True):
    """an object of unknown dynamic type: every virtual function is a contract"""
    r = ex.alloc(st, name, 'cells', size=16, heap=heap)
    vptr(ex, st, r)
    st.ghost[('alive', r)] = True
    return r


def vptr(ex, st, r):
    vt = ex.alloc(st, 'vtable of ' + r.name, 'cells', size=64)
    for i, f in enumerate(ex.task.vtable): st.rw(vt).cells[8 * i] = (8, FnPtr('@virtual_' + f))
    st.rw(r).cells[0] = (8, Ptr(vt))


def typeof(st, reg):
    return IntV(32, z3.Int('type of %d' % reg.id), 's') if False else st.ghost[('type', reg)]


def v_type(ex, st, ci):
    alive(ex, st, ci.args[0], 'type()')
    k = ('type', ci.args[0].reg)
    if k not in st.ghost: st.ghost[k] = sym_int(ex, st, 'type', 32, signed=True)
    return ret(st, st.ghost[k])


def v_pack(ex, st, ci):
    alive(ex, st, ci.args[0], 'pack()')
    note(st, 'contents', ci.args[1], ci.args[0])
    return throwing(st) + ret(st)


def v_clone(ex, st, ci):
    alive(ex, st, ci.args[0], 'clone()')
    bad = throwing(st)
    r = mkobj(ex, st, 'clone')
    st.ghost[('clone of', r)] = ci.args[0].reg
    note(st, 'clone', ci.args[0], Ptr(r))
    return bad + ret(st, Ptr(r))


def v_delete(ex, st, ci):
    alive(ex, st, ci.args[0], 'deletion')
    r = ci.args[0].reg
    st.ghost[('alive', r)] = False
    ex.kill(st, r)
    note(st, 'delete', ci.args[0])
    return ret(st)


def create(ex, st, ci):
    """the hierarchy's factory method: a new object, or an exception"""
    bad = throwing(st)
    r = mkobj(ex, st, 'created')
    note(st, 'create', ci.args[0], Ptr(r))
    return bad + ret(st, Ptr(r))


def dyncast(ex, st, ci):
    p = ci.args[0]
    if p.reg is None: return ret(st, NULL)
    dst = ci.args[2].reg.name
    r = []
    for y, s in ex.task.iscast(ex, st, p, dst):
        r += ret(s, p if y else NULL)
    return r


def t_lookup(ex, st, ci):
    bad = throwing(st)
    note(st, 'lookup', ci.args[0], ci.args[1])
    return bad + ret(st, Ptr(ex.task.entry))


def t_register(ex, st, ci):
    alive(ex, st, ci.args[1], 'registration')
    note(st, 'register', ci.args[0], ci.args[1])
    return throwing(st) + ret(st)


def facreg(ex):
    c = [g for g, t in ex.mod.globals.items() if g.startswith('@_Z') and 'classdesc7factory' in g and 'std::vector' in t]
    if len(c) != 1: raise Undecided('object of classdesc::factory(): %s' % c)
    return c[0]


def fv(ex, st, ci):
    if ci.args[0].reg is not ex.global_region(st, facreg(ex)) or ci.args[0].off != 0: raise Undecided('other vector of objects')


def f_ctor(ex, st, ci):
    fv(ex, st, ci)
    st.ghost['nfac'] = z3.IntVal(0)
    return ret(st)


def f_size(ex, st, ci):
    fv(ex, st, ci)
    return ret(st, IntV(64, st.ghost['nfac']))


def f_resize(ex, st, ci):
    fv(ex, st, ci)
    bad = throwing(st)
    k = ci.args[1].u()
    ex.oblige(st, 'registered types are kept when the factory grows', k >= st.ghost['nfac'], 'safety')
    st.assume(k < (1 << 32))
    st.ghost['nfac'] = k
    return bad + ret(st)


def f_index(ex, st, ci):
    fv(ex, st, ci)
    i = ci.args[1].u()
    ex.oblige(st, 'index within the factory', And(i >= 0, i < st.ghost['nfac']), 'safety')
    j, r = st.ghost['slot']
    if ex.prover.feasible(st.pc + [z(i) != z(j)]): raise Undecided('slot other than that of the type')
    return ret(st, Ptr(r))


VO = r'^std::vector<std::shared_ptr<classdesc::object>.*>::'
FAC = [(VO + r'vector\(\)$', f_ctor), (VO + r'size\(\) const$', f_size), (VO + r'resize\(unsigned long\)$', f_resize), (VO + r'(operator\[\]|at)\(unsigned long\)$', f_index), (VO + r'~vector\(\)$', lambda ex, st, ci: ret(st))]

CS = COUNTS + FAC + [(r'^TT::operator\[\]\(int\)$', t_lookup), (r'^TT::register_type\(', t_register)] + [(r'^classdesc_access::access_(un)?pack<(Node|Ob|M1|PP1)>::operator\(\)', contents), (r'^(Node|Ob|F1|PW|M1)::\1\(', n_ctor), (r'^(Node|Ob|F1|PW|M1)::~\1\(\)$', n_dtor), (r'^Node::operator=', n_assign),
               (r'^@?virtual_type$', v_type), (r'^@?virtual_(un)?pack$', v_pack), (r'^@?virtual_clone$', v_clone), (r'^@?virtual_delete$', v_delete),
               (r'^PB::create\(int\)$', create), (r'^classdesc::pack_t::append\(', w_append), (r'^classdesc::pack_t::popoff\(', r_popoff), (r'^__dynamic_cast$', dyncast)]

PBV = ('pack', 'unpack', 'destroy', 'delete', 'type')
OBV = ('type', 'clone', 'pack', 'unpack', 'destroy', 'delete')
PVV = ('type', 'clone', 'pack', 'unpack', 'destroy', 'delete')


class S(Task):
    contracts = CS
    must = ('ret', 'throw')
    vtable = PBV
    assumptions = ('the contents of opaque classes are packed and unpacked by calls that may throw, and neither keep nor free the object',)

    def iscast(s, ex, st, p, dst): return [(True, st)]

    def obj(s, ex, st, name, heap=True):
        if s.poly: return mkobj(ex, st, name, heap)
        r = ex.alloc(st, name, 'cells', size=4, heap=heap)
        st.rw(r).cells[0] = (4, ex.symbolic(TInt(32), name)[0])
        st.ghost[('alive', r)] = True
        return r

    def mkptr(s, ex, st, name, null, kind):
        """a smart pointer variable; its object may have other owners"""
        a = ex.alloc(st, name, 'cells', size=8 if kind == 'u' else 16)
        s.N = None if null else s.obj(ex, st, 'object of ' + name)
        st.rw(a).cells[0] = (8, NULL if null else Ptr(s.N))
        s.cnt = None
        if kind != 'u':
            if not null:
                s.n0 = fresh('owners')
                st.assume(s.n0 >= 1)
                s.cnt = mkcount(ex, st, s.N, s.n0)
            st.rw(a).cells[8] = (8, NULL if null else Ptr(s.cnt))
        return a

    def leaks(s, ex, o, owned):
        st = o.st
        for r in st.mem:
            if r in ex.st0.mem or not r.heap or r.name == 'exception' or not st.mem[r].alive: continue
            ob(ex, o, 'new object is owned', r in owned)

    def counts(s, ex, o, want):
        """want: count region -> formula for its value; every other count is unchanged"""
        for k, v in ex.st0.ghost.items():
            if isinstance(k, tuple) and k[0] == 'rc': ob(ex, o, 'number of owners', o.st.ghost[k] == want.get(k[1], v))


class PackS(S):
    """kind: s shared, u unique, w weak; poly: element is a class of a PolyPack hierarchy"""
    def __init__(s, kind, poly):
        s.kind, s.poly = kind, poly
        s.name = 'pack %s_ptr%s' % ({'s': 'shared', 'u': 'unique', 'w': 'weak'}[kind], ' polymorphic' if poly else '')
        s.func = '^ccv_pack_%sp%s$' % (kind, 'b' if poly else '')
        s.variants = ('null', 'object') + (('expired',) if kind == 'w' else ())

    def setup(s, ex, st, variant):
        s.b = mk_pack(ex, st, 'buffer')
        s.a = s.mkptr(ex, st, 'pointer', variant == 'null', s.kind)
        if variant == 'expired':
            st.ghost[('rc', s.cnt)] = z3.IntVal(0)
            st.ghost[('alive', s.N)] = False
            st.rw(s.N).alive = False
        return [Ptr(s.b), Ptr(s.a)]

    def post(s, ex, o, variant):
        st, B = o.st, Ptr(s.b)
        w = lambda n, v: ('write', B, IntV(64, n), v)
        want = [w(1, IntV(8, 1 if variant == 'object' else 0))]
        if variant == 'object':
            t = st.ghost.get(('type', s.N))
            if s.poly: want += [w(4, t)]
            want += [('contents', B, Ptr(s.N))]
        expect(ex, o, want[:len(trace(st))] if o.kind == 'throw' else want)
        s.counts(ex, o, {})
        s.leaks(ex, o, ())
        frame(ex, o, ex.st0)


class UnpackS(S):
    def __init__(s, kind, poly):
        s.kind, s.poly = kind, poly
        s.name = 'unpack %s_ptr%s' % ({'s': 'shared', 'u': 'unique', 'w': 'weak'}[kind], ' polymorphic' if poly else '')
        s.func = '^ccv_unpack_%sp%s$' % (kind, 'b' if poly else '')
        s.variants = ('null', 'object', 'last owner') if kind == 's' else ('null', 'object') + (('expired',) if kind == 'w' else ())

    def setup(s, ex, st, variant):
        s.b = mk_pack(ex, st, 'buffer')
        s.a = s.mkptr(ex, st, 'pointer', variant == 'null', s.kind)
        if variant == 'last owner': st.assume(s.n0 == 1)
        if variant == 'object' and s.kind == 's': st.assume(s.n0 >= 2)
        if variant == 'expired':
            st.ghost[('rc', s.cnt)] = z3.IntVal(0)
            st.ghost[('alive', s.N)] = False
            st.rw(s.N).alive = False
        return [Ptr(s.b), Ptr(s.a)]

    def post(s, ex, o, variant):
        st, B = o.st, Ptr(s.b)
        tr = trace(st)
        rd = [e[3] for e in tr if e[0] == 'read']
        r = lambda n, k: ('read', B, IntV(64, n), rd[k] if k < len(rd) else None)
        want = [r(1, 0)]
        full = rd and not ex.prover.feasible(st.pc + [rd[0].u() % 2 == 0])
        null = rd and not ex.prover.feasible(st.pc + [rd[0].u() % 2 != 0])
        ob(ex, o, 'flag decides', bool(full or null or not rd))
        a = st.mem[s.a].cells[0][1]
        new = None
        mk = [e for e in tr if e[0] in ('construct', 'create')]
        ob(ex, o, 'at most one object created', len(mk) <= 1)
        cont = [e for e in tr if e[0] == 'contents']
        if full:
            if s.poly:
                want.append(r(4, 1))
                if mk: new = mk[0][2].reg; want.append(('create', rd[1], mk[0][2]))
                else: want.append(('create', None, None))
            else:
                want.append(('construct', 'Node'))
                if cont: new = cont[0][2].reg
            want.append(('contents', B, Ptr(new) if new is not None else None))
        if s.kind == 'w' and full and variant == 'object': want.append(('copyto', Ptr(s.N), Ptr(new) if new is not None else None))
        if s.kind == 'u': tr2 = tuple(e for e in tr if e[0] != 'delete')
        else: tr2 = tr
        st.ghost['trace'] = tr2
        expect(ex, o, want[:len(tr2)] if o.kind == 'throw' else want)
        dels = {}
        if s.kind == 'w':       # the target is never replaced
            ob(ex, o, 'still refers to the same object', a.reg is s.N)
            s.counts(ex, o, {})
            s.leaks(ex, o, ())
            frame(ex, o, ex.st0, {(s.N, 'x')})
            return
        replaced = a.reg is not s.N or (o.kind == 'ret' and null)
        if o.kind == 'ret':
            ob(ex, o, 'null for null', a.reg is None) if null else ob(ex, o, 'refers to the new object', new is not None and a.reg is new and a.off == 0)
        else:
            ob(ex, o, 'on failure: the old object, or the new one', a.reg is s.N or (new is not None and a.reg is new))
            if not cont: ob(ex, o, 'unchanged when no object could be created', a.reg is s.N)
        rep = a.reg is not s.N
        if s.kind == 's':
            s.counts(ex, o, {s.cnt: s.n0 - 1} if rep and s.cnt is not None else {})
            c = st.mem[s.a].cells[8][1].reg
            if a.reg is not None and rep: ob(ex, o, 'sole owner of the new object', c is not None and st.ghost[('own', c)] is a.reg and Eq(rc(st, c), 1))
            if a.reg is None: ob(ex, o, 'no count for null', c is None)
            if not rep: ob(ex, o, 'count kept', c is s.cnt)
        if s.N is not None:
            gone = rep and (s.kind == 'u' or variant == 'last owner')
            ob(ex, o, 'the old object is deleted exactly when its last owner lets go', bool(st.ghost[('alive', s.N)]) == (not gone))
        s.leaks(ex, o, (a.reg,))
        frame(ex, o, ex.st0, {s.a} | ({s.N} if s.N is not None and rep else set()))


core = [PackS(k, p) for k, p in (('s', 0), ('u', 0), ('w', 0), ('s', 1), ('u', 1))] + [UnpackS(k, p) for k, p in (('s', 0), ('u', 0), ('w', 0), ('s', 1), ('u', 1))]


# ---------------------------------------------------------------- poly: owns its object, copies deeply
class Po(S):
    poly, vtable = 1, PVV
    """fn, whether the target exists before the call, what x is"""
    def __init__(s, fn, made, other, variants, must=('ret', 'throw')):
        s.fn, s.made, s.other, s.variants, s.must = fn, made, other, variants, must
        s.name = 'poly ' + fn
        s.func = '^ccv_po_%s$' % fn

    def mkpo(s, ex, st, name, null):
        a = ex.alloc(st, name, 'cells', size=16)
        r = None if null else mkobj(ex, st, 'object of ' + name)
        st.rw(a).cells[0] = (8, NULL if null else Ptr(r))
        return a, r

    def setup(s, ex, st, variant):
        v = variant.split()
        s.b = None
        if s.made: s.a, s.N = s.mkpo(ex, st, 'target', v[0] == 'null')
        else: s.a, s.N = ex.alloc(st, 'target', 'cells', size=16), None
        s.x = s.M = None
        if s.other == 'poly':
            if 'self' in v: s.x, s.M = s.a, s.N
            else: s.x, s.M = s.mkpo(ex, st, 'other', 'null' in v[1:])
        if s.other == 'value': s.x = s.M = s.N if 'own' in v else mkobj(ex, st, 'value')
        s.entry = mkobj(ex, st, 'entry of the type table', heap=False)
        return s.args(ex, st)

    def args(s, ex, st): return [Ptr(s.a)] + ([Ptr(s.x)] if s.x else [])

    def held(s, o, a=None): return o.st.mem[a or s.a].cells[0][1]

    def deleted(s, ex, o, want):
        """exactly these objects are gone"""
        for r in ex.st0.mem:
            if ex.st0.ghost.get(('alive', r)): ob(ex, o, 'deleted exactly when let go', (not o.st.ghost[('alive', r)]) == (r in want))

    def fr(s, ex, o, more=()): frame(ex, o, ex.st0, set(more))


class PoCopy(Po):
    """copy construction and assignment, from a poly or a value: the target holds a new clone of the source's object, whatever it held; failure changes nothing"""
    def post(s, ex, o, variant):
        tr = trace(o.st)
        cl = [e for e in tr if e[0] == 'clone']
        want = [('clone', Ptr(s.M), cl[0][2] if cl else None)] if s.M is not None else []
        if o.kind == 'ret':
            drop = [s.N] if s.made and s.N is not None else []
            expect(ex, o, want + [('delete', Ptr(r)) for r in drop])
            h = s.held(o)
            ob(ex, o, 'holds the clone', (h.reg is None) if s.M is None else bool(cl) and h.reg is cl[0][2].reg)
            s.deleted(ex, o, drop)
            s.leaks(ex, o, (h.reg,))
            if s.other == 'poly' and s.x is not s.a: ob(ex, o, 'source keeps its object', s.held(o, s.x).reg is s.M)
            s.fr(ex, o, {s.a} | set(drop))
        else:
            expect(ex, o, [])
            s.deleted(ex, o, [])
            s.leaks(ex, o, ())
            if s.made: ob(ex, o, 'unchanged', s.held(o).reg is s.N)
            s.fr(ex, o, {s.a} if not s.made else ())


class PoDefault(Po):
    def post(s, ex, o, variant):
        expect(ex, o, [])
        ob(ex, o, 'null', s.held(o).reg is None)
        s.fr(ex, o, {s.a})


class PoDtor(Po):
    def post(s, ex, o, variant):
        expect(ex, o, [('delete', Ptr(s.N))] if s.N is not None else [])
        s.deleted(ex, o, [s.N])
        s.fr(ex, o, {s.a} | ({s.N} if s.N is not None else set()))


class PoSwap(Po):
    def post(s, ex, o, variant):
        expect(ex, o, [])
        ob(ex, o, 'exchanged', s.held(o).reg is s.M and s.held(o, s.x).reg is s.N)
        s.deleted(ex, o, [])
        s.fr(ex, o, {s.a, s.x})


class PoBool(Po):
    def post(s, ex, o, variant):
        expect(ex, o, [])
        ob(ex, o, 'true when it holds an object', ex.truth(o.val) if s.N is not None else Not(ex.truth(o.val)))
        s.fr(ex, o)


class PoAdd(Po):
    """addObject<U>(args): holds a new U made from the arguments, which is registered; the old object is deleted; returns a deep copy"""
    def __init__(s, n):
        Po.__init__(s, 'add%d' % n, True, None, ('null', 'object'))
        s.n = n

    def args(s, ex, st):
        s.r = ex.alloc(st, 'result', 'cells', size=16)
        s.v = [sym_int(ex, st, 'arg', 32) for i in range(s.n)]
        return [Ptr(s.a), Ptr(s.r)] + s.v

    def post(s, ex, o, variant):
        tr = trace(o.st)
        rg = [e for e in tr if e[0] == 'register']
        cl = [e for e in tr if e[0] == 'clone']
        h = s.held(o)
        new = h.reg if h.reg is not s.N else None
        want = [('construct', 'PW') + tuple(s.v)] + ([('delete', Ptr(s.N))] if s.N is not None else []) + [('register', Ptr(s.a, 8), h), ('clone', h, cl[0][2] if cl else None)]
        ob(ex, o, 'construction with the arguments given', not tr or same_event(ex, o.st, tr[0], want[0]))
        if o.kind == 'ret':
            st0 = [e if e[0] != 'register' else ('register', want[-2][1], e[2]) for e in tr]
            o.st.ghost['trace'] = tuple(st0)
            expect(ex, o, want)
            ob(ex, o, 'the type table of this object', bool(rg) and rg[0][1].reg is s.a)
            ob(ex, o, 'holds the new object', new is not None and o.st.ghost.get(('dyn', new)) == 'PW')
            ob(ex, o, 'returns a deep copy', bool(cl) and o.st.mem[s.r].cells[0][1].reg is cl[0][2].reg)
            s.deleted(ex, o, [s.N])
            s.leaks(ex, o, (new, o.st.mem[s.r].cells[0][1].reg))
        else:
            ob(ex, o, 'on failure: the old object, or the new one', h.reg is s.N or (new is not None and o.st.ghost.get(('dyn', new)) == 'PW'))
            s.deleted(ex, o, [s.N] if h.reg is not s.N else [])
            s.leaks(ex, o, (h.reg,))
        s.fr(ex, o, {s.a, s.r} | ({s.N} if s.N is not None else set()))


class PoPack(Po):
    def args(s, ex, st):
        s.b = mk_pack(ex, st, 'buffer')
        return [Ptr(s.b), Ptr(s.a)]

    def post(s, ex, o, variant):
        B, st = Ptr(s.b), o.st
        want = [('write', B, IntV(64, 1), IntV(8, 0 if s.N is None else 1))]
        if s.N is not None: want += [('write', B, IntV(64, 4), st.ghost.get(('type', s.N))), ('contents', B, Ptr(s.N))]
        expect(ex, o, want[:len(trace(st))] if o.kind == 'throw' else want)
        s.deleted(ex, o, [])
        s.leaks(ex, o, ())
        s.fr(ex, o)


class PoUnpack(Po):
    """null for null; otherwise an object of the type stored, made from the table's entry unless the present one has that type, filled in from the buffer"""
    def args(s, ex, st):
        s.b = mk_pack(ex, st, 'buffer')
        return [Ptr(s.b), Ptr(s.a)]

    def post(s, ex, o, variant):
        B, st = Ptr(s.b), o.st
        tr = trace(st)
        rd = [e[3] for e in tr if e[0] == 'read']
        r = lambda n, k: ('read', B, IntV(64, n), rd[k] if k < len(rd) else None)
        cl = [e for e in tr if e[0] == 'clone']
        lk = [e for e in tr if e[0] == 'lookup']
        h = s.held(o)
        want, drop = [r(1, 0)], []
        full = bool(rd) and not ex.prover.feasible(st.pc + [rd[0].u() % 2 == 0])
        null = bool(rd) and not ex.prover.feasible(st.pc + [rd[0].u() % 2 != 0])
        ob(ex, o, 'flag decides', full or null or not rd)
        if full:
            want.append(r(4, 1))
            if s.N is not None and len(rd) > 1: same = Eq(rd[1].u(), st.ghost[('type', s.N)].u())
            else: same = False
            anew = bool(lk)
            if len(rd) > 1: ob(ex, o, 'present object kept exactly when of the type stored', (Not(same) if anew else same) if o.kind == 'ret' or anew else True)
            if anew:
                want += [('lookup', lk[0][1], rd[1]), ('clone', Ptr(s.entry), cl[0][2] if cl else None)]
                ob(ex, o, 'this type table', lk[0][1].reg is s.a)
                if s.N is not None: want.append(('delete', Ptr(s.N)))
            want.append(('contents', B, h))
        elif null and s.N is not None: want.append(('delete', Ptr(s.N)))
        expect(ex, o, want[:len(tr)] if o.kind == 'throw' else want)
        drop = [s.N] if h.reg is not s.N else []
        if o.kind == 'ret':
            if null: ob(ex, o, 'null for null', h.reg is None)
            else: ob(ex, o, 'holds an object', h.reg is (cl[0][2].reg if cl else s.N) and h.reg is not None)
        else: ob(ex, o, 'on failure: the old object, or the new one', h.reg is s.N or (bool(cl) and h.reg is cl[0][2].reg))
        s.deleted(ex, o, drop)
        s.leaks(ex, o, (h.reg,))
        s.fr(ex, o, {s.a} | ({s.N} if drop and s.N is not None else set()))


po = [PoCopy('copy', False, 'poly', ('x null', 'x object')), PoCopy('value', False, 'value', ('x',)), PoDefault('default', False, None, ('x',), ('ret',)),
      PoCopy('asg', True, 'poly', ('null null', 'null object', 'object null', 'object object', 'object self', 'null self')), PoCopy('asgv', True, 'value', ('null value', 'object value', 'object own')),
      PoDtor('dtor', True, None, ('null', 'object'), ('ret',)), PoSwap('swap', True, 'poly', ('null object', 'object object', 'object self'), ('ret',)),
      PoAdd(0), PoAdd(1), PoAdd(2), PoBool('bool', True, None, ('null', 'object'), ('ret',)), PoPack('pack', True, None, ('null', 'object')), PoUnpack('unpack', True, None, ('null', 'object'))]


# ---------------------------------------------------------------- object.h: factory of a vector of prototypes, indexed by type code
LIM = (1 << 31) - 1


class Fac(S):
    """the factory holds nfac prototypes; slot: the one whose index is the type code at hand"""
    poly, vtable = 1, OBV
    assumptions = S.assumptions + ('type codes are between 0 and INT_MAX-1 and there are less than INT_MAX types',)

    def factory(s, ex, st, t, what):
        """what: null, object, last (the factory is its only owner), beyond (t is no index), first (factory not used before)"""
        g = facreg(ex)
        s.f = ex.global_region(st, g)
        gd = '@_ZGV' + g[3:]
        s.guard = []
        if gd in ex.mod.globals:
            s.guard = [ex.global_region(st, gd)]
            st.rw(s.guard[0]).cells[0] = (1, IntV(8, 0 if what == 'first' else 1))
        n = fresh('ntypes')
        st.assume(n >= 0, n < LIM)
        if what == 'first': n = z3.IntVal(0)
        s.n = n
        if what != 'first': st.ghost['nfac'] = n
        if what in ('null', 'object', 'last', 'again'): st.assume(t >= 0, t < n)
        if what == 'beyond': st.assume(Or(t < 0, t >= n))
        s.slot = ex.alloc(st, 'slot', 'cells', size=16)
        s.P = s.pc = None
        if what in ('object', 'last'):
            s.P = mkobj(ex, st, 'prototype')
            st.ghost[('type', s.P)] = IntV(32, z3.If(t >= 0, t, t + (1 << 32)))
            s.pn = fresh('prototype owners')
            st.assume(s.pn == 1 if what == 'last' else s.pn >= 2)
            s.pc = mkcount(ex, st, s.P, s.pn)
        if what == 'again': s.P, s.pc = s.N, s.cnt
        st.rw(s.slot).cells[0] = (8, NULL if s.P is None else Ptr(s.P))
        st.rw(s.slot).cells[8] = (8, NULL if s.pc is None else Ptr(s.pc))
        st.ghost['slot'] = (t, s.slot)

    def nfac(s, o): return o.st.ghost.get('nfac', z3.IntVal(0))

    def held(s, o): return o.st.mem[s.slot].cells[0][1].reg

    def fr(s, ex, o, more=()): frame(ex, o, ex.st0, set(more) | set(s.guard))


class Create(Fac):
    name, func = 'object: create', '^ccv_create$'
    variants = ('null', 'object', 'beyond', 'first')

    def setup(s, ex, st, variant):
        s.t = sym_int(ex, st, 'type', 32, signed=True)
        s.factory(ex, st, s.t.s_(), variant)
        return [s.t]

    def post(s, ex, o, variant):
        cl = [e for e in trace(o.st) if e[0] == 'clone']
        if o.kind == 'ret':
            ob(ex, o, 'unregistered type codes are refused', variant == 'object')
            expect(ex, o, [('clone', Ptr(s.P), cl[0][2] if cl else None)])
            ob(ex, o, 'new object, copied from the prototype', bool(cl) and o.val.reg is cl[0][2].reg)
            s.leaks(ex, o, (o.val.reg,))
        else:
            if variant != 'object' and variant != 'first': ob(ex, o, 'exception type', o.val.ty == '@_ZTIN9classdesc10pack_errorE')
            expect(ex, o, [])
            s.leaks(ex, o, ())
        ob(ex, o, 'factory unchanged', And(s.nfac(o) == s.n, s.held(o) is s.P))
        s.counts(ex, o, {})
        s.fr(ex, o)


for v in ('null', 'beyond', 'first'): pass
Create.must = ('throw',)


class Register(Fac):
    """afterwards the object is its type code's prototype; other codes keep theirs"""
    name, func = 'object: register', '^ccv_register$'
    variants = ('null', 'object', 'last', 'beyond', 'first', 'again')

    def setup(s, ex, st, variant):
        s.a = s.mkptr(ex, st, 'pointer', False, 's')
        t = sym_int(ex, st, 'type', 32, signed=True)
        st.ghost[('type', s.N)] = t
        s.t = t.s_()
        st.assume(s.t >= 0, s.t < LIM)
        s.factory(ex, st, s.t, variant)
        return [Ptr(s.a)]

    def post(s, ex, o, variant):
        st = o.st
        expect(ex, o, [])
        n, h = s.nfac(o), s.held(o)
        if o.kind == 'ret':
            ob(ex, o, 'is the prototype of its type code', h is s.N and st.mem[s.slot].cells[8][1].reg is s.cnt)
            ob(ex, o, 'factory covers the type code, others kept', And(n > s.t, Or(n == s.n, And(s.t >= s.n, n == s.t + 1))))
            want = {s.cnt: s.n0 + 1}
            if s.pc is not None: want[s.pc] = s.pn - 1 if variant != 'again' else s.n0
            s.counts(ex, o, want)
        else:
            ob(ex, o, 'on failure: unchanged', And(n == s.n, h is s.P))
            s.counts(ex, o, {})
        if variant in ('object', 'last'): ob(ex, o, 'the old prototype is deleted with its last owner', bool(st.ghost[('alive', s.P)]) == (variant == 'object' or o.kind == 'throw'))
        ob(ex, o, 'the object lives', bool(st.ghost[('alive', s.N)]))
        s.leaks(ex, o, ())
        s.fr(ex, o, {s.slot} | ({s.P} if variant == 'last' else set()))


class ObType(Fac):
    """Object<T>::type(): the first call registers a copy under the next free code; later calls return that code"""
    name, func = 'object: type', '^ccv_obtype$'
    variants = ('first call', 'first call, empty factory', 'later call')
    must = ('ret',)

    def setup(s, ex, st, variant):
        c = [g for g, t in ex.mod.globals.items() if re.match(r'@_ZZNK9classdesc6ObjectI2Ob.*type', g) and re.search(r'global i32', t)]
        if len(c) != 1: raise Undecided('static type code: %s' % c)
        s.tr = ex.global_region(st, c[0])
        s.N = mkobj(ex, st, 'object', heap=False)
        vt = st.mem[s.N].cells[0][1].reg
        f = [x.name for x in ex.mod.funcs.values() if x.defined and re.match(r'classdesc::Object<Ob, classdesc::object>::type\(', x.dem)]
        s.fn = FnPtr(f[0])
        st.rw(vt).cells[0] = (8, s.fn)
        if variant == 'later call':
            t = sym_int(ex, st, 'type', 32, signed=True)
            st.assume(t.s_() >= 0, t.s_() < LIM)
            s.t = t.s_()
            st.rw(s.tr).cells[0] = (4, t)
            s.factory(ex, st, s.t, 'object')
        else:
            s.t = fresh('newtype')
            s.factory(ex, st, s.t, 'first' if 'empty' in variant else 'beyond')
            st.assume(s.t == s.n)
            st.rw(s.tr).cells[0] = (4, IntV(32, (1 << 32) - 1))
        return [Ptr(s.N)]

    def post(s, ex, o, variant):
        st = o.st
        n, h = s.nfac(o), s.held(o)
        cl = [e for e in trace(st) if e[0] == 'clone']
        if o.kind == 'throw':
            ob(ex, o, 'only a new type can fail', variant != 'later call')
            s.leaks(ex, o, ())
            s.fr(ex, o, {s.tr, s.slot})
            return
        ob(ex, o, 'type code', o.val.s_() == s.t)
        ob(ex, o, 'later calls return the same', Eq(st.mem[s.tr].cells[0][1].s_(), s.t))
        if variant == 'later call':
            expect(ex, o, [])
            ob(ex, o, 'factory unchanged', And(n == s.n, h is s.P))
            s.counts(ex, o, {})
            s.fr(ex, o)
        else:
            expect(ex, o, [('clone', Ptr(s.N), cl[0][2] if cl else None)])
            ob(ex, o, 'one more type', n == s.n + 1)
            ob(ex, o, 'a copy is the prototype', bool(cl) and h is cl[0][2].reg)
            c = st.mem[s.slot].cells[8][1].reg
            ob(ex, o, 'which the factory owns', c is not None and st.ghost[('own', c)] is h and Eq(rc(st, c), 1))
            s.leaks(ex, o, (h,))
            s.fr(ex, o, {s.tr, s.slot})


def clone_inherits(ex, st, ci):
    """a clone has the dynamic type of the original"""
    rs = v_clone(ex, st, ci)
    for o in rs:
        if o.kind == 'ret': o.st.rw(o.st.mem[o.val.reg].cells[0][1].reg).cells[0] = (8, ex.task.fn)
    return rs


ObType.contracts = [(r'^@?virtual_clone$', clone_inherits)] + CS


class ObSelf(S):
    """members that Object, Poly and PolyPack supply to the class derived from them"""
    poly, vtable = 0, OBV

    def __init__(s, name, fn, cls, what, size=16):
        s.name, s.func, s.cls, s.what, s.size = name, '^%s$' % fn, cls, what, size

    def setup(s, ex, st, variant):
        s.N = ex.alloc(st, 'object', 'cells', size=s.size)
        for i in range(0, s.size, 8): st.rw(s.N).cells[i] = (8, IntV(64, fresh('x')))
        st.ghost[('alive', s.N)] = True
        s.b = mk_pack(ex, st, 'buffer')
        s.d = ex.alloc(st, 'description', 'cells', size=32)
        return [Ptr(s.N)] + {'clone': [], 'pack': [Ptr(s.b)], 'packd': [Ptr(s.b), Ptr(s.d)]}[s.what]

    def post(s, ex, o, variant):
        if s.what == 'clone':
            tr = trace(o.st)
            expect(ex, o, [('construct', s.cls, Ptr(s.N))] if o.kind == 'ret' else [])
            if o.kind == 'ret': ob(ex, o, 'new object of the same class', o.val.reg is not s.N and o.val.off == 0 and o.st.ghost.get(('dyn', o.val.reg)) == s.cls and bool(o.st.ghost[('alive', o.val.reg)]))
            s.leaks(ex, o, (o.val.reg,) if o.kind == 'ret' else ())
        else:
            expect(ex, o, [('contents', Ptr(s.b), Ptr(s.N))])
            s.leaks(ex, o, ())
        frame(ex, o, ex.st0)


class CloneT(S):
    """cloneT<U>(): a clone when it is a U, otherwise null and nothing is left behind"""
    name, func = 'polyBase: cloneT', '^ccv_clonet$'
    poly, vtable = 1, ('type', 'clone', 'destroy', 'delete')

    def iscast(s, ex, st, p, dst):
        y = st.fork()
        y.ghost['cast'] = True
        return [(True, y), (False, st)]

    def setup(s, ex, st, variant):
        s.N = mkobj(ex, st, 'object', heap=False)
        return [Ptr(s.N)]

    def post(s, ex, o, variant):
        cl = [e for e in trace(o.st) if e[0] == 'clone']
        want = [('clone', Ptr(s.N), cl[0][2] if cl else None)]
        yes = bool(o.st.ghost.get('cast'))
        if o.kind == 'ret':
            expect(ex, o, want + ([] if yes else [('delete', cl[0][2] if cl else None)]))
            ob(ex, o, 'the clone exactly when of the type wanted', o.val.reg is (cl[0][2].reg if yes and cl else None))
        else: expect(ex, o, [])
        s.leaks(ex, o, (o.val.reg,) if o.kind == 'ret' else ())
        frame(ex, o, ex.st0)


objs = [Create(), Register(), ObType(), ObSelf('object: clone', 'ccv_obclone', 'Ob', 'clone'), ObSelf('object: pack', 'ccv_obpack', 'Ob', 'pack'), ObSelf('object: unpack', 'ccv_obunpack', 'Ob', 'pack'),
        ObSelf('poly: clone', 'ccv_m1clone', 'M1', 'clone'), ObSelf('polyPack: pack', 'ccv_pp1pack', 'PP1', 'packd'), ObSelf('polyPack: unpack', 'ccv_pp1unpack', 'PP1', 'packd'), CloneT()]


def c_create(ex, st, ci):
    bad = throwing(st)
    r = mkobj(ex, st, 'created')
    note(st, 'create', ci.args[0], Ptr(r))
    return bad + ret(st, Ptr(r))


CREATE = [(r'^classdesc::object::create\(int\)$', c_create)]


class PackO(S):
    """shared_ptr to a class of object.h: 0 for null, else the type code plus one and the contents"""
    poly, vtable, variants = 1, OBV, ('null', 'object')
    assumptions = S.assumptions + ('type codes are between 0 and INT_MAX-1',)

    def __init__(s, t):
        s.name, s.func = 'pack shared_ptr<object>' + (' derived' if t == 'ob' else ''), '^ccv_pack_s%s$' % t

    def setup(s, ex, st, variant):
        s.b = mk_pack(ex, st, 'buffer')
        s.a = s.mkptr(ex, st, 'pointer', variant == 'null', 's')
        if s.N is not None:
            s.t = sym_int(ex, st, 'type', 32, signed=True)
            st.ghost[('type', s.N)] = s.t
            st.assume(s.t.s_() >= 0, s.t.s_() < LIM)
        return [Ptr(s.b), Ptr(s.a)]

    def post(s, ex, o, variant):
        B = Ptr(s.b)
        w = lambda v: ('write', B, IntV(64, 4), IntV(32, v))
        want = [w(0)] if variant == 'null' else [w(s.t.s_() + 1), ('contents', B, Ptr(s.N))]
        expect(ex, o, want[:len(trace(o.st))] if o.kind == 'throw' else want)
        s.counts(ex, o, {})
        s.leaks(ex, o, ())
        frame(ex, o, ex.st0)


class UnpackO(S):
    """the pointer becomes null for 0, otherwise the sole owner of a new object of the type stored; negative codes and objects of the wrong class are refused"""
    poly, vtable, variants, kind = 1, OBV, ('null', 'object', 'last owner'), 's'
    contracts = CREATE + CS

    def __init__(s, t):
        s.derived = t == 'ob'
        s.name, s.func = 'unpack shared_ptr<object>' + (' derived' if s.derived else ''), '^ccv_unpack_s%s$' % t

    def iscast(s, ex, st, p, dst):
        y = st.fork()
        st.ghost['wrong'] = True
        return [(True, y), (False, st)]

    setup = UnpackS.setup

    def post(s, ex, o, variant):
        st, B = o.st, Ptr(s.b)
        tr = trace(st)
        rd = [e[3] for e in tr if e[0] == 'read']
        mk = [e for e in tr if e[0] == 'create']
        cont = [e for e in tr if e[0] == 'contents']
        wrong = bool(st.ghost.get('wrong'))
        t = rd[0].s_() if rd else None
        can = lambda f: ex.prover.feasible(st.pc + [f])
        new = mk[0][2].reg if mk else None
        want = [('read', B, IntV(64, 4), rd[0] if rd else None)]
        k = None
        if rd:
            k = 'null' if not can(t != 0) else 'bad' if not can(t >= 0) else 'full' if not can(t <= 0) else None
            ob(ex, o, 'the code decides', k is not None)
        if k == 'full':
            want.append(('create', IntV(32, t - 1), Ptr(new) if new is not None else None))
            if not wrong: want.append(('contents', B, Ptr(new) if new is not None else None))
            elif new is not None: want.append(('delete', Ptr(new)))
        st.ghost['trace'] = tr = tuple(e for e in tr if e[0] != 'delete' or (wrong and e[1].reg is new))
        a = st.mem[s.a].cells[0][1]
        c = st.mem[s.a].cells[8][1].reg
        expect(ex, o, want if o.kind == 'ret' else want[:len(tr)])
        if o.kind == 'ret':
            ob(ex, o, 'codes of no type and objects of the wrong class are refused', k in ('null', 'full') and not wrong)
            ob(ex, o, 'null for null', a.reg is None and c is None) if k == 'null' else ob(ex, o, 'refers to the new object', new is not None and a.reg is new and a.off == 0)
        else:
            ob(ex, o, 'on failure: the old object, or the new one', a.reg is s.N or (new is not None and a.reg is new and not wrong))
            if not cont: ob(ex, o, 'unchanged when no object of the class could be created', a.reg is s.N)
            if k == 'bad' or wrong: ob(ex, o, 'exception type', o.val.ty == '@_ZTIN9classdesc10pack_errorE' or o.val.ty == NEVER)
        rep = a.reg is not s.N
        s.counts(ex, o, {s.cnt: s.n0 - 1} if rep and s.cnt is not None else {})
        if a.reg is not None and rep: ob(ex, o, 'sole owner of the new object', c is not None and st.ghost[('own', c)] is a.reg and Eq(rc(st, c), 1))
        if not rep: ob(ex, o, 'count kept', c is s.cnt)
        if s.N is not None: ob(ex, o, 'the old object is deleted exactly when its last owner lets go', bool(st.ghost[('alive', s.N)]) == (not (rep and variant == 'last owner')))
        if new is not None and a.reg is not new: ob(ex, o, 'the object created is not left behind', not st.ghost[('alive', new)])
        s.leaks(ex, o, (a.reg,))
        frame(ex, o, ex.st0, {s.a} | ({s.N} if s.N is not None and rep else set()))


objs += [PackO('o'), PackO('ob'), UnpackO('o'), UnpackO('ob')]


# ---------------------------------------------------------------- factory.h
def fm_find(ex, st, ci):
    T = ex.task
    k = ex.load(st, ci.args[1], TInt(32))
    if ci.args[0].reg is not T.map: raise Undecided('other map')
    if ex.prover.feasible(st.pc + [z(k.u()) != z(T.t.u())]): raise Undecided('looked up another type code')
    return ret(st, Ptr(T.node) if T.node is not None else Ptr(T.map, 0, 8))


def fm_end(ex, st, ci): return ret(st, Ptr(ci.args[0].reg, 0, 8))


def fm_count(ex, st, ci):
    fm_find(ex, st, ci)
    return ret(st, IntV(64, 0 if ex.task.node is None else 1))


def fm_insert(ex, st, ci):
    """keeps what is there already; otherwise stores a copy of the pair"""
    T = ex.task
    p = ci.args[1]
    k = ex.load(st, p, TInt(32))
    own = ex.load(st, Ptr(p.reg, p.idx, p.off + 16), TPtr())
    obj = ex.load(st, Ptr(p.reg, p.idx, p.off + 8), TPtr())
    ex.oblige(st, 'inserted under the type code', Eq(k.u(), T.t.u()), 'call')
    bad = throwing(st)
    if T.node is None:
        st.ghost[('rc', own.reg)] = rc(st, own.reg) + 1
        st.ghost['entry'] = obj.reg
        note(st, 'insert', obj)
    T.fresh = obj.reg
    return bad + ret(st, AggV([Ptr(T.map, 0, 8), IntV(8, 1 if T.node is None else 0)]))


def cr_create(ex, st, ci):
    alive(ex, st, ci.args[0], 'create()')
    bad = throwing(st)
    r = mkobj(ex, st, 'created')
    note(st, 'create', ci.args[0], Ptr(r))
    return bad + ret(st, Ptr(r))


def invalid(ex, st, ci):
    note(st, 'invalid', ex.load(st, ci.args[1], TInt(32)))
    return throwing(st) + ret(st)


FM = r'^std::map<int, std::shared_ptr<classdesc::Factory<.*>::CreatorBase>.*>::'
FCS = [(r'^(bool )?std::(_Rb_tree_(const_)?iterator<std::pair<int const, std::shared_ptr<classdesc::Factory.*>::|operator[!=]=\(std::_Rb_tree)', lambda ex, st, ci: INLINE), (FM + r'find\(', fm_find), (FM + r'end\(\)( const)?$', fm_end), (FM + r'count\(', fm_count), (r'^.*' + FM[1:] + r'(insert|emplace)\b', fm_insert), (r'^@?virtual_create$', cr_create), (r'^classdesc::Factory<.*>::InvalidType::InvalidType\(int const&\)$', invalid)]


class FactoryT(S):
    poly, vtable = 1, ('destroy', 'delete', 'create')
    contracts = FCS + CS
    variants = ('registered', 'unknown')
    assumptions = S.assumptions + ('std::map finds the value inserted first under a key',)

    def setup(s, ex, st, variant):
        s.map = ex.alloc(st, 'factory', 'cells', size=48)
        s.t = sym_int(ex, st, 'type', 32, signed=True)
        s.node = s.P = None
        if variant == 'registered':
            s.node = ex.alloc(st, 'node', 'cells', size=56)
            s.P = mkobj(ex, st, 'creator')
            s.n0 = fresh('owners')
            st.assume(s.n0 >= 1)
            s.cnt = mkcount(ex, st, s.P, s.n0)
            c = st.rw(s.node).cells
            c[32], c[40], c[48] = (4, s.t), (8, Ptr(s.P)), (8, Ptr(s.cnt))
        return [Ptr(s.map), s.t]

    def fin(s, ex, o):
        s.counts(ex, o, {})
        frame(ex, o, ex.st0)


class FCreate(FactoryT):
    """the creator registered for the code makes the object; codes never registered raise InvalidType"""
    name, func = 'Factory: create', '^ccv_fcreate$'

    def post(s, ex, o, variant):
        mk = [e for e in trace(o.st) if e[0] == 'create']
        reg = variant == 'registered'
        want = [('create', Ptr(s.P), mk[0][2] if mk else None)] if reg else [('invalid', s.t)]
        if o.kind == 'ret':
            expect(ex, o, want)
            ob(ex, o, 'unregistered codes are refused', reg)
            ob(ex, o, 'the object created', bool(mk) and o.val.reg is mk[0][2].reg)
        else:
            expect(ex, o, [] if reg else want[:len(trace(o.st))])
            if not reg: ob(ex, o, 'exception type', (o.val.ty.startswith('@_ZTIN9classdesc7FactoryI2FBiE11InvalidType') and len(trace(o.st)) == 1) or o.val.ty == NEVER)
        s.leaks(ex, o, (o.val.reg,) if o.kind == 'ret' else ())
        s.fin(ex, o)


FCreate.must = ('throw',)


class FReg(FactoryT):
    """a creator of the class is registered under the code, unless one is already"""
    name, func = 'Factory: registerType', '^ccv_freg$'

    def post(s, ex, o, variant):
        new = o.st.ghost.get('entry')
        if o.kind == 'ret':
            ob(ex, o, 'registered unless the code was', (new is not None) == (variant == 'unknown'))
            if new is not None:
                v = o.st.mem[new].cells[0][1]
                ob(ex, o, 'by a creator of the class given', v.reg.name.startswith('@_ZTVN9classdesc7FactoryI2FBiE7CreatorI2F1E') and v.off == 16)
                c = [k[1] for k, x in o.st.ghost.items() if isinstance(k, tuple) and k[0] == 'own' and x is new]
                ob(ex, o, 'which the factory owns', len(c) == 1 and Eq(rc(o.st, c[0]), 1))
        s.leaks(ex, o, (new,))
        s.fin(ex, o)


class Creator(S):
    """Creator<T>::create makes a new T"""
    name, func, poly = 'Factory: Creator::create', r'^classdesc::Factory<FB, int>::Creator<F1>::create\(\) const$', 0

    def setup(s, ex, st, variant):
        s.a = ex.alloc(st, 'creator', 'cells', size=8)
        return [Ptr(s.a)]

    post = lambda s, ex, o, variant: (expect(ex, o, [('construct', 'F1')] if o.kind == 'ret' else []),
                                      ob(ex, o, 'new object', o.kind == 'throw' or o.st.ghost.get(('dyn', o.val.reg)) == 'F1'), s.leaks(ex, o, (o.val.reg,) if o.kind == 'ret' else ()), frame(ex, o, ex.st0))


fac = [FCreate(), FReg(), Creator()]
core += po + objs + fac
