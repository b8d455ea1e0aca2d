"""C05: pointer packing.  Graph traversal over an opaque node type: each node packed exactly once under a fresh number, every other reference as that number"""
from contracts.trace import *
from contracts.pack_core import mk_pack, cls
from contracts.multiarray import lemma
import task

TU = 'graph.cc'
STD = 'c++11'
H = 1 << 32


class Obj(Ghost):
    """a std::map / std::vector object; its state is st.ghost[('c', id)]"""
    def __init__(s, id, size): s.id, s.size = id, size
    def havoc(s, ex): return s


class MapS:
    """size; entries: ((key, present, cell region), ...); known: keys not listed may be present"""
    def __init__(s, size, ents=(), rest=True): s.size, s.ents, s.rest = size, ents, rest


class Seg:
    """n >= 0 unknown elements of a vector"""
    def __init__(s, n): s.n = n


def cont(ex, st, p, make=None):
    v = ex.getobj(st, p)
    if not isinstance(v, Obj): raise Undecided('not a container: %r' % (v,))
    return v


def throwing(st):
    bad = st.fork()
    return [Outcome('throw', bad, Exc('@_ZTISt9bad_alloc', NULL))]


def keyof(ex, st, ci):
    if isinstance(ci.args[1], Ptr):
        ty = TInt(32) if ci.dem.startswith('std::map<int') else TPtr()
        v = ex.load(st, ci.args[1], ty)
    return v


def keyeq(ex, st, a, b):
    """True / False (decided), keys are pointers or ints"""
    if isinstance(a, Ptr): return a.reg is b.reg
    f = a.u() == b.u() if not (isint(a.e) and isint(b.e)) else a.e == b.e
    if isinstance(f, bool): return f
    if not ex.prover.feasible(st.pc + [z3.Not(f)]): return True
    if not ex.prover.feasible(st.pc + [f]): return False
    raise Undecided('map keys may or may not be equal')


def lookup(ex, st, id, k):
    """-> [(state, entry or None)]"""
    m = st.ghost[('c', id)]
    for e in m.ents:
        if keyeq(ex, st, e[0], k): return [(st, e if e[1] else None)]
    if not m.rest: return [(st, None)]
    reg = ex.task.known(ex, st, id, k)              # cell with a value the invariant allows, or None: not in the map
    e = (k, reg is not None, reg)
    st.ghost[('c', id)] = MapS(m.size, m.ents + (e,), True)
    return [(st, e if e[1] else None)]


def insert(ex, st, id, k, v):
    m = st.ghost[('c', id)]
    reg = ex.alloc(st, 'map entry', 'cells', size=16)
    st.rw(reg).cells[8] = v
    st.rw(reg).cells[0] = (8 if isinstance(k, Ptr) else k.w // 8, k)
    st.ghost[('c', id)] = MapS(m.size + 1, tuple(e for e in m.ents if not (e[0] is k or keyeq(ex, st, e[0], k))) + ((k, True, reg),), m.rest)
    return reg


def m_ctor(ex, st, ci):
    p = ci.args[0]
    st.ghost[('c', p.reg)] = MapS(z3.IntVal(0), (), False)
    return ret(st) if ex.setobj(st, p, Obj(p.reg, 48)) else []


def m_count(ex, st, ci):
    return sum((ret(s, IntV(64, 0 if e is None else 1)) for s, e in lookup(ex, st, cont(ex, st, ci.args[0]).id, keyof(ex, st, ci))), [])


def m_index(ex, st, ci):
    id, k = cont(ex, st, ci.args[0]).id, keyof(ex, st, ci)
    r = []
    for s, e in lookup(ex, st, id, k):
        if e is None:
            r += throwing(s)
            r += ret(s, Ptr(insert(ex, s, id, k, (4, IntV(32, 0)) if ', int,' in ci.dem.split('std::less')[0] else (8, NULL)), 8))
        else: r += ret(s, Ptr(e[2], 8))
    return r


def m_find(ex, st, ci):
    return sum((ret(s, Ptr(cont(ex, s, ci.args[0]).id, 0, 8) if e is None else Ptr(e[2])) for s, e in lookup(ex, st, cont(ex, st, ci.args[0]).id, keyof(ex, st, ci))), [])


def m_insert(ex, st, ci):
    id, p = cont(ex, st, ci.args[0]).id, ci.args[1]
    isk = ci.dem.startswith('std::map<int')
    k, v = ex.load(st, p, TInt(32) if isk else TPtr()), ex.load(st, p.add(8) if hasattr(p, 'add') else Ptr(p.reg, p.idx + 8, p.off), TPtr() if isk else TInt(32))
    r = []
    for s, e in lookup(ex, st, id, k):
        if e is None:
            r += throwing(s)
            r += ret(s, AggV([Ptr(insert(ex, s, id, k, (8, v) if isk else (4, v)), 0), IntV(8, 1)]))
        else: r += ret(s, AggV([Ptr(e[2]), IntV(8, 0)]))
    return r


def m_end(ex, st, ci): return ret(st, Ptr(cont(ex, st, ci.args[0]).id, 0, 8))
def m_size(ex, st, ci): return ret(st, IntV(64, st.ghost[('c', cont(ex, st, ci.args[0]).id)].size))
def m_empty(ex, st, ci): return ret(st, BoolV(z(st.ghost[('c', cont(ex, st, ci.args[0]).id)].size) == 0))


def m_clear(ex, st, ci):
    st.ghost[('c', cont(ex, st, ci.args[0]).id)] = MapS(z3.IntVal(0), (), False)
    return ret(st)


def v_ctor(ex, st, ci):
    p = ci.args[0]
    st.ghost[('c', p.reg)] = ()
    return ret(st) if ex.setobj(st, p, Obj(p.reg, 24)) else []


def vlen(v):
    n = 0
    for e in v: n = n + (e.n if isinstance(e, Seg) else 1)
    return n


def split(ex, st, id):
    """-> states in which the vector is known to be empty, or known not to be"""
    v = st.ghost[('c', id)]
    if not v or not isinstance(v[-1], Seg): return [st]
    s2 = st.fork()
    st.assume(v[-1].n >= 1)
    s2.assume(v[-1].n == 0)
    s2.ghost[('c', id)] = v[:-1]
    return [x for x in [st] + split(ex, s2, id) if ex.prover.feasible(x.pc)]


def v_size(ex, st, ci):
    id = cont(ex, st, ci.args[0]).id
    return sum((ret(x, IntV(64, vlen(x.ghost[('c', id)]))) for x in split(ex, st, id)), [])


def v_empty(ex, st, ci):
    id = cont(ex, st, ci.args[0]).id
    return sum((ret(x, BoolV(not x.ghost[('c', id)])) for x in split(ex, st, id)), [])


def v_push(ex, st, ci):
    id = cont(ex, st, ci.args[0]).id
    x = ex.load(st, ci.args[1], TPtr())
    bad = throwing(st)
    st.ghost[('c', id)] = st.ghost[('c', id)] + (x,)
    return bad + ret(st)


def v_back(ex, st, ci):
    id = cont(ex, st, ci.args[0]).id
    v = st.ghost[('c', id)]
    ex.oblige(st, 'back() of a nonempty vector', z(vlen(v)) > 0, 'safety')
    if not v: return []
    r = ex.alloc(st, 'last', 'cells', size=8)
    st.rw(r).cells[0] = (8, Ptr(ex.task.D) if isinstance(v[-1], Seg) else v[-1])
    return ret(st, Ptr(r))


def v_pop(ex, st, ci):
    id = cont(ex, st, ci.args[0]).id
    v = st.ghost[('c', id)]
    ex.oblige(st, 'pop_back() of a nonempty vector', z(vlen(v)) > 0, 'safety')
    if not v: return []
    st.ghost[('c', id)] = v[:-1] + ((Seg(v[-1].n - 1),) if isinstance(v[-1], Seg) else ())
    return ret(st)


def v_clear(ex, st, ci):
    st.ghost[('c', cont(ex, st, ci.args[0]).id)] = ()
    return ret(st)


# alloced: elements are PtrStoreRef objects
def a_push(ex, st, ci):
    bad = throwing(st)
    cc = [n for n, f in ex.mod.funcs.items() if f.dem == 'classdesc::PtrStoreRef::PtrStoreRef(classdesc::PtrStoreRef const&)' and f.defined]
    if not cc: raise Undecided('no PtrStoreRef copy constructor')
    r = ex.alloc(st, 'alloced element', 'cells', size=8)
    out = []
    for o in ex.call(st, cc[0], [Ptr(r), ci.args[1]], ci.ins, ci.depth):
        if o.kind == 'ret': o.st.ghost['alloced'] = o.st.ghost.get('alloced', ()) + (r,)
        out.append(Outcome(o.kind, o.st, o.val))
    return bad + out


def a_back(ex, st, ci):
    a = st.ghost.get('alloced', ())
    ex.oblige(st, 'back() of the allocated objects', bool(a), 'safety')
    return ret(st, Ptr(a[-1])) if a else []


def level(ex, st): return ex.load(st, Ptr(ex.task.lev), TInt(32))


def havoc_tables(ex, st):
    """another traversal step at a deeper level: the map and the deferred list only grow, the level is restored"""
    t = ex.task
    m = st.ghost[('c', t.map)]
    n = fresh('grown')
    st.assume(n >= 0, m.size + n < (1 << 31) - 2)
    st.ghost[('c', t.map)] = MapS(m.size + n, tuple(e for e in m.ents if e[1]), True)
    st.ghost[('c', t.vec)] = st.ghost[('c', t.vec)]
    s2 = st.fork()
    k = fresh('deferred')
    s2.assume(k >= 1, k < ADDR)
    s2.ghost[('c', t.vec)] = s2.ghost[('c', t.vec)] + (Seg(k),)
    return [st, s2]


def nodefn(ex, st, ci):
    """packing / unpacking of a node's contents: arbitrary, may throw"""
    t = ex.task
    p = ci.args[3]
    ex.oblige(st, 'node exists', p.reg is not None and st.mem[p.reg].alive and bool(st.ghost.get(('alive', p.reg))), 'safety')
    note(st, 'contents', ci.args[1], p)
    if t.vec is None: return throwing(st) + ret(st)
    ex.oblige(st, 'contents are one level deeper', Eq(level(ex, st).u(), t.L0 + 1), 'post')
    t.registered(ex, st, p)
    out = []
    for s in havoc_tables(ex, st):
        out += throwing(s)
        out += ret(s)
    return out


def again(ex, st, ci):
    """the traversal function: the task's own call is executed, the call for a deferred reference is by contract"""
    t = ex.task
    if not st.ghost.get('entered'):
        st.ghost['entered'] = True
        return INLINE
    if t.lev is not None:
        ex.oblige(st, 'deferred reference handled at level 0', Eq(level(ex, st).u(), 0), 'pre')
        st.ghost[('c', t.map)] = MapS(z3.IntVal(0), (), False)
        st.ghost[('c', t.vec)] = ()
    note(st, 'again', ci.args[0], ci.args[1])
    return throwing(st) + ret(st)


def w_append(ex, st, ci):
    b = ci.args[1]
    m = ex.mod.members['basic_type']
    val = ex.load(st, Ptr(b.reg, b.idx, b.off + m['val']), TPtr())
    n = ex.load(st, Ptr(b.reg, b.idx, b.off + m['size']), TInt(64))
    if not isint(n.e): raise Undecided('size')
    v = ex.load(st, val, TInt(8 * n.e))
    note(st, 'write', ci.args[0], IntV(64, n.e), v)
    return throwing(st) + ret(st)


def r_popoff(ex, st, ci):
    b = ci.args[1]
    m = ex.mod.members['basic_type']
    val = ex.load(st, Ptr(b.reg, b.idx, b.off + m['val']), TPtr())
    n = ex.load(st, Ptr(b.reg, b.idx, b.off + m['size']), TInt(64))
    if not isint(n.e): raise Undecided('size')
    bad = throwing(st)
    v, f = ex.symbolic(TInt(8 * n.e), 'token')
    st.assume(*f)
    ex.store(st, val, v, TInt(8 * n.e))
    note(st, 'read', ci.args[0], IntV(64, n.e), v)
    return bad + ret(st)


def n_ctor(ex, st, ci):
    p = ci.args[0]
    bad = throwing(st)
    st.ghost[('alive', p.reg)] = True
    ex.store(st, p, IntV(32, 0), TInt(32))
    return bad + ret(st)


def n_dtor(ex, st, ci):
    p = ci.args[0]
    ex.oblige(st, 'node destroyed once, while alive', bool(st.ghost.get(('alive', p.reg))), 'safety')
    st.ghost[('alive', p.reg)] = False
    return ret(st)


VP, VA, MM = r'^std::vector<Node\* ?(const)?\*.*>::', r'^std::vector<classdesc::PtrStoreRef.*>::', r'^std::map<.*>::'
CS = [(MM + r'map\(\)$', m_ctor), (MM + r'count\(', m_count), (MM + r'operator\[\]\(', m_index), (r'^(?:.* )?std::map<.*>::insert(?:<.*>)?\(std::pair<.*> ?(?:const)? ?&&?\)$', m_insert), (MM + r'find\(', m_find), (MM + r'end\(\)', m_end), (MM + r'size\(\) const$', m_size), (MM + r'empty\(\) const$', m_empty), (MM + r'clear\(\)$', m_clear),
      (VP + r'vector\(\)$', v_ctor), (VP + r'size\(\) const$', v_size), (VP + r'empty\(\) const$', v_empty), (VP + r'push_back\(', v_push), (VP + r'emplace_back', v_push), (VP + r'back\(\)', v_back), (VP + r'pop_back\(\)', v_pop), (VP + r'clear\(\)', v_clear),
      (VA + r'push_back\(', a_push), (VA + r'emplace_back', a_push), (VA + r'back\(\)', a_back),
      (r'^classdesc_access::access_(un)?pack<Node>::operator\(\)', nodefn), (r'^void classdesc::(un)?pack_graph<', again),
      (r'^classdesc::pack_t::append\(', w_append), (r'^classdesc::pack_t::popoff\(', r_popoff), (r'^Node::Node\(\)$', n_ctor), (r'^Node::~Node\(\)$', n_dtor)]


class G(Task):
    """variants: entry level ('first' use in the process, 'top', 'again' (the rest of a traversal, at level 0), 'nested') and what the reference is"""
    contracts = CS
    assumptions = ('fewer than 2^31-2 distinct nodes and fewer than 2^32-1 levels',)
    which = D = vec = map = lev = None
    variants = ('first:null', 'first:new', 'top:null', 'top:new', 'again:null', 'again:known', 'again:new', 'nested:null', 'nested:known', 'nested:new', 'nested:deferred')
    must = ('ret', 'throw')

    def node(s, ex, st, name):
        r = ex.alloc(st, name, 'cells', size=4, heap=True)
        st.rw(r).cells[0] = (4, ex.symbolic(TInt(32), name)[0])
        st.ghost[('alive', r)] = True
        return r

    def statics(s, ex, st):
        """locate the function's static map, vector and level counter by type"""
        found = {}
        for g, txt in ex.mod.globals.items():
            if not re.match(r'@_ZZN9classdesc\d+%s' % s.which, g): continue
            k = 'map' if 'std::map' in txt else 'vec' if 'std::vector' in txt else 'lev' if re.search(r'global i32', txt) else None
            if k is None or k in found: raise Undecided('unexpected static %s' % g)
            found[k] = g
        if len(found) != 3: raise Undecided('statics of %s: %s' % (s.which, found))
        for k in found: setattr(s, k, ex.global_region(st, found[k]))
        for k, sz in (('map', 48), ('vec', 24)):
            r = getattr(s, k)
            gd = '@_ZGV' + found[k][3:]
            if gd in ex.mod.globals:
                gr = ex.global_region(st, gd)
                st.rw(gr).cells[0] = (1, IntV(8, 0 if s.entry == 'first' else 1))
                s.guards.append(gr)
            if s.entry != 'first' or gd not in ex.mod.globals: st.rw(r).cells[0] = (sz, Obj(r, sz))
        if s.entry in ('nested', 'again'):
            n, k = fresh('nodes'), fresh('deferred')
            s.L0 = fresh('level') if s.entry == 'nested' else 0
            st.assume(n >= 1, n < (1 << 31) - 2, k >= 0, k < ADDR, *([s.L0 >= 1, s.L0 < H - 1] if s.entry == 'nested' else []))
            st.ghost[('c', s.map)] = MapS(n, (), True)
            st.ghost[('c', s.vec)] = (Seg(k),)
        else:
            s.L0 = 0
            st.ghost[('c', s.map)] = MapS(z3.IntVal(0), (), False)
            st.ghost[('c', s.vec)] = ()
        st.rw(s.lev).cells[0] = (4, IntV(32, s.L0))
        s.m0, s.v0 = st.ghost[('c', s.map)], st.ghost[('c', s.vec)]

    def setup(s, ex, st, variant):
        s.guards = []
        s.entry, s.what = variant.split(':')
        s.b = mk_pack(ex, st, 'buffer')
        s.N, s.K = s.node(ex, st, 'node'), s.node(ex, st, 'known node')
        s.a = ex.alloc(st, 'a', 'cells', size=8)
        s.D = ex.alloc(st, 'deferred pointer', 'cells', size=8)
        for r in (s.a, s.D): st.rw(r).cells[0] = (8, NULL if s.what == 'null' else Ptr(s.N))
        if s.which: s.statics(ex, st)
        s.more(ex, st)
        return [Ptr(s.b), Ptr(s.a)]

    def more(s, ex, st): pass

    def limit(s, st, lim):
        """a reference is deferred exactly at the level of the limit, and never at the first level"""
        l = z(s.L0) + 1
        return z3.If(lim == 1, l == 2, l == lim)

    def fin(s, ex, o, want, more=(), again=True):
        st = o.st
        tr = trace(st)
        if s.which:
            ob(ex, o, 'recursion level restored', Eq(level(ex, st).u(), s.L0))
            m, v = st.ghost[('c', s.map)], st.ghost[('c', s.vec)]
            if s.entry != 'nested':
                ob(ex, o, 'no number survives the traversal', And(z(m.size) == 0, not m.rest))
                ob(ex, o, 'nothing left deferred', z(vlen(v)) == 0)
            else:
                ob(ex, o, 'numbers given so far are kept', And(m.size >= s.m0.size, m.rest))
                ob(ex, o, 'deferred references are kept', v[:len(s.v0)] == s.v0)
                if o.kind == 'ret' and s.what == 'deferred': ob(ex, o, 'the reference is deferred', len(v) == len(s.v0) + 1 and isinstance(v[-1], Ptr) and v[-1].reg is s.a)
                if o.kind == 'ret' and s.what in ('null', 'known'): ob(ex, o, 'nothing is deferred', v == s.v0)
            if s.entry != 'nested' and (s.entry == 'again' or s.what == 'new') and len(tr) > len(want): want = want + [('again', Ptr(s.b), Ptr(s.D))]
        if o.kind == 'throw': want = want[:len(tr)]
        expect(ex, o, want)
        frame(ex, o, ex.st0, {s.lev, s.map, s.vec} | set(s.guards) | set(more))

    def val(s, st, v): return IntV(32, v)


class PackG(G):
    which, name, func = 'pack_graph', 'pack_graph', '^ccv_pack_graph$'

    def more(s, ex, st):
        s.rm = st.mem[s.b].cells[ex.mod.members['pack_t']['recur_max']][1]
        d = s.limit(st, s.rm.u())
        st.assume(d if s.what == 'deferred' else z3.Not(d))
        s.xid = fresh('number')
        if s.what == 'known': st.assume(s.xid >= 1, s.xid <= s.m0.size)

    def known(s, ex, st, id, k):
        """the map invariant: every number is between 1 and the number of nodes"""
        if not (isinstance(k, Ptr) and k.reg is s.N): raise Undecided('unexpected key')
        if s.what != 'known': return None
        r = ex.alloc(st, 'known entry', 'cells', size=16)
        st.rw(r).cells[8] = (4, IntV(32, s.xid))
        return r

    def registered(s, ex, st, p):
        m = st.ghost[('c', s.map)]
        e = [e for e in m.ents if e[1] and isinstance(e[0], Ptr) and e[0].reg is p.reg]
        ex.oblige(st, 'node numbered before its contents are packed', bool(e), 'post')
        if e: ex.oblige(st, 'its number is fresh', Eq(ex.load(st, Ptr(e[0][2], 0, 8), TInt(32)).u(), s.m0.size + 1), 'post')
        ex.oblige(st, 'one more node', Eq(m.size, s.m0.size + 1), 'post')

    def post(s, ex, o, variant):
        B, w = Ptr(s.b), lambda v: ('write', Ptr(s.b), IntV(64, 4), v)
        want = [w(s.rm)] if s.entry != 'nested' else []
        want += {'deferred': [], 'null': [w(IntV(32, 0))], 'known': [w(IntV(32, s.xid))], 'new': [w(IntV(32, s.m0.size + 1)), ('contents', B, Ptr(s.N))]}[s.what]
        s.fin(ex, o, want)


graphs = [PackG()]


def owned(ex, o, s, want):
    """objects created by this call: exactly those in the buffer's list, each counted once and alive"""
    st = o.st
    al = st.ghost.get('alloced', ())
    news = [r for r in st.mem if r not in ex.st0.mem and r.heap and st.mem[r].alive and r.name not in ('exception',)]
    tgt = []
    for r in al:
        d = st.mem[r].cells.get(0)
        tgt.append(d[1].reg if d is not None and isinstance(d[1], Ptr) else None)
    if want is not None: ob(ex, o, 'objects handed to the buffer: %d' % want, len(al) == want)
    ob(ex, o, 'every new object is owned by the buffer, once', len(tgt) == len(set(tgt)) and set(tgt) == set(news))
    m = ex.mod.members['PtrStoreBase']
    for r in tgt:
        if r is None or not st.mem[r].alive: continue
        ob(ex, o, 'one owner', Eq(st.mem[r].cells[m['cnt']][1].u(), 0))
        ob(ex, o, 'object constructed', bool(st.ghost.get(('alive', r))))
    return tgt


class UnpackG(G):
    which, name, func = 'unpack_graph', 'unpack_graph', '^ccv_unpack_graph$'
    variants = ('first:new', 'top:new', 'again:known', 'again:new', 'nested:known', 'nested:new', 'nested:deferred')

    def more(s, ex, st):
        s.rm = st.mem[s.b].cells[ex.mod.members['pack_t']['recur_max']][1]
        if s.entry == 'nested':
            d = s.limit(st, s.rm.u())
            st.assume(d if s.what == 'deferred' else z3.Not(d))
        st.rw(s.a).cells[0] = (8, Ptr(s.N))

    def known(s, ex, st, id, k):
        if s.what != 'known': return None
        r = ex.alloc(st, 'known entry', 'cells', size=16)
        st.rw(r).cells[8] = (8, Ptr(s.K))
        return r

    def registered(s, ex, st, p):
        m = st.ghost[('c', s.map)]
        tk = [e[3] for e in trace(st) if e[0] == 'read'][-1]
        e = [e for e in m.ents if e[1] and e[0].w == 32 and not ex.prover.feasible(st.pc + [z3.Not(Eq(e[0].u(), tk.u()))])]
        ex.oblige(st, 'node known under its number before its contents are unpacked', len(e) == 1, 'post')
        if e:
            v = ex.load(st, Ptr(e[0][2], 0, 8), TPtr())
            ex.oblige(st, 'the number stands for this object', isinstance(v, Ptr) and v.reg is p.reg and v.off == p.off, 'post')
        v = ex.load(st, Ptr(s.a), TPtr())
        ex.oblige(st, 'the reference refers to the new object', isinstance(v, Ptr) and v.reg is p.reg and v.off == p.off, 'post')

    def post(s, ex, o, variant):
        st = o.st
        B = Ptr(s.b)
        tr = trace(st)
        rd = [e[3] for e in tr if e[0] == 'read']
        want, more = [], {(s.a, 0)}
        if s.entry != 'nested':
            rm = st.mem[s.b].cells[ex.mod.members['pack_t']['recur_max']][1]
            more |= {(s.b, ex.mod.members['pack_t']['recur_max'])}
            if rd: ob(ex, o, 'limit taken from the data', Eq(rm.u(), rd[0].u()))
            want.append(('read', B, IntV(64, 4), rd[0] if rd else None))
        a = st.mem[s.a].cells[0][1]
        if s.what == 'deferred':
            ob(ex, o, 'reference untouched', a.reg is s.N)
            al = 0
        else:
            want.append(('read', B, IntV(64, 4), rd[-1] if rd else None))
            al = None
            k = len(want)
            if len(rd) < k: al = 0
            else:
                id = rd[-1]
                isnull = not ex.prover.feasible(st.pc + [id.u() != 0])
                isnew = not isnull and s.what == 'new'
                # allocation may fail before the object is handed over
                if o.kind == 'throw' and not any(e[0] == 'contents' for e in tr): pass
                elif isnull:
                    ob(ex, o, 'null', a.reg is None); al = 0
                elif s.what == 'known':
                    ob(ex, o, 'refers to the object known under this number', a.reg is s.K and a.off == 0); al = 0
                if isnew: want.append(('contents', B, a))
                if isnew and (o.kind == 'ret' or len(tr) > k): al = 1
        tgt = owned(ex, o, s, al)
        if al == 1: ob(ex, o, 'refers to the object handed to the buffer', isinstance(a, Ptr) and a.reg in tgt)
        s.fin(ex, o, want, more)


graphs.append(UnpackG())


class PackT(G):
    """tree mode; ptr: the dispatch on the pointer mode"""
    must = ('ret',)

    def __init__(s, ptr=False):
        s.ptr = ptr
        s.name = 'pack pointer' if ptr else 'pack_tree'
        s.func = '^ccv_pack_%s$' % ('ptr' if ptr else 'tree')
        s.variants = tuple(m + ':' + w for m in (('default', 'graph', 'tree') if ptr else ('tree',)) for w in ('null', 'node'))

    def more(s, ex, st):
        if s.ptr: st.rw(s.b).cells[ex.mod.members['pack_t']['ptr_flag']] = (4, IntV(32, {'default': 0, 'graph': 1, 'tree': 2}[s.entry]))
        st.ghost['entered'] = True

    def post(s, ex, o, variant):
        B = Ptr(s.b)
        w = lambda v: ('write', B, IntV(64, 4), IntV(32, v))
        if s.entry == 'default':
            ob(ex, o, 'refused', o.kind == 'throw')
            want = []
        elif s.entry == 'graph': want = [('again', B, Ptr(s.a))]
        else: want = [w(0)] if s.what == 'null' else [w(1), ('contents', B, Ptr(s.N))]
        s.fin(ex, o, want)


class UnpackT(G):
    must = ('ret',)

    def __init__(s, ptr=False):
        s.ptr = ptr
        s.name = 'unpack pointer' if ptr else 'unpack_tree'
        s.func = '^ccv_unpack_%s$' % ('ptr' if ptr else 'tree')
        s.variants = tuple(m + ':' + w for m in (('default', 'graph', 'tree') if ptr else ('tree',)) for w in ('null', 'node'))

    more = PackT.more

    def post(s, ex, o, variant):
        st = o.st
        B = Ptr(s.b)
        tr = trace(st)
        a = st.mem[s.a].cells[0][1]
        more = set()
        al = 0
        if s.entry == 'default':
            ob(ex, o, 'refused', o.kind == 'throw')
            want = []
        elif s.entry == 'graph': want = [('again', B, Ptr(s.a))]
        else:
            want = [('read', B, IntV(64, 4), tr[0][3] if tr else None)]
            if tr:
                isnull = not ex.prover.feasible(st.pc + [tr[0][3].u() != 0])
                if isnull: ob(ex, o, 'null', a.reg is None)
                elif o.kind == 'ret' or len(tr) > 1:
                    want.append(('contents', B, a))
                    al = 1
                else: al = None
                more = {(s.a, 0)}
        tgt = owned(ex, o, s, al)
        if al == 1: ob(ex, o, 'refers to the object handed to the buffer', isinstance(a, Ptr) and a.reg in tgt)
        s.fin(ex, o, want, more)


class Psr(Task):
    """PtrStoreRef: an object is deleted exactly when its last reference goes; shape: targets of o and x ('0' null, P, Q; '=' x is o)"""
    contracts = CS
    assumptions = ('the number of references to one object fits in an int',)
    must = ('ret',)

    def __init__(s, fn, shapes, args, result):
        s.fn, s.variants, s.args_, s.result = fn, tuple(shapes), args, result
        s.name, s.func = 'PtrStoreRef ' + fn, '^ccv_psr_%s$' % fn

    def setup(s, ex, st, variant):
        m = ex.mod.members['PtrStoreBase']
        s.cnt = m['cnt']
        s.pay, s.refs = {}, {}
        vt = [g for g in ex.mod.globals if re.match(r'@_ZTVN9classdesc8PtrStoreI4NodeE', g)]
        for nm in 'PQ':
            if nm not in variant: continue
            r = ex.alloc(st, 'object ' + nm, 'cells', size=16, heap=True)
            n = fresh('others.' + nm)           # references besides the one at hand, minus... count = references - 1
            st.assume(n >= variant.count(nm) - 1, n < (1 << 31) - 2, n >= 0)
            st.rw(r).cells.update({0: (8, Ptr(ex.global_region(st, vt[0]), 16, 0)), s.cnt: (4, IntV(32, n)), s.cnt + 4: (4, ex.symbolic(TInt(32), 'v')[0])})
            st.ghost[('alive', r)] = True
            s.pay[nm] = (r, n)
        out = []
        for k, a in enumerate(s.args_):
            c = variant[k] if k < len(variant) else '0'
            if c == '=': out.append(out[0]); continue
            r = ex.alloc(st, 'reference %d' % k, 'cells', size=8)
            if a != 'raw': st.rw(r).cells[0] = (8, NULL if c == '0' else Ptr(s.pay[c][0]))
            s.refs[k] = r
            out.append(Ptr(r))
        if s.fn == 'new': out[1] = Ptr(s.pay['P'][0])
        return out

    def post(s, ex, o, variant):
        st = o.st
        ob(ex, o, 'no-exception', o.kind == 'ret')
        delta, tgt = s.result(variant)          # change of the number of references; target of o
        fr = set()
        if tgt is not None:
            p = st.mem[s.refs[0]].cells[0][1]
            ob(ex, o, 'refers to %s' % tgt, isinstance(p, Ptr) and (p.reg is None if tgt == '0' else p.reg is s.pay[tgt][0]))
        fr.add((s.refs[0], 0))
        for nm, (r, n) in s.pay.items():
            refs = n + 1 + delta.get(nm, 0)
            alive = st.mem[r].alive
            ob(ex, o, 'object %s lives exactly as long as references to it' % nm, (refs > 0) if alive else (refs == 0))
            ob(ex, o, 'object %s destroyed when deleted' % nm, bool(st.ghost.get(('alive', r))) == alive)
            if alive: ob(ex, o, 'object %s counts its references' % nm, Eq(st.mem[r].cells[s.cnt][1].u(), refs - 1))
            fr |= {(r, s.cnt)} if alive else {r}
        frame(ex, o, ex.st0, fr)


def asg(v):
    x = v[0] if v[1] == '=' else v[1]
    d = {}
    for c, k in ((v[0], -1), (x, 1)):
        if c != '0': d[c] = d.get(c, 0) + k
    return d, x


graphs += [PackT(), UnpackT(), PackT(True), UnpackT(True),
           Psr('copy', ['00', '0P'], ('raw', 'r'), lambda v: ({'P': 1} if 'P' in v else {}, v[1])),
           Psr('new', ['0P'], ('raw', 'r'), lambda v: ({}, 'P')),
           Psr('assign', ['00', 'P0', '0P', 'PP', 'PQ', '0=', 'P='], ('r', 'r'), asg),
           Psr('dtor', ['0', 'P'], ('r',), lambda v: ({'P': -1} if 'P' in v else {}, None))]
