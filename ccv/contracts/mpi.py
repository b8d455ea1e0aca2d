"""C19: the MPI buffers make the calls the property needs, on the right data, and end up with what was received.  The MPI functions
are under contract (their meaning for one process); the number of processes, the rank, sizes, contents and arguments are arbitrary"""
from contracts.pack_stl import *
from contracts.pack_core import *
from contracts.trace import note as note_, trace
from stl import SeqV, new_storage, seq

TU = 'mpi.cc'
STD = 'c++11'
INT = 1 << 31
ANY_SOURCE, ANY_TAG, UNDEFINED = (1 << 32) - 2, (1 << 32) - 1, (1 << 32) - 32766
W32 = 1 << 32


def note(st, ev): note_(st, *ev)


def mem(ex, c, f): return ex.mod.members[c][f]


def cell(st, reg, off): return st.mem[reg].cells[off][1]


def ints(ex, st, n, name, heap=True, lo=0, hi=W32):
    """an array of n ints"""
    r = ex.alloc(st, name, 'arr', elemsize=4, heap=heap, ln=z(n))
    A = fresh(name + '[]', z3.ArraySort(I, I))
    k = z3.Int('k!b')
    st.assume(z3.ForAll([k], And(z3.Select(A, k) >= lo, z3.Select(A, k) < hi), patterns=[z3.Select(A, k)]))
    st.rw(r).arr[0] = (4, lambda k, A=A: z3.Select(A, k))
    return r


def data_fn(name, st): return bytes_fn(name, st)


def put(ex, st, p, v): ex.store(st, p, v if isinstance(v, IntV) else IntV(32, v), TInt(32))


def comm(ex, st, v, t=None): ex.oblige(st, 'the communicator of the buffer', Eq(v.u(), (t or ex.task).comm), 'call')


def is_char(ex, st, v): ex.oblige(st, 'bytes are sent', Eq(v.u(), 1), 'call')


def readable(ex, st, p, n):
    """n bytes from p can be read; their values"""
    if p.reg is None:
        ex.oblige(st, 'nothing is read from a null pointer', Eq(n, 0), 'safety')
        return lambda k: z3.IntVal(0)
    rs = st.mem[p.reg]
    ex.oblige(st, 'the bytes can be read', And(rs.alive, z(p.idx) >= 0, z(n) >= 0, z(p.idx) + n <= rs.len), 'safety')
    return bytes_at(ex, st, p)


def write(ex, st, p, n, f):
    """f(0)..f(n-1) go to p"""
    if p.reg is None:
        ex.oblige(st, 'nothing is written to a null pointer', Eq(n, 0), 'safety')
        return
    rs = st.rw(p.reg)
    ex.oblige(st, 'the bytes fit', And(rs.alive, z(p.idx) >= 0, z(n) >= 0, z(p.idx) + n <= rs.len), 'safety')
    fn, i = rs.arr[0][1], z(p.idx)
    rs.arr[0] = (1, lambda k: z3.If(And(k >= i, k < i + n), f(k - i), fn(k)))
    st.log((p.reg, 'arr', 0))


# ---------------------------------------------------------------- MPI
def flags(v):
    def h(ex, st, ci):
        put(ex, st, ci.args[0], v(ex))
        return ret(st, IntV(32, 0))
    return h


def m_rank(ex, st, ci):
    comm(ex, st, ci.args[0])
    put(ex, st, ci.args[1], ex.task.me)
    return ret(st, IntV(32, 0))


def m_size(ex, st, ci):
    comm(ex, st, ci.args[0])
    put(ex, st, ci.args[1], ex.task.np)
    return ret(st, IntV(32, 0))


def m_send(ex, st, ci):
    p, n, t, d, tag, c = ci.args[:6]
    is_char(ex, st, t)
    comm(ex, st, c)
    f = readable(ex, st, p, n.u())
    h = getattr(ex.task, 'sending', None)
    if h: return h(ex, st, p, n, f, d, tag)
    if ci.dem == 'MPI_Isend':
        q = fresh('request')
        st.assume(q > 0, q < INT)
        put(ex, st, ci.args[6], q)
        note(st, ('isend', f, n, d, tag, p, q))
    else: note(st, ('send', f, n, d, tag))
    return ret(st, IntV(32, 0))


def message(ex, st, p, t):
    """a message that is waiting and fits the request for source p and tag t"""
    s, g, n = fresh('source'), fresh('tag'), fresh('count')
    st.assume(s >= 0, s < ex.task.np, g >= 0, g < INT, n >= 0, n < INT)
    st.assume(z3.Implies(z(p.u()) != ANY_SOURCE, s == p.u()), z3.Implies(z(t.u()) != ANY_TAG, g == t.u()))
    return s, g, n, data_fn('message', st)


def setstatus(ex, st, p, *v):
    if p.reg is None: return
    for i, x in enumerate(v): ex.store(st, Ptr(p.reg, p.idx, p.off + 4 * i), IntV(32, x), TInt(32))


def undef(st): 
    x = fresh('undefined')
    st.assume(x >= 0, x < W32)
    return x


def m_probe(ex, st, ci):
    p, t, c, s = ci.args
    comm(ex, st, c)
    note(st, ('probe', p, t))
    m = message(ex, st, p, t)
    st.ghost['message'] = m
    setstatus(ex, st, s, m[0], m[1], undef(st), m[2])
    return ret(st, IntV(32, 0))


def m_count(ex, st, ci):
    s, t, n = ci.args
    is_char(ex, st, t)
    v = ex.load(st, Ptr(s.reg, s.idx, s.off + 12), TInt(32))
    put(ex, st, n, v)
    return ret(st, IntV(32, 0))


def m_recv(ex, st, ci):
    p, n, ty, s, t, c, status = ci.args
    is_char(ex, st, ty)
    comm(ex, st, c)
    m = st.ghost.get('message')
    ex.oblige(st, 'a message is waiting', m is not None, 'call')
    if m is None: return []
    ex.oblige(st, 'the message received is the one looked for', And(Eq(s.u(), m[0]), Eq(t.u(), m[1])), 'call')
    ex.oblige(st, 'the message is not truncated', z(n.u()) >= m[2], 'call')
    write(ex, st, p, m[2], m[3])
    st.ghost['message'] = None
    note(st, ('recv', m))
    setstatus(ex, st, status, m[0], m[1], undef(st), m[2])
    return ret(st, IntV(32, 0))


def pending(st, q):
    return [e for e in trace(st) if e[0] == 'isend' and q is not None and e[6] is q]


def m_wait(ex, st, ci):
    r, s = ci.args
    q = ex.load(st, r, TInt(32))
    if q is None: return []
    for e in pending(st, q.e):          # the data is still there, unchanged
        if e[5].reg is not None:
            k = fresh('k')
            now = bytes_at(ex, st, e[5])
            ex.oblige(st, 'the data of a message under way is kept', And(st.mem[e[5].reg].alive, z3.Implies(And(k >= 0, k < e[2].u()), now(k) == e[1](k))), 'call')
    note(st, ('wait', q))
    put(ex, st, r, 0)
    setstatus(ex, st, s, undef(st), undef(st), undef(st), undef(st))
    return ret(st, IntV(32, 0))


def m_test(ex, st, ci):
    r, f, s = ci.args
    q = ex.load(st, r, TInt(32))
    if q is None: return []
    v = fresh('complete')
    st.assume(v >= 0, v <= 1, z3.Implies(z(q.u()) == 0, v == 1))
    st.ghost['complete'] = v
    put(ex, st, f, v)
    put(ex, st, r, z3.If(v == 1, 0, z(q.u())))
    note(st, ('test', q))
    setstatus(ex, st, s, undef(st), undef(st), undef(st), undef(st))
    return ret(st, IntV(32, 0))


def m_iprobe(ex, st, ci):
    p, t, c, f, s = ci.args
    comm(ex, st, c)
    v = fresh('waiting')
    st.assume(v >= 0, v <= 1)
    st.ghost['waiting'] = v
    put(ex, st, f, v)
    note(st, ('iprobe', p, t))
    setstatus(ex, st, s, undef(st), undef(st), undef(st), undef(st))
    return ret(st, IntV(32, 0))


def root(ex, st, r): ex.oblige(st, 'the root asked for', Eq(r.u(), ex.task.root), 'call')


def m_bcast(ex, st, ci):
    T = ex.task
    p, n, t, r, c = ci.args
    comm(ex, st, c)
    root(ex, st, r)
    st.ghost['calls'] = st.ghost.get('calls', ()) + (('bcast', t.e),)
    if isint(t.e) and t.e == 2:
        ex.oblige(st, 'one number', Eq(n.u(), 1), 'call')
        v = ex.load(st, p, TInt(32))
        if v is None: return []
        ex.oblige(st, 'the root announces its size', z3.Implies(T.isroot, z(v.u()) == T.rootsize), 'call')
        put(ex, st, p, T.rootsize)
        return ret(st, IntV(32, 0))
    is_char(ex, st, t)
    ex.oblige(st, 'the same size everywhere', z(n.u()) == T.rootsize, 'call')
    f = readable(ex, st, p, n.u())
    k = fresh('k')
    ex.oblige(st, "the root sends its contents", z3.Implies(And(T.isroot, k >= 0, k < n.u()), f(k) == T.rootdata(k)), 'call')
    write(ex, st, p, n.u(), T.rootdata)
    return ret(st, IntV(32, 0))


def int_array(ex, st, p, n, f, what):
    """the n ints at p are f(0).."""
    if p.reg is None or p.reg.kind != 'arr' or p.reg.elemsize != 4:
        ex.oblige(st, what, False, 'call')
        return
    k = fresh('k')
    rs = st.mem[p.reg]
    ex.oblige(st, what, And(rs.alive, z(p.idx) >= 0, z(p.idx) + n <= rs.len, z3.Implies(And(k >= 0, k < n), rs.arr[0][1](z(p.idx) + k) == f(k))), 'call')


def m_gather(ex, st, ci):
    T = ex.task
    p, n, t, q, m, u, r, c = ci.args
    comm(ex, st, c)
    root(ex, st, r)
    st.ghost['calls'] = st.ghost.get('calls', ()) + (('gather', t.e),)
    if isint(t.e) and t.e == 2:
        ex.oblige(st, 'one number', And(Eq(n.u(), 1), Eq(m.u(), 1), Eq(u.u(), 2)), 'call')
        v = ex.load(st, p, TInt(32))
        if v is None: return []
        ex.oblige(st, 'its size is announced', z(v.u()) == T.v0.size, 'call')
        out = []
        for at in (True, False):
            s1 = st.fork()
            s1.assume(T.isroot if at else Not(T.isroot))
            if not ex.prover.feasible(s1.pc): continue
            if at:
                if q.reg is None or q.reg.elemsize != 4:
                    ex.oblige(s1, 'the sizes fit', False, 'safety')
                    continue
                rs = s1.rw(q.reg)
                ex.oblige(s1, 'the sizes fit', And(rs.alive, z(q.idx) + T.np <= rs.len), 'safety')
                fn, i = rs.arr[0][1], z(q.idx)
                rs.arr[0] = (4, lambda k, fn=fn, i=i: z3.If(And(k >= i, k < i + T.np), T.SZ(k - i), fn(k)))
                s1.log((q.reg, 'arr', 0))
            out += ret(s1, IntV(32, 0))
        return out
    is_char(ex, st, t)
    is_char(ex, st, u)
    ex.oblige(st, 'its size is sent', And(z(n.u()) == T.v0.size, z(m.u()) == n.u()), 'call')
    f = readable(ex, st, p, n.u())
    k = fresh('k')
    ex.oblige(st, 'its contents are sent', z3.Implies(And(k >= 0, k < n.u()), f(k) == T.v0.fn(k)), 'call')
    return at_root(ex, st, lambda s1: write(ex, s1, q, z(n.u()) * T.np, T.CAT))


def at_root(ex, st, f):
    out = []
    for at in (True, False):
        s1 = st.fork()
        s1.assume(ex.task.isroot if at else Not(ex.task.isroot))
        if not ex.prover.feasible(s1.pc): continue
        if at: f(s1)
        out += ret(s1, IntV(32, 0))
    return out


def m_gatherv(ex, st, ci):
    T = ex.task
    p, n, t, q, sz, off, u, r, c = ci.args
    comm(ex, st, c)
    root(ex, st, r)
    st.ghost['calls'] = st.ghost.get('calls', ()) + (('gatherv', t.e),)
    is_char(ex, st, t)
    is_char(ex, st, u)
    ex.oblige(st, 'its size is sent', z(n.u()) == T.v0.size, 'call')
    f = readable(ex, st, p, n.u())
    k = fresh('k')
    ex.oblige(st, 'its contents are sent', z3.Implies(And(k >= 0, k < n.u()), f(k) == T.v0.fn(k)), 'call')

    def do(s1):
        int_array(ex, s1, sz, T.np, T.SZ, 'the sizes of the parts')
        int_array(ex, s1, off, T.np, T.PRE, 'the parts one behind the other')
        write(ex, s1, q, T.PRE(T.np), T.CAT)
    return at_root(ex, st, do)


def m_scatter(ex, st, ci):
    T = ex.task
    p, n, t, q, m, u, r, c = ci.args
    comm(ex, st, c)
    root(ex, st, r)
    st.ghost['calls'] = st.ghost.get('calls', ()) + (('scatter', t.e),)
    ex.oblige(st, 'one number', And(Eq(n.u(), 1), Eq(m.u(), 1), Eq(u.u(), 2), Eq(t.u(), 2)), 'call')
    out = at_root(ex, st, lambda s1: int_array(ex, s1, p, T.np, lambda k: T.off0(k + 1) - T.off0(k), 'the sizes of the parts'))
    for o in out: put(ex, o.st, q, T.part)
    return out


def m_scatterv(ex, st, ci):
    T = ex.task
    p, sz, off, t, q, m, u, r, c = ci.args
    comm(ex, st, c)
    root(ex, st, r)
    st.ghost['calls'] = st.ghost.get('calls', ()) + (('scatterv', t.e),)
    is_char(ex, st, t)
    is_char(ex, st, u)
    ex.oblige(st, 'the size of its part', z(m.u()) == T.part, 'call')

    def do(s1):
        int_array(ex, s1, sz, T.np, lambda k: T.off0(k + 1) - T.off0(k), 'the sizes of the parts')
        int_array(ex, s1, off, T.np, T.off0, 'where the parts are')
        f = readable(ex, s1, p, T.off0(T.np))
        k = fresh('k')
        ex.oblige(s1, 'the contents are distributed', z3.Implies(And(k >= 0, k < T.off0(T.np)), f(k) == T.v0.fn(k)), 'call')
    out = at_root(ex, st, do)
    for o in out: write(ex, o.st, q, T.part, T.partdata)
    return out


def group(name, kind):
    """MPI_{Test,Wait}{all,any,some}: the requests that are reported become null; n requests"""
    def h(ex, st, ci):
        T = ex.task
        a = list(ci.args)
        n, r = a[0], a[1]
        rs = st.mem[r.reg]
        int_array(ex, st, r, n.u(), T.req0, 'the requests of the buffers')
        ex.oblige(st, 'all requests', Eq(n.u(), T.n), 'call')
        new = fresh('requests', z3.ArraySort(I, I))
        k = z3.Int('k!r')
        st.assume(z3.ForAll([k], z3.Or(z3.Select(new, k) == 0, z3.Select(new, k) == T.req0(k)), patterns=[z3.Select(new, k)]))
        w = st.rw(r.reg)
        fn, i = w.arr[0][1], z(r.idx)
        w.arr[0] = (4, lambda k: z3.If(And(k >= i, k < i + T.n), z3.Select(new, k - i), fn(k)))
        st.log((r.reg, 'arr', 0))
        st.ghost['requests'] = new
        note(st, (name,))
        if kind == 'all':
            if name == 'MPI_Testall':
                f = fresh('flag')
                st.assume(f >= 0, f <= 1)
                put(ex, st, a[2], f)
                st.ghost['flag'] = f
        elif kind == 'any':
            x = fresh('index')
            st.assume(z3.Or(x == UNDEFINED, And(x >= 0, x < T.n)))
            put(ex, st, a[2], x)
            st.ghost['index'] = x
            if name == 'MPI_Testany': put(ex, st, a[3], undef(st))
        else:
            c = fresh('count')
            st.assume(z3.Or(c == UNDEFINED, And(c >= 0, c <= T.n)))
            put(ex, st, a[2], c)
            q = a[3]
            ex.oblige(st, 'the indices fit', And(q.reg is not None, z(q.idx) == 0, st.mem[q.reg].len >= T.n), 'safety')
            m = z3.If(c == UNDEFINED, 0, c)
            X = fresh('indices', z3.ArraySort(I, I))
            w = st.rw(q.reg)
            fn = w.arr[0][1]
            w.arr[0] = (4, lambda k: z3.If(And(k >= 0, k < m), z3.Select(X, k), fn(k)))
            st.log((q.reg, 'arr', 0))
            st.ghost['count'], st.ghost['indices'] = m, X
        return ret(st, IntV(32, 0))
    return h


# ---------------------------------------------------------------- arrays of ints, vectors
def new_ints(ex, st, ci):
    n = ci.args[0].u()
    m = fresh('n')
    st.assume(4 * m == n, m >= 0)
    return ret(st, Ptr(ints(ex, st, m, 'new int[]')))


def new_array(ex, st, ci): return new_ints(ex, st, ci)


def v_n(ex, st, ci):
    """vector<int>(n): n zeros"""
    n = z(ci.args[1].u())
    r = new_storage(ex, st, 'indices', 4, {0: 4}, n)
    st.rw(r).arr[0] = (4, lambda k: z3.IntVal(0))
    ex.setobj(st, ci.args[0], SeqV('vector', r))
    return ret(st)


def v_range(ex, st, ci):
    """vector<int>(first, last)"""
    o, a, b = ci.args[:3]
    ex.oblige(st, 'a range of the vector', And(a.reg is b.reg, z(a.idx) >= 0, z(b.idx) >= z(a.idx), z(b.idx) <= st.mem[a.reg].len), 'safety')
    r = new_storage(ex, st, 'result', 4, {0: 4}, z(b.idx) - z(a.idx))
    fn, i = st.mem[a.reg].arr[0][1], z(a.idx)
    st.rw(r).arr[0] = (4, lambda k: fn(i + k))
    ex.setobj(st, o, SeqV('vector', r))
    return ret(st)


def v_move(ex, st, ci):
    ex.setobj(st, ci.args[0], ex.getobj(st, ci.args[1]))
    return ret(st, ci.args[0])


def i_plus(ex, st, ci):
    it = cell(st, ci.args[0].reg, ci.args[0].idx + ci.args[0].off) if ci.args[0].reg.kind == 'cells' else None
    if not isinstance(it, Ptr): raise Undecided('iterator + n')
    return ret(st, Ptr(it.reg, z(it.idx) + z(ci.args[1].s_()), it.off))


def v_pop(ex, st, ci):
    v = seq(ex, st, ci.args[0])
    rs = st.rw(v.reg)
    ex.oblige(st, 'pop_back() of a vector that is not empty', z(rs.len) > 0, 'safety')
    rs.len = rs.len - 1
    st.log((v.reg, 'len'))
    return ret(st)


def v_ptrs(ex, st, ci):
    st.rw(ci.args[0].reg).cells[ci.args[0].idx + ci.args[0].off] = (24, Opaque(24, 'alloced'))
    st.log((ci.args[0].reg, 'cell', ci.args[0].idx + ci.args[0].off))
    return ret(st)


def nothing(ex, st, ci): return ret(st)


VI = r'^std::vector<int, std::allocator<int> ?>::'
MPI = [(r'^MPI_Initialized$', flags(lambda ex: 1)), (r'^MPI_Finalized$', flags(lambda ex: 0)), (r'^MPI_Comm_rank$', m_rank), (r'^MPI_Comm_size$', m_size),
       (r'^MPI_I?[Ss]end$', m_send), (r'^MPI_Probe$', m_probe), (r'^MPI_Get_count$', m_count), (r'^MPI_Recv$', m_recv), (r'^MPI_Wait$', m_wait), (r'^MPI_Test$', m_test),
       (r'^MPI_Iprobe$', m_iprobe), (r'^MPI_Bcast$', m_bcast), (r'^MPI_Gather$', m_gather), (r'^MPI_Gatherv$', m_gatherv), (r'^MPI_Scatter$', m_scatter), (r'^MPI_Scatterv$', m_scatterv),
       (r'^operator new\[\]\(unsigned long\)$', new_array), (VI + r'vector\(unsigned long, ', v_n), (VI + r'vector<.*>\(.*__normal_iterator.*__normal_iterator', v_range), (VI + r'operator=\(std::vector<int, std::allocator<int> ?>&&\)$', v_move),
       (r'^__gnu_cxx::__normal_iterator<.*>::operator\+\(long\) const$', i_plus), (VI + r'pop_back\(\)$', v_pop), (r'^std::vector<.*PtrStoreRef.*>::vector\(\)', v_ptrs), (r'^std::allocator<int>::~?allocator\(\)$', nothing)]
MPI += [(r'^MPI_%s%s$' % (a, b), group('MPI_' + a + b, b)) for a in ('Test', 'Wait') for b in ('all', 'any', 'some')]


# ---------------------------------------------------------------- the buffer
class M(Task):
    """a buffer in an arbitrary state (variants: no data / some data)"""
    tu, std = TU, STD
    variants = ('null', 'data')
    contracts = MPI
    assumptions = ('MPI is running and reports no errors', 'sizes fit an int (MPI counts are ints)')

    def __init__(s, name, fn):
        s.name, s.func = name, '^%s$' % fn

    def world(s, ex, st):
        s.np, s.me, s.comm = fresh('nprocs'), fresh('myid'), fresh('comm')
        st.assume(s.np >= 1, s.np < INT - 1, s.me >= 0, s.me < s.np, s.comm >= 0, s.comm < W32)

    def mk(s, ex, st, variant, name='buffer', dyn='_ZTVN9classdesc6MPIbufE', c='MPIbuf', marks=None):
        M_ = ex.mod.members['MPIbuf']
        size = ex.mod.size(cls(ex, c if c.startswith('class') else 'class.classdesc::' + c))
        r = mk_pack(ex, st, name, variant == 'null', dyn=dyn, size=size)
        rs = st.rw(r)
        off = ints(ex, st, s.np + 1, name + '.offsets', hi=INT)
        ctr = fresh(name + '.offsctr')
        f0 = st.mem[off].arr[0][1]
        v = PackView(ex, st, r)
        st.assume(ctr >= 1, ctr <= s.np + 1, f0(z3.IntVal(0)) == 0, v.size < INT)
        rs = st.rw(r)
        rs.cells[M_['offsets']] = (8, Ptr(off))
        rs.cells[M_['offsctr']] = (4, IntV(32, ctr))
        for n in ('request', 'proc', 'tag'): rs.cells[M_[n]] = (4, sym_int(ex, st, name + '.' + n, 32))
        rs.cells[M_['Communicator']] = (4, IntV(32, s.comm))
        b = fresh(name + '.const_buffer')
        st.assume(b >= 0, b <= 1)
        rs.cells[M_['const_buffer']] = (1, IntV(8, b))
        return r, off, f0

    def setup(s, ex, st, variant):
        s.world(ex, st)
        s.r, s.off, s.off0 = s.mk(ex, st, variant)
        s.v0 = PackView(ex, st, s.r)
        return [Ptr(s.r)] + s.args(ex, st)

    def args(s, ex, st): return []

    def f(s, ex, st, n): return cell(st, s.r, mem(ex, 'MPIbuf', n))

    def fin(s, ex, o, changed=(), regs=()):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        if o.kind != 'ret': return None
        v1 = PackView(ex, o.st, s.r)
        ob(ex, o, 'invariant', v1.inv())
        p = s.f(ex, o.st, 'offsets')
        rs = o.st.mem[p.reg] if p.reg else None
        ob(ex, o, 'invariant (marks)', rs is not None and And(rs.alive, rs.len >= s.np + 1, z(s.f(ex, o.st, 'offsctr').u()) >= 1, z(s.f(ex, o.st, 'offsctr').u()) <= s.np + 1, rs.arr[0][1](z3.IntVal(0)) == 0))
        al = set(regs)
        for n in changed:
            al.add((s.r, ex.mod.members['pack_t'][n] if n in ex.mod.members['pack_t'] and n.startswith('m_') else mem(ex, 'MPIbuf', n)))
        if 'm_data' in changed and s.v0.data.reg is not None: al.add(s.v0.data.reg)
        frame(ex, o, ex.st0, al)
        return v1

    def same_data(s, ex, o, v1): ob(ex, o, 'the data itself stays', v1.data.reg is s.v0.data.reg)

    def contents(s, ex, o, v1, n, f, label='contents'):
        ob(ex, o, label + ': size', v1.size == n)
        k = fresh('k')
        ob(ex, o, label, z3.Implies(And(k >= 0, k < n), v1.fn(k) == f(k)))

    def events(s, ex, o, kinds):
        got = [e[0] for e in trace(o.st)]
        ob(ex, o, 'calls %s' % ' '.join(kinds), got == list(kinds))
        return trace(o.st) if got == list(kinds) else None

    def returns(s, ex, o): ob(ex, o, 'returns the buffer', isinstance(o.val, Ptr) and o.val.reg is s.r and o.val.off == 0)


def same_sent(s, ex, o, e, d, t):
    ob(ex, o, 'destination and tag', And(Eq(e[3].u(), d.u()), Eq(e[4].u(), t.u())))
    k = fresh('k')
    ob(ex, o, 'the whole buffer is sent', And(z(e[2].u()) == s.v0.size, z3.Implies(And(k >= 0, k < s.v0.size), e[1](k) == s.v0.fn(k))))


class Send(M):
    def __init__(s, name, fn, asy):
        M.__init__(s, name, fn)
        s.asy, s.manip = asy, fn.startswith('ccv_m')

    def args(s, ex, st):
        s.d, s.t = sym_int(ex, st, 'dest', 32), sym_int(ex, st, 'tag', 32)
        return [s.d, s.t]

    def post(s, ex, o, variant):
        v1 = s.fin(ex, o, ('m_size', 'request') if s.asy else ('m_size',))
        if v1 is None: return
        s.same_data(ex, o, v1)
        if s.manip: s.returns(ex, o)
        if not trace(o.st):
            ob(ex, o, 'nothing is sent only to the process itself', Eq(s.d.u(), s.me))
            ob(ex, o, 'then the contents stay', v1.size == s.v0.size)
            if s.asy: ob(ex, o, 'no request', Eq(s.f(ex, o.st, 'request').u(), s.f(ex, ex.st0, 'request').u()))
            return
        e = s.events(ex, o, ['isend' if s.asy else 'send'])
        if not e: return
        same_sent(s, ex, o, e[0], s.d, s.t)
        ob(ex, o, 'the buffer is empty for the next message', v1.size == 0)
        if s.asy: ob(ex, o, 'the request is kept', Eq(s.f(ex, o.st, 'request').u(), e[0][6]))


class Get(M):
    def __init__(s, name, fn, any_):
        M.__init__(s, name, fn)
        s.any = any_

    def args(s, ex, st):
        s.p, s.t = (IntV(32, ANY_SOURCE), IntV(32, ANY_TAG)) if s.any else (sym_int(ex, st, 'p', 32), sym_int(ex, st, 't', 32))
        return [] if s.any else [s.p, s.t]

    def post(s, ex, o, variant):
        v1 = s.fin(ex, o, ('m_size', 'm_pos', 'm_data', 'proc', 'tag'))
        if v1 is None: return
        s.returns(ex, o)
        e = s.events(ex, o, ['probe', 'recv'])
        if not e: return
        ob(ex, o, 'the message asked for', And(Eq(e[0][1].u(), s.p.u()), Eq(e[0][2].u(), s.t.u())))
        s.received(ex, o, v1, e[1][1])

    def received(s, ex, o, v1, m):
        s.contents(ex, o, v1, m[2], m[3], 'the contents are those of the message')
        ob(ex, o, 'read from the start', v1.pos == 0)
        ob(ex, o, 'proc and tag are those of the message', And(Eq(s.f(ex, o.st, 'proc').u(), m[0]), Eq(s.f(ex, o.st, 'tag').u(), m[1])))


class SendRecv(Get):
    def __init__(s, name, fn): M.__init__(s, name, fn)

    def args(s, ex, st):
        s.d, s.st_, s.p, s.t = [sym_int(ex, st, n, 32) for n in ('dest', 'sendtag', 'source', 'recvtag')]
        return [s.d, s.st_, s.p, s.t]

    def post(s, ex, o, variant):
        v1 = s.fin(ex, o, ('m_size', 'm_pos', 'm_data', 'proc', 'tag'))
        if v1 is None: return
        if not trace(o.st):
            ob(ex, o, 'nothing is exchanged only with the process itself', Eq(s.d.u(), s.me))
            s.contents(ex, o, v1, s.v0.size, s.v0.fn, 'then the contents stay')
            return
        e = s.events(ex, o, ['isend', 'probe', 'recv', 'wait'])
        if not e: return
        same_sent(s, ex, o, e[0], s.d, s.st_)
        ob(ex, o, 'the message asked for', And(Eq(e[1][1].u(), s.p.u()), Eq(e[1][2].u(), s.t.u())))
        ob(ex, o, 'waits for its own message', Eq(e[3][1].u(), e[0][6]))
        s.received(ex, o, v1, e[2][1])


class Coll(M):
    """collective operations: the same root everywhere, which is one of the processes"""
    def args(s, ex, st):
        s.root = fresh('root')
        st.assume(s.root >= 0, s.root < s.np)
        s.isroot = s.me == s.root
        s.cb = z(s.f(ex, st, 'const_buffer').u()) == 1
        s.more(ex, st)
        return [IntV(32, s.root)]

    def calls(s, ex, o, *alts):
        got = tuple(c[0] for c in o.st.ghost.get('calls', ()))
        ob(ex, o, 'the same collective calls in every process', Or(*[And(got == a, c) for a, c in alts]))


class Bcast(Coll):
    def more(s, ex, st):
        s.rootsize, s.rootdata = fresh('rootsize'), data_fn('rootdata', st)
        k = z3.Int('k!d')
        st.assume(s.rootsize >= 0, s.rootsize < INT)
        st.assume(z3.Implies(Or(s.isroot, s.cb), s.rootsize == s.v0.size))          # constant size: the same everywhere
        st.assume(z3.Implies(s.isroot, z3.ForAll([k], z3.Implies(And(k >= 0, k < s.v0.size), s.rootdata(k) == s.v0.fn(k)))))

    def post(s, ex, o, variant):
        v1 = s.fin(ex, o, ('m_size', 'm_pos', 'm_data'))
        if v1 is None: return
        s.returns(ex, o)
        s.calls(ex, o, (('bcast', 'bcast'), Not(s.cb)), (('bcast',), s.cb))
        s.contents(ex, o, v1, s.rootsize, s.rootdata, "the root's contents")
        ob(ex, o, 'read from the start', v1.pos == 0)


class Gather(Coll):
    def more(s, ex, st):
        s.SZ, s.PRE = z3.Function('SZ!%d' % s.r.id, I, I), z3.Function('PRE!%d' % s.r.id, I, I)
        s.CAT = data_fn('all', st)
        k = z3.Int('k!p')
        SZ, PRE = s.SZ, s.PRE
        st.assume(PRE(0) == 0, SZ(s.me) == s.v0.size)
        st.assume(z3.ForAll([k], z3.Implies(And(k >= 0, k < s.np), And(SZ(k) >= 0, SZ(k) < INT, PRE(k + 1) == PRE(k) + SZ(k), PRE(k) >= 0, PRE(k + 1) <= PRE(s.np))), patterns=[SZ(k)]))
        st.assume(PRE(s.np) >= 0, PRE(s.np) < INT)          # prefix sums of sizes; the total fits an int
        s.total = z3.If(s.cb, s.v0.size * s.np, PRE(s.np))
        st.assume(s.v0.size * s.np < INT)

    def loops(s, c):
        out = []
        p = None
        for nm, g in sources(c):
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 0, i <= s.np))
            mk('inst', lambda c, i: z3.Implies(And(i >= 0, i < s.np), And(s.SZ(i) >= 0, s.PRE(i + 1) == s.PRE(i) + s.SZ(i))))
            for nm2, g2 in sources(c):       # a running total
                if nm2 != nm and 'entry-' not in nm2 + nm: mk('%s is the sum before' % nm2, lambda c, i, g2=g2: None if g2(c) is None else z3.Implies(And(i >= 0, i <= s.np), g2(c) == s.PRE(i)))
            for reg, rs in list(c.st.mem.items()):
                if reg.name == 'new int[]':
                    mk('before %s' % reg.id, lambda c, i, reg=reg: all_(i, lambda k: c.st.mem[reg].arr[0][1](k) == s.PRE(k)))
                    mk('prefix %s' % reg.id, lambda c, i, reg=reg: all_(i + 1, lambda k: c.st.mem[reg].arr[0][1](k) == s.PRE(k)))
        return out

    def post(s, ex, o, variant):
        v1 = s.fin(ex, o, ('m_size', 'm_pos', 'm_data'))
        if v1 is None: return
        s.returns(ex, o)
        s.calls(ex, o, (('gather', 'gatherv'), Not(s.cb)), (('gather',), s.cb))
        at = s.isroot
        k = fresh('k')
        ob(ex, o, "the root's size", z3.Implies(at, v1.size == s.total))
        ob(ex, o, "the root has all contents", z3.Implies(And(at, k >= 0, k < s.total), v1.fn(k) == s.CAT(k)))
        ob(ex, o, 'the root reads from the start', z3.Implies(at, v1.pos == 0))
        ob(ex, o, 'the others are empty', z3.Implies(Not(at), v1.size == 0))


class Scatter(Coll):
    def more(s, ex, st):
        s.part = fresh('part')
        k, j = z3.Int('k!s'), z3.Int('j!s')
        f = s.off0
        ctr = z(s.f(ex, st, 'offsctr').u())
        # at the root: one mark for every process, where the contents ended when it was set
        st.assume(z3.Implies(s.isroot, And(ctr == s.np + 1, f(s.np) <= s.v0.size, f(s.root) <= f(s.root + 1), f(s.root) >= 0, f(s.root + 1) <= f(s.np),
                                           z3.ForAll([k], z3.Implies(And(k >= 0, k < s.np), And(f(k) <= f(k + 1), f(k + 1) <= f(s.np))), patterns=[f(k)]))))
        d = data_fn('part', st)
        st.assume(s.part >= 0, s.part < INT, z3.Implies(s.isroot, s.part == f(s.root + 1) - f(s.root)))
        v0 = s.v0
        s.partdata = lambda k: z3.If(s.isroot, v0.fn(f(s.root) + k), d(k))

    def loops(s, c):
        out = []
        for nm, g in sources(c):
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 0, i <= s.np))
            mk('from 1', lambda c, i: And(i >= 1, i <= s.np + 1))
            for nm2, g2 in sources(c):
                if nm2 != nm and 'entry-' not in nm2 + nm: mk('%s is the mark before' % nm2, lambda c, i, g2=g2: None if g2(c) is None else z3.Implies(And(i >= 1, i <= s.np + 1), g2(c) == s.off0(i - 1)))
            for reg, rs in list(c.st.mem.items()):
                if reg.name == 'new int[]':
                    mk('sizes before %s' % reg.id, lambda c, i, reg=reg: all_(i - 1, lambda k: c.st.mem[reg].arr[0][1](k) == s.off0(k + 1) - s.off0(k)))
                    mk('sizes %s' % reg.id, lambda c, i, reg=reg: all_(i, lambda k: c.st.mem[reg].arr[0][1](k) == s.off0(k + 1) - s.off0(k)))
            mk('cleared', lambda c, i: all_(i, lambda k: c.st.mem[s.off].arr[0][1](k) == 0))
            mk('not yet', lambda c, i: z3.Implies(i == 0, c.st.mem[s.off].arr[0][1](z3.IntVal(0)) == 0))
        return out

    def post(s, ex, o, variant):
        v1 = s.fin(ex, o, ('m_size', 'm_pos', 'm_data', 'offsctr'), {s.off})
        if v1 is None: return
        s.returns(ex, o)
        s.calls(ex, o, (('scatter', 'scatterv'), True))
        s.contents(ex, o, v1, s.part, s.partdata, 'the part of this process')
        ob(ex, o, 'read from the start', v1.pos == 0)
        ob(ex, o, 'the marks are forgotten', Eq(s.f(ex, o.st, 'offsctr').u(), 1))


class Mark(M):
    def setup(s, ex, st, variant):
        a = M.setup(s, ex, st, variant)
        st.assume(z(s.f(ex, st, 'offsctr').u()) <= s.np)     # no more marks than processes
        return a

    def post(s, ex, o, variant):
        v1 = s.fin(ex, o, ('offsctr',), {s.off})
        if v1 is None: return
        s.returns(ex, o)
        c = z(s.f(ex, ex.st0, 'offsctr').u())
        fn = o.st.mem[s.off].arr[0][1]
        k = fresh('k')
        ob(ex, o, 'one mark more', Eq(s.f(ex, o.st, 'offsctr').u(), c + 1))
        ob(ex, o, 'it is where the contents end', fn(c) == s.v0.size)
        ob(ex, o, 'the other marks stay', z3.Implies(And(k >= 0, k < c), fn(k) == s.off0(k)))


class Reset(M):
    def post(s, ex, o, variant):
        v1 = s.fin(ex, o, ('m_size', 'm_pos', 'offsctr', 'tag'))
        if v1 is None: return
        s.returns(ex, o)
        ob(ex, o, 'empty, at the start', And(v1.size == 0, v1.pos == 0))
        ob(ex, o, 'the marks are forgotten', Eq(s.f(ex, o.st, 'offsctr').u(), 1))
        ob(ex, o, 'a slave will answer', z(s.f(ex, o.st, 'tag').u()) != 0)


class Query(M):
    """sent, wait, msg_waiting, myid, nprocs"""
    def __init__(s, name, fn, kind):
        M.__init__(s, name, fn)
        s.kind = kind

    def args(s, ex, st):
        s.a = [sym_int(ex, st, n, 32) for n in ('source', 'tag')] if s.kind == 'iprobe' else []
        return s.a

    def post(s, ex, o, variant):
        v1 = s.fin(ex, o, ('request',) if s.kind in ('test', 'wait') else ())
        if v1 is None: return
        if s.kind == 'myid': return ob(ex, o, 'the rank', Eq(o.val.u(), s.me))
        if s.kind == 'nprocs': return ob(ex, o, 'the number of processes', Eq(o.val.u(), s.np))
        e = s.events(ex, o, [s.kind])
        if not e: return
        if s.kind == 'iprobe':
            ob(ex, o, 'the message asked for', And(*[Eq(x.u(), y.u()) for x, y in zip(e[0][1:], s.a)]))
            ob(ex, o, 'whether one is waiting', (ex.toint(o.val).u() == 1) == (o.st.ghost['waiting'] == 1))
            return
        ob(ex, o, "the buffer's request", Eq(e[0][1].u(), s.f(ex, ex.st0, 'request').u()))
        if s.kind == 'test': ob(ex, o, 'whether it was sent', (ex.toint(o.val).u() == 1) == (o.st.ghost['complete'] == 1))
        else: ob(ex, o, 'no request is left', Eq(s.f(ex, o.st, 'request').u(), 0))


class Copy(M):
    """assignment, self-assignment and copy construction: the contents, marks and settings of the other buffer, and no request"""
    variants = ('data,data', 'null,data', 'data,null', 'self')

    def __init__(s, name, fn, ctor=False):
        M.__init__(s, name, fn)
        s.ctor = ctor
        if ctor: s.variants = ('data', 'null')
        if ctor: s.func = fn

    def setup(s, ex, st, variant):
        s.world(ex, st)
        vs = variant.split(',')
        s.x, s.xoff, s.off0 = s.mk(ex, st, vs[-1] if variant != 'self' else 'data', 'x')
        s.x0 = PackView(ex, st, s.x)
        if s.ctor: s.r = ex.alloc(st, 'new buffer', 'cells', size=st.mem[s.x].cells and ex.mod.size(cls(ex, 'class.classdesc::MPIbuf')))
        elif variant == 'self': s.r, s.off = s.x, s.xoff
        else:
            s.r, s.off, _ = s.mk(ex, st, vs[0])
            c = sym_int(ex, st, 'other communicator', 32)
            st.rw(s.r).cells[mem(ex, 'MPIbuf', 'Communicator')] = (4, c)
        s.v0 = PackView(ex, st, s.r) if not s.ctor else None
        return [Ptr(s.r), Ptr(s.x)]

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        if o.kind != 'ret': return
        v1 = PackView(ex, o.st, s.r)
        x1 = PackView(ex, o.st, s.x)
        ob(ex, o, 'invariant', And(v1.inv(), x1.inv()))
        s.contents(ex, o, v1, s.x0.size, s.x0.fn)
        s0, s1 = ex.st0, o.st
        m = lambda n: mem(ex, 'MPIbuf', n)
        for n in ('Communicator', 'const_buffer', 'proc', 'tag', 'offsctr'):
            a, b = s1.mem[s.r].cells.get(m(n)), cell(s0, s.x, m(n))
            ob(ex, o, 'same ' + n, a is not None and isinstance(a[1], IntV) and Eq(a[1].u(), b.u()))
        p = cell(s1, s.r, m('offsets'))
        rs = s1.mem[p.reg] if p.reg else None
        k = fresh('k')
        ob(ex, o, 'the marks', rs is not None and And(rs.alive, rs.len >= s.np + 1, z3.Implies(And(k >= 0, k < cell(s0, s.x, m('offsctr')).u()), rs.arr[0][1](k) == s.off0(k))))
        if variant != 'self':
            ob(ex, o, 'marks of its own', p.reg is not cell(s1, s.x, m('offsets')).reg)
            ob(ex, o, 'data of its own', v1.data.reg is None or v1.data.reg is not x1.data.reg)
            ob(ex, o, 'no request', Eq(cell(s1, s.r, m('request')).u(), 0))
            ob(ex, o, 'read from the start', v1.pos == 0)
            if not s.ctor:
                q = cell(s0, s.r, m('request'))
                w = [e for e in trace(s1)]
                ob(ex, o, 'a message under way is waited for', Or(And(len(w) == 1 and w[0][0] == 'wait', True), Eq(q.u(), 0)))
                if len(w) == 1: ob(ex, o, 'the right one', Eq(w[0][1].u(), q.u()))
            frame(ex, o, s0, {s.r} | ({s.off} if not s.ctor else set()) | ({s.v0.data.reg} if not s.ctor and s.v0.data.reg is not None else set()))

    def loops(s, c):
        out = []
        n = cell(c.entry, s.x, mem(c.ex, 'MPIbuf', 'offsctr')).u()
        for nm, g in sources(c):
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 0, i <= n))
            for reg in list(c.st.mem):
                if reg.name == 'new int[]': mk('copied %s' % reg.id, lambda c, i, reg=reg: all_(i, lambda k: c.st.mem[reg].arr[0][1](k) == s.off0(k)))
        return out


class New(M):
    variants = (None,)

    def __init__(s): s.name, s.func = 'MPIbuf()', r'^classdesc::MPIbuf::MPIbuf\(\)$'

    def setup(s, ex, st, variant):
        s.world(ex, st)
        s.comm = 91
        s.r = ex.alloc(st, 'new buffer', 'cells', size=ex.mod.size(cls(ex, 'class.classdesc::MPIbuf')))
        return [Ptr(s.r)]

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        v1 = PackView(ex, o.st, s.r)
        ob(ex, o, 'empty', And(v1.inv(), v1.size == 0, v1.pos == 0))
        g = lambda n: s.f(ex, o.st, n)
        p = g('offsets')
        rs = o.st.mem[p.reg]
        ob(ex, o, 'no marks', And(rs.len >= s.np + 1, Eq(g('offsctr').u(), 1), rs.arr[0][1](z3.IntVal(0)) == 0))
        ob(ex, o, 'no request, world', And(Eq(g('request').u(), 0), Eq(g('Communicator').u(), 91), Eq(g('const_buffer').u(), 0)))


class Gone(M):
    def __init__(s): s.name, s.func = '~MPIbuf()', r'^classdesc::MPIbuf::~MPIbuf\(\)$'

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        q = s.f(ex, ex.st0, 'request')
        w = trace(o.st)
        ob(ex, o, 'waits for a message under way', Or(len(w) == 1 and w[0][0] == 'wait', Eq(q.u(), 0)))
        if w: ob(ex, o, 'the right one', And(len(w) == 1, Eq(w[0][1].u(), q.u())))
        ob(ex, o, 'the marks are freed', not o.st.mem[s.off].alive)
        if s.v0.data.reg is not None: ob(ex, o, 'the data is freed', not o.st.mem[s.v0.data.reg].alive)


buf = [Send('MPIbuf::send', 'ccv_send', False), Send('MPIbuf::isend', 'ccv_isend', True), Send('MPIbuf << send', 'ccv_msend', False), Send('MPIbuf << isend', 'ccv_misend', True),
       Get('MPIbuf::get', 'ccv_get', False), Get('MPIbuf::get()', 'ccv_getany', True), SendRecv('MPIbuf::send_recv', 'ccv_send_recv'),
       Bcast('MPIbuf::bcast', 'ccv_bcast'), Bcast('MPIbuf << bcast', 'ccv_mbcast'), Gather('MPIbuf::gather', 'ccv_gather'), Scatter('MPIbuf::scatter', 'ccv_scatter'),
       Mark('MPIbuf << mark', 'ccv_mmark'), Reset('MPIbuf::reset', 'ccv_reset'), Query('MPIbuf::sent', 'ccv_sent', 'test'), Query('MPIbuf::wait', 'ccv_wait', 'wait'),
       Query('MPIbuf::msg_waiting', 'ccv_waiting', 'iprobe'), Query('MPIbuf::myid', 'ccv_myid', 'myid'), Query('MPIbuf::nprocs', 'ccv_nprocs', 'nprocs'),
       Copy('MPIbuf::operator=', 'ccv_assign'), Copy('MPIbuf(const MPIbuf&)', r'^classdesc::MPIbuf::MPIbuf\(classdesc::MPIbuf const&\)$', True), New(), Gone()]


# ---------------------------------------------------------------- groups
class Group(Task):
    """MPIbuf_array: the call is made on the requests of all buffers, and the buffers keep what is left of them"""
    tu, std, contracts = TU, STD, MPI
    assumptions = ('MPI reports no errors',)

    def __init__(s, name, fn, kind):
        s.name, s.func, s.kind = 'MPIbuf_array::' + name, '^%s$' % fn, kind

    def layout(s, ex, dem): return 4, {0: 4}

    def setup(s, ex, st, variant):
        s.n = fresh('n')
        st.assume(s.n >= 0, s.n < INT)
        es = ex.mod.size(cls(ex, 'class.classdesc::MPIbuf'))
        s.q = mem(ex, 'MPIbuf', 'request')
        s.bufs = new_storage(ex, st, 'bufs', es, {s.q: 4}, s.n)
        s.reqs = new_storage(ex, st, 'requests', 4, {0: 4}, s.n)
        s.req0 = st.mem[s.bufs].arr[s.q][1]
        m = ex.mod.members['MPIbuf_array']
        s.a = ex.alloc(st, 'array', 'cells', size=48)
        st.rw(s.a).cells[m['bufs']] = (24, SeqV('vector', s.bufs))
        st.rw(s.a).cells[m['requests']] = (24, SeqV('vector', s.reqs))
        a = [Ptr(s.a)]
        if s.kind == 'some':
            o = ex.alloc(st, 'result object', 'cells', size=24)
            r = new_storage(ex, st, 'old result', 4, {0: 4})
            st.rw(o).cells[0] = (24, SeqV('vector', r))
            s.out = o
            a.append(Ptr(o))
        return a

    def loops(s, c):
        out = []
        for nm, g in sources(c):
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 0, i <= s.n))
            mk('requests', lambda c, i: all_(i, lambda k: c.st.mem[s.reqs].arr[0][1](k) == s.req0(k)))
            mk('kept', lambda c, i: all_(s.n, lambda k: z3.Implies(k >= i, c.st.mem[s.bufs].arr[s.q][1](k) == s.req0(k))))
            if c.st.ghost.get('requests') is not None:
                mk('updated', lambda c, i: all_(i, lambda k: c.st.mem[s.bufs].arr[s.q][1](k) == z3.Select(c.st.ghost['requests'], k)))
        return out

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        if o.kind != 'ret': return
        calls = [e[0] for e in trace(o.st)]
        ob(ex, o, 'one call', calls == ['MPI_' + s.name.split('::')[1].capitalize()])
        if len(calls) != 1: return
        k = fresh('k')
        now = o.st.mem[s.bufs].arr[s.q][1]
        ob(ex, o, 'every buffer has what is left of its request', z3.Implies(And(k >= 0, k < s.n), now(k) == z3.Select(o.st.ghost['requests'], k)))
        if s.name.endswith('testall'): ob(ex, o, 'returns the flag', (ex.toint(o.val).u() == 1) == (o.st.ghost['flag'] == 1))
        elif s.kind == 'any': ob(ex, o, 'returns the index', Eq(o.val.u(), o.st.ghost['index']))
        elif s.kind == 'some':
            r = cell(o.st, s.out, 0)
            rs = o.st.mem[r.reg]
            ob(ex, o, 'as many indices as completed', rs.len == o.st.ghost['count'])
            k = fresh('k')
            ob(ex, o, 'returns the indices', z3.Implies(And(k >= 0, k < o.st.ghost['count']), rs.arr[0][1](k) == z3.Select(o.st.ghost['indices'], k)))
        frame(ex, o, ex.st0, {s.bufs, s.reqs} | ({s.out} if s.kind == 'some' else set()))


group = [Group(a + b, 'ccv_' + a + b, b) for a in ('test', 'wait') for b in ('all', 'any', 'some')]


# ---------------------------------------------------------------- master and slaves
MC = 'MPIslave<Slave>'


class SL(M):
    """the master's side; idle processes are kept in a vector"""
    cls_ = 'class.classdesc::MPIslave'

    def layout(s, ex, dem): return 4, {0: 4}

    def setup(s, ex, st, variant):
        s.world(ex, st)
        s.r, s.off, s.off0 = s.mk(ex, st, variant, 'master', '_ZTVN9classdesc8MPIslaveI5SlaveEE', s.cls_)
        s.v0 = PackView(ex, st, s.r)
        n = fresh('idle.n')
        st.assume(n >= 0, n < s.np)
        s.idle = new_storage(ex, st, 'idle', 4, {0: 4}, n)
        s.n0, s.i0 = n, st.mem[s.idle].arr[0][1]
        st.rw(s.r).cells[s.midle(ex)] = (24, SeqV('vector', s.idle))
        return [Ptr(s.r)] + s.args(ex, st)

    def midle(s, ex): return next(v['idle'] for k, v in ex.mod.members.items() if k.startswith('MPIslave'))

    def left(s, ex, o, n, label):
        """the first n idle processes are as before"""
        rs = o.st.mem[s.idle]
        k = fresh('k')
        ob(ex, o, label, And(rs.len == n, z3.Implies(And(k >= 0, k < n, k < s.n0), rs.arr[0][1](k) == s.i0(k))))


class Exec_(SL):
    """exec(x): x goes to the process taken off the list (variants: another buffer, the master's own)"""
    variants = ('data,data', 'data,null', 'self')

    def __init__(s): SL.__init__(s, 'MPIslave::exec', 'ccv_exec')

    def setup(s, ex, st, variant):
        vs = variant.split(',')
        a = SL.setup(s, ex, st, 'data')
        st.assume(s.n0 >= 1, s.i0(s.n0 - 1) != s.me)
        if variant == 'self': s.x = s.r
        else: s.x = s.mk(ex, st, vs[1], 'x')[0]
        s.x0 = PackView(ex, st, s.x)
        return [a[0], Ptr(s.x)]

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        e = s.events(ex, o, ['send'])
        if not e: return
        e = e[0]
        k = fresh('k')
        ob(ex, o, 'the request is sent', And(z(e[2].u()) == s.x0.size, z3.Implies(And(k >= 0, k < s.x0.size), e[1](k) == s.x0.fn(k))))
        ob(ex, o, 'to an idle process, to be executed', And(Eq(e[3].u(), s.i0(s.n0 - 1)), Eq(e[4].u(), 0)))
        s.left(ex, o, s.n0 - 1, 'which is not idle any more')
        ob(ex, o, 'the buffer is empty for the next request', PackView(ex, o.st, s.x).size == 0)
        frame(ex, o, ex.st0, {s.idle, (s.x, ex.mod.members['pack_t']['m_size'])})


class Returnv(SL):
    def __init__(s): SL.__init__(s, 'MPIslave::get_returnv', 'ccv_returnv')

    def post(s, ex, o, variant):
        v1 = s.fin(ex, o, ('m_size', 'm_pos', 'm_data', 'proc', 'tag'), {s.idle})
        if v1 is None: return
        s.returns(ex, o)
        e = s.events(ex, o, ['probe', 'recv'])
        if not e: return
        ob(ex, o, 'any answer', And(Eq(e[0][1].u(), ANY_SOURCE), Eq(e[0][2].u(), ANY_TAG)))
        Get.received(s, ex, o, v1, e[1][1])
        s.left(ex, o, s.n0 + 1, 'one idle process more')
        ob(ex, o, 'the one that answered', o.st.mem[s.idle].arr[0][1](s.n0) == e[1][1][0])


class AllIdle(SL):
    def __init__(s): SL.__init__(s, 'MPIslave::all_idle', 'ccv_allidle')

    def post(s, ex, o, variant):
        if s.fin(ex, o) is None: return
        ob(ex, o, 'whether all other processes are idle', (ex.toint(o.val).u() == 1) == (s.n0 == s.np - 1))


def returnv(ex, st, ci):
    """get_returnv(): one idle process more (its own contract)"""
    rs = st.rw(ex.task.idle)
    fn, n = rs.arr[0][1], rs.len
    x = fresh('answered')
    rs.arr[0] = (4, lambda k: z3.If(k == n, x, fn(k)))
    rs.len = n + 1
    st.log((ex.task.idle, 'arr', 0))
    st.log((ex.task.idle, 'len'))
    return ret(st, ci.args[0])


class WaitIdle(SL):
    contracts = [(r'^classdesc::MPIslave<Slave>::get_returnv\(\)$', returnv)] + MPI

    def __init__(s): SL.__init__(s, 'MPIslave::wait_all_idle', 'ccv_waitidle')

    def post(s, ex, o, variant):
        if s.fin(ex, o, (), {s.idle}) is None: return
        ob(ex, o, 'all other processes are idle', o.st.mem[s.idle].len == s.np - 1)


class ToAll(SL):
    """a loop that sends to every other process, in order; what: the buffer that is sent (x or the master), tag"""
    def __init__(s, name, fn, tag):
        SL.__init__(s, name, fn)
        s.tag = tag
        s.variants = ('data,data', 'data,null', 'self') if tag == 0 else ('null', 'data')

    def setup(s, ex, st, variant):
        a = SL.setup(s, ex, st, 'data' if s.tag == 0 else variant)
        st.assume(s.me == 0)
        st.ghost['sent'] = z3.IntVal(1)
        if s.tag: return a
        s.x = s.r if variant == 'self' else s.mk(ex, st, variant.split(',')[1], 'x')[0]
        s.x0 = PackView(ex, st, s.x)
        return [a[0], Ptr(s.x)]

    def sending(s, ex, st, p, n, f, d, tag):
        i = st.ghost['sent']
        ex.oblige(st, 'to the next process', Eq(d.u(), i), 'call')
        ex.oblige(st, 'with the tag that means it is to be %s' % ('the last' if s.tag else 'executed'), Eq(tag.u(), s.tag), 'call')
        if s.tag == 0:
            k = fresh('k')
            ex.oblige(st, 'the whole request', And(z(n.u()) == s.x0.size, z3.Implies(And(k >= 0, k < s.x0.size), f(k) == s.x0.fn(k))), 'call')
        st.ghost['sent'] = i + 1
        st.log(('ghost', 'sent'))
        return ret(st, IntV(32, 0))

    def loops(s, c):
        out = []
        for nm, g in sources(c):
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 1, i <= s.np))
            mk('sent', lambda c, i: c.st.ghost['sent'] == i)
        out.append(('size', lambda c: And(z(cell(c.st, s.r, c.ex.mod.members['pack_t']['m_size']).u()) >= 0, z(cell(c.st, s.r, c.ex.mod.members['pack_t']['m_size']).u()) <= s.v0.size)))
        return out

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        ob(ex, o, 'to every other process', o.st.ghost['sent'] == s.np)
        r = s.x if s.tag == 0 else s.r
        if s.tag == 0: ob(ex, o, 'the buffer is empty for the next request', PackView(ex, o.st, r).size == 0)
        frame(ex, o, ex.st0, {(r, ex.mod.members['pack_t']['m_size'])})


class Init(SL):
    """init() in the master: all other processes are idle"""
    def __init__(s): SL.__init__(s, 'MPIslave::init (master)', 'ccv_slaveinit')

    def setup(s, ex, st, variant):
        a = SL.setup(s, ex, st, variant)
        st.assume(s.me == 0, s.n0 == 0)
        return a

    def loops(s, c):
        out = []
        for nm, g in sources(c):
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 1, i <= s.np))
            mk('len', lambda c, i: c.st.mem[s.idle].len == i - 1)
            mk('elems', lambda c, i: all_(i - 1, lambda k: c.st.mem[s.idle].arr[0][1](k) == k + 1))
        return out

    def post(s, ex, o, variant):
        if s.fin(ex, o, (), {s.idle}) is None: return
        k = fresh('k')
        rs = o.st.mem[s.idle]
        ob(ex, o, 'all other processes are idle', And(rs.len == s.np - 1, z3.Implies(And(k >= 0, k < s.np - 1), rs.arr[0][1](k) == k + 1)))


class Put(SL):
    """master << x: the buffer holds x alone; what: (bytes, arguments)"""
    def __init__(s, name, fn, n):
        SL.__init__(s, name, fn)
        s.n = n

    def args(s, ex, st):
        if s.n == 4:
            x = ex.alloc(st, 'x', 'cells', size=4)
            s.x = [sym_int(ex, st, 'value', 32)]
            st.rw(x).cells[0] = (4, s.x[0])
            return [Ptr(x)]
        s.x = [sym_int(ex, st, 'method', 64), sym_int(ex, st, 'adjustment', 64)]
        return list(s.x)

    def post(s, ex, o, variant):
        v1 = s.fin(ex, o, ('m_size', 'm_data'))
        if v1 is None: return
        s.returns(ex, o)
        ob(ex, o, 'the contents are replaced', v1.size == s.n)
        w = 4 if s.n == 4 else 8
        for i, x in enumerate(s.x):
            for k in range(w): ob(ex, o, 'byte %d' % (i * w + k), v1.fn(z3.IntVal(i * w + k)) == ex.byte_of(x, k))


slave = [Exec_(), Returnv(), AllIdle(), WaitIdle(), ToAll('MPIslave::bcast', 'ccv_slavebcast', 0), ToAll('MPIslave::finalize', 'ccv_slavefinal', 1), Init(), Put('MPIslave << int', 'ccv_slaveint', 4), Put('MPIslave << method', 'ccv_slavemeth', 16)]
