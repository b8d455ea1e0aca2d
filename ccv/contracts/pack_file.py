"""C02: buffers backed by a file, construction and assignment by move, swapping, opening and closing"""
from vc import *
from stdlib import *
from task import *
from contracts.pack_core import PackView, mk_pack, sym_int, ob, cls, NS, Opaque

TU = 'pack_move.cc'
STD = 'c++11'


class FileV(Ghost):
    """a C stream: position, length and content of the file; failed: some operation on it failed"""
    size = 8

    def __init__(s, pos, ln, fn, failed=False): s.pos, s.ln, s.fn, s.failed = pos, ln, fn, failed
    def havoc(s, ex): raise Undecided('stream used in a loop')


def mk_file(ex, st, name='file'):
    r = ex.alloc(st, name, 'cells', size=8, heap=True)
    pos, ln = fresh(name + '.pos'), fresh(name + '.len')
    st.assume(pos >= 0, ln >= 0, pos < ADDR, ln < ADDR)
    st.rw(r).cells[0] = (8, FileV(pos, ln, bytes_fn(name, st)))
    return r


def stream(ex, st, p, what):
    ok = isinstance(p, Ptr) and p.reg is not None and st.mem[p.reg].alive and p.idx == 0 and p.off == 0
    c = st.mem[p.reg].cells.get(0) if ok else None
    ok = ok and c is not None and isinstance(c[1], FileV)
    ex.oblige(st, what + ' of an open stream', bool(ok), 'pre')
    return c[1] if ok else None


def total(ex, st, size, n):
    a, b = size.u(), n.u()
    if isint(a) and a == 1: return b
    if isint(b) and b == 1: return a
    if isint(a) and isint(b): return a * b
    raise Undecided('size of the transfer')


def c_fwrite(ex, st, ci):
    p, size, n, fp = ci.args
    f = stream(ex, st, fp, 'fwrite')
    if f is None: return []
    t = z(total(ex, st, size, n))
    if p.reg is None: ex.oblige(st, 'fwrite from null', t == 0, 'safety'); return []
    rs = st.mem[p.reg]
    src = bytes_at(ex, st, p)
    if src is None: raise Undecided('fwrite of ' + p.reg.name)
    ex.oblige(st, 'fwrite-bounds', Or(t == 0, And(rs.alive, z(p.idx) >= 0, z(p.idx) + t <= rs.len)), 'safety')
    bad = st.fork()
    res = []
    old, pos = f.fn, f.pos
    st.rw(fp.reg).cells[0] = (8, FileV(pos + t, z3.If(pos + t > f.ln, pos + t, f.ln), lambda k: z3.If(And(k >= pos, k < pos + t), src(k - pos), old(k)), f.failed))
    res += ret(st, IntV(64, z3.If(t == 0, z3.IntVal(0), z(n.u()))))
    q, r, l = fresh('fpos'), fresh('written'), fresh('flen')
    bad.assume(t > 0, q >= pos, r >= 0, r < z(n.u()), l >= f.ln)
    g = bytes_fn('file', bad)
    bad.rw(fp.reg).cells[0] = (8, FileV(q, l, lambda k: z3.If(k < pos, old(k), g(k)), True))
    return res + ret(bad, IntV(64, r))


def c_fread(ex, st, ci):
    p, size, n, fp = ci.args
    f = stream(ex, st, fp, 'fread')
    if f is None: return []
    t = z(total(ex, st, size, n))
    avail = f.pos + t <= f.ln
    if p.reg is None: ex.oblige(st, 'fread to null', t == 0, 'safety'); return []
    rs = st.mem[p.reg]
    if bytes_at(ex, st, p) is None: raise Undecided('fread into ' + p.reg.name)
    ex.oblige(st, 'fread-bounds', Or(t == 0, And(rs.alive, z(p.idx) >= 0, z(p.idx) + t <= rs.len)), 'safety')
    bad = st.fork()
    def store(st, m, fn):
        old = st.mem[p.reg].arr[0][1]
        d = z(p.idx)
        st.rw(p.reg).arr[0] = (1, lambda k: z3.If(And(k >= d, k < d + m), fn(k - d), old(k)))
        st.log((p.reg, 'arr', 0))
    st.assume(Or(t == 0, avail))
    store(st, t, lambda k: f.fn(f.pos + k))
    st.rw(fp.reg).cells[0] = (8, FileV(f.pos + t, f.ln, f.fn, f.failed))
    res = ret(st, IntV(64, z3.If(t == 0, z3.IntVal(0), z(n.u()))))
    # short: as much as there is
    q, r = fresh('fpos'), fresh('read')
    bad.assume(t > 0, z3.Not(avail), q >= f.pos, r >= 0, r < z(n.u()))
    store(bad, t, bytes_fn('partial', bad))
    bad.rw(fp.reg).cells[0] = (8, FileV(q, f.ln, f.fn, True))
    return res + ret(bad, IntV(64, r))


def c_fseek(ex, st, ci):
    fp, off, wh = ci.args
    f = stream(ex, st, fp, 'fseek')
    if f is None: return []
    w = wh.u()
    if not isint(w): raise Undecided('fseek')
    q = z({0: 0, 1: f.pos, 2: f.ln}[w]) + z(off.s_())
    bad = st.fork()
    st.assume(q >= 0)
    st.rw(fp.reg).cells[0] = (8, FileV(q, f.ln, f.fn, f.failed))
    bad.assume(q < 0)
    return ret(st, IntV(32, 0)) + ret(bad, IntV(32, -1, 's'))


def c_rewind(ex, st, ci):
    f = stream(ex, st, ci.args[0], 'rewind')
    if f is None: return []
    st.rw(ci.args[0].reg).cells[0] = (8, FileV(z3.IntVal(0), f.ln, f.fn, f.failed))
    return ret(st)


def c_ftell(ex, st, ci):
    f = stream(ex, st, ci.args[0], 'ftell')
    return [] if f is None else ret(st, IntV(64, f.pos, 's'))


def c_fflush(ex, st, ci):
    f = stream(ex, st, ci.args[0], 'fflush')
    return [] if f is None else ret(st, IntV(32, 0))


def c_fclose(ex, st, ci):
    fp = ci.args[0]
    if stream(ex, st, fp, 'fclose') is None: return []
    ex.kill(st, fp.reg)
    return ret(st, IntV(32, 0))


def c_fopen(ex, st, ci):
    st.ghost['fopen'] = tuple(ci.args[:2])
    bad = st.fork()
    r = mk_file(ex, st, 'opened')
    st.ghost['stream'] = r
    bad.ghost['stream'] = None
    return ret(st, Ptr(r)) + ret(bad, NULL)


def vec(ex, st, p):
    v = ex.getobj(st, p, 24)
    if not isinstance(v, Opaque): raise Undecided('vector of pointers')
    return v


def c_vctor(ex, st, ci):
    ex.setobj(st, ci.args[0], Opaque(24, 'empty'))
    return ret(st)


def c_vswap(ex, st, ci):
    a, b = ci.args[:2]
    x, y = vec(ex, st, a), vec(ex, st, b)
    ex.setobj(st, a, y); ex.setobj(st, b, x)
    return ret(st)


def c_vdtor(ex, st, ci):
    v = vec(ex, st, ci.args[0])
    st.ghost['destroyed'] = st.ghost.get('destroyed', ()) + (v,)
    return ret(st)


V = r'^std::vector<classdesc::PtrStoreRef.*>::'
CONTRACTS = [(r'^fwrite$', c_fwrite), (r'^fread$', c_fread), (r'^fseek$', c_fseek), (r'^fclose$', c_fclose), (r'^rewind$', c_rewind), (r'^ftello?$', c_ftell), (r'^fflush$', c_fflush), (r'^fseeko$', c_fseek), (r'^fopen$', c_fopen),
             (V + r'vector\(\)$', c_vctor), (V + r'~vector\(\)$', c_vdtor), (V + r'swap\(', c_vswap), (r'^void std::swap<classdesc::PtrStoreRef', c_vswap),
             (r'^strerror$', lambda ex, st, ci: [Outcome('ret', st, Ptr(errtext(ex, st)))]), (r'^__errno_location$', lambda ex, st, ci: ret(st, Ptr(errno(ex, st))))]


def errtext(ex, st):
    r = ex.alloc(st, 'message', 'arr', elemsize=1, ln=z3.IntVal(4))
    st.rw(r).arr[0] = (1, lambda k: z3.If(k < 3, z3.IntVal(120), z3.IntVal(0)))
    return r


def errno(ex, st):
    r = ex.alloc(st, 'errno', 'cells', size=4)
    st.rw(r).cells[0] = (4, IntV(32, 2))
    return r


NAMES = ('f', 'mode', 'm_data', 'm_size', 'm_pos', 'ptr_flag', 'alloced', 'recur_max')


def cells(ex, st, reg):
    m, c = ex.mod.members['pack_t'], st.mem[reg].cells
    return {n: c.get(m[n], (0, None))[1] for n in NAMES}


def mk_any(ex, st, name, kind):
    """a buffer in any state: in memory with or without storage, or backed by a stream open for reading or writing"""
    r = mk_pack(ex, st, name, kind != 'data')
    m = ex.mod.members['pack_t']
    c = st.rw(r).cells
    if kind.startswith('file'):
        fr = mk_file(ex, st, name + '.file')
        c = st.rw(r).cells
        c[m['f']] = (8, Ptr(fr))
        c[m['mode']] = (4, IntV(32, 1 if kind == 'file-r' else 2))
        sz = fresh(name + '.fsize')
        st.assume(sz >= 0, sz < ADDR)
        c[m['m_size']] = (8, IntV(64, sz))
    c[m['alloced']] = (24, Opaque(24, name))
    return r


class FTask(Task):
    tu = TU
    std = STD
    contracts = CONTRACTS
    variants = ('file-r', 'file-w')

    def mk(s, ex, st, variant):
        s.r = mk_any(ex, st, 'pack', variant)
        s.c0 = cells(ex, st, s.r)
        s.fr = s.c0['f'].reg
        s.f0 = st.mem[s.fr].cells[0][1]
        s.size, s.pos = z(s.c0['m_size'].u()), z(s.c0['m_pos'].u())

    def after(s, ex, o, changed, regs=()):
        m = ex.mod.members['pack_t']
        frame(ex, o, ex.st0, {(s.r, m[n]) for n in changed} | {s.fr} | set(regs))
        c = cells(ex, o.st, s.r)
        ok = o.st.mem[s.fr].alive
        ob(ex, o, 'the stream stays open', ok)
        return z(c['m_size'].u()), z(c['m_pos'].u()), o.st.mem[s.fr].cells[0][1] if ok else None


class FWrite(FTask):
    """packraw/append on a stream: the bytes are written at the position of the stream, all else in the file is kept, failures are reported"""
    must = ('ret', 'throw')

    def __init__(s, name, raw):
        s.name, s.func, s.raw = 'pack_t::%s [file]' % name, NS + name + r'\(', raw

    def setup(s, ex, st, variant):
        s.mk(ex, st, variant)
        n = sym_int(ex, st, 'n', 64, ADDR)
        s.n = n.e
        if not s.raw: st.assume(n.e >= 1)
        s.src = ex.alloc(st, 'src', 'arr', elemsize=1, ln=n.e)
        s.sf = bytes_fn('src', st)
        st.rw(s.src).arr[0] = (1, s.sf)
        if s.raw: return [Ptr(s.r), Ptr(s.src), n]
        b = ex.alloc(st, 'x', 'cells', size=16)
        m = ex.mod.members['basic_type']
        st.rw(b).cells[m['val']] = (8, Ptr(s.src))
        st.rw(b).cells[m['size']] = (8, n)
        return [Ptr(s.r), Ptr(b)]

    def post(s, ex, o, variant):
        size, pos, f = s.after(ex, o, ('m_size',))
        if f is None: return
        k = fresh('k')
        ob(ex, o, 'data before the position is kept', z3.Implies(And(k >= 0, k < s.f0.pos), f.fn(k) == s.f0.fn(k)))
        if o.kind == 'throw':
            ob(ex, o, 'exception only on a failing stream', bool(f.failed))
            ob(ex, o, 'exception type', o.val.ty == '@_ZTIN9classdesc10pack_errorE')
            ob(ex, o, 'size', size == s.size)
            return
        ob(ex, o, 'failure raises', not f.failed)
        ob(ex, o, 'stream advances by n', f.pos == s.f0.pos + s.n)
        k = fresh('k')
        ob(ex, o, 'bytes written', z3.Implies(And(k >= 0, k < s.n), f.fn(s.f0.pos + k) == s.sf(k)))
        ob(ex, o, 'bytes are part of the file', Or(s.n == 0, f.ln >= s.f0.pos + s.n))
        k = fresh('k')
        ob(ex, o, 'data after the written bytes is kept', z3.Implies(And(k >= s.f0.pos + s.n, k < s.f0.ln), f.fn(k) == s.f0.fn(k)))
        ob(ex, o, 'size', Or(size == s.size + s.n, And(s.raw, size == s.size)))


class FTake(FTask):
    """unpackraw/popoff on a stream: the next n bytes are delivered and the position advances by n, or an exception is raised"""
    must = ('ret', 'throw')

    def __init__(s, name, raw):
        s.name, s.func, s.raw = 'pack_t::%s [file]' % name, NS + name + r'\(', raw

    def setup(s, ex, st, variant):
        s.mk(ex, st, variant)
        n = sym_int(ex, st, 'n', 64, ADDR)
        s.n = n.e
        if not s.raw: st.assume(n.e >= 1)
        st.assume(s.pos + s.n < (1 << 64))
        s.room = fresh('room')
        st.assume(s.room >= s.n)
        s.dst = ex.alloc(st, 'dst', 'arr', elemsize=1, ln=s.room)
        s.df = bytes_fn('dst', st)
        st.rw(s.dst).arr[0] = (1, s.df)
        if s.raw: return [Ptr(s.r), Ptr(s.dst), n]
        b = ex.alloc(st, 'x', 'cells', size=16)
        m = ex.mod.members['basic_type']
        st.rw(b).cells[m['val']] = (8, Ptr(s.dst))
        st.rw(b).cells[m['size']] = (8, n)
        return [Ptr(s.r), Ptr(b)]

    def post(s, ex, o, variant):
        size, pos, f = s.after(ex, o, ('m_pos',), [s.dst])
        if f is None: return
        avail = Or(s.n == 0, s.f0.pos + s.n <= s.f0.ln)
        g = bytes_at(ex, o.st, Ptr(s.dst))
        k = fresh('k')
        ob(ex, o, 'no write past n', z3.Implies(And(k >= s.n, k < s.room), g(k) == s.df(k)))
        k = fresh('k')
        ob(ex, o, 'the file is unchanged', And(f.ln == s.f0.ln, z3.Implies(And(k >= 0, k < f.ln), f.fn(k) == s.f0.fn(k))))
        if o.kind == 'throw':
            ob(ex, o, 'exception only at the end of the file', z3.Not(avail))
            ob(ex, o, 'exception type', o.val.ty == '@_ZTIN9classdesc10pack_errorE')
            ob(ex, o, 'position kept', pos == s.pos)
            return
        ob(ex, o, 'the end of the file raises', avail)
        ob(ex, o, 'position advances by n', pos == s.pos + s.n)
        ob(ex, o, 'stream advances by n', f.pos == s.f0.pos + s.n)
        k = fresh('k')
        ob(ex, o, 'bytes delivered', z3.Implies(And(k >= 0, k < s.n), g(k) == s.f0.fn(s.f0.pos + k)))


class FSeek(FTask):
    def __init__(s, name, size, pos, fpos): s.name, s.func, s.sz, s.ps, s.fp = 'pack_t::%s [file]' % name, NS + name + r'\(', size, pos, fpos

    def setup(s, ex, st, variant):
        s.mk(ex, st, variant)
        s.a = None
        if 'seek' in s.name:
            s.a = sym_int(ex, st, 'offs', 64, signed=True)
            st.assume(s.f0.pos + s.a.e >= 0)
            if 'seeki' in s.name: st.assume(s.a.e <= 0, s.size + s.a.e >= 0)
            else: st.assume(s.pos + s.a.e >= 0, s.pos + s.a.e < (1 << 64))
        return [Ptr(s.r)] + ([s.a] if s.a is not None else [])

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        if o.kind != 'ret': return
        size, pos, f = s.after(ex, o, ('m_size', 'm_pos', 'm_data') if 'clear' in s.name else ('m_size', 'm_pos'))
        if f is None: return
        a = s.a.s_() if s.a is not None else None
        ob(ex, o, 'size', size == s.sz(s, a))
        ob(ex, o, 'pos', pos == s.ps(s, a))
        ob(ex, o, 'position in the file', f.pos == s.fp(s, a))
        k = fresh('k')
        ob(ex, o, 'the file is unchanged', And(f.ln == s.f0.ln, z3.Implies(And(k >= 0, k < f.ln), f.fn(k) == s.f0.fn(k))))
        if isinstance(o.val, Ptr): ob(ex, o, 'returns itself', ex.ptr_eq(o.st, o.val, Ptr(s.r)))


KINDS = ('null', 'data', 'file-r', 'file-w')


class Exchange(Task):
    """swap and move assignment exchange everything the two buffers hold; a buffer exchanged with itself is unchanged"""
    tu, std, contracts = TU, STD, CONTRACTS
    variants = tuple('%s %s' % (a, b) for a in KINDS for b in KINDS) + tuple('%s same' % a for a in KINDS)

    def __init__(s, name, func): s.name, s.func = name, func

    def setup(s, ex, st, variant):
        a, b = variant.split()
        s.a = mk_any(ex, st, 'a', a)
        s.b = s.a if b == 'same' else mk_any(ex, st, 'b', b)
        s.ca, s.cb = cells(ex, st, s.a), cells(ex, st, s.b)
        return [Ptr(s.a), Ptr(s.b)]

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        if o.kind != 'ret': return
        m = ex.mod.members['pack_t']
        frame(ex, o, ex.st0, {(r, m[n]) for r in (s.a, s.b) for n in NAMES})
        for r, c0, c in ((s.a, s.ca, s.cb), (s.b, s.cb, s.ca)):
            c1 = cells(ex, o.st, r)
            for n in NAMES:
                if n == 'recur_max':
                    # a limit that belongs to the user of the buffer, not to its contents: it may stay or travel
                    ob(ex, o, '%s has a recursion limit' % r.name, False if c1[n] is None else Or(valeq(ex, c1[n], c[n]), valeq(ex, c1[n], c0[n])))
                elif n == 'alloced': ob(ex, o, '%s.%s' % (r.name, n), c1[n] is c[n])
                else: ob(ex, o, '%s.%s is the other buffer\'s' % (r.name, n), False if c1[n] is None else valeq(ex, c1[n], c[n]))


class Move(Task):
    """construction by move into arbitrary memory: the new buffer is what the old one was; the old one is an empty memory buffer"""
    tu, std, contracts = TU, STD, CONTRACTS
    name, func = 'pack_t::pack_t(pack_t&&)', r'^ccv_move\('
    variants = KINDS

    def setup(s, ex, st, variant):
        ty = cls(ex, 'class.classdesc::pack_t')
        s.at = ex.alloc(st, 'new', 'cells', size=ex.mod.size(ty), ty=ty)
        s.x = mk_any(ex, st, 'x', variant)
        s.c0 = cells(ex, st, s.x)
        return [Ptr(s.at), Ptr(s.x)]

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        if o.kind != 'ret': return
        m = ex.mod.members['pack_t']
        frame(ex, o, ex.st0, {(s.x, m[n]) for n in NAMES} | {s.at})
        c1, c2 = cells(ex, o.st, s.at), cells(ex, o.st, s.x)
        init = True
        for n in NAMES:
            if n == 'alloced': ob(ex, o, 'new.' + n, c1[n] is s.c0[n])
            else: ob(ex, o, 'new.%s is what the old one was' % n, False if c1[n] is None or c1[n] is UNDEF else valeq(ex, c1[n], s.c0[n]))
            good = c2[n] is not None and c2[n] is not UNDEF
            init = init and good
            ob(ex, o, 'old.%s is initialised' % n, good)
        if not init: return
        ob(ex, o, 'old is in memory', Eq(c2['mode'].u(), 0))
        ob(ex, o, 'old has no stream', isinstance(c2['f'], Ptr) and c2['f'].reg is None)
        ob(ex, o, 'old is empty', And(Eq(c2['m_size'].u(), 0), Eq(c2['m_pos'].u(), 0)))
        d = c2['m_data']
        ob(ex, o, 'old shares no storage', d.reg is None or (d.reg.heap and o.st.mem[d.reg].alive and d.reg is not c1['m_data'].reg))
        ob(ex, o, 'old.recursion limit', valeq(ex, c2['recur_max'], s.c0['recur_max']))


class Close(Task):
    """destruction releases the storage, closes the stream and destroys the objects held for pointers"""
    tu, std, contracts = TU, STD, CONTRACTS
    name, func = 'pack_t::~pack_t', r'^ccv_close\('
    variants = KINDS

    def setup(s, ex, st, variant):
        s.x = mk_any(ex, st, 'x', variant)
        s.c0 = cells(ex, st, s.x)
        return [Ptr(s.x)]

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        if o.kind != 'ret': return
        for n in ('f', 'm_data'):
            r = s.c0[n].reg
            if r is not None: ob(ex, o, n + ' released', not o.st.mem[r].alive)
        ob(ex, o, 'pointer store destroyed once', o.st.ghost.get('destroyed', ()) == (s.c0['alloced'],))
        new = [r for r in o.st.mem if r not in ex.st0.mem and r.heap and r.elemsize == 1 and o.st.mem[r].alive]
        ob(ex, o, 'no storage left behind', And(*[z(o.st.mem[r].len) == 0 for r in new]))


class Open(Task):
    """construction from a file name"""
    tu, std, contracts = TU, STD, CONTRACTS
    name, func = 'pack_t::pack_t(file)', r'^ccv_open\('
    must = ('ret', 'throw')
    variants = ('r', 'rb', 'w', 'wb')

    def setup(s, ex, st, variant):
        ty = cls(ex, 'class.classdesc::pack_t')
        s.at = ex.alloc(st, 'new', 'cells', size=ex.mod.size(ty), ty=ty)
        s.n = ex.alloc(st, 'name', 'arr', elemsize=1, ln=fresh('namelen'))
        st.rw(s.n).arr[0] = (1, bytes_fn('name', st))
        s.m = ex.alloc(st, 'rw', 'arr', elemsize=1, ln=z3.IntVal(len(variant) + 1))
        t = [ord(c) for c in variant] + [0]
        def fn(k):
            e = z3.IntVal(0)
            for j, c in enumerate(t): e = z3.If(k == j, z3.IntVal(c), e)
            return e
        st.rw(s.m).arr[0] = (1, fn)
        return [Ptr(s.at), Ptr(s.n), Ptr(s.m)]

    def post(s, ex, o, variant):
        a = o.st.ghost.get('fopen')
        ob(ex, o, 'opens the file named', a is not None and a[0].reg is s.n and a[0].idx == 0)
        ob(ex, o, 'in the mode given', a is not None and a[1].reg is s.m and a[1].idx == 0)
        fr = o.st.ghost.get('stream')
        if o.kind == 'throw':
            ob(ex, o, 'exception only if the file cannot be opened', fr is None)
            ob(ex, o, 'exception type', o.val.ty == '@_ZTIN9classdesc10pack_errorE')
            return
        ob(ex, o, 'failure raises', fr is not None)
        if fr is None: return
        frame(ex, o, ex.st0, {s.at})
        c = cells(ex, o.st, s.at)
        for n in NAMES: ob(ex, o, n + ' initialised', c[n] is not None)
        if any(c[n] is None for n in NAMES): return
        ob(ex, o, 'holds the stream', c['f'].reg is fr and o.st.mem[fr].alive)
        ob(ex, o, 'mode', Eq(c['mode'].u(), 2 if variant[0] == 'w' else 1))
        ob(ex, o, 'starts at the beginning', And(Eq(c['m_size'].u(), 0), Eq(c['m_pos'].u(), 0)))
        ob(ex, o, 'pointers rejected by default', Eq(c['ptr_flag'].u(), 0))


core = [FWrite('packraw', True), FWrite('append', False), FTake('unpackraw', True), FTake('popoff', False),
        FSeek('reseti', lambda s, a: 0, lambda s, a: s.pos, lambda s, a: 0), FSeek('reseto', lambda s, a: s.size, lambda s, a: 0, lambda s, a: 0),
        FSeek('seeki', lambda s, a: s.size + a, lambda s, a: s.pos, lambda s, a: s.f0.pos + a), FSeek('seeko', lambda s, a: s.size, lambda s, a: s.pos + a, lambda s, a: s.f0.pos + a),
        FSeek('clear', lambda s, a: 0, lambda s, a: 0, lambda s, a: s.f0.pos),
        Exchange('pack_t::swap', r'^ccv_swap\('), Exchange('pack_t::operator=(pack_t&&)', r'^ccv_moveassign\('), Move(), Close(), Open()]
