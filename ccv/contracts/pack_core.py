"""C02: pack_t in-memory buffer: representation invariant, append/consume contracts"""
from vc import *
from stdlib import *
from task import *

NS = r'^classdesc::pack_t::'


class Opaque(Ghost):
    def __init__(s, size, tag): s.size, s.tag = size, tag
    def havoc(s, ex): return s


class PackView:
    """abstract view of a pack_t in buffer mode"""
    def __init__(s, ex, st, reg):
        m = ex.mod.members['pack_t']
        c = st.mem[reg].cells
        g = lambda n: c[m[n]][1]
        s.reg = reg
        s.size, s.pos = z(g('m_size').u()), z(g('m_pos').u())
        s.data = g('m_data')
        s.mode = g('mode')
        s.recur_max = g('recur_max')
        d = s.data
        s.alive = d.reg is None or st.mem[d.reg].alive
        s.cap = z3.IntVal(0) if d.reg is None else st.mem[d.reg].len
        s.fn = (lambda k: z3.IntVal(0)) if d.reg is None else bytes_at(ex, st, d)
        s.whole = d.reg is None or (d.reg.heap and isint(d.idx) and d.idx == 0 and d.off == 0)

    def inv(s):
        """representation invariant"""
        return And(s.whole, s.alive, s.size >= 0, s.size <= s.cap)


def cls(ex, name):
    return TNamed('%' + name, ex.mod)


def mk_pack(ex, st, name, null=False, dyn='_ZTVN9classdesc6pack_tE', mode=0, size=None):
    m = ex.mod.members['pack_t']
    ty = cls(ex, 'class.classdesc::pack_t')
    sz = size or ex.mod.size(ty)
    r = ex.alloc(st, name, 'cells', size=sz, ty=ty)
    rs = st.rw(r)
    rs.cells[0] = (8, Ptr(ex.global_region(st, '@' + dyn), 16, 0))
    rs.cells[m['f']] = (8, NULL)
    rs.cells[m['mode']] = (4, IntV(32, mode))
    size, pos = fresh(name + '.size'), fresh(name + '.pos')
    st.assume(size >= 0, size < ADDR, pos >= 0, pos < (1 << 64))
    if null:
        st.assume(size == 0)
        rs.cells[m['m_data']] = (8, NULL)
    else:
        cap = fresh(name + '.cap')
        st.assume(cap >= size, cap >= 1, cap < ADDR)
        b = new_bytes(ex, st, cap, name + '.buf')
        rs.cells[m['m_data']] = (8, Ptr(b))
    rs = st.rw(r)
    rs.cells[m['m_size']] = (8, IntV(64, size))
    rs.cells[m['m_pos']] = (8, IntV(64, pos))
    for n, w in (('ptr_flag', 4), ('recur_max', 4)):
        v, fs = ex.symbolic(TInt(32), name + '.' + n)
        st.assume(*fs)
        rs.cells[m[n]] = (4, v)
    rs.cells[m['alloced']] = (24, Opaque(24, 'alloced'))
    return r


def sym_int(ex, st, name, w=64, lim=None, signed=False):
    e = fresh(name)
    if signed:
        st.assume(e >= -(1 << (w - 1)), e < (1 << (w - 1)))
        return IntV(w, e, 's')
    st.assume(e >= 0, e < (lim or (1 << w)))
    return IntV(w, e)


class P(Task):
    variants = ('null', 'data')

    def mk(s, ex, st, variant):
        s.r = mk_pack(ex, st, 'pack', variant == 'null')
        s.v0 = PackView(ex, st, s.r)
        s.st0 = None

    def off(s, ex, *names):
        return {(s.r, ex.mod.members['pack_t'][n]) for n in names}

    def fin(s, ex, o, changed=(), regs=()):
        """common postconditions: invariant + frame"""
        v1 = PackView(ex, o.st, s.r)
        ex.oblige(o.st, 'invariant', v1.inv(), 'post')
        allowed = s.off(ex, *changed) | set(regs)
        if 'm_data' in changed and s.v0.data.reg is not None: allowed.add(s.v0.data.reg)
        frame(ex, o, ex.st0, allowed)
        return v1


def ob(ex, o, label, f): ex.oblige(o.st, label, f, 'post')


class Append(P):
    """packraw / append: the buffer becomes old bytes ++ argument bytes; nothing else changes"""
    def __init__(s, name, raw):
        s.name = 'pack_t::' + name
        s.raw = raw
        s.func = NS + name + r'\('

    def setup(s, ex, st, variant):
        s.mk(ex, st, variant)
        n = sym_int(ex, st, 'n', 64, ADDR)
        s.n = n.e
        if not s.raw: st.assume(n.e >= 1)       # basic_type describes an object, so its size is positive
        # source block: any n readable bytes
        s.src = ex.alloc(st, 'src', 'arr', elemsize=1, ln=n.e)
        s.sf = bytes_fn('src', st)
        st.rw(s.src).arr[0] = (1, s.sf)
        if s.raw: return [Ptr(s.r), Ptr(s.src), n]
        b = ex.alloc(st, 'x', 'cells', size=16)
        m = ex.mod.members['basic_type']
        st.rw(b).cells[m['val']] = (8, Ptr(s.src))
        st.rw(b).cells[m['size']] = (8, n)
        return [Ptr(s.r), Ptr(b)]

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        if o.kind != 'ret': return
        v0 = s.v0
        v1 = s.fin(ex, o, ('m_data', 'm_size'))
        ob(ex, o, 'size grows by n', v1.size == v0.size + s.n)
        k = fresh('k')
        ob(ex, o, 'old bytes kept', z3.Implies(And(k >= 0, k < v0.size), v1.fn(k) == v0.fn(k)))
        k = fresh('k')
        ob(ex, o, 'new bytes appended', z3.Implies(And(k >= 0, k < s.n), v1.fn(v0.size + k) == s.sf(k)))


class Take(P):
    """unpackraw / popoff: if n bytes remain, exactly those bytes are delivered and the position advances by n;
    otherwise an exception is raised, nothing is written and the position is unchanged"""
    must = ('ret', 'throw')

    def __init__(s, name, raw):
        s.name = 'pack_t::' + name
        s.raw = raw
        s.func = NS + name + r'\('

    def setup(s, ex, st, variant):
        s.mk(ex, st, variant)
        n = sym_int(ex, st, 'n', 64)
        s.n = n.e
        # the caller supplies room for n bytes if that many are available; a request beyond the data must throw before writing
        room = fresh('room')
        st.assume(room >= 0, z3.Implies(s.v0.pos + s.n <= s.v0.size, room >= s.n))
        s.dst = ex.alloc(st, 'dst', 'arr', elemsize=1, ln=room)
        s.df = bytes_fn('dst', st)
        st.rw(s.dst).arr[0] = (1, s.df)
        s.room = room
        if s.raw: return [Ptr(s.r), Ptr(s.dst), n]
        b = ex.alloc(st, 'x', 'cells', size=16)
        m = ex.mod.members['basic_type']
        st.rw(b).cells[m['val']] = (8, Ptr(s.dst))
        st.rw(b).cells[m['size']] = (8, n)
        return [Ptr(s.r), Ptr(b)]

    def post(s, ex, o, variant):
        v0 = s.v0
        avail = v0.pos + s.n <= v0.size
        if o.kind == 'throw':
            ob(ex, o, 'exception only on truncation', z3.Not(avail))
            ob(ex, o, 'exception type', o.val.ty == '@_ZTIN9classdesc10pack_errorE')
            s.fin(ex, o)
            return
        ob(ex, o, 'truncation raises', avail)
        v1 = s.fin(ex, o, ('m_pos',), [s.dst])
        ob(ex, o, 'position advances by n', v1.pos == v0.pos + s.n)
        f = bytes_at(ex, o.st, Ptr(s.dst))
        k = fresh('k')
        ob(ex, o, 'bytes delivered', z3.Implies(And(k >= 0, k < s.n), f(k) == v0.fn(v0.pos + k)))
        k = fresh('k')
        ob(ex, o, 'no write past n', z3.Implies(And(k >= s.n, k < s.room), f(k) == s.df(k)))


class Reset(P):
    def __init__(s, name, size, pos):
        s.name = 'pack_t::' + name
        s.func = NS + name + r'\('
        s.size, s.pos = size, pos

    def setup(s, ex, st, variant):
        s.mk(ex, st, variant)
        s.a = None
        if s.name.endswith('seeki'):
            s.a = sym_int(ex, st, 'offs', 64, signed=True)
            st.assume(s.a.e <= 0, s.v0.size + s.a.e >= 0)      # documented: only backwards, within the data
        if s.name.endswith('seeko'):
            s.a = sym_int(ex, st, 'offs', 64, signed=True)
            st.assume(s.v0.pos + s.a.e >= 0, s.v0.pos + s.a.e < (1 << 64))
        if s.name.endswith('resize'):
            s.a = sym_int(ex, st, 'n', 64, ADDR)
            st.assume(s.a.e > 0)
        return [Ptr(s.r)] + ([s.a] if s.a is not None else [])

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        if o.kind != 'ret': return
        ch = ('m_data', 'm_size', 'm_pos') if s.name.endswith('clear') else ('m_data', 'm_size') if s.name.endswith('resize') else ('m_size', 'm_pos')
        v1 = s.fin(ex, o, ch)
        a = s.a.s_() if s.a is not None else None
        ob(ex, o, 'size', v1.size == s.size(s.v0, a))
        ob(ex, o, 'pos', v1.pos == s.pos(s.v0, a))
        k = fresh('k')
        ob(ex, o, 'content kept', z3.Implies(And(k >= 0, k < v1.size, k < s.v0.size), v1.fn(k) == s.v0.fn(k)))
        if o.val is not None and isinstance(o.val, Ptr):
            ob(ex, o, 'returns itself', ex.ptr_eq(o.st, o.val, Ptr(s.r)))


class Ctor(Task):
    name = 'pack_t::pack_t(size)'
    func = NS + r'pack_t\(unsigned long\)$'
    contracts = [(r'^std::vector<classdesc::PtrStoreRef.*>::vector\(\)$', lambda ex, st, ci: (ex.setobj(st, ci.args[0], Opaque(24, 'alloced')), ret(st))[1])]

    def setup(s, ex, st, variant):
        s.r = ex.alloc(st, 'pack', 'cells', size=ex.mod.size(cls(ex, 'class.classdesc::pack_t')), ty=cls(ex, 'class.classdesc::pack_t'))
        s.n = sym_int(ex, st, 'sz', 64, ADDR)
        return [Ptr(s.r), s.n]

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        v = PackView(ex, o.st, s.r)
        ob(ex, o, 'invariant', v.inv())
        ob(ex, o, 'size', v.size == s.n.e)
        ob(ex, o, 'pos', v.pos == 0)
        m = ex.mod.members['pack_t']
        c = o.st.mem[s.r].cells
        ob(ex, o, 'buffer mode', Eq(c[m['mode']][1].u(), 0))
        ob(ex, o, 'no file', c[m['f']][1].reg is None)
        ob(ex, o, 'pointers rejected by default', Eq(c[m['ptr_flag']][1].u(), 0))


class BoolOp(P):
    name = 'pack_t::operator bool'
    func = NS + r'operator bool\(\)'

    def setup(s, ex, st, variant):
        s.mk(ex, st, variant)
        return [Ptr(s.r)]

    def post(s, ex, o, variant):
        s.fin(ex, o)
        ob(ex, o, 'true iff data remain', ex.truth(o.val) == (s.v0.pos < s.v0.size))


core = [Append('packraw', True), Append('append', False), Take('unpackraw', True), Take('popoff', False),
        Reset('reseti', lambda v, a: 0, lambda v, a: v.pos), Reset('reseto', lambda v, a: v.size, lambda v, a: 0),
        Reset('seeki', lambda v, a: v.size + a, lambda v, a: v.pos), Reset('seeko', lambda v, a: v.size, lambda v, a: v.pos + a),
        Reset('clear', lambda v, a: 0, lambda v, a: 0), Reset('resize', lambda v, a: a, lambda v, a: v.pos), Ctor(), BoolOp()]


# ---------------------------------------------------------------- C04 comparison
def lexcmp(v0, v1):
    """spec: shorter is less; equal lengths compare bytewise. returns (lt, eq, gt) as formulas"""
    d = z3.Int('d!spec')
    k = z3.Int('k!spec')
    n0, n1 = v0.size, v1.size
    same = z3.And(n0 == n1, z3.ForAll([k], z3.Implies(And(k >= 0, k < n0), v0.fn(k) == v1.fn(k))))
    def less(a, b, na, nb):
        return z3.Or(na < nb, z3.And(na == nb, z3.Exists([d], And(d >= 0, d < na, a(d) < b(d), z3.ForAll([k], z3.Implies(And(k >= 0, k < d), a(k) == b(k)))))))
    return less(v0.fn, v1.fn, n0, n1), same, less(v1.fn, v0.fn, n1, n0)


class Cmp(Task):
    variants = ('null-null', 'null-data', 'data-null', 'data-data', 'same')

    def __init__(s, name, func, kind): s.name, s.func, s.kind = name, func, kind

    def setup(s, ex, st, variant):
        if variant == 'same':
            s.a = s.b = mk_pack(ex, st, 'a')
        else:
            x, y = variant.split('-')
            s.a, s.b = mk_pack(ex, st, 'a', x == 'null'), mk_pack(ex, st, 'b', y == 'null')
        s.va, s.vb = PackView(ex, st, s.a), PackView(ex, st, s.b)
        return [Ptr(s.a), Ptr(s.b)]

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        frame(ex, o, ex.st0)
        lt, eq, gt = lexcmp(s.va, s.vb)
        if s.kind == 'cmp':
            r = z(o.val.s_())
            ob(ex, o, 'result is -1, 0 or 1', Or(r == -1, r == 0, r == 1))
            ob(ex, o, '-1 iff less', (r == -1) == lt)
            ob(ex, o, '0 iff equal', (r == 0) == eq)
            ob(ex, o, '1 iff greater', (r == 1) == gt)
        else:
            t = ex.truth(o.val)
            if isinstance(t, bool): t = z3.BoolVal(t)
            ob(ex, o, s.kind, t == {'lt': lt, 'gt': gt, 'eq': eq, 'ne': z3.Not(eq)}[s.kind])


cmp_tasks = [Cmp('pack_t::cmp', NS + r'cmp\(', 'cmp')] + [Cmp('pack_t::operator' + o, NS + 'operator' + re.escape(o) + r'\(', k) for o, k in (('<', 'lt'), ('>', 'gt'), ('==', 'eq'), ('!=', 'ne'))]
TU = 'pack_core.cc'


CMP = z3.Function('order of the encodings', Val, Val, I)


class Deep(Task):
    """deepCmp/deepEq: the order of the two encodings, each made in a buffer of its own; arguments unchanged"""
    tu = 'pack_stl.cc'
    timeout = 20000

    def __init__(s, eq):
        s.eq = eq
        s.name, s.func = ('deepEq', '^ccv_deepeq$') if eq else ('deepCmp', '^ccv_deepcmp$')

    def setup(s, ex, st, variant):
        s.e = [fresh('x', Val), fresh('y', Val)]
        r = []
        for n, e in zip('xy', s.e):
            a = ex.alloc(st, n, 'cells', size=4)
            st.rw(a).cells[0] = (4, ValV(e))
            r.append(Ptr(a))
        return r

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        c = CMP(*s.e)
        if s.eq:
            t = ex.truth(o.val)
            ob(ex, o, 'true iff the encodings are equal', (z3.BoolVal(t) if isinstance(t, bool) else t) == (c == 0))
        else: ob(ex, o, 'order of the encodings', z(o.val.s_()) == c)
        frame(ex, o, ex.st0)


def h_enc(ex, st, ci):
    b, x = ci.args[0], ci.args[1]
    c = st.mem[x.reg].cells.get(x.idx + x.off)
    if c is None or not isinstance(c[1], ValV): raise Undecided('element')
    sz = st.mem[b.reg].cells[ex.mod.members['pack_t']['m_size']][1]
    ex.oblige(st, 'encoded into an empty buffer of its own', And(('enc', b.reg) not in st.ghost, Eq(sz.u(), 0)), 'pre')
    st.ghost[('enc', b.reg)] = c[1].e
    return ret(st)


def h_cmp(ex, st, ci):
    a, b = (st.ghost.get(('enc', p.reg)) for p in ci.args[:2])
    if a is None or b is None:
        ex.oblige(st, 'both buffers hold an encoding', False, 'pre'); return []
    c = CMP(a, b)
    st.assume(c >= -1, c <= 1, CMP(b, a) == -c)      # proved for cmp above
    return ret(st, IntV(32, c, 's'))


Deep.contracts = [(r'^ccv_epack\(', h_enc), (NS + r'cmp\(', h_cmp), (NS + r'operator==\(', lambda ex, st, ci: [Outcome('ret', o.st, BoolV(o.val.e == 0)) for o in h_cmp(ex, st, ci)]),
                  (NS + r'operator!=\(', lambda ex, st, ci: [Outcome('ret', o.st, BoolV(o.val.e != 0)) for o in h_cmp(ex, st, ci)]),
                  (r'^std::vector<classdesc::PtrStoreRef.*>::vector\(\)$', lambda ex, st, ci: (ex.setobj(st, ci.args[0], Opaque(24, 'alloced')), ret(st))[1])]
deep = [Deep(False), Deep(True)]
