"""C17: BinStream writes the bytes of plain objects, and containers as their size followed by their elements' bytes"""
from contracts.pack_stl import *

TU = 'binstream.cc'
W = 4           # bytes of an opaque object


def tags(ex): return {o: t for o, t in ex.task.sh.fields} if ex.task.sh else {0: 1}


def advance(ex, st, b, n):
    """the position of the buffer moves by what is read (C02)"""
    m = ex.mod.members['pack_t']['m_pos']
    p = ex.load(st, Ptr(b.reg, b.idx, b.off + m), TInt(64))
    ex.store(st, Ptr(b.reg, b.idx, b.off + m), IntV(64, z(p.u()) + n), TInt(64))


def target(ex, st, ci): ex.oblige(st, "the stream's own buffer", ci.args[0].reg is ex.task.r and ci.args[0].off == 0, 'call')


def opaque(ex, st, p):
    """fields of the opaque element p points into, or None"""
    if p.reg is None: return None
    rs = st.mem[p.reg]
    if p.reg.kind == 'arr': return sorted(o for o, f in rs.arr.items() if f[0] == 'val') or None
    c = rs.cells.get(p.off + p.idx if isint(p.idx) else None)
    return True if c is not None and (isinstance(c[1], ValV) or ex.task.opaque) and not isinstance(c[1], (IntV, FloatV)) else None


def b_packraw(ex, st, ci):
    target(ex, st, ci)
    p, n = ci.args[1], ci.args[2].u()
    f = opaque(ex, st, p)
    if not isint(n): n = z3.simplify(n)
    if z3.is_int_value(n) if not isint(n) else False: n = n.as_long()
    if f is None:
        if not isint(n): raise Undecided('raw bytes of symbolic size')
        t = tokval(ex, st, p, n)
        if t is None: return []
        emit(st, t)
        return ret(st)
    T = tags(ex)
    if isint(n):
        ex.oblige(st, 'whole objects', n % W == 0 and n > 0, 'call')
        if not ex.task.sh: T = {o: 1 for o in range(0, n, W)}
        for o in range(0, n, W):
            if p.reg.kind == 'arr' and o >= p.reg.elemsize: raise Undecided('raw bytes of several elements')
            e = elem_at(ex, st, Ptr(p.reg, p.idx, p.off + o))
            if e is None: return []
            emit(st, Tok.TE(T[p.off + o if p.reg.kind == 'arr' else o], e))
        return ret(st)
    es = p.reg.elemsize
    m = fresh('count')
    st.assume(m == n / es)
    ex.oblige(st, 'whole objects', And(n % es == 0, n >= 0, p.off == 0), 'call')
    ex.oblige(st, 'raw source in bounds', And(st.mem[p.reg].alive, z(p.idx) >= 0, z(p.idx) + m <= st.mem[p.reg].len), 'safety')
    if es != W: raise Undecided('bulk write of structured elements')
    fn, i0, o = st.mem[p.reg].arr[0][1], z(p.idx), st.ghost['out']
    f0, ln = o.fn, o.ln
    st.ghost['out'] = Stream(ln + m, lambda k: z3.If(k >= ln, Tok.TE(T[0], fn(i0 + k - ln)), f0(k)))
    st.log(('ghost', 'out'))
    return ret(st)


def b_unpackraw(ex, st, ci):
    target(ex, st, ci)
    p, n = ci.args[1], ci.args[2].u()
    if not isint(n): n = z3.simplify(n)
    if not isint(n) and z3.is_int_value(n): n = n.as_long()
    advance(ex, st, ci.args[0], n)
    T = tags(ex)
    if not isint(n):
        es = p.reg.elemsize
        m = fresh('count')
        st.assume(m == n / es)
        ex.oblige(st, 'whole objects', And(n % es == 0, n >= 0, p.off == 0), 'call')
        if es != W: raise Undecided('bulk read of structured elements')
        ex.oblige(st, 'raw destination in bounds', And(st.mem[p.reg].alive, z(p.idx) >= 0, z(p.idx) + m <= st.mem[p.reg].len), 'safety')
        pos, IN = st.ghost['inpos'], st.ghost['in']
        k = fresh('k')
        ex.oblige(st, 'reads back what was written (elements)', And(pos + m <= st.ghost['inlen'], z3.Implies(And(k >= 0, k < m), And(Tok.is_TE(IN(pos + k)), Tok.tag(IN(pos + k)) == T[0]))), 'pre')
        rs = st.rw(p.reg)
        fn, i0 = rs.arr[0][1], z(p.idx)
        rs.arr[0] = ('val', lambda k: z3.If(And(k >= i0, k < i0 + m), Tok.e(IN(pos + k - i0)), fn(k)))
        st.log((p.reg, 'arr', 0))
        st.ghost['inpos'] = pos + m
        st.log(('ghost', 'inpos'))
        return ret(st)
    c = st.mem[p.reg].cells.get(p.idx + p.off) if p.reg.kind == 'cells' else None
    scal = ex.task.scalar(ex, st, p, n)
    if scal is not None:
        if isinstance(scal, TFloat):
            t = take(ex, st, lambda t: And(Tok.is_TF(t), Tok.fk(t) == n), '%d byte float' % n)
            ex.store(st, p, FloatV(scal.k, Tok.f(t)), scal)
        else:
            t = take(ex, st, lambda t: And(Tok.is_TW(t), Tok.w(t) == n, Tok.v(t) >= 0, Tok.v(t) < (1 << (8 * n))), '%d byte datum' % n)
            ex.store(st, p, IntV(8 * n, Tok.v(t)), TInt(8 * n))
        return ret(st)
    ex.oblige(st, 'whole objects', n % W == 0 and n > 0, 'call')
    if not ex.task.sh: T = {o: 1 for o in range(0, n, W)}
    for o in range(0, n, W):
        t = take(ex, st, lambda t: And(Tok.is_TE(t), Tok.tag(t) == T[o]), 'element')
        if p.reg.kind == 'arr': raise Undecided('raw read into a container')
        if ex.access(st, Ptr(p.reg, p.idx, p.off + o), W, 'element') is None: return []
        ex.setcell(st, p.reg, p.idx + p.off + o, W, ValV(Tok.e(t)))
    return ret(st)


def pairctor(ex, st, ci):
    for o in (0, 4): ex.setcell(st, ci.args[0].reg, ci.args[0].idx + ci.args[0].off + o, W, ValV(fresh('v%d' % o, Val)))
    return ret(st)


BCS = [(r'^std::pair<Key const, Elem>::pair(<.*>)?\(\)$', pairctor), (NS + r'packraw\(', b_packraw), (NS + r'unpackraw\(', b_unpackraw)]


class B:
    opaque = False
    contracts = BCS

    def stream(s, ex, st):
        s.r = mk_pack(ex, st, 'pack')
        b = ex.alloc(st, 'stream', 'cells', size=8)
        st.rw(b).cells[0] = (8, Ptr(s.r))
        return Ptr(b)

    def layout(s, ex, dem): return s.sh.elemsize, s.sh.lay()

    def scalar(s, ex, st, p, n):
        """the size of a container is the scalar read"""
        return TInt(64) if s.sh and n == 8 and p.reg.name != 'v' and s.first(st) else None

    def first(s, st): return not ex_feasible(st, s)


def ex_feasible(st, s): return s.ex.prover.feasible(st.pc + [st.ghost['inpos'] != s.pos])


class BPack(B, PackSeq):
    def __init__(s, nm):
        PackSeq.__init__(s, nm)
        s.name, s.func, s.tu = 'BinStream << %s' % nm, '^ccv_bw_%s$' % s.sh.kind, TU

    def setup(s, ex, st, variant):
        b = s.stream(ex, st)
        mk = globals()['mk_pack']
        a = PackSeq.setup(s, ex, st, variant)
        s.r = st.mem[b.reg].cells[0][1].reg
        return [b, a[2]]

    def post(s, ex, o, variant):
        PackSeq.post(s, ex, o, variant)
        if o.kind == 'ret': ob(ex, o, 'returns the stream', o.val.reg is not None and o.val.reg.name == 'stream')


class BUnpack(B, UnpackSeq):
    def __init__(s, nm):
        UnpackSeq.__init__(s, nm)
        s.name, s.func, s.tu = 'BinStream >> %s' % nm, '^ccv_br_%s$' % s.sh.kind, TU

    def setup(s, ex, st, variant):
        b = s.stream(ex, st)
        a = UnpackSeq.setup(s, ex, st, variant)
        s.r = r = st.mem[b.reg].cells[0][1].reg
        m = ex.mod.members['pack_t']
        c = st.mem[r].cells
        st.assume(c[m['m_pos']][1].e + 8 + W * s.sh.s * s.n <= c[m['m_size']][1].e)     # the data is there
        return [b, a[2]]

    def post(s, ex, o, variant):
        UnpackSeq.post(s, ex, o, variant)
        if o.kind == 'ret': ob(ex, o, 'returns the stream', o.val.reg is not None and o.val.reg.name == 'stream')


core = []
for nm in SHAPES: core += [BPack(nm), BUnpack(nm)]


# ---------------------------------------------------------------- plain objects: exactly their bytes
class BFixed(B, Fixed):
    """op r or w; kind: shape of the object as (byte offset, tag) or a scalar size"""
    sh = None

    def __init__(s, op, nm, kind):
        s.op, s.kind, s.tu = op, kind, TU
        s.opaque = kind == 'o'
        s.name, s.func = 'BinStream %s %s' % ('<<' if op == 'w' else '>>', nm), '^ccv_b%s_%s$' % (op, nm)

    def scalar(s, ex, st, p, n):
        return None if s.opaque else s.ty

    def setup(s, ex, st, variant):
        b = s.stream(ex, st)
        if s.opaque:
            n = 3 if 'array' in s.name else 1
            s.a = ex.alloc(st, 'a', 'cells', size=W * n)
            s.x = [fresh('x%d' % i, Val) for i in range(n)]
            toks = [Tok.TE(1, x) for x in s.x]
            for i in range(n): st.rw(s.a).cells[W * i] = (W, ValV(s.x[i] if s.op == 'w' else fresh('old%d' % i, Val)))
        else:
            n = int(s.kind[1:]) if isinstance(s.kind, str) else s.kind
            s.ty = ty = TFloat('double') if isinstance(s.kind, str) else TInt(8 * n)
            s.a = ex.alloc(st, 'a', 'cells', size=n, ty=ty)
            v, fs = ex.symbolic(ty, 'a')
            st.assume(*fs)
            s.x, fs = ex.symbolic(ty, 'x')
            st.assume(*fs)
            st.rw(s.a).cells[0] = (n, s.x if s.op == 'w' else v)
            toks = [Tok.TF(n, s.x.e) if isinstance(s.kind, str) else Tok.TW(n, z(s.x.u()))]
        if s.op == 'w': s.out0, s.toks = mk_out(st), toks
        else: s.given(st, toks)
        return [b, Ptr(s.a)]

    def post(s, ex, o, variant):
        if o.kind == 'ret': ob(ex, o, 'returns the stream', o.val.reg is not None and o.val.reg.name == 'stream')
        if s.op == 'w':
            s.emitted(ex, o, s.toks)
            frame(ex, o, ex.st0, {s.r})
            return
        s.consumed(ex, o)
        c = o.st.mem[s.a].cells
        if s.opaque:
            for i, x in enumerate(s.x): ob(ex, o, 'bytes restored', c[W * i][1].e == x if isinstance(c[W * i][1], ValV) else False)
        elif isinstance(s.kind, str): ob(ex, o, 'bytes restored', c[0][1].e == s.x.e)
        else: ob(ex, o, 'bytes restored', Eq(c[0][1].u(), s.x.u()))
        frame(ex, o, ex.st0, {s.r, s.a})


for nm, k in (('pod', 'o'), ('array', 'o'), ('int', 4), ('long', 8), ('char', 1), ('double', 'f8')): core += [BFixed(op, nm, k) for op in 'wr']
