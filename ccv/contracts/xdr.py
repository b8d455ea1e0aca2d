"""C04: xdr_pack in buffer mode.  The codecs of the XDR library are contracts, byte by byte (RFC 4506, and the fact that this library's
xdr_long keeps 32 bits only); which codec is used for which type, and the buffer around them, is what is proved"""
from vc import *
from stdlib import *
from task import *
from contracts.pack_core import *

TU = 'xdr.cc'


class XdrV(Ghost):
    """an XDR stream in memory: base, size, position, direction"""
    size = 32

    def __init__(s, base, n, pos, op): s.base, s.n, s.pos, s.op = base, n, pos, op
    def havoc(s, ex): raise Undecided('XDR stream changed in a loop')


# name: (bytes in memory, signed, bytes on the wire); None: floating point
CODEC = {'xdr_char': (1, True, 4), 'xdr_u_char': (1, False, 4), 'xdr_short': (2, True, 4), 'xdr_u_short': (2, False, 4), 'xdr_int': (4, True, 4), 'xdr_u_int': (4, False, 4),
         'xdr_long': (8, True, 4), 'xdr_u_long': (8, False, 4), 'xdr_hyper': (8, True, 8), 'xdr_u_hyper': (8, False, 8), 'xdr_float': (4, None, 4), 'xdr_double': (8, None, 8)}
FBITS = {32: z3.Function('bits of float', Fl, I), 64: z3.Function('bits of double', Fl, I)}
FVAL = {32: z3.Function('float of bits', I, Fl), 64: z3.Function('double of bits', I, Fl)}


def byte(w, n, i): return (w / z3.IntVal(256 ** (n - 1 - i))) % 256


def word(bs):
    n = len(bs)
    return sum((z(b) * 256 ** (n - 1 - i) for i, b in enumerate(bs)), z3.IntVal(0))


def put_bytes(ex, st, p, n, f):
    """store bytes f(0..n-1) at p"""
    old = bytes_at(ex, st, Ptr(p.reg))
    a = z(p.idx) + p.off
    st.rw(p.reg).arr[0] = (1, lambda k: z3.If(And(z(k) >= a, z(k) < a + n), f(z(k) - a), old(k)))
    st.log((p.reg, 'arr', 0))


def h_memcreate(ex, st, ci):
    x, base, n, op = ci.args
    n = z(n.u())
    if base.reg is None: ex.oblige(st, 'XDR stream of null memory is empty', n == 0, 'pre')
    else: ex.oblige(st, 'XDR stream within the memory', And(st.mem[base.reg].alive, z(base.idx) + base.off >= 0, Or(n == 0, z(base.idx) + base.off + n <= st.mem[base.reg].len)), 'pre')
    if 'ops' not in st.ghost:
        r = ex.alloc(st, 'xdrmem operations', 'cells', size=80)
        for k in range(10): st.rw(r).cells[8 * k] = (8, FnPtr('@ccv_xdrmem_%d' % k))
        st.ghost['ops'] = r
    ex.store(st, Ptr(x.reg, x.idx, x.off), op, TInt(32))
    ex.store(st, Ptr(x.reg, x.idx, x.off + 8), Ptr(st.ghost['ops']), TPtr())
    ex.setobj(st, Ptr(x.reg, x.idx, x.off + 16), XdrV(base, n, z3.IntVal(0), op.u()))
    return ret(st)


def xobj(ex, st, p):
    v = ex.getobj(st, Ptr(p.reg, p.idx, p.off + 16))
    if not isinstance(v, XdrV): raise Undecided('not a memory XDR stream')
    return v, Ptr(p.reg, p.idx, p.off + 16)


def h_getpos(ex, st, ci):
    v, _ = xobj(ex, st, ci.args[0])
    return ret(st, IntV(32, v.pos))


def h_destroy(ex, st, ci):
    xobj(ex, st, ci.args[0])
    return ret(st)


def bool_res(ci, b): return BoolV(z3.BoolVal(b)) if isinstance(ci.ins.ty, TInt) and ci.ins.ty.w == 1 else IntV(32, 1 if b else 0)


def fails(ex, st, ci, v, q):
    """an error leaves the position anywhere"""
    p = fresh('pos')
    st.assume(p >= v.pos, p <= v.n)
    ex.setobj(st, q, XdrV(v.base, v.n, p, v.op))
    return Outcome('ret', st, bool_res(ci, False))


def h_codec(ex, st, ci):
    mem, sg, wire = CODEC[ci.dem]
    v, q = xobj(ex, st, ci.args[0])
    x = ci.args[1]
    bad = st.fork()
    bad.assume(v.n - v.pos < wire)
    st.assume(v.n - v.pos >= wire)
    w = mem * 8
    at = Ptr(v.base.reg, v.base.idx + v.pos, v.base.off) if v.base.reg is not None else None
    if isint(v.op) is False: raise Undecided('direction of an XDR stream')
    nxt = XdrV(v.base, v.n, z3.simplify(v.pos + wire), v.op)
    if at is None: return [fails(ex, bad, ci, v, q)]
    if v.op == 0:
        if sg is None:
            a = ex.load(st, x, TFloat('float' if w == 32 else 'double'))
            e = FBITS[w](a.e)
            st.assume(e >= 0, e < 1 << w)
        else:
            a = ex.load(st, x, TInt(w))
            e = z(a.s_() if sg else a.u()) % (1 << (8 * wire))
        e0 = fresh('wire')
        st.assume(e0 == e)
        put_bytes(ex, st, at, wire, lambda k: pick(k, [byte(e0, wire, i) for i in range(wire)]))
        st.ghost['wire'] = e0
    else:
        f = bytes_at(ex, st, at)
        bs = [f(z3.IntVal(k)) for k in range(wire)]
        for b in bs: st.assume(b >= 0, b < 256)
        e = fresh('wire')
        st.assume(e == word(bs))
        if sg is None: ex.store(st, x, FloatV('float' if w == 32 else 'double', FVAL[w](e)), TFloat('float' if w == 32 else 'double'))
        elif w > 8 * wire: ex.store(st, x, IntV(w, e), TInt(w))         # this library forgets the sign of a long
        else: ex.store(st, x, IntV(w, e % (1 << w)), TInt(w))
    ex.setobj(st, q, nxt)
    # the target may be partly written on failure
    if v.op != 0: ex.store(bad, x, FloatV('float' if w == 32 else 'double', fresh('partial', Fl)) if sg is None else IntV(w, rng(bad, w)), TFloat('float' if w == 32 else 'double') if sg is None else TInt(w))
    return [Outcome('ret', st, bool_res(ci, True)), fails(ex, bad, ci, v, q)]


def rng(st, w):
    e = fresh('partial')
    st.assume(e >= 0, e < 1 << w)
    return e


def pick(k, bs):
    r = bs[-1]
    for i in range(len(bs) - 2, -1, -1): r = z3.If(z(k) == i, bs[i], r)
    return r


def up4(n): return ((z(n) + 3) / 4) * 4


def h_opaque(ex, st, ci):
    v, q = xobj(ex, st, ci.args[0])
    x, n = ci.args[1], z(ci.args[2].u())
    bad, zero = st.fork(), st.fork()
    zero.assume(n == 0)
    need = up4(n)
    bad.assume(n > 0, v.n - v.pos < need)
    st.assume(n > 0, v.n - v.pos >= need)
    out = [Outcome('ret', zero, bool_res(ci, True))]
    if v.op != 0 and x.reg is not None:
        f = bytes_fn('partial', bad)
        a = z(x.idx) + x.off
        old = bytes_at(ex, bad, Ptr(x.reg))
        bad.rw(x.reg).arr[0] = (1, lambda k, old=old: z3.If(And(z(k) >= a, z(k) < a + n), f(k), old(k)))
    out.append(fails(ex, bad, ci, v, q))
    if v.base.reg is None: return out
    at = Ptr(v.base.reg, v.base.idx + v.pos, v.base.off)
    if x.reg is None or st.mem[x.reg].len is None: raise Undecided('opaque data')
    ex.oblige(st, 'opaque data within the memory', z(x.idx) + x.off + n <= st.mem[x.reg].len, 'pre')
    if v.op == 0:
        g = bytes_at(ex, st, x)
        put_bytes(ex, st, at, need, lambda k: z3.If(k < n, g(k), 0))
    else:
        g = bytes_at(ex, st, at)
        put_bytes(ex, st, x, n, g)
    ex.setobj(st, q, XdrV(v.base, v.n, v.pos + need, v.op))
    return out + [Outcome('ret', st, bool_res(ci, True))]


LIB = [(r'^xdrmem_create$', h_memcreate), (r'^@?ccv_xdrmem_4$', h_getpos), (r'^@?ccv_xdrmem_7$', h_destroy), (r'^(%s)$' % '|'.join(CODEC), h_codec), (r'^xdr_opaque$', h_opaque)]

TYPES = {'bool': (8, False, 4), 'char': (8, True, 4), 'schar': (8, True, 4), 'uchar': (8, False, 4), 'short': (16, True, 4), 'ushort': (16, False, 4), 'int': (32, True, 4), 'uint': (32, False, 4), 'long': (64, True, 4), 'ulong': (64, False, 4),
         'llong': (64, True, 8), 'ullong': (64, False, 8), 'wchar': (32, True, 4), 'float': (32, None, 4), 'double': (64, None, 8)}


class X(P):
    tu = TU
    contracts = LIB
    must = ('ret', 'throw')

    def mk(s, ex, st, variant):
        s.r = mk_pack(ex, st, 'pack', variant == 'null', dyn='_ZTVN9classdesc8xdr_packE', size=ex.mod.size(cls(ex, 'class.classdesc::xdr_pack')))
        m = ex.mod.members['xdr_pack']
        for n in ('input', 'output'): st.rw(s.r).cells[m[n]] = (8, NULL)
        s.v0 = PackView(ex, st, s.r)

    def oerr(s, ex, o):
        ob(ex, o, 'exception type', o.val.ty == '@_ZTIN9classdesc10pack_errorE')

    def kept(s, ex, o, v1):
        k = fresh('k')
        ob(ex, o, 'old bytes kept', z3.Implies(And(k >= 0, k < s.v0.size), v1.fn(k) == s.v0.fn(k)))


class AppendT(X):
    def __init__(s, t): s.t, s.name, s.func = t, 'xdr append(%s)' % t, '^ccv_append_%s$' % t

    def setup(s, ex, st, variant):
        s.mk(ex, st, variant)
        w, sg, n = TYPES[s.t]
        r = ex.alloc(st, 'v', 'cells', size=w // 8)
        if sg is None:
            e = fresh('v', Fl)
            st.rw(r).cells[0] = (w // 8, FloatV('float' if w == 32 else 'double', e))
            s.e = FBITS[w](e)
        else:
            v = sym_int(ex, st, 'v', w, signed=sg)
            if s.t == 'bool': st.assume(v.e <= 1)
            st.rw(r).cells[0] = (w // 8, v)
            s.e = z(v.e)
        return [Ptr(s.r), Ptr(r)]

    def post(s, ex, o, variant):
        w, sg, n = TYPES[s.t]
        fits = True if w <= 8 * n or sg is None else And(s.e >= -(1 << (8 * n - 1)), s.e < 1 << (8 * n - 1)) if sg else s.e < 1 << (8 * n)
        v1 = s.fin(ex, o, ('m_data', 'm_size'))
        s.kept(ex, o, v1)
        if o.kind == 'throw':
            ob(ex, o, 'exception only if the value does not fit', z3.Not(fits) if fits is not True else False)
            ob(ex, o, 'size unchanged', v1.size == s.v0.size)
            s.oerr(ex, o)
            return
        ob(ex, o, 'a value that does not fit raises', fits)
        ob(ex, o, 'size grows by %d' % n, v1.size == s.v0.size + n)
        e = s.e % (1 << (8 * n)) if sg is not None else s.e
        for i in range(n): ob(ex, o, 'byte %d' % i, v1.fn(s.v0.size + i) == byte(e, n, i))


class AppendLD(X):
    name, func = 'xdr append(long double)', '^ccv_append_ldouble$'
    must = ('throw',)

    def setup(s, ex, st, variant):
        s.mk(ex, st, variant)
        return [Ptr(s.r), Ptr(ex.alloc(st, 'v', 'cells', size=16))]

    def post(s, ex, o, variant):
        ob(ex, o, 'raises', o.kind == 'throw')
        if o.kind != 'throw': return
        v1 = s.fin(ex, o, ('m_data',))
        s.kept(ex, o, v1)
        s.oerr(ex, o)


class PopLD(AppendLD):
    name, func = 'xdr popoff(long double)', '^ccv_popoff_ldouble$'


class PopT(X):
    def __init__(s, t): s.t, s.name, s.func = t, 'xdr popoff(%s)' % t, '^ccv_popoff_%s$' % t

    def setup(s, ex, st, variant):
        s.mk(ex, st, variant)
        w, sg, n = TYPES[s.t]
        s.x = ex.alloc(st, 'v', 'cells', size=w // 8)
        if sg is None: st.rw(s.x).cells[0] = (w // 8, FloatV('float' if w == 32 else 'double', fresh('v', Fl)))
        else: st.rw(s.x).cells[0] = (w // 8, sym_int(ex, st, 'v', w, signed=sg))
        return [Ptr(s.r), Ptr(s.x)]

    def post(s, ex, o, variant):
        w, sg, n = TYPES[s.t]
        v0 = s.v0
        avail = And(v0.pos <= v0.size, v0.size - v0.pos >= n)
        if o.kind == 'throw':
            ob(ex, o, 'exception only on truncation', z3.Not(avail))
            s.oerr(ex, o)
            s.fin(ex, o, (), [s.x])
            return
        ob(ex, o, 'truncation raises', avail)
        v1 = s.fin(ex, o, ('m_pos',), [s.x])
        ob(ex, o, 'position advances by %d' % n, v1.pos == v0.pos + n)
        bs = [v0.fn(v0.pos + i) for i in range(n)]
        e = word(bs)
        o.st.assume(*[And(b >= 0, b < 256) for b in bs])
        c = o.st.mem[s.x].cells[0][1]
        if sg is None: ob(ex, o, 'value', c.e == FVAL[w](e))
        else:
            m = min(w, 8 * n)
            u = e % (1 << m)
            want = z3.If(u >= 1 << (m - 1), u - (1 << m), u) if sg else u
            ob(ex, o, 'value', z(c.s_() if sg else c.u()) == want)


class PackRaw(X):
    name, func = 'xdr packraw', '^ccv_packraw$'

    def setup(s, ex, st, variant):
        s.mk(ex, st, variant)
        s.n = sym_int(ex, st, 'n', 64, ADDR)
        s.src = ex.alloc(st, 'src', 'arr', elemsize=1, ln=s.n.e)
        s.sf = bytes_fn('src', st)
        st.rw(s.src).arr[0] = (1, s.sf)
        return [Ptr(s.r), Ptr(s.src), s.n]

    def post(s, ex, o, variant):
        n = s.n.e
        v1 = s.fin(ex, o, ('m_data', 'm_size'))
        s.kept(ex, o, v1)
        if o.kind == 'throw':
            ob(ex, o, 'exception only beyond what XDR can describe', n > (1 << 32) - 4)
            ob(ex, o, 'size unchanged', v1.size == s.v0.size)
            s.oerr(ex, o)
            return
        ob(ex, o, 'size grows by n, padded', v1.size == s.v0.size + up4(n))
        k = fresh('k')
        ob(ex, o, 'bytes appended', z3.Implies(And(k >= 0, k < n), v1.fn(s.v0.size + k) == s.sf(k)))
        ob(ex, o, 'padding is zero', z3.Implies(And(k >= n, k < up4(n)), v1.fn(s.v0.size + k) == 0))


class UnpackRaw(X):
    name, func = 'xdr unpackraw', '^ccv_unpackraw$'

    def setup(s, ex, st, variant):
        s.mk(ex, st, variant)
        s.n = sym_int(ex, st, 'n', 64)
        n, v0 = s.n.e, s.v0
        room = fresh('room')
        s.avail = And(v0.pos <= v0.size, v0.size - v0.pos >= up4(n), n <= (1 << 32) - 4)
        st.assume(room >= 0, z3.Implies(s.avail, room >= n))
        s.room = room
        s.dst = ex.alloc(st, 'dst', 'arr', elemsize=1, ln=room)
        s.df = bytes_fn('dst', st)
        st.rw(s.dst).arr[0] = (1, s.df)
        return [Ptr(s.r), Ptr(s.dst), s.n]

    def post(s, ex, o, variant):
        v0, n = s.v0, s.n.e
        if o.kind == 'throw':
            ob(ex, o, 'exception only on truncation', z3.Not(s.avail))
            s.oerr(ex, o)
            s.fin(ex, o, (), [s.dst])
            return
        ob(ex, o, 'truncation raises', Or(s.avail, n == 0))
        v1 = s.fin(ex, o, ('m_pos',), [s.dst])
        ob(ex, o, 'position advances by n, padded', v1.pos == v0.pos + up4(n))
        f = bytes_at(ex, o.st, Ptr(s.dst))
        k = fresh('k')
        ob(ex, o, 'bytes delivered', z3.Implies(And(k >= 0, k < n), f(k) == v0.fn(v0.pos + k)))
        ob(ex, o, 'no write past n', z3.Implies(And(k >= n, k < s.room), f(k) == s.df(k)))


class Ctor4(Task):
    tu = TU
    name, func = 'xdr_pack(size)', r'^classdesc::xdr_pack::xdr_pack\(unsigned long\)$'
    contracts = Ctor.contracts + LIB

    def setup(s, ex, st, variant):
        t = cls(ex, 'class.classdesc::xdr_pack')
        s.r = ex.alloc(st, 'pack', 'cells', size=ex.mod.size(t), ty=t)
        return [Ptr(s.r), sym_int(ex, st, 'sz', 64, ADDR)]

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        v = PackView(ex, o.st, s.r)
        ob(ex, o, 'invariant', v.inv())
        ob(ex, o, 'empty', And(v.size == 0, v.pos == 0))
        m = ex.mod.members['pack_t']
        c = o.st.mem[s.r].cells
        ob(ex, o, 'buffer mode', Eq(c[m['mode']][1].u(), 0))
        ob(ex, o, 'no file', c[m['f']][1].reg is None)
        ob(ex, o, 'pointers rejected by default', Eq(c[m['ptr_flag']][1].u(), 0))


class Move(X):
    must = ('ret',)

    def __init__(s, name, size, pos): s.nm, s.name, s.func, s.size, s.pos = name, 'xdr ' + name, '^ccv_%s$' % name, size, pos

    def setup(s, ex, st, variant):
        s.mk(ex, st, variant)
        s.a = None
        if 'seek' in s.nm:
            s.a = sym_int(ex, st, 'offs', 64, signed=True)
            if s.nm == 'seeki': st.assume(s.a.e <= 0, s.v0.size + s.a.e >= 0)
            else: st.assume(s.v0.pos + s.a.e >= 0, s.v0.pos + s.a.e < (1 << 64))
        return [Ptr(s.r)] + ([s.a] if s.a is not None else [])

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        if o.kind != 'ret': return
        v1 = s.fin(ex, o, ('m_size', 'm_pos'))
        a = s.a.s_() if s.a is not None else None
        ob(ex, o, 'size', v1.size == s.size(s.v0, a))
        ob(ex, o, 'pos', v1.pos == s.pos(s.v0, a))
        s.kept(ex, o, v1)


xdr = [AppendT(t) for t in TYPES] + [PopT(t) for t in TYPES] + [AppendLD(), PopLD(), PackRaw(), UnpackRaw(), Ctor4(),
       Move('reseti', lambda v, a: 0, lambda v, a: v.pos), Move('reseto', lambda v, a: v.size, lambda v, a: 0), Move('seeki', lambda v, a: v.size + a, lambda v, a: v.pos), Move('seeko', lambda v, a: v.size, lambda v, a: v.pos + a)]
for t in xdr:
    if isinstance(t, AppendT) and not t.t.endswith('long'): t.must = ('ret',)
    if t.name in ('xdr append(llong)', 'xdr append(ullong)'): t.must = ('ret',)
