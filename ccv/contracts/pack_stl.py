"""C01: packing appends exactly the encoding of the value; unpacking an encoding of x delivers x and consumes exactly it.

The pack_t buffer is seen through its proved contract (C02) as a stream of tokens: append/packraw emit one token,
popoff/unpackraw consume one; the obligation 'token matches' (same kind and width, data left) is generated at every consume."""
from vc import *
from stdlib import *
from stl import *
from task import *
from contracts.pack_core import mk_pack, sym_int, ob, cls, NS

TU = 'pack_stl.cc'
Tok = z3.Datatype('Tok')
Tok.declare('TW', ('w', I), ('v', I))
Tok.declare('TF', ('fk', I), ('f', Fl))
Tok.declare('TE', ('tag', I), ('e', Val))
Tok.declare('TB', ('n', I), ('b', z3.ArraySort(I, I)))
Tok = Tok.create()
TokArr = z3.ArraySort(I, Tok)


class Stream(Ghost):
    """token sequence: ln tokens, fn(k)"""
    def __init__(s, ln, fn): s.ln, s.fn = ln, fn

    def havoc(s, ex):
        A = fresh('out[]', TokArr)
        return Stream(fresh('out.len'), lambda k, A=A: z3.Select(A, k))

    def facts(s): return [s.ln >= 0]


def emit(st, tok):
    o = st.ghost['out']
    fn, ln = o.fn, o.ln
    st.ghost['out'] = Stream(ln + 1, lambda k: z3.If(k == ln, tok, fn(k)))
    st.log(('ghost', 'out'))


def take(ex, st, cond, what):
    """consume one token; cond(tok) is the requirement on it"""
    p = st.ghost['inpos']
    t = st.ghost['in'](p)
    ex.oblige(st, 'reads back what was written (%s)' % what, And(p < st.ghost['inlen'], cond(t)), 'pre')
    st.assume(cond(t))
    st.ghost['inpos'] = p + 1
    st.log(('ghost', 'inpos'))
    return t


def tokval(ex, st, p, size):
    """token for the size bytes at p"""
    ty = TInt(8 * size)
    c = None
    if p.reg is not None and p.reg.kind == 'cells' and isint(p.idx):
        c = st.mem[p.reg].cells.get(p.idx + p.off)
    if p.reg is not None and p.reg.kind == 'arr':
        f = st.mem[p.reg].arr.get(p.off)
        if f and f[0] == 'fl': return Tok.TF(size, f[1](z(p.idx)))
        if f and f[0] == 'val': raise Undecided('raw bytes of an opaque element')
    if c and c[0] == size and isinstance(c[1], FloatV): return Tok.TF(size, c[1].e)
    v = ex.load(st, p, ty)
    if v is None: return None
    if isinstance(v, (Ptr, FnPtr)): raise Undecided('serialising a pointer value')
    if v is UNDEF:
        ex.oblige(st, 'serialised value initialised', False, 'safety')
        return None
    return Tok.TW(size, z(v.u()))


def h_append(ex, st, ci):
    m = ex.mod.members['basic_type']
    b = ci.args[1]
    p = ex.load(st, Ptr(b.reg, b.idx, b.off + m['val']), TPtr())
    n = ex.load(st, Ptr(b.reg, b.idx, b.off + m['size']), TInt(64))
    if not isint(n.u()): raise Undecided('append of symbolic size')
    t = tokval(ex, st, p, n.u())
    if t is None: return []
    emit(st, t)
    return ret(st)


def h_popoff(ex, st, ci):
    m = ex.mod.members['basic_type']
    b = ci.args[1]
    p = ex.load(st, Ptr(b.reg, b.idx, b.off + m['val']), TPtr())
    n = ex.load(st, Ptr(b.reg, b.idx, b.off + m['size']), TInt(64)).u()
    if not isint(n): raise Undecided('popoff of symbolic size')
    fl = None
    if p.reg is not None and p.reg.kind == 'cells' and p.reg.ty is not None and isint(p.idx):
        for o, t in ex.mod.fields(p.reg.ty):
            if o == p.idx + p.off and isinstance(t, TFloat): fl = t
    if fl is not None:
        t = take(ex, st, lambda t: And(Tok.is_TF(t), Tok.fk(t) == n), '%d byte float' % n)
        ex.store(st, p, FloatV(fl.k, Tok.f(t)), fl)
    else:
        t = take(ex, st, lambda t: And(Tok.is_TW(t), Tok.w(t) == n, Tok.v(t) >= 0, Tok.v(t) < (1 << (8 * n))), '%d byte datum' % n)
        ex.store(st, p, IntV(8 * n, Tok.v(t)), TInt(8 * n))
    return ret(st)


def h_packraw(ex, st, ci):
    p, n = ci.args[1], z(ci.args[2].u())
    A = fresh('raw[]', z3.ArraySort(I, I))
    if p.reg is None:
        ex.oblige(st, 'raw source', n == 0, 'safety')
    else:
        f = bytes_at(ex, st, p)
        if f is None: raise Undecided('packraw from %s' % p.reg)
        ex.oblige(st, 'raw source in bounds', Or(n == 0, And(st.mem[p.reg].alive, z(p.idx) >= 0, z(p.idx) + n <= st.mem[p.reg].len)), 'safety')
        k = z3.Int('k!r')
        st.assume(z3.ForAll([k], z3.Implies(And(k >= 0, k < n), A[k] == f(k)), patterns=[A[k]]))
    emit(st, Tok.TB(n, A))
    return ret(st)


def h_unpackraw(ex, st, ci):
    p, n = ci.args[1], z(ci.args[2].u())
    t = take(ex, st, lambda t: And(Tok.is_TB(t), Tok.n(t) == n), 'raw bytes')
    if p.reg is None: return ret(st)
    if p.reg.kind != 'arr' or p.reg.elemsize != 1: raise Undecided('unpackraw to %s' % p.reg)
    rs = st.rw(p.reg)
    ex.oblige(st, 'raw destination in bounds', Or(n == 0, And(rs.alive, z(p.idx) >= 0, z(p.idx) + n <= rs.len)), 'safety')
    fn = rs.arr[0][1]
    i0 = z(p.idx)
    b = Tok.b(t)
    rs.arr[0] = (1, lambda k: z3.If(And(k >= i0, k < i0 + n), b[k - i0], fn(k)))
    st.log((p.reg, 'arr', 0))
    return ret(st)


TAG = {'Elem': 1, 'Key': 2}


def elem_at(ex, st, p):
    if p.reg is None:
        ex.oblige(st, 'null element', False, 'safety'); return None
    if p.reg.kind == 'arr':
        if ex.access(st, p, 1, 'element') is None: return None
        f = st.mem[p.reg].arr.get(p.off)
        if not f or f[0] != 'val': raise Undecided('element access')
        return f[1](z(p.idx))
    if ex.access(st, p, 4, 'element') is None: return None
    c = st.mem[p.reg].cells.get(p.idx + p.off)
    if c is None or c[1] is UNDEF:
        ex.oblige(st, 'element initialised', False, 'safety'); return None
    if isinstance(c[1], ValV): return c[1].e
    raise Undecided('element value %r' % (c[1],))


def h_elem_pack(ex, st, ci):
    tag = TAG[re.search(r'(\w+) const&\)$', ci.dem).group(1)]
    e = elem_at(ex, st, ci.args[1])
    if e is None: return []
    emit(st, Tok.TE(tag, e))
    return ret(st)


def h_elem_unpack(ex, st, ci):
    tag = TAG[re.search(r', (\w+)( const)?&\)$', ci.dem).group(1)]
    t = take(ex, st, lambda t: And(Tok.is_TE(t), Tok.tag(t) == tag), 'element')
    p = ci.args[1]
    if 'const' in ci.dem: return ret(st)
    if p.reg is None or ex.access(st, p, 4, 'element') is None: return []
    if p.reg.kind == 'arr':
        rs = st.rw(p.reg)
        fn = rs.arr[p.off][1]
        i, x = z(p.idx), Tok.e(t)
        rs.arr[p.off] = ('val', lambda k: z3.If(k == i, x, fn(k)))
        st.log((p.reg, 'arr', p.off))
    else: ex.setcell(st, p.reg, p.idx + p.off, 4, ValV(Tok.e(t)))
    return ret(st)


TOKENS = [(NS + r'append\(', h_append), (NS + r'popoff\(', h_popoff), (NS + r'packraw\(', h_packraw), (NS + r'unpackraw\(', h_unpackraw),
          (r'^ccv_epack\(', h_elem_pack),
          (r'^ccv_eunpack\(', h_elem_unpack)]


def mk_out(st):
    A = fresh('out0[]', TokArr)
    n = fresh('out0.len')
    st.assume(n >= 0)
    st.ghost['out'] = Stream(n, lambda k: z3.Select(A, k))
    st.ghost['in'] = lambda k: z3.Select(A, k)
    st.ghost['inlen'] = z3.IntVal(0)
    st.ghost['inpos'] = z3.IntVal(0)
    return st.ghost['out']


def mk_in(st):
    A = fresh('in[]', TokArr)
    p, n = fresh('inpos'), fresh('inlen')
    st.assume(p >= 0, n >= p)
    st.ghost['in'] = lambda k: z3.Select(A, k)
    st.ghost['inlen'] = n
    st.ghost['inpos'] = p
    st.ghost['out'] = Stream(z3.IntVal(0), lambda k: z3.Select(A, k))
    return A, p, n


def sources(c):
    """integer quantities a loop carries: (name, getter)"""
    r = []
    for nm, v in c.phis.items():
        if isinstance(v, IntV): r.append((nm, lambda x, nm=nm: z(x.phis[nm].u()) if isinstance(x.phis.get(nm), IntV) else None))
        elif isinstance(v, Ptr) and v.reg is not None and v.reg.kind == 'arr': r.append((nm, lambda x, nm=nm: z(x.phis[nm].idx)))
    for m in sorted(c.modset, key=str):
        if m[0] == 'ghost': continue
        if m[1] == 'cell':
            def g(x, m=m):
                cc = x.st.mem[m[0]].cells.get(m[2])
                if cc is None: return None
                v = cc[1]
                if isinstance(v, IntV): return z(v.u())
                if isinstance(v, IterV): v = v.p
                if isinstance(v, Ptr) and v.reg is not None and v.reg.kind == 'arr': return z(v.idx)
                return None
            if g(c) is not None: r.append(('%s+%s' % (m[0].name, m[2]), g))
        elif m[1] == 'len': r.append(('len(%s)' % m[0].name, lambda x, m=m: x.st.mem[m[0]].len))
    # how far a quantity has come down from its value at entry
    at = getattr(c, 'at_entry', None)
    if at is not None:
        for nm, g in list(r):
            e = g(at)
            if nm.startswith('len(') or e is None or isint(e) or z3.is_int_value(z(e)): continue
            r.append(('entry-' + nm, lambda x, g=g, e=e: None if g(x) is None else z(e) - z(g(x))))
    return r


def all_(n, f, pat=None):
    k = z3.Int('k!a')
    return z3.ForAll([k], z3.Implies(And(k >= 0, k < n), f(k)))


def short_name(T): return re.sub(r'std::(__cxx11::)?', '', T)


class Seq:
    """shape of a container argument: kind + list of (byte offset, tag)"""
    def __init__(s, kind, fields): s.kind, s.fields, s.s = kind, fields, len(fields)
    elemsize = property(lambda s: 4 * s.s)
    def lay(s): return {o: 'val' for o, t in s.fields}


SHAPES = {'vector<Elem>': Seq('vector', [(0, 1)]), 'list<Elem>': Seq('list', [(0, 1)]), 'deque<Elem>': Seq('deque', [(0, 1)]),
          'set<Elem>': Seq('set', [(0, 1)]), 'multiset<Elem>': Seq('multiset', [(0, 1)]),
          'map<Key,Elem>': Seq('map', [(0, 2), (4, 1)]), 'multimap<Key,Elem>': Seq('multimap', [(0, 2), (4, 1)])}


class PackSeq(Task):
    contracts = TOKENS
    tu = TU

    def __init__(s, nm):
        s.name = 'pack(%s)' % nm
        s.sh = SHAPES[nm]

    def setup(s, ex, st, variant):
        s.r = mk_pack(ex, st, 'pack')
        s.p, s.reg = mk_seq(ex, st, s.sh.kind, 'a', s.sh.elemsize, s.sh.lay())
        s.n = st.mem[s.reg].len
        s.out0 = mk_out(st)
        d = ex.alloc(st, 'd', 'cells', size=32)
        st.rw(d).cells[0] = (32, sym_str(ex, st, 'd'))
        s.vals = [st.mem[s.reg].arr[o][1] for o, t in s.sh.fields]
        return [Ptr(s.r), Ptr(d), s.p]

    def enc(s, fn, base):
        """the elements' tokens sit at base"""
        return lambda n: And(*[all_(n, lambda k, j=j, t=t: fn(base + s.sh.s * k + j) == Tok.TE(t, s.vals[j](k))) for j, (o, t) in enumerate(s.sh.fields)])

    def loops(s, c):
        out = []
        o0 = lambda c: c.entry.ghost['out']
        o1 = lambda c: c.st.ghost['out']
        for nm, g in sources(c):
            def mk(nm, g, f): out.append(('%s(%s)' % (nm.split('|')[1], nm.split('|')[0]), lambda c: None if g(c) is None else f(c, g(c))))
            mk(nm + '|range', g, lambda c, i: And(i >= 0, i <= s.n))
            mk(nm + '|len', g, lambda c, i: o1(c).ln == o0(c).ln + s.sh.s * i)
            mk(nm + '|enc', g, lambda c, i: s.enc(o1(c).fn, o0(c).ln)(i))
        out.append(('prefix', lambda c: all_(o0(c).ln, lambda k: o1(c).fn(k) == o0(c).fn(k))))
        return out

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        o1 = o.st.ghost['out']
        ob(ex, o, 'number of tokens', o1.ln == s.out0.ln + 1 + s.sh.s * s.n)
        ob(ex, o, 'size written first', o1.fn(s.out0.ln) == Tok.TW(8, s.n))
        k = fresh('k')
        for j, (off, t) in enumerate(s.sh.fields):
            ob(ex, o, 'element tokens in order (%d)' % j, z3.Implies(And(k >= 0, k < s.n), o1.fn(s.out0.ln + 1 + s.sh.s * k + j) == Tok.TE(t, s.vals[j](k))))
        ob(ex, o, 'earlier data untouched', z3.Implies(And(k >= 0, k < s.out0.ln), o1.fn(k) == s.out0.fn(k)))
        frame(ex, o, ex.st0, {s.r})


class UnpackSeq(Task):
    contracts = TOKENS
    tu = TU

    def __init__(s, nm):
        s.name = 'unpack(%s)' % nm
        s.sh = SHAPES[nm]
        s.nm = nm

    def setup(s, ex, st, variant):
        s.r = mk_pack(ex, st, 'pack')
        # the target container holds anything beforehand
        s.p, s.reg = mk_seq(ex, st, s.sh.kind, 'a', s.sh.elemsize, s.sh.lay())
        # x: the value that was packed
        s.n = fresh('x.n')
        st.assume(s.n >= 0, s.n * s.sh.elemsize < ADDR)
        X = [fresh('x%d[]' % j, z3.ArraySort(I, Val)) for j in range(s.sh.s)]
        s.x = [lambda k, A=A: z3.Select(A, k) for A in X]
        s.A, s.pos, s.len = mk_in(st)
        st.assume(s.pos + 1 + s.sh.s * s.n <= s.len)
        k = z3.Int('k!x')
        st.assume(s.A[s.pos] == Tok.TW(8, s.n))
        for j, (o, t) in enumerate(s.sh.fields):
            st.assume(z3.ForAll([k], z3.Implies(And(k >= 0, k < s.n), s.A[s.pos + 1 + s.sh.s * k + j] == Tok.TE(t, X[j][k])), patterns=[X[j][k]]))
        s.inst = lambda i: [z3.Implies(And(i >= 0, i < s.n), s.A[s.pos + 1 + s.sh.s * i + j] == Tok.TE(t, X[j][i])) for j, (o, t) in enumerate(s.sh.fields)]
        kind = s.sh.kind
        if kind in ('set', 'map'): st.assume(z3.ForAll([k], z3.Implies(And(k >= 0, k + 1 < s.n), LT(X[0][k], X[0][k + 1])), patterns=[X[0][k]]))
        if kind in ('multiset', 'multimap'): st.assume(z3.ForAll([k], z3.Implies(And(k >= 0, k + 1 < s.n), z3.Not(LT(X[0][k + 1], X[0][k]))), patterns=[X[0][k]]))
        d = ex.alloc(st, 'd', 'cells', size=32)
        st.rw(d).cells[0] = (32, sym_str(ex, st, 'd'))
        return [Ptr(s.r), Ptr(d), s.p]

    def loops(s, c):
        out = []
        for nm, g in sources(c):
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 0, i <= s.n))
            mk('pos', lambda c, i: And(c.st.ghost['inpos'] == c.entry.ghost['inpos'] + s.sh.s * i))
            mk('inst', lambda c, i: And(*s.inst(i)))       # an instance of the precondition at i, for the solver
            mk('count', lambda c, i: c.st.mem[s.reg].len == i)
            mk('elems', lambda c, i: And(*[all_(i, lambda k, j=j, o=o: c.st.mem[s.reg].arr[o][1](k) == s.x[j](k)) for j, (o, t) in enumerate(s.sh.fields)]))
        return out

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        rs = o.st.mem[s.reg]
        ob(ex, o, 'same number of elements', rs.len == s.n)
        k = fresh('k')
        for j, (off, t) in enumerate(s.sh.fields):
            ob(ex, o, 'elements equal (%d)' % j, z3.Implies(And(k >= 0, k < s.n), rs.arr[off][1](k) == s.x[j](k)))
        ob(ex, o, 'consumes exactly the encoding', o.st.ghost['inpos'] == s.pos + 1 + s.sh.s * s.n)
        ob(ex, o, 'writes nothing to the stream', z(o.st.ghost['out'].ln) == 0)
        frame(ex, o, ex.st0, {s.r, s.p.reg, s.reg})


seqs = []
for nm in SHAPES:
    p, u = PackSeq(nm), UnpackSeq(nm)
    p.func, u.func = '^ccv_pack_%s$' % SHAPES[nm].kind, '^ccv_unpack_%s$' % SHAPES[nm].kind
    seqs += [p, u]


# ------------------------------------------------------------------ const containers: the encoding is skipped, the value kept
class SkipSeq(UnpackSeq):
    def __init__(s, nm):
        UnpackSeq.__init__(s, nm)
        s.name = 'unpack(const %s)' % nm
        s.func = '^ccv_cunpack_%s$' % s.sh.kind

    def layout(s, ex, dem): return s.sh.elemsize, s.sh.lay()

    def loops(s, c):
        out = []
        for nm, g in sources(c):
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 0, i <= s.n))
            mk('pos', lambda c, i: And(c.st.ghost['inpos'] == c.entry.ghost['inpos'] + s.sh.s * i))
            mk('inst', lambda c, i: And(*s.inst(i)))
        return out

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        ob(ex, o, 'consumes exactly the encoding', o.st.ghost['inpos'] == s.pos + 1 + s.sh.s * s.n)
        frame(ex, o, ex.st0, {s.r})      # in particular the const container


for nm in SHAPES:
    if SHAPES[nm].kind in ('vector', 'list', 'deque', 'set', 'multiset'): seqs.append(SkipSeq(nm))


# ------------------------------------------------------------------ everything with a fixed number of tokens
class Fixed(Task):
    tu = TU
    contracts = TOKENS

    def pre(s, ex, st):
        s.r = mk_pack(ex, st, 'pack')
        d = ex.alloc(st, 'd', 'cells', size=32)
        st.rw(d).cells[0] = (32, sym_str(ex, st, 'd'))
        return [Ptr(s.r), Ptr(d)]

    def emitted(s, ex, o, toks, extra=0):
        """exactly these tokens were appended"""
        ob(ex, o, 'no-exception', o.kind == 'ret')
        o1 = o.st.ghost['out']
        n = len(toks)
        ob(ex, o, 'number of tokens', o1.ln == s.out0.ln + n)
        for i, t in enumerate(toks): ob(ex, o, 'token %d' % i, t(o1.fn(s.out0.ln + i)) if callable(t) else o1.fn(s.out0.ln + i) == t)
        k = fresh('k')
        ob(ex, o, 'earlier data untouched', z3.Implies(And(k >= 0, k < s.out0.ln), o1.fn(k) == s.out0.fn(k)))

    def given(s, st, toks):
        s.A, s.pos, s.len = mk_in(st)
        st.assume(s.pos + len(toks) <= s.len)
        for i, t in enumerate(toks): st.assume(s.A[s.pos + i] == t)
        s.nt = len(toks)

    def consumed(s, ex, o):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        ob(ex, o, 'consumes exactly the encoding', o.st.ghost['inpos'] == s.pos + s.nt)
        ob(ex, o, 'writes nothing to the stream', z(o.st.ghost['out'].ln) == 0)


class Fund(Fixed):
    """fundamental types; op in pack/in (emit), unpack/out (read), cunpack (skip)"""
    def __init__(s, op, nm, kind):
        s.op, s.kind = op, kind
        s.name = '%s(%s)' % (op, nm)
        s.func = '^ccv_%s_%s$' % (op, nm)

    def setup(s, ex, st, variant):
        args = s.pre(ex, st)
        if s.op in ('in', 'out'): args = args[:1]
        fl = isinstance(s.kind, str)
        n = s.sz = int(s.kind[1:]) if fl else s.kind
        ty = TFloat('float' if n == 4 else 'double') if fl else TInt(8 * n)
        s.a = ex.alloc(st, 'a', 'cells', size=n, ty=ty)
        s.v0, fs = ex.symbolic(ty, 'a')
        st.assume(*fs)
        if 'bool' in s.name: st.assume(s.v0.e < 2)
        st.rw(s.a).cells[0] = (n, s.v0)
        tok = lambda v: Tok.TF(n, v.e) if fl else Tok.TW(n, z(v.u()))
        if s.op in ('pack', 'in'):
            s.out0 = mk_out(st)
            s.tok = tok(s.v0)
        else:
            s.x, fs = ex.symbolic(ty, 'x')
            st.assume(*fs)
            s.given(st, [tok(s.x)])
        return args + [Ptr(s.a)]

    def post(s, ex, o, variant):
        if s.op in ('pack', 'in'):
            s.emitted(ex, o, [s.tok])
            frame(ex, o, ex.st0, {s.r})
        else:
            s.consumed(ex, o)
            if s.op == 'cunpack':
                frame(ex, o, ex.st0, {s.r})
                return
            v = o.st.mem[s.a].cells[0][1]
            if isinstance(s.x, IntV): ob(ex, o, 'value restored', Eq(ex.toint(v).u(), s.x.u()))
            else: ob(ex, o, 'value restored', v.e == s.x.e if isinstance(v, FloatV) else False)
            frame(ex, o, ex.st0, {s.r, s.a})


FUNDS = [('int', 4), ('unsigned', 4), ('short', 2), ('ushort', 2), ('long', 8), ('ulong', 8), ('llong', 8), ('ullong', 8), ('char', 1), ('schar', 1), ('uchar', 1), ('bool', 1), ('float', 'f4'), ('double', 'f8'), ('wchar', 4)]
funds = [Fund(op, n, k) for n, k in FUNDS for op in ('pack', 'unpack', 'cunpack', 'in', 'out')]


class Pair(Fixed):
    def __init__(s, op):
        s.op, s.name, s.func = op, '%s(pair<Key,Elem>)' % op, '^ccv_%s_pair$' % op

    def setup(s, ex, st, variant):
        args = s.pre(ex, st)
        s.a = ex.alloc(st, 'a', 'cells', size=8)
        for o in (0, 4): st.rw(s.a).cells[o] = (4, ValV(fresh('a%d' % o, Val)))
        x = [fresh('x%d' % o, Val) for o in (0, 4)]
        s.x = x
        if s.op == 'pack':
            s.out0 = mk_out(st)
            c = st.mem[s.a].cells
            s.toks = [Tok.TE(2, c[0][1].e), Tok.TE(1, c[4][1].e)]
        else: s.given(st, [Tok.TE(2, x[0]), Tok.TE(1, x[1])])
        return args + [Ptr(s.a)]

    def post(s, ex, o, variant):
        if s.op == 'pack':
            s.emitted(ex, o, s.toks)
            frame(ex, o, ex.st0, {s.r})
            return
        s.consumed(ex, o)
        if s.op == 'cunpack':
            frame(ex, o, ex.st0, {s.r}); return
        for off, x in zip((0, 4), s.x): ob(ex, o, 'member +%d restored' % off, o.st.mem[s.a].cells[off][1].e == x)
        frame(ex, o, ex.st0, {s.r, s.a})


class Str(Fixed):
    def __init__(s, op):
        s.op, s.name, s.func = op, '%s(std::string)' % op, '^ccv_%s_string$' % op

    def layout(s, ex, dem): raise Undecided('container')

    def setup(s, ex, st, variant):
        args = s.pre(ex, st)
        s.a = ex.alloc(st, 'a', 'cells', size=32)
        s.v = sym_str(ex, st, 'a')
        st.rw(s.a).cells[0] = (32, s.v)
        s.n = fresh('x.n')
        st.assume(s.n >= 0, s.n < ADDR - 1)
        s.B = fresh('x[]', z3.ArraySort(I, I))
        if s.op == 'pack': s.out0 = mk_out(st)
        else: s.given(st, [Tok.TW(8, s.n), Tok.TB(s.n, s.B)])
        return args + [Ptr(s.a)]

    def post(s, ex, o, variant):
        if s.op == 'pack':
            k = fresh('k')
            s.emitted(ex, o, [Tok.TW(8, s.v.ln), lambda t: And(Tok.is_TB(t), Tok.n(t) == s.v.ln, z3.Implies(And(k >= 0, k < s.v.ln), Tok.b(t)[k] == s.v.fn(k)))])
            frame(ex, o, ex.st0, {s.r})
            return
        s.consumed(ex, o)
        if s.op == 'cunpack':
            frame(ex, o, ex.st0, {s.r}); return
        v = o.st.mem[s.a].cells[0][1]
        k = fresh('k')
        ob(ex, o, 'length restored', z(v.ln) == s.n)
        ob(ex, o, 'characters restored', z3.Implies(And(k >= 0, k < s.n), v.fn(k) == s.B[k]))
        frame(ex, o, ex.st0, {s.r, s.a})


class Arr(Fixed):
    """arrays of opaque elements, 1 to 6 dimensional, any extents"""
    def __init__(s, op, dims):
        s.op, s.dims = op, dims
        s.name, s.func = '%s(Elem[%s])' % (op, ']['.join('nmpqrs'[:dims])), '^ccv_%s_arr%d$' % (op, dims)

    def setup(s, ex, st, variant):
        args = s.pre(ex, st)
        n = sym_int(ex, st, 'n', 64, ADDR)
        ext = [n]
        s.n = n.e
        st.assume(n.e >= 1)
        for j in range(1, s.dims):
            m = sym_int(ex, st, 'm%d' % j, 32, 1 << 31)
            ext.append(m)
            st.assume(m.e >= 1, s.n < ADDR)      # a real array: positive extents, so every partial product is below the total
            s.n = s.n * m.e
        st.assume(s.n >= 0, s.n * 4 < ADDR)
        s.a = new_storage(ex, st, 'a', 4, {0: 'val'}, s.n)
        s.a0 = st.mem[s.a].arr[0][1]
        if s.op == 'pack': s.out0 = mk_out(st)
        else:
            X = fresh('x[]', z3.ArraySort(I, Val))
            s.X = X
            s.given(st, [])
            st.assume(s.pos + s.n <= s.len)
            k = z3.Int('k!x')
            st.assume(z3.ForAll([k], z3.Implies(And(k >= 0, k < s.n), s.A[s.pos + k] == Tok.TE(1, X[k])), patterns=[X[k]]))
            s.inst = lambda i: z3.Implies(And(i >= 0, i < s.n), s.A[s.pos + i] == Tok.TE(1, X[i]))
        return args + [Ptr(s.a)] + ext

    def loops(s, c):
        out = []
        for nm, g in sources(c):
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 0, i <= s.n))
            if s.op == 'pack':
                mk('len', lambda c, i: c.st.ghost['out'].ln == s.out0.ln + i)
                mk('enc', lambda c, i: all_(i, lambda k: c.st.ghost['out'].fn(s.out0.ln + k) == Tok.TE(1, s.a0(k))))
            else:
                mk('pos', lambda c, i: c.st.ghost['inpos'] == s.pos + i)
                mk('inst', lambda c, i: s.inst(i))
                mk('elems', lambda c, i: all_(i, lambda k: c.st.mem[s.a].arr[0][1](k) == s.X[k]))
        if s.op == 'pack': out.append(('prefix', lambda c: all_(s.out0.ln, lambda k: c.st.ghost['out'].fn(k) == s.out0.fn(k))))
        return out

    def post(s, ex, o, variant):
        k = fresh('k')
        ob(ex, o, 'no-exception', o.kind == 'ret')
        if s.op == 'pack':
            o1 = o.st.ghost['out']
            ob(ex, o, 'one token per element', o1.ln == s.out0.ln + s.n)
            ob(ex, o, 'elements in order', z3.Implies(And(k >= 0, k < s.n), o1.fn(s.out0.ln + k) == Tok.TE(1, s.a0(k))))
            ob(ex, o, 'earlier data untouched', z3.Implies(And(k >= 0, k < s.out0.ln), o1.fn(k) == s.out0.fn(k)))
            frame(ex, o, ex.st0, {s.r})
        else:
            ob(ex, o, 'consumes exactly the encoding', o.st.ghost['inpos'] == s.pos + s.n)
            ob(ex, o, 'every element restored', z3.Implies(And(k >= 0, k < s.n), o.st.mem[s.a].arr[0][1](k) == s.X[k]))
            frame(ex, o, ex.st0, {s.r, s.a})


class CharArr(Fixed):
    def __init__(s, op, dims):
        s.op, s.dims = op, dims
        s.name, s.func = '%s(char[%s])' % (op, ']['.join('nmpqrs'[:dims])), '^ccv_%s_char%d$' % (op, dims)

    def setup(s, ex, st, variant):
        args = s.pre(ex, st)
        n = sym_int(ex, st, 'n', 64, ADDR)
        ext = [n]
        s.n = n.e
        st.assume(n.e >= 1)
        for j in range(1, s.dims):
            m = sym_int(ex, st, 'm%d' % j, 32, 1 << 31)
            ext.append(m)
            st.assume(m.e >= 1, s.n < ADDR)      # a real array: positive extents, so every partial product is below the total
            s.n = s.n * m.e
        st.assume(s.n >= 0, s.n < ADDR)
        s.a = new_storage(ex, st, 'a', 1, {0: 1}, s.n)
        s.a0 = st.mem[s.a].arr[0][1]
        s.B = fresh('x[]', z3.ArraySort(I, I))
        if s.op == 'pack': s.out0 = mk_out(st)
        else: s.given(st, [Tok.TB(s.n, s.B)])
        return args + [Ptr(s.a)] + ext

    loops = None

    def post(s, ex, o, variant):
        k = fresh('k')
        if s.op == 'pack':
            s.emitted(ex, o, [lambda t: And(Tok.is_TB(t), Tok.n(t) == s.n, z3.Implies(And(k >= 0, k < s.n), Tok.b(t)[k] == s.a0(k)))])
            frame(ex, o, ex.st0, {s.r})
        else:
            s.consumed(ex, o)
            ob(ex, o, 'every character restored', z3.Implies(And(k >= 0, k < s.n), o.st.mem[s.a].arr[0][1](k) == s.B[k]))
            frame(ex, o, ex.st0, {s.r, s.a})


class EnumT(Fixed):
    """enums travel as int; any int value"""
    def __init__(s, op): s.op, s.name, s.func = op, '%s(enum)' % op, '^ccv_%s_enum$' % op

    def setup(s, ex, st, variant):
        args = s.pre(ex, st)
        s.a = ex.alloc(st, 'a', 'cells', size=4, ty=TInt(32))
        v, fs = ex.symbolic(TInt(32), 'a')
        st.assume(*fs)
        st.rw(s.a).cells[0] = (4, v)
        s.x, fs = ex.symbolic(TInt(32), 'x')
        st.assume(*fs)
        s.tok = Tok.TW(4, v.e)
        if s.op == 'pack': s.out0 = mk_out(st)
        else: s.given(st, [Tok.TW(4, s.x.e)])
        return args + [Ptr(s.a)]

    def post(s, ex, o, variant):
        if s.op == 'pack':
            s.emitted(ex, o, [s.tok])
            frame(ex, o, ex.st0, {s.r})
        else:
            s.consumed(ex, o)
            ob(ex, o, 'value restored', Eq(o.st.mem[s.a].cells[0][1].u(), s.x.u()))
            frame(ex, o, ex.st0, {s.r, s.a})


class Nop(Fixed):
    """Exclude<T> and const static members: nothing is written, read or changed"""
    def __init__(s, op, what): s.op, s.name, s.func = op, '%s(%s)' % (op, what), '^ccv_%s_%s$' % (op, what)

    def setup(s, ex, st, variant):
        args = s.pre(ex, st)
        s.a = ex.alloc(st, 'a', 'cells', size=4)
        st.rw(s.a).cells[0] = (4, ValV(fresh('a', Val)))
        if s.op == 'pack': s.out0 = mk_out(st)
        else: s.given(st, [])
        return args + [Ptr(s.a)]

    def post(s, ex, o, variant):
        if s.op == 'pack': s.emitted(ex, o, [])
        else: s.consumed(ex, o)
        frame(ex, o, ex.st0)


class Mbr(Fixed):
    """member by pointer-to-member: exactly that member; static member by pointer"""
    def __init__(s, op, what): s.op, s.what, s.name, s.func = op, what, '%s(%s)' % (op, what), '^ccv_%s_%s$' % (op, what)

    def setup(s, ex, st, variant):
        args = s.pre(ex, st)
        s.o = ex.alloc(st, 'obj', 'cells', size=12)
        for k in (0, 4, 8): st.rw(s.o).cells[k] = (4, ValV(fresh('o%d' % k, Val)))
        s.t = ex.alloc(st, 'static', 'cells', size=4)
        st.rw(s.t).cells[0] = (4, ValV(fresh('static', Val)))
        s.where = (s.o, 4) if s.what == 'mbr' else (s.t, 0)
        s.x = fresh('x', Val)
        if s.op == 'pack':
            s.out0 = mk_out(st)
            s.tok = Tok.TE(1, st.mem[s.where[0]].cells[s.where[1]][1].e)
        else: s.given(st, [Tok.TE(1, s.x)])
        return args + [Ptr(s.o)] + ([Ptr(s.t)] if s.what == 'static' else [])

    def post(s, ex, o, variant):
        if s.op == 'pack':
            s.emitted(ex, o, [s.tok])
            frame(ex, o, ex.st0, {s.r})
        else:
            s.consumed(ex, o)
            ob(ex, o, 'member restored', o.st.mem[s.where[0]].cells[s.where[1]][1].e == s.x)
            frame(ex, o, ex.st0, {s.r, s.where})


others = [Pair(o) for o in ('pack', 'unpack', 'cunpack')] + [Str(o) for o in ('pack', 'unpack', 'cunpack')]
others += [Arr(o, d) for d in range(1, 7) for o in ('pack', 'unpack')] + [CharArr(o, d) for d in range(1, 7) for o in ('pack', 'unpack')]
others += [EnumT(o) for o in ('pack', 'unpack')] + [Nop(o, w) for w in ('excl', 'cstatic') for o in ('pack', 'unpack')] + [Mbr(o, w) for w in ('mbr', 'static') for o in ('pack', 'unpack')]
