"""C16: random_init draws from rand() and gives every element a value, in order.

rand() (any override: a double in [0,1)) and the initialisation of an opaque object each take the next token of an endless
stream of draws; what the function under contract must do with them is stated over that stream.  Ranges of the floating point
expressions are computed by exact interval arithmetic: every operation on the way is monotone under IEEE rounding."""
from fractions import Fraction
import struct
from vc import *
from stdlib import *
from stl import *
from task import *
from contracts.pack_core import sym_int, ob, cls
from contracts.pack_stl import Tok, TokArr, Stream, emit, sources, all_, SHAPES, Seq, elem_at

TU = 'rinit.cc'
NORM = z3.Function('normalised', Val, Val)      # the effect of the user's hook random_init_normalise
BITS = {'float': 24, 'double': 53, 'x86_fp80': 64}


# ---------------------------------------------------------------- values of floating point terms
def rnd(x, k):
    """x rounded to nearest even in format k"""
    if not x: return x
    p, s, x = BITS[k], -1 if x < 0 else 1, abs(x)
    e = x.numerator.bit_length() - x.denominator.bit_length() - p
    while x / Fraction(2) ** e >= (1 << p): e += 1
    while x / Fraction(2) ** e < (1 << (p - 1)): e -= 1
    q = x / Fraction(2) ** e
    n, r = divmod(q.numerator, q.denominator)
    if 2 * r > q.denominator or (2 * r == q.denominator and n & 1): n += 1
    return s * n * Fraction(2) ** e


def fconst(t):
    if t.startswith('0xK'):
        n = int(t[3:], 16)
        m, e = n & ((1 << 64) - 1), (n >> 64) & 0x7fff
        return Fraction(m) * Fraction(2) ** (e - 16383 - 63) * (-1 if n >> 79 else 1)
    if t.startswith('0x'): return Fraction(struct.unpack('>d', bytes.fromhex(t[2:].zfill(16)))[0])
    return Fraction(float(t))


def rng(ex, e):
    """closed interval of the values of the Fl term e, or None"""
    iv = getattr(ex, 'fliv', {}).get(e.get_id())
    if iv: return iv[1]
    n = e.decl().name()
    if n.startswith('fc_'):
        k, t = re.match(r'fc_(double|float|x86_fp80)_(.*)$', n).groups()
        c = fconst(t)
        return (c, c)
    if n.startswith('f0_'): return (Fraction(0), Fraction(0))
    m = re.match(r'(fmul|fadd|fsub|fdiv)_(\w+)$', n)
    if m:
        a, b = rng(ex, e.arg(0)), rng(ex, e.arg(1))
        if a is None or b is None: return None
        op, k = m.groups()
        if op == 'fdiv' and b[0] <= 0 <= b[1]: return None
        f = {'fmul': lambda x, y: x * y, 'fadd': lambda x, y: x + y, 'fsub': lambda x, y: x - y, 'fdiv': lambda x, y: x / y}[op]
        v = [rnd(f(x, y), k) for x in a for y in b]
        return min(v), max(v)
    m = re.match(r'(fpext|fptrunc)_\w+?_(double|float|x86_fp80)$', n)
    if m:
        a = rng(ex, e.arg(0))
        return a and tuple(rnd(x, m.group(2)) for x in a)
    m = re.match(r'fl_of_int_(\w+)$', n)
    if m:
        a = getattr(ex, 'intiv', {}).get(e.arg(0).get_id())
        if a: return tuple(rnd(Fraction(x), m.group(1)) for x in a[1])
        c = z3.simplify(e.arg(0))
        if z3.is_int_value(c): return (rnd(Fraction(c.as_long()), m.group(1)),) * 2
    return None


def fp2int(ex, st, e, r, w, signed):
    """the conversion of e to an integer r is defined, and where it lies"""
    iv = rng(ex, e)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    if iv is None: raise Undecided('range of a floating point expression')
    a, b = (int(x) for x in iv)          # towards zero
    if not hasattr(ex, 'convs'): ex.convs = []
    ex.convs.append((e, r))
    ex.oblige(st, 'the value fits the integer it is converted to', a >= lo and b <= hi, 'safety')
    st.assume(r >= a, r <= b)
    # n*x < n for an integer 1 <= n <= 2^53 and a draw x <= 1-2^-53: the exact product is at most n-n*2^-53, which is half an ulp
    # of n or more below n (and a representable number if n is a power of two), so it is not rounded up to n
    if e.decl().name() == 'fmul_double':
        for i in (0, 1):
            f, x = e.arg(i), e.arg(1 - i)
            if f.decl().name() == 'fl_of_int_double' and x.get_id() in getattr(ex, 'fliv', {}): st.assume(z3.Implies(And(f.arg(0) >= 1, f.arg(0) <= 1 << 53), r < f.arg(0)))


def h_rand(ex, st, ci):
    p = st.ghost['inpos']
    t = st.ghost['in'](p)
    st.ghost['inpos'] = p + 1
    st.log(('ghost', 'inpos'))
    e = z3.simplify(Tok.f(t))
    if not hasattr(ex, 'fliv'): ex.fliv = {}
    ex.fliv[e.get_id()] = (e, (Fraction(0), 1 - Fraction(1, 1 << 53)))
    ex.oblige(st, 'draws from the given source', ci.args[0].reg is ex.task.r and ci.args[0].off == 0, 'call')
    return ret(st, FloatV('double', e))


def h_crand(ex, st, ci):
    x = fresh('rand')
    st.assume(x >= 0, x <= 2147483647)
    if not hasattr(ex, 'intiv'): ex.intiv = {}
    ex.intiv[x.get_id()] = (x, (0, 2147483647))
    return ret(st, IntV(32, x, 's'))


def setelem(ex, st, p, x):
    if p.reg is None or ex.access(st, p, 4, 'element') is None: return False
    if p.reg.kind == 'arr':
        rs = st.rw(p.reg)
        if rs.arr.get(p.off, ('',))[0] != 'val': raise Undecided('not an element')
        fn, i = rs.arr[p.off][1], z(p.idx)
        rs.arr[p.off] = ('val', lambda k: z3.If(k == i, x, fn(k)))
        st.log((p.reg, 'arr', p.off))
    else: ex.setcell(st, p.reg, p.idx + p.off, 4, ValV(x))
    return True


def h_einit(ex, st, ci):
    ex.oblige(st, 'draws from the given source', ci.args[0].reg is ex.task.r, 'call')
    p = st.ghost['inpos']
    t = st.ghost['in'](p)
    st.ghost['inpos'] = p + 1
    st.log(('ghost', 'inpos'))
    return ret(st) if setelem(ex, st, ci.args[2], Tok.e(t)) else []


def h_enorm(ex, st, ci):
    v = elem_at(ex, st, ci.args[0])
    if v is None: return []
    return ret(st) if setelem(ex, st, ci.args[0], NORM(v)) else []


def h_insert(ex, st, ci):
    """what is inserted is recorded, in order"""
    a = ci.args
    o, x = (a[1], a[2]) if ci.ins.argattrs and 'sret' in ci.ins.argattrs[0] else (a[0], a[1])
    v = seq(ex, st, o)
    ex.oblige(st, 'inserts into the container given', v.reg is ex.task.reg, 'call')
    for off, tag in ex.task.sh.fields:
        e = elem_at(ex, st, Ptr(x.reg, x.idx, x.off + off))
        if e is None: return []
        emit(st, Tok.TE(tag, e))
    p = Ptr(v.reg, 0, 0)
    return ret(st, p if v.kind.startswith('multi') else AggV([p, IntV(8, fresh('b'))]))


def pairctor(ex, st, ci):
    for o in (0, 4): ex.setcell(st, ci.args[0].reg, ci.args[0].idx + ci.args[0].off + o, 4, ValV(fresh('v%d' % o, Val)))
    return ret(st)


def strplus(ex, st, ci):
    ex.setcell(st, ci.args[0].reg, ci.args[0].idx + ci.args[0].off, 32, sym_str(ex, st, 'path'))
    return ret(st)


def strresize(ex, st, ci): return q_resize(ex, st, ci)
def strsize(ex, st, ci): return ret(st, IntV(64, st.mem[seq(ex, st, ci.args[0]).reg].len))


def strat(ex, st, ci):
    v = seq(ex, st, ci.args[0])
    i = ci.args[1].u()
    ex.oblige(st, 'index in range', And(z(i) >= 0, z(i) < st.mem[v.reg].len), 'safety')
    return ret(st, Ptr(v.reg, i, 0))


BS = r'^std::__cxx11::basic_string<(?:char|wchar_t), .*>::'
CS = [(r'^std::__cxx11::basic_string<.*> std::operator\+<.*>\(', strplus), (r'^classdesc::random_init_t::rand\(\)$', h_rand), (r'^rand$', h_crand), (r'^ccv_einit\(', h_einit), (r'^ccv_enorm\(', h_enorm),
      (r'^std::pair<Key(?: const)?, Elem>::pair(<.*>)?\(\)$', pairctor),
      (r'^std::(?:__cxx11::)?(?:multi)?(?:set|map)<.*>::insert(<.*>)?\(.*\)$|^.*std::(?:__cxx11::)?(?:multi)?map<.*>::insert<.*>\(.*\)$', h_insert),
      (BS + r'resize\(unsigned long\)$', strresize), (BS + r'(?:size|length)\(\) const$', strsize), (BS + r'operator\[\]\(unsigned long\)$', strat)]


class RI(Task):
    tu = TU
    contracts = CS
    sh = None
    fp2int = staticmethod(fp2int)

    def pre(s, ex, st):
        c = cls(ex, 'class.classdesc::random_init_t')
        s.r = ex.alloc(st, 'random_init_t', 'cells', size=8)
        st.rw(s.r).cells[0] = (8, Ptr(ex.global_region(st, '@_ZTVN9classdesc13random_init_tE'), 16, 0))
        d = ex.alloc(st, 'd', 'cells', size=32)
        st.rw(d).cells[0] = (32, sym_str(ex, st, 'd'))
        A = fresh('draws', TokArr)
        s.A, s.pos = A, fresh('inpos')
        st.ghost['in'] = lambda k: z3.Select(A, k)
        st.ghost['inpos'] = s.pos
        B = fresh('out0[]', TokArr)
        n = fresh('out0.len')
        st.assume(n >= 0)
        s.out0 = st.ghost['out'] = Stream(n, lambda k: z3.Select(B, k))
        return [Ptr(s.r), Ptr(d)]

    def layout(s, ex, dem): return s.sh.elemsize, s.sh.lay()
    def draw(s, k): return z3.simplify(Tok.f(z3.Select(s.A, s.pos + k)))
    def elem(s, k): return NORM(Tok.e(z3.Select(s.A, s.pos + k)))
    def took(s, ex, o, n): ob(ex, o, 'takes exactly the draws needed', o.st.ghost['inpos'] == s.pos + n)
    def noinsert(s, ex, o): ob(ex, o, 'nothing else inserted', z(o.st.ghost['out'].ln) == s.out0.ln)


def const(ex, e):
    iv = rng(ex, e)
    return iv[0] if iv and iv[0] == iv[1] else None


def scaled(ex, r, c, lo=0):
    """the integers made of c*r+lo in this path"""
    out = []
    for e, x in getattr(ex, 'convs', ()):
        ok = True
        if lo:
            a = [e.arg(i) for i in range(e.num_args())]
            k = [i for i in (0, 1) if e.decl().name() == 'fadd_double' and const(ex, a[i]) == lo]
            if not k: continue
            e = a[1 - k[0]]
        if e.decl().name() != 'fmul_double': continue
        a = [e.arg(0), e.arg(1)]
        if any(const(ex, a[i]) == rnd(Fraction(c), 'double') and a[1 - i].eq(r) for i in (0, 1)): out.append(x)
    return out


class Fill(RI):
    """sequence containers and strings: resized to int(10*draw), every element initialised in order"""
    def __init__(s, nm, kind, sh=None, char=0):
        s.nm, s.kind, s.sh, s.char = nm, kind, sh or SHAPES['vector<Elem>'], char
        s.name, s.func = 'random_init(%s)' % nm, '^ccv_ri_%s$' % nm

    def layout(s, ex, dem): return (s.char, {0: s.char}) if s.char else RI.layout(s, ex, dem)

    def setup(s, ex, st, variant):
        a = s.pre(ex, st)
        s.p, s.reg = mk_seq(ex, st, s.kind, 'a', s.char or 4, {0: s.char or 'val'})
        if s.char:
            o = ex.alloc(st, 'string', 'cells', size=32)
            st.rw(o).cells[0] = (32, SeqV('vector', s.reg))
            s.p = Ptr(o)
        return a + [s.p]

    def val(s, st, k): return st.mem[s.reg].arr[0][1](k)

    def right(s, st, k):
        if s.char: return And(s.val(st, k) >= 32, s.val(st, k) <= 126)
        return s.val(st, k) == s.elem(1 + k)

    def loops(s, c):
        out = []
        for nm, g in sources(c):
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 0, i <= c.entry.mem[s.reg].len))
            mk('len', lambda c, i: c.st.mem[s.reg].len == c.entry.mem[s.reg].len)
            mk('pos', lambda c, i: c.st.ghost['inpos'] == c.entry.ghost['inpos'] + i)
            mk('elems', lambda c, i: all_(i, lambda k: s.right(c.st, k)))
        return out

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        n = o.st.mem[s.reg].len
        ob(ex, o, 'fewer than ten elements', And(n >= 0, n < 10))
        ob(ex, o, 'ten times the first draw', Or(*[n == x for x in scaled(ex, s.draw(0), 10)]))
        k = fresh('k')
        ob(ex, o, 'every element initialised, in order', z3.Implies(And(k >= 0, k < n), s.right(o.st, k)))
        s.took(ex, o, 1 + n)
        s.noinsert(ex, o)
        frame(ex, o, ex.st0, {s.reg, s.p.reg})


class Insert(RI):
    """associative containers: int(10*draw) freshly initialised elements (keys included) are inserted"""
    def __init__(s, nm):
        s.sh = SHAPES[nm]
        s.name, s.func = 'random_init(%s)' % nm, '^ccv_ri_%s$' % s.sh.kind

    def setup(s, ex, st, variant):
        a = s.pre(ex, st)
        s.p, s.reg = mk_seq(ex, st, s.sh.kind, 'a', s.sh.elemsize, s.sh.lay())
        return a + [s.p]

    def enc(s, st, i): return And(*[all_(i, lambda k, j=j, t=t: st.ghost['out'].fn(s.out0.ln + s.sh.s * k + j) == Tok.TE(t, s.elem(1 + s.sh.s * k + j))) for j, (o, t) in enumerate(s.sh.fields)])

    def loops(s, c):
        out = []
        for nm, g in sources(c):
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 0, i < 10))
            mk('below', lambda c, i: Or(*[i <= x for x in scaled(c.ex, s.draw(0), 10)]))
            mk('pos', lambda c, i: c.st.ghost['inpos'] == c.entry.ghost['inpos'] + s.sh.s * i)
            mk('out', lambda c, i: c.st.ghost['out'].ln == s.out0.ln + s.sh.s * i)
            mk('elems', lambda c, i: s.enc(c.st, i))
        out.append(('prefix', lambda c: all_(s.out0.ln, lambda k: c.st.ghost['out'].fn(k) == s.out0.fn(k))))
        return out

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        o1 = o.st.ghost['out']
        n = fresh('n')
        o.st.assume(o1.ln - s.out0.ln == s.sh.s * n)
        ob(ex, o, 'whole elements are inserted', (o1.ln - s.out0.ln) % s.sh.s == 0)
        ob(ex, o, 'fewer than ten elements', And(n >= 0, n < 10))
        ob(ex, o, 'ten times the first draw', Or(*[n == x for x in scaled(ex, s.draw(0), 10)]))
        k = fresh('k')
        for j, (off, t) in enumerate(s.sh.fields):
            ob(ex, o, 'elements inserted are initialised, in order (%d)' % j, z3.Implies(And(k >= 0, k < n), o1.fn(s.out0.ln + s.sh.s * k + j) == Tok.TE(t, s.elem(1 + s.sh.s * k + j))))
        s.took(ex, o, 1 + s.sh.s * n)
        frame(ex, o, ex.st0, {s.reg, s.p.reg})


class Num(RI):
    """integers: floor(max*draw); characters are printable"""
    def __init__(s, nm, w, mx, sg=True, lo=None):
        s.nm, s.w, s.mx, s.lo, s.sg = nm, w, mx, lo, sg
        s.name, s.func = 'random_init(%s)' % nm, '^ccv_ri_%s$' % nm

    def setup(s, ex, st, variant):
        a = s.pre(ex, st)
        s.a = ex.alloc(st, 'a', 'cells', size=s.w // 8, ty=TInt(s.w))
        v, fs = ex.symbolic(TInt(s.w), 'a')
        st.assume(*fs)
        st.rw(s.a).cells[0] = (s.w // 8, v)
        return a + [Ptr(s.a)]

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        v = ex.toint(o.st.mem[s.a].cells[0][1])
        x = z(v.s_() if s.sg else v.u())
        lo = 0 if s.lo is None else s.lo
        ob(ex, o, 'in range', And(x >= lo, x <= s.mx))
        ob(ex, o, 'the draw scaled to the range', Or(*[x == q for q in scaled(ex, s.draw(0), s.mx if s.lo is None else 95, lo)]))
        s.took(ex, o, 1)
        s.noinsert(ex, o)
        frame(ex, o, ex.st0, {s.a})


class Bool(RI):
    name, func = 'random_init(bool)', '^ccv_ri_bool$'

    def setup(s, ex, st, variant):
        a = s.pre(ex, st)
        s.a = ex.alloc(st, 'a', 'cells', size=1, ty=TInt(8))
        v, fs = ex.symbolic(TInt(8), 'a')
        st.assume(*fs)
        st.rw(s.a).cells[0] = (1, v)
        return a + [Ptr(s.a)]

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        c = z3.Const('fc_double_5.000000e-01', Fl)
        p = z3.Function('fcmp_oge', Fl, Fl, B)(s.draw(0), c)
        o.st.assume(p == z3.Function('fcmp_ole', Fl, Fl, B)(c, s.draw(0)), p == z3.Not(z3.Function('fcmp_olt', Fl, Fl, B)(s.draw(0), c)))
        x = z(ex.toint(o.st.mem[s.a].cells[0][1]).u())
        ob(ex, o, 'true for draws of one half or more', x == z3.If(p, 1, 0))
        s.took(ex, o, 1)
        frame(ex, o, ex.st0, {s.a})


class Elems(RI):
    """objects and pairs: each member initialised once, then the hook; constants, pointers and excluded members stay"""
    def __init__(s, nm, cells, draws, val=None):
        s.nm, s.cells, s.draws, s.sh = nm, cells, draws, SHAPES['vector<Elem>']
        s.name, s.func = 'random_init(%s)' % nm, '^ccv_ri_%s$' % nm

    def setup(s, ex, st, variant):
        a = s.pre(ex, st)
        s.a = ex.alloc(st, 'a', 'cells', size=4 * s.cells)
        for i in range(s.cells): st.rw(s.a).cells[4 * i] = (4, ValV(fresh('a%d' % i, Val)))
        r = a + [Ptr(s.a)]
        s.t = None
        if s.nm == 'static':
            s.t = ex.alloc(st, 'static', 'cells', size=4)
            st.rw(s.t).cells[0] = (4, ValV(fresh('static', Val)))
            r.append(Ptr(s.t))
        if s.nm == 'ptr':
            s.p = ex.alloc(st, 'p', 'cells', size=8)
            st.rw(s.p).cells[0] = (8, Ptr(s.a))
            r[-1] = Ptr(s.p)
        return r

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        allowed = set()
        for i, d in enumerate(s.draws):
            r, off = (s.t, 0) if s.t else (s.a, d)
            c = o.st.mem[r].cells[off][1]
            ob(ex, o, 'initialised, then normalised (%d)' % i, c.e == s.elem(i) if isinstance(c, ValV) else False)
            allowed.add((r, off))
        s.took(ex, o, len(s.draws))
        s.noinsert(ex, o)
        frame(ex, o, ex.st0, allowed)


class Arr(RI):
    def __init__(s, dims):
        s.dims, s.sh = dims, SHAPES['vector<Elem>']
        s.name, s.func = 'random_init(Elem[%s])' % ']['.join('nmpqrs'[:dims]), '^ccv_ri_arr%d$' % dims

    def setup(s, ex, st, variant):
        a = s.pre(ex, st)
        n = sym_int(ex, st, 'n', 64, ADDR)
        ext = [n]
        s.n = n.e
        st.assume(n.e >= 1)
        for j in range(1, s.dims):
            m = sym_int(ex, st, 'm%d' % j, 32, 1 << 31)
            ext.append(m)
            st.assume(m.e >= 1, s.n < ADDR)
            s.n = s.n * m.e
        st.assume(s.n >= 0, s.n * 4 < ADDR)
        s.a = new_storage(ex, st, 'a', 4, {0: 'val'}, s.n)
        return a + [Ptr(s.a)] + ext

    def loops(s, c):
        out = []
        for nm, g in sources(c):
            def mk(lab, f, nm=nm, g=g): out.append(('%s(%s)' % (lab, nm), lambda c: None if g(c) is None else f(c, g(c))))
            mk('range', lambda c, i: And(i >= 0, i <= s.n))
            mk('pos', lambda c, i: c.st.ghost['inpos'] == s.pos + i)
            mk('elems', lambda c, i: all_(i, lambda k: c.st.mem[s.a].arr[0][1](k) == s.elem(k)))
        return out

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        k = fresh('k')
        ob(ex, o, 'every element initialised, in order', z3.Implies(And(k >= 0, k < s.n), o.st.mem[s.a].arr[0][1](k) == s.elem(k)))
        s.took(ex, o, s.n)
        frame(ex, o, ex.st0, {s.a})


def h_nkeys(ex, st, ci):
    ex.oblige(st, "the enum's own symbol table", ci.args[0].reg is ex.task.keys, 'call')
    return ret(st, IntV(64, ex.task.N))


class Enum(RI):
    """one of the declared values: any table of M entries with N distinct values"""
    name, func = 'random_init(enum)', '^ccv_ri_enum$'
    contracts = [(r'^classdesc::EnumKeys<.*>::size\(\) const$', h_nkeys)] + CS

    def setup(s, ex, st, variant):
        a = s.pre(ex, st)
        s.a = ex.alloc(st, 'a', 'cells', size=4, ty=TInt(32))
        v, fs = ex.symbolic(TInt(32), 'a')
        st.assume(*fs)
        st.rw(s.a).cells[0] = (4, v)
        g = [n for n in ex.mod.globals if re.search(r'enum_keysDataI1E.*keysDataE$', n)]
        k = [n for n in ex.mod.globals if re.search(r'enum_keysDataI1E.*4keysE$', n)]
        if len(g) != 1 or len(k) != 1: raise Undecided('symbol table not found: %s' % [n for n in ex.mod.globals if 'enum_keys' in n or 'keysData' in n])
        s.N, M = fresh('N'), fresh('M')
        st.assume(s.N >= 1, s.N <= M, M < 1 << 31)
        s.tab = new_storage(ex, st, 'keysData', 16, {8: 4}, M)
        s.keys = ex.global_region(st, k[0])
        ex.globreg[g[0]] = s.tab
        if not hasattr(ex, 'intiv'): ex.intiv = {}
        ex.intiv[s.N.get_id()] = (s.N, (1, (1 << 31) - 1))
        return a + [Ptr(s.a)]

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        x = ex.toint(o.st.mem[s.a].cells[0][1]).u()
        ob(ex, o, 'a declared value', Or(*[And(i >= 0, i < s.N, x == o.st.mem[s.tab].arr[8][1](i)) for e, i in getattr(ex, 'convs', ())]))
        s.took(ex, o, 1)
        frame(ex, o, ex.st0, {s.a})


class Rand(RI):
    name, func = 'random_init_t::rand', '^ccv_rand$'
    contracts = CS[1:]

    def setup(s, ex, st, variant): return s.pre(ex, st)[:1]

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        iv = rng(ex, o.val.e)
        ob(ex, o, 'at least 0', iv is not None and iv[0] >= 0)
        ob(ex, o, 'less than 1', iv is not None and iv[1] < 1)
        frame(ex, o, ex.st0)


core = [Rand(), Enum()] + [Fill(n, n) for n in ('vector', 'list', 'deque')] + [Fill('string', 'vector', char=1), Fill('wstring', 'vector', char=4)]
core += [Insert(n) for n in ('set<Elem>', 'multiset<Elem>', 'map<Key,Elem>', 'multimap<Key,Elem>')]
for nm, w, sg in (('int', 32, 1), ('unsigned', 32, 0), ('short', 16, 1), ('ushort', 16, 0), ('long', 64, 1), ('ulong', 64, 0), ('llong', 64, 1), ('ullong', 64, 0), ('schar', 8, 1), ('uchar', 8, 0)):
    core.append(Num(nm, w, (1 << (w - sg)) - 1, sg))
core += [Num('char', 8, 126, lo=32), Num('wchar', 32, 126, lo=32), Bool()]
core += [Elems('elem', 1, [0]), Elems('celem', 1, []), Elems('onbase', 1, [0]), Elems('pair', 2, [0, 4]), Elems('excl', 1, []), Elems('cstatic', 1, []), Elems('ptr', 1, []), Elems('cint', 1, []), Elems('mbr', 3, [4]), Elems('static', 3, [0])]
core += [Arr(d) for d in range(1, 7)]
