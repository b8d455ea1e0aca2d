"""C12: EnumKeys: symbol -> value and value -> symbol maps built from the table classdesc emits; Enum_handle goes through them"""
from vc import *
from stdlib import *
from stl import *
from task import *
from contracts.pack_core import sym_int, ob
from contracts.multiarray import lemma

TU = 'enumkeys.cc'
STD = 'c++11'
EMPTY = 0
ENDIDX = -(1 << 80)
SID = z3.Function('SID', I, I)              # content of the C string at an address, as an identity; 0 = ""
LS, LV = z3.Function('lastname', I, I, I), z3.Function('lastvalue', I, I, I)


class KeyStr(Ghost):
    size = 32

    def __init__(s, id): s.id = id

    def havoc(s, ex): return KeyStr(fresh('str'))


class MapV(Ghost):
    size = 48

    def __init__(s, reg, strkey): s.reg, s.strkey = reg, strkey

    def havoc(s, ex): return s


def gstr(ex, st, p):
    if p.reg is not None and p.reg.kind == 'arr':
        f = st.mem[p.reg].arr.get(p.off)
        if f is None or f[0] != 'key': raise Undecided('string in array')
        return f[1](z(p.idx))
    v = ex.getobj(st, p)
    if not isinstance(v, KeyStr): raise Undecided('not a string: %r' % (v,))
    return v.id


def sstr(ex, st, p, id):
    if p.reg is not None and p.reg.kind == 'arr':
        rs = st.rw(p.reg)
        fty, fn = rs.arr[p.off]
        idx = z(p.idx)
        st.log((p.reg, 'arr', p.off))
        rs.arr[p.off] = (fty, lambda k: z3.If(k == idx, id, fn(k)))
        return True
    return ex.setobj(st, p, KeyStr(id))


def cid(ex, st, p):
    if p.reg is not None and p.reg.name == 'names': return SID(z(p.idx))
    t = cstring(ex, st, p)
    if t == '': return z3.IntVal(EMPTY)
    raise Undecided('string literal %r' % t)


def k_ctor(ex, st, ci): return ret(st) if ex.setobj(st, ci.args[0], KeyStr(z3.IntVal(EMPTY))) else []
def k_ctorc(ex, st, ci): return ret(st) if ex.setobj(st, ci.args[0], KeyStr(cid(ex, st, ci.args[1]))) else []
def k_copy(ex, st, ci): return ret(st) if ex.setobj(st, ci.args[0], KeyStr(gstr(ex, st, ci.args[1]))) else []
def k_asg(ex, st, ci): return ret(st, ci.args[0]) if sstr(ex, st, ci.args[0], gstr(ex, st, ci.args[1])) else []
def k_asgc(ex, st, ci): return ret(st, ci.args[0]) if sstr(ex, st, ci.args[0], cid(ex, st, ci.args[1])) else []
def k_empty(ex, st, ci): return ret(st, BoolV(gstr(ex, st, ci.args[0]) == EMPTY))


def k_eq(ex, st, ci):
    e = gstr(ex, st, ci.args[0]) == gstr(ex, st, ci.args[1])
    return ret(st, BoolV(z3.Not(e) if 'operator!=' in ci.dem else e))


def gmap(ex, st, p):
    v = ex.getobj(st, p)
    if not isinstance(v, MapV): raise Undecided('not a map: %r' % (v,))
    return v


def m_ctor(ex, st, ci):

    sk = ci.dem.startswith('std::map<std::__cxx11')
    r = ex.alloc(st, 'map', 'arr', elemsize=40)
    st.rw(r).arr.update({-1: (1, lambda k: z3.IntVal(0)), **({0: ('key', lambda k: k), 32: (4, lambda k: z3.IntVal(0))} if sk else {0: (4, lambda k: k % (1 << 32)), 8: ('key', lambda k: z3.IntVal(EMPTY))})})
    return ret(st) if ex.setobj(st, ci.args[0], MapV(r, sk)) else []


def mkey(ex, st, v, p):
    if v.strkey: return gstr(ex, st, p)
    x = ex.load(st, p, TInt(32))
    return None if x is None else z(x.s_())


def m_index(ex, st, ci):
    v = gmap(ex, st, ci.args[0])
    k = mkey(ex, st, v, ci.args[1])
    rs = st.rw(v.reg)
    dom = rs.arr[-1][1]
    vo = 32 if v.strkey else 8
    vf = rs.arr[vo]
    st.log((v.reg, 'arr', -1)); st.log((v.reg, 'arr', vo))
    rs.arr[-1] = (1, lambda x: z3.If(x == k, 1, dom(x)))
    rs.arr[vo] = (vf[0], lambda x: z3.If(z3.And(x == k, dom(k) == 0), 0, vf[1](x)))
    return ret(st, Ptr(v.reg, k, vo))


def m_find(ex, st, ci):
    v = gmap(ex, st, ci.args[0])
    k = mkey(ex, st, v, ci.args[1])
    dom = st.mem[v.reg].arr[-1][1]
    s2 = st.fork()
    st.assume(dom(k) == 1)
    s2.assume(dom(k) != 1)
    return ret(st, Ptr(v.reg, k)) + ret(s2, Ptr(v.reg, ENDIDX))


def m_end(ex, st, ci): return ret(st, Ptr(gmap(ex, st, ci.args[0]).reg, ENDIDX))


def m_count(ex, st, ci):
    v = gmap(ex, st, ci.args[0])
    k = mkey(ex, st, v, ci.args[1])
    return ret(st, IntV(64, z3.If(st.mem[v.reg].arr[-1][1](k) == 1, 1, 0)))


def m_at(ex, st, ci):
    v = gmap(ex, st, ci.args[0])
    k = mkey(ex, st, v, ci.args[1])
    ex.oblige(st, 'map::at finds the key', st.mem[v.reg].arr[-1][1](k) == 1, 'safety')
    return ret(st, Ptr(v.reg, k, 32 if v.strkey else 8))


def it_deref(ex, st, ci):
    p = it_get(ex, st, ci.args[0])
    if -1 not in st.mem[p.reg].arr: return i_deref(ex, st, ci)
    ex.oblige(st, 'iterator-dereferenceable', And(z(p.idx) != ENDIDX, st.mem[p.reg].arr[-1][1](z(p.idx)) == 1), 'safety')
    return ret(st, p)


MP = r'^std::map<.*>::'
CS = [(S + r'basic_string\(\)$', k_ctor), (S + r'basic_string(<std::allocator<char> >)?\(char const\*, std::allocator<char> const&\)$', k_ctorc),
      (S + r'basic_string\(std::__cxx11::basic_string<.*>( const&|&&)\)$', k_copy), (S + r'operator=\(std::__cxx11::basic_string<.*>( const&|&&)\)$', k_asg),
      (S + r'operator=\(char const\*\)$', k_asgc), (S + r'empty\(\) const$', k_empty), (r'^bool std::operator[!=]=<char, ', k_eq),
      (MP + r'map\(\)$', m_ctor), (MP + r'operator\[\]\(', m_index), (MP + r'find\(', m_find), (MP + r'end\(\)( const)?$', m_end), (MP + r'count\(', m_count), (MP + r'at\(', m_at), (MP + r'~map\(\)$', lambda ex, st, ci: ret(st)),
      (IT + r'operator(\*|->)\(\) const$', it_deref)]


class Table:
    """the emitted table, arbitrary contents"""
    def __init__(s, ex, st):
        s.n = fresh('size')
        st.assume(s.n >= 0, s.n < (1 << 26))
        s.names = ex.alloc(st, 'names', 'arr', elemsize=1)
        st.rw(s.names).arr[0] = (1, lambda k: k % 256)
        A, V = fresh('name[]', z3.ArraySort(I, I)), fresh('value[]', z3.ArraySort(I, I))
        k = z3.Int('k!t')
        st.assume(z3.ForAll([k], And(z3.Select(V, k) >= 0, z3.Select(V, k) < (1 << 32)), patterns=[z3.Select(V, k)]))
        s.reg = ex.alloc(st, 'table', 'arr', elemsize=16, ln=s.n)
        st.rw(s.reg).arr.update({0: ('ptr', lambda k: Ptr(s.names, z3.Select(A, z(k)))), 8: (4, lambda k: z3.Select(V, k))})
        s.name = lambda k: SID(z3.Select(A, k))
        s.value = lambda k: z3.If(z3.Select(V, k) >= (1 << 31), z3.Select(V, k) - (1 << 32), z3.Select(V, k))
        s.raw = lambda k: z3.Select(V, k)
        # lastname(n,k): the last entry below n whose name is k, or -1; lastvalue likewise for values
        n = z3.Int('n!t')
        st.assume(z3.ForAll([k], And(LS(0, k) == -1, LV(0, k) == -1), patterns=[LS(0, k), LV(0, k)]))
        st.assume(z3.ForAll([n, k], z3.Implies(n >= 0, LS(n + 1, k) == z3.If(s.name(n) == k, n, LS(n, k))), patterns=[LS(n + 1, k)]))
        st.assume(z3.ForAll([n, k], z3.Implies(n >= 0, LV(n + 1, k) == z3.If(s.value(n) == k, n, LV(n, k))), patterns=[LV(n + 1, k)]))


def inv(t, n, ms, mv):
    """maps ms, mv (RS of the storage) hold the first n entries of the table"""
    k = z3.Int('k!i')
    ds, vs, dv, vv = ms.arr[-1][1], ms.arr[32][1], mv.arr[-1][1], mv.arr[8][1]
    return [('symbols', z3.ForAll([k], ds(k) == z3.If(LS(n, k) >= 0, 1, 0))),
            ('symbol values', z3.ForAll([k], z3.Implies(LS(n, k) >= 0, vs(k) == t.raw(LS(n, k))))),
            ('values', z3.ForAll([k], dv(k) == z3.If(LV(n, k) >= 0, 1, 0))),
            ('value symbols', z3.ForAll([k], z3.Implies(LV(n, k) >= 0, vv(k) == t.name(LV(n, k)))))]


class Ctor(Task):
    name = 'EnumKeys::EnumKeys'
    timeout = 3000
    func = '^ccv_ctor$'
    contracts = CS

    def setup(s, ex, st, variant):
        s.t = t = Table(ex, st)
        s.o = ex.alloc(st, 'keys', 'cells', size=96)

        def cands(c):
            out = []
            for nm, v in c.phis.items():
                cnt = (lambda c, nm=nm: z(c.phis[nm].idx)) if isinstance(v, Ptr) and v.reg is t.reg else (lambda c, nm=nm: z(c.phis[nm].s_())) if isinstance(v, IntV) else None
                if cnt is None: continue
                out.append(('%s in range' % nm[1:], lambda c, cnt=cnt: And(cnt(c) >= 0, cnt(c) <= t.n)))
                for i, lbl in enumerate(('symbols', 'symbol values', 'values', 'value symbols')):
                    def f(c, i=i, cnt=cnt):
                        m = c.st.mem[s.o].cells
                        if 0 not in m or 48 not in m: return None
                        return inv(t, cnt(c), c.st.mem[m[0][1].reg], c.st.mem[m[48][1].reg])[i][1]
                    out.append(('%s up to %s' % (lbl, nm[1:]), f))
            return out
        ex.loopcands = cands
        return [Ptr(s.o), Ptr(t.reg), IntV(32, t.n)]

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        if o.kind != 'ret': return
        t, st = s.t, o.st
        m = st.mem[s.o].cells
        ms, mv = st.mem[m[0][1].reg], st.mem[m[48][1].reg]
        for l, f in inv(t, t.n, ms, mv): ob(ex, o, 'maps hold the table: ' + l, f)
        frame(ex, o, ex.st0, {s.o})
        ds, vs, dv, vv = ms.arr[-1][1], ms.arr[32][1], mv.arr[-1][1], mv.arr[8][1]
        # consequences; each lemma is by induction on n (base, step)
        n, i, j, k = fresh('n'), fresh('i'), fresh('j'), z3.Int('k!l')
        st.assume(n >= 0)

        def induct(lbl, P, *hyp):
            ex.oblige(st, 'lemma %s, base' % lbl, z3.Implies(And(*hyp), P(z3.IntVal(0))), 'lemma')
            ex.oblige(st, 'lemma %s, step' % lbl, z3.Implies(And(P(n), *hyp), P(n + 1)), 'lemma')
            m = z3.Int('m!l')
            st.assume(z3.Implies(And(*hyp), z3.ForAll([m], z3.Implies(m >= 0, P(m)))))
        d = z3.ForAll([k], z3.Implies(And(k >= 0, k < t.n, k != i), t.name(k) != t.name(i)))      # enumerator names are distinct
        st.assume(i >= 0, i < t.n, d)
        induct('entry found by its name', lambda n: z3.Implies(n <= t.n, LS(n, t.name(i)) == z3.If(i < n, i, -1)))
        induct('value found', lambda n: z3.Implies(i < n, LV(n, t.value(i)) >= 0))
        induct('found value is right', lambda n: z3.Implies(LV(n, j) >= 0, And(LV(n, j) < n, t.value(LV(n, j)) == j)))
        induct('found name is right', lambda n: z3.Implies(LS(n, j) >= 0, And(LS(n, j) < n, t.name(LS(n, j)) == j)))
        ob(ex, o, 'every symbol is known', ds(t.name(i)) == 1)
        ob(ex, o, 'symbol gives its own value', vs(t.name(i)) == t.raw(i))
        ob(ex, o, 'every value is known', dv(t.value(i)) == 1)
        st.assume(j == t.value(i))
        a = LV(t.n, j)
        ob(ex, o, 'value gives a symbol of that value', And(vv(j) == t.name(a), a >= 0, a < t.n, t.value(a) == j))
        ob(ex, o, 'a unique value gives its own symbol', z3.Implies(z3.ForAll([k], z3.Implies(And(k >= 0, k < t.n, k != i), t.value(k) != t.value(i))), vv(j) == t.name(i)))


class Op(Task):
    """operations on a table object with arbitrary maps"""
    contracts = CS

    def __init__(s, fn, args, spec, static=False):
        s.fn, s.args_, s.spec, s.static = fn, args, spec, static
        s.name = 'EnumKeys ' + fn
        s.func = '^ccv_%s$' % fn

    def maps(s, ex, st, o):
        r = []
        for off, sk in ((0, True), (48, False)):
            m = ex.alloc(st, 'map', 'arr', elemsize=40)
            D, A = fresh('dom[]', z3.ArraySort(I, I)), fresh('val[]', z3.ArraySort(I, I))
            k = z3.Int('k!t')
            if sk: st.assume(z3.ForAll([k], And(z3.Select(A, k) >= 0, z3.Select(A, k) < (1 << 32)), patterns=[z3.Select(A, k)]))
            f = {-1: (1, lambda k, D=D: z3.Select(D, k))}
            f.update({0: ('key', lambda k: k), 32: (4, lambda k, A=A: z3.Select(A, k))} if sk else {0: (4, lambda k: k % (1 << 32)), 8: ('key', lambda k, A=A: z3.Select(A, k))})
            st.rw(m).arr.update(f)
            st.rw(o).cells[off] = (48, MapV(m, sk))
            r += [f[-1][1], f[32 if sk else 8][1]]
        s.ds, s.vs, s.dv, s.vv = r

    def setup(s, ex, st, variant):
        if s.static:
            g = [n for n in ex.mod.globals if 'enum_keysData' in n and n.endswith('4keysE') and '1E' in n]
            if len(g) != 1: raise Undecided('static table %s' % g)
            ko = ex.global_region(st, g[0])
        else: ko = ex.alloc(st, 'keys', 'cells', size=96)
        s.maps(ex, st, ko)
        s.allowed = set()
        args = []
        for a in s.args_:
            if a == 'o':
                s.o = ex.alloc(st, 'result', 'cells', size=32); s.allowed.add((s.o, 0)); args.append(Ptr(s.o))
            elif a == 'k': args.append(Ptr(ko))
            elif a == 's':
                r = ex.alloc(st, 'symbol', 'cells', size=32)
                s.sid = fresh('symbol')
                st.assume(s.sid >= 0)
                st.rw(r).cells[0] = (32, KeyStr(s.sid)); args.append(Ptr(r))
            elif a == 'v':
                s.v = ex.symbolic(TInt(32), 'v'); st.assume(*s.v[1]); s.v = s.v[0]; args.append(s.v)
            elif a in 'eE':
                r = ex.alloc(st, 'enum', 'cells', size=4)
                s.v0 = ex.symbolic(TInt(32), 'old'); st.assume(*s.v0[1]); s.v0 = s.v0[0]
                st.rw(r).cells[0] = (4, s.v0); s.e = r; args.append(Ptr(r))
                if a == 'E': s.allowed.add((r, 0))
        return args

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        if o.kind != 'ret': return
        ob(ex, o, 'result', s.spec(s, ex, o))
        frame(ex, o, ex.st0, s.allowed)


def outstr(s, o): return o.st.mem[s.o].cells[0][1].id
def sgn(v): return z(v.s_())
def sym(s, v): return z3.If(s.dv(v) == 1, s.vv(v), EMPTY)
def val(s): return z3.If(s.ds(s.sid) == 1, s.vs(s.sid), 0)


core = [Ctor(),
        Op('val', 'ks', lambda s, ex, o: o.val.u() == val(s)),
        Op('sym', 'okv', lambda s, ex, o: outstr(s, o) == sym(s, sgn(s.v))),
        Op('symE', 'okv', lambda s, ex, o: outstr(s, o) == sym(s, sgn(s.v))),
        Op('hasE', 'kv', lambda s, ex, o: ex.truth(o.val) == (s.dv(sgn(s.v)) == 1)),
        Op('hasS', 'ks', lambda s, ex, o: ex.truth(o.val) == (s.ds(s.sid) == 1)),
        Op('tostring', 'ov', lambda s, ex, o: outstr(s, o) == sym(s, sgn(s.v)), static=True),
        Op('handlestr', 'oe', lambda s, ex, o: outstr(s, o) == sym(s, sgn(s.v0)), static=True),
        Op('handleint', 'e', lambda s, ex, o: Eq(o.val.u(), s.v0.u()), static=True),
        Op('setstr', 'Es', lambda s, ex, o: o.st.mem[s.e].cells[0][1].u() == val(s), static=True),
        Op('setint', 'Ev', lambda s, ex, o: Eq(o.st.mem[s.e].cells[0][1].u(), s.v.u()), static=True),
        Op('setE', 'Ev', lambda s, ex, o: Eq(o.st.mem[s.e].cells[0][1].u(), s.v.u()), static=True)]
