"""C13: MultiArray indexes contiguous column-major data: [k][j][i] is element i + d0*(j + d1*k); iterators step one slice at a time"""
from vc import *
from stdlib import *
from stl import *
from task import *
from contracts.pack_core import sym_int, ob

TU = 'multiarray.cc'
STD = 'c++17'


def lemma(ex, st, label, f):
    """proved, then used"""
    ex.oblige(st, 'lemma ' + label, f, 'lemma')
    st.assume(f)


class MA(Task):
    """function ccv_<what>(p, extents, indices...) ; spec gives the expected element offset from extents d and indices x"""
    def __init__(s, what, rank, nidx, spec, std='c++17', lim=None, vec=False, deref=None, kind='addr', note=''):
        s.what, s.rank, s.nidx, s.spec, s.std, s.lim, s.vec, s.kind = what, rank, nidx, spec, std, lim, vec, kind
        s.name = 'MultiArray %s (%s)' % (what, std)
        s.func = '^ccv_%s$' % what

    def setup(s, ex, st, variant):
        s.d = [sym_int(ex, st, 'd%d' % k, 64, ADDR) for k in range(s.rank)]
        D = [x.e for x in s.d]
        # a real array: total size below the address limit; positive extents except possibly the last, so partial products are bounded too
        s.P = [z3.IntVal(1)]
        for k in range(s.rank):
            s.P.append(s.P[-1] * D[k])
            st.assume(s.P[-1] >= 0, s.P[-1] * 4 < ADDR)
            if k < s.rank - 1: st.assume(D[k] >= 1)
        s.mem = new_storage(ex, st, 'data', 4, {0: 4}, s.P[-1])
        s.f0 = st.mem[s.mem].arr[0][1]
        s.x = [sym_int(ex, st, 'x%d' % k, 64, ADDR) for k in range(s.nidx)]
        X = [x.e for x in s.x]
        lim = s.lim(D) if s.lim else D
        for k, l in list(enumerate(lim))[:s.nidx]:
            if isinstance(l, tuple): st.assume(X[k] >= l[0], X[k] < l[1])
            else: st.assume(X[k] < l)
        # monotonicity facts for the nonlinear products
        for k in range(s.nidx):
            r = s.slot(k)
            if r is None: continue
            lemma(ex, st, 'index %d within its slice' % k, z3.Implies(And(X[k] >= 0, X[k] <= D[r]), And(X[k] * s.P[r] >= 0, X[k] * s.P[r] <= s.P[r + 1])))
            lemma(ex, st, 'index %d strictly within its slice' % k, z3.Implies(And(X[k] >= 0, X[k] < D[r]), X[k] * s.P[r] <= s.P[r + 1] - s.P[r]))
        if s.kind == 'eq':
            # different slices have different addresses
            a, b = X[0], X[1]
            S = s.P[s.rank - 1]
            lemma(ex, st, 'stride positive', S >= 1)
            lemma(ex, st, 'distinct 1', z3.Implies(a < b, a * S < b * S))
            lemma(ex, st, 'distinct 2', z3.Implies(a > b, a * S > b * S))
        if s.kind == 'ne':
            S = s.P[s.rank - 1]
            lemma(ex, st, 'stride positive', S >= 1)
            lemma(ex, st, 'not at the end', z3.Implies(X[0] < D[-1], X[0] * S < D[-1] * S))
        args = [Ptr(s.mem)]
        if s.vec:
            r = ex.alloc(st, 'dims', 'cells', size=8 * s.rank)
            for k in range(s.rank): st.rw(r).cells[8 * k] = (8, s.d[k])
            args.append(Ptr(r))
        else: args += s.d
        args += s.x
        if s.kind == 'set':
            s.v, fs = ex.symbolic(TInt(32), 'v')
            st.assume(*fs)
            args.append(s.v)
        return args

    def slot(s, k): return k if k < s.rank else None

    loops = None

    def post(s, ex, o, variant):
        ob(ex, o, 'no-exception', o.kind == 'ret')
        if o.kind != 'ret': return
        D, X = [x.e for x in s.d], [x.e for x in s.x]
        e = s.spec(s, D, X)
        if s.kind == 'addr':
            v = o.val
            ok = isinstance(v, Ptr) and v.reg is s.mem and v.off == 0
            ob(ex, o, 'right element', Eq(v.idx, e) if ok else False)
            frame(ex, o, ex.st0)
        elif s.kind == 'get':
            ob(ex, o, 'right element read', o.val.u() == s.f0(e))
            frame(ex, o, ex.st0)
        elif s.kind == 'set':
            f1 = o.st.mem[s.mem].arr[0][1]
            k = fresh('k')
            ob(ex, o, 'element written', f1(e) == z(s.v.u()))
            ob(ex, o, 'other elements unchanged', z3.Implies(And(k >= 0, k < s.P[-1], k != e), f1(k) == s.f0(k)))
            frame(ex, o, ex.st0, {s.mem})
        elif s.kind == 'int':
            ob(ex, o, 'value', Eq(o.val.u(), e))
            frame(ex, o, ex.st0)
        elif s.kind in ('eq', 'ne', 'bool'):
            b = ex.truth(o.val)
            ob(ex, o, 'truth', b == e if not isinstance(b, bool) else (e if b else z3.Not(e) if not isinstance(e, bool) else not e))
            frame(ex, o, ex.st0)


def lin(s, D, X, n=None):
    e = X[0]
    for k in range(1, n or s.rank): e = e + X[k] * s.P[k]
    return e


def shifted(dk):
    return lambda s, D, X: X[0] + X[1] * s.P[1] + (X[2] + dk) * s.P[2]


def both(*a, **k): return [MA(*a, std=v, **k) for v in ('c++11', 'c++17')]


core = []
for r in (1, 2, 3, 4): core += both('ix%d' % r, r, r, lin) + both('vx%d' % r, r, r, lin, vec=True)
core += both('cx2', 2, 2, lin) + both('cx3', 3, 3, lin)
core += both('get3', 3, 3, lin, kind='get') + both('set3', 3, 3, lin, kind='set')
core += both('size1', 1, 0, lambda s, D, X: D[0], kind='int', lim=lambda D: []) + both('size3', 3, 0, lambda s, D, X: D[2], kind='int', lim=lambda D: [])


class Sz(MA):
    def slot(s, k): return 2 - k


core += [Sz('size32', 3, 1, lambda s, D, X: D[1], std=v, kind='int', lim=lambda D: [D[2]]) for v in ('c++11', 'c++17')]
core += [Sz('size31', 3, 2, lambda s, D, X: D[0], std=v, kind='int', lim=lambda D: [D[2], D[1]]) for v in ('c++11', 'c++17')]
core += both('begin3', 3, 2, lambda s, D, X: X[0] + X[1] * s.P[1]) + both('cbegin3', 3, 2, lambda s, D, X: X[0] + X[1] * s.P[1])
core += both('end3', 3, 2, lambda s, D, X: X[0] + X[1] * s.P[1] + D[2] * s.P[2])
core += both('plus3', 3, 3, shifted(0))
core += both('inc3', 3, 3, shifted(1)) + both('postinc3', 3, 3, shifted(1)) + both('oldinc3', 3, 3, shifted(0))
core += both('dec3', 3, 3, shifted(-1), lim=lambda D: [D[0], D[1], (1, D[2] + 1)]) + both('postdec3', 3, 3, shifted(-1), lim=lambda D: [D[0], D[1], (1, D[2] + 1)]) + both('olddec3', 3, 3, shifted(0), lim=lambda D: [D[0], D[1], (1, D[2] + 1)])


class It(MA):
    def slot(s, k): return 2


core += [It('eq3', 3, 2, lambda s, D, X: X[0] == X[1], std=v, kind='eq', lim=lambda D: [D[2] + 1, D[2] + 1]) for v in ('c++11', 'c++17')]
core += [It('ne3', 3, 1, lambda s, D, X: X[0] != D[2], std=v, kind='ne', lim=lambda D: [D[2] + 1]) for v in ('c++11', 'c++17')]
core += both('begend1', 1, 0, lambda s, D, X: True, kind='bool', lim=lambda D: [])
