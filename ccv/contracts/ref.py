"""C06: ref<T>: count of a payload = number of refs that refer to it; destroyed and freed exactly once, when that reaches zero"""
from vc import *
from stdlib import *
from stl import *
from task import *
from contracts.pack_core import sym_int, ob

TU = 'ref.cc'
STD = 'c++11'
NOASSUME = ('the number of refs to one payload fits in an int',)


def obj_new(ex, st, p, what):
    k = ('obj', p.reg, p.idx + p.off)
    ex.oblige(st, '%s on raw storage' % what, not st.ghost.get(k), 'safety')
    st.ghost[k] = True


def construct(ex, st, ci):
    """T(): may throw"""
    bad = st.fork()
    obj_new(ex, st, ci.args[0], 'construction')
    v = ex.symbolic(TInt(32), 'default')
    ex.store(st, ci.args[0], IntV(32, z3.Int('T.default')), TInt(32))
    return [Outcome('ret', st, None), Outcome('throw', bad, Exc('@_ZTIT_exc', NULL))]


def copyconstruct(ex, st, ci):
    src = ci.args[1]
    bad = st.fork()
    ex.oblige(st, 'copied object is alive', bool(st.ghost.get(('obj', src.reg, src.idx + src.off))), 'safety')
    v = ex.load(st, src, TInt(32))
    if v is None: return []
    obj_new(ex, st, ci.args[0], 'copy construction')
    ex.store(st, ci.args[0], v, TInt(32))
    return [Outcome('ret', st, None), Outcome('throw', bad, Exc('@_ZTIT_exc', NULL))]


def destroy(ex, st, ci):
    p = ci.args[0]
    k = ('obj', p.reg, p.idx + p.off)
    if ex.load(st, p, TInt(32)) is None: return []
    ex.oblige(st, 'destroyed once, while alive', bool(st.ghost.get(k)), 'safety')
    st.ghost[k] = False
    return ret(st)


CS = [(r'^T::T\(\)$', construct), (r'^T::T\(T const&\)$', copyconstruct), (r'^T::~T\(\)$', destroy)]


class Ref(Task):
    """shapes: each ref is '0' (null) or the name of a payload; 'A' as second ref means the same ref object; x: separate T object"""
    contracts = CS
    assumptions = NOASSUME
    must = ('ret',)

    def __init__(s, fn, shapes, spec, args='a', result=None, throws=False, name=None):
        s.fn, s.variants, s.spec, s.args_, s.result, s.throws = fn, tuple(shapes), spec, args, result, throws
        s.name = 'ref::' + (name or fn)
        s.func = '^ccv_%s$' % fn
        s.must = ('ret', 'throw') if throws == 'always' else ('ret',)

    def payload(s, ex, st, nm, mincount):
        r = ex.alloc(st, 'payload ' + nm, 'cells', size=8, heap=True)
        n = fresh('count.' + nm)
        v, f = ex.symbolic(TInt(32), 'value.' + nm)
        st.assume(n >= mincount, n < (1 << 31) - 2, *f)
        st.rw(r).cells[0] = (4, v)
        st.rw(r).cells[4] = (4, IntV(32, n))
        st.ghost[('obj', r, 0)] = True
        s.pay[nm] = (r, n, v)
        return r

    def setup(s, ex, st, variant):
        s.pay, s.refs = {}, {}
        shape = variant or ''
        uses = {}
        for c in shape:
            if c in 'PQ': uses[c] = uses.get(c, 0) + 1
        for nm in uses: s.payload(ex, st, nm, uses[nm])
        args, k = [], 0
        for a in s.args_:
            if a == 'a' or a == 'b':
                c = shape[k]; k += 1
                if c == '=': args.append(args[0]); s.refs[a] = s.refs['a']; continue
                r = ex.alloc(st, 'ref ' + a, 'cells', size=8)
                st.rw(r).cells[0] = (8, NULL if c == '0' else Ptr(s.pay[c][0]))
                s.refs[a] = r
                args.append(Ptr(r))
            elif a == 'o':      # raw storage for a ref
                r = ex.alloc(st, 'raw', 'cells', size=8)
                s.refs['o'] = r
                args.append(Ptr(r))
            elif a == 'x':
                c = shape[k] if k < len(shape) else 'x'; k += 1
                if c == 'n': args.append(NULL); continue
                if c == 'i': args.append(Ptr(s.pay['P'][0])); s.xv = s.pay['P'][2]; continue
                r = ex.alloc(st, 'value', 'cells', size=4)
                v, f = ex.symbolic(TInt(32), 'value.x')
                st.assume(*f)
                st.rw(r).cells[0] = (4, v)
                st.ghost[('obj', r, 0)] = True
                s.xv, s.xr = v, r
                args.append(Ptr(r))
        return args

    def post(s, ex, o, variant):
        st = o.st
        if o.kind == 'throw':
            ob(ex, o, 'exception only from construction', bool(s.throws))
            want = {}               # strong guarantee: nothing changes
            newp = {}
            if 'o' in s.refs: want['o'] = None
        else:
            want, newp = s.spec(s, variant)
        # want: ref name -> '0' | payload name | 'new'(value) ; unmentioned refs keep their target
        allowed = set()
        delta = {nm: 0 for nm in s.pay}
        news = [r for r in st.mem if r not in ex.st0.mem and r.heap and st.mem[r].alive and r.name != 'exception']
        ob(ex, o, 'nothing leaked', len(news) == (1 if newp else 0))
        for nm, r in s.refs.items():
            if nm not in want: continue
            t = want[nm]
            c0 = ex.st0.mem[r].cells.get(0)
            old = None if c0 is None or c0[1].reg is None else [k for k in s.pay if s.pay[k][0] is c0[1].reg][0]
            if t is None: continue
            if c0 is not None and old in delta: delta[old] -= 1
            allowed.add((r, 0))
            c = st.mem[r].cells.get(0)
            p = c[1] if c else None
            if t == 'gone': continue
            if t == '0': ob(ex, o, '%s is null' % nm, isinstance(p, Ptr) and p.reg is None)
            elif t == 'new':
                ok = isinstance(p, Ptr) and p.reg in news and p.off == 0
                ob(ex, o, '%s refers to a new payload' % nm, ok)
                if ok:
                    cl = st.mem[p.reg].cells
                    ob(ex, o, 'new payload constructed', bool(st.ghost.get(('obj', p.reg, 0))))
                    ob(ex, o, 'new payload counted once', Eq(cl[4][1].u(), 1) if 4 in cl else False)
                    ob(ex, o, 'new payload has the value', Eq(cl[0][1].u(), newp[nm].u()) if 0 in cl else False)
            else:
                delta[t] += 1
                ob(ex, o, '%s refers to %s' % (nm, t), isinstance(p, Ptr) and p.reg is s.pay[t][0] and p.off == 0)
        for nm, (r, n, v) in s.pay.items():
            m = n + delta[nm]
            alive = st.mem[r].alive
            allowed.add(r)
            ob(ex, o, 'payload %s lives exactly as long as refs to it' % nm, (m > 0) if alive else (m == 0))
            ob(ex, o, 'payload %s destroyed exactly when released' % nm, bool(st.ghost.get(('obj', r, 0))) == alive)
            if alive:
                ob(ex, o, 'payload %s counts its refs' % nm, Eq(st.mem[r].cells[4][1].u(), m))
                ob(ex, o, 'payload %s keeps its value' % nm, Eq(st.mem[r].cells[0][1].u(), v.u()))
        frame(ex, o, ex.st0, allowed)
        if o.kind == 'ret' and s.result:
            e = s.result(s, variant, o, ex)
            if isinstance(e, tuple): ob(ex, o, 'result', Eq(o.val.u(), e[0]))
            elif isinstance(e, Region): ob(ex, o, 'result', isinstance(o.val, Ptr) and o.val.reg is e and o.val.off == 0)
            else:
                b = ex.truth(o.val)
                ob(ex, o, 'result', (b == e) if not (isinstance(b, bool) or isinstance(e, bool)) else (e if b is True else Not(e) if b is False else (b if e else Not(b))))


def same(s, v): return {}, {}
def tgt(s, v, k):
    c = v[k]
    return v[0] if c == '=' else c


def deref(s, v): return ({'a': 'new'}, {'a': IntV(32, z3.Int('T.default'))}) if v == '0' else ({}, {})
def derefres(s, v, o, ex):
    return s.pay['P'][0] if v == 'P' else o.st.mem[s.refs['a']].cells[0][1].reg


two = ('00', 'P0', '0P', 'PP', 'PQ', '0=', 'P=')
core = [
    Ref('default', [''], lambda s, v: ({'o': '0'}, {}), 'o'),
    Ref('copy', ['0', 'P'], lambda s, v: ({'o': v}, {}), 'oa'),
    Ref('value', ['x', 'Pi'], lambda s, v: ({'o': 'new'}, {'o': s.xv}), 'ox', throws='always'),
    Ref('dtor', ['0', 'P'], lambda s, v: ({'a': 'gone'}, {})),
    Ref('assign', two, lambda s, v: ({'a': tgt(s, v, 1)}, {}), 'ab'),
    Ref('assignv', ['0x', 'Px', 'Pi'], lambda s, v: ({'a': 'new'}, {'a': s.xv}), 'ax', throws='always'),
    Ref('selfvalue', ['P'], lambda s, v: ({'a': 'new'}, {'a': s.pay['P'][2]}), 'a', throws='always'),
    Ref('nullify', ['0', 'P'], lambda s, v: ({'a': '0'}, {})),
    Ref('star', ['0', 'P'], deref, result=derefres, throws=True),
    Ref('arrow', ['0', 'P'], deref, result=derefres, throws=True),
    Ref('cstar', ['P'], same, result=derefres),
    Ref('carrow', ['P'], same, result=derefres),
    Ref('swap', two, lambda s, v: ({'a': tgt(s, v, 1), 'b': v[0]} if v[1] != '=' else {}, {}), 'ab'),
    Ref('stdswap', two, lambda s, v: ({'a': tgt(s, v, 1), 'b': v[0]} if v[1] != '=' else {}, {}), 'ab'),
    Ref('refCount', ['0', 'P'], same, result=lambda s, v, o, ex: (s.pay['P'][1] if v == 'P' else 0,)),
    Ref('nullref', ['0', 'P'], same, result=lambda s, v, o, ex: v == '0'),
    Ref('bool', ['0', 'P'], same, result=lambda s, v, o, ex: v != '0'),
    Ref('eq', two, same, 'ab', result=lambda s, v, o, ex: tgt(s, v, 1) == v[0]),
    Ref('ne', two, same, 'ab', result=lambda s, v, o, ex: tgt(s, v, 1) != v[0]),
    Ref('eqp', ['0x', 'Px', 'Pi', '0n', 'Pn'], same, 'ax', result=lambda s, v, o, ex: v in ('Pi', '0n')),
    Ref('eqv', ['0x', 'Px', 'Pi'], same, 'ax', result=lambda s, v, o, ex: False if v == '0x' else Eq(s.xv.u(), s.pay['P'][2].u())),
    Ref('nev', ['0x', 'Px', 'Pi'], same, 'ax', result=lambda s, v, o, ex: True if v == '0x' else Not(Eq(s.xv.u(), s.pay['P'][2].u()))),
]


# the reference that unpacking a graph fills: a new object of its own, whatever it shared before
alloc = [Ref('alloc', ['0', 'P'], lambda s, v: ({'a': 'new'}, {'a': IntV(32, z3.Int('T.default'))}), 'a', throws='always', name='Alloc<ref>')]


class Node(Task):
    """a chain a -> P -> Q -> S with symbolic outside refs; shape: targets of a, P.next, Q.next, S.next"""
    assumptions = NOASSUME
    PT = {'0': None}

    def __init__(s, fn, shapes, spec, gone=False):
        s.fn, s.variants, s.spec, s.gone = fn, tuple(shapes), spec, gone
        s.name = 'ref node ' + fn
        s.func = '^ccv_%s$' % fn

    def setup(s, ex, st, variant):
        names = [c for c in 'PQS' if c in variant]
        s.n, s.v, s.r, s.next = {}, {}, {}, {}
        for k, c in enumerate(names): s.next[c] = variant[k + 1]
        for c in names:
            s.r[c] = ex.alloc(st, 'node ' + c, 'cells', size=24, heap=True)
            s.n[c] = fresh('count.' + c)
            s.v[c], f = ex.symbolic(TInt(32), 'value.' + c)
            st.assume(s.n[c] >= variant[:len(names) + 1].count(c), s.n[c] < (1 << 31) - 2, *f)
        for c in names:
            t = s.next[c]
            st.rw(s.r[c]).cells.update({0: (4, s.v[c]), 8: (8, NULL if t == '0' else Ptr(s.r[t])), 16: (4, IntV(32, s.n[c]))})
        s.a = ex.alloc(st, 'ref a', 'cells', size=8)
        st.rw(s.a).cells[0] = (8, Ptr(s.r[variant[0]]))
        return [Ptr(s.a)]

    def post(s, ex, o, variant):
        st = o.st
        ob(ex, o, 'no-exception', o.kind == 'ret')
        if o.kind != 'ret': return
        names = list(s.r)
        news = [r for r in st.mem if r not in ex.st0.mem and r.heap and st.mem[r].alive]
        roots, nxt, new = s.spec(s, variant)     # expected target of a; changed next pointers; (value, next) of a new node
        ob(ex, o, 'nothing leaked', len(news) == (1 if new else 0))
        p = st.mem[s.a].cells[0][1]
        refs = []
        if roots != 'gone':
            ob(ex, o, 'a refers to the right node', isinstance(p, Ptr) and (p.reg is None if roots == '0' else p.reg in news if roots == 'new' else p.reg is s.r[roots]))
            refs.append(p.reg)
        for r in news:
            c = st.mem[r].cells
            ob(ex, o, 'new node counted once', Eq(c[16][1].u(), 1))
            ob(ex, o, 'new node has the value', Eq(c[0][1].u(), new[0].u()))
            ob(ex, o, 'new node refers on', c[8][1].reg is (s.r[new[1]] if new[1] != '0' else None))
            refs.append(c[8][1].reg)
        for c in names:
            if not st.mem[s.r[c]].alive: continue
            t = nxt.get(c, s.next[c])
            q = st.mem[s.r[c]].cells[8][1]
            ob(ex, o, 'node %s refers to the right node' % c, isinstance(q, Ptr) and (q.reg is None if t == '0' else q.reg is s.r[t]))
            refs.append(q.reg)
        for c in names:
            m = s.n[c] - variant[:len(names) + 1].count(c) + sum(x is s.r[c] for x in refs)
            alive = st.mem[s.r[c]].alive
            ob(ex, o, 'node %s lives exactly as long as refs to it' % c, (m > 0) if alive else (m == 0))
            if alive:
                ob(ex, o, 'node %s counts its refs' % c, Eq(st.mem[s.r[c]].cells[16][1].u(), m))
                ob(ex, o, 'node %s keeps its value' % c, Eq(st.mem[s.r[c]].cells[0][1].u(), s.v[c].u()))
        frame(ex, o, ex.st0, {(s.a, 0)} | set(s.r.values()))


core += [
    Node('advance', ['P0', 'PQ0', 'PQS0', 'PP', 'PQP', 'PQQ'], lambda s, v: (v[1], {}, None)),
    Node('drop', ['PQ0', 'PQS0', 'PQQ', 'PQP', 'PQSQ', 'PQSP'], lambda s, v: (v[0], {'P': s.next['Q']}, None)),
    Node('nodedtor', ['P0', 'PQ0', 'PQS0', 'PP', 'PQP', 'PQSP'], lambda s, v: ('gone', {}, None)),
    Node('nodevalue', ['PQ0', 'PQS0', 'PP', 'PQQ', 'PQP'], lambda s, v: ('new', {}, (s.v[v[1]], s.next[v[1]]))),
]
