"""C15: apply, bound methods, calls on a buffer: the function is called exactly once, with the arguments in order, and its result returned"""
from contracts.trace import *

TU = 'functional.cc'
STD = 'c++11'
T = ['int', 'long', 'const S&', 'double', 'short', 'unsigned char', 'S']
TY = {'int': TInt(32), 'long': TInt(64), 'S': TInt(64), 'double': TFloat('double'), 'short': TInt(16), 'unsigned char': TInt(8)}
W = {'int': 'short', 'long': 'int', 'double': 'int', 'short': 'unsigned char', 'unsigned char': 'short', 'S': 'S', 'const S&': 'S'}
ELEM = z3.Function('elem', I, I)


def base(t): return 'S' if t == 'const S&' else t


def conv(ex, st, t, e):
    """the conversion of an element to type t: a value"""
    ty = TY[t]
    nm = 'conv_' + t.replace(' ', '_')
    if isinstance(ty, TFloat): return FloatV(ty.k, z3.Function(nm, I, Fl)(e))
    v = z3.Function(nm, I, I)(e)
    st.assume(v >= 0, v < (1 << ty.w))
    return IntV(ty.w, v)


def symval(ex, st, t, name):
    v, f = ex.symbolic(TY[t], name)
    st.assume(*f)
    return v


def c_elem(ex, st, ci):
    i = ci.args[1]
    v = ELEM(z(i.u()))
    st.assume(v >= 0, v < (1 << 64))
    return ret(st, IntV(64, v))


def c_conv(ex, st, ci):
    v = ex.load(st, ci.args[0], TInt(64))
    t = re.search(r'operator (.*)\(\) const', ci.dem).group(1)
    return [] if v is None else ret(st, conv(ex, st, t, z(v.u())))


def argval(ex, st, t, a):
    if isinstance(a, Ptr): return ex.load(st, a, TInt(64))
    return ex.toint(a) if isinstance(a, BoolV) else a


def c_ext(ex, st, ci):
    nm = ci.dem
    m = re.match(r'ext_([fv])(\d+)$|O::(m|mv|c|cv|ne|cn)(\d+)\(', nm)
    n = int(m.group(2) or m.group(4))
    kind = m.group(1) or m.group(3)
    args = list(ci.args)
    ev = [kind + str(n)]
    if m.group(3): ev.append(args.pop(0))
    for i, a in enumerate(args):
        v = argval(ex, st, base(T[i % 7]), a)
        if v is None: return []
        ev.append(v)
    note(st, *ev)
    if kind in ('v', 'mv', 'cv'): return ret(st)
    return ret(st, IntV(64, z3.Int('result')))


def c_in(ex, st, ci):
    t = re.search(r', (.*)&\)', ci.dem).group(1)
    v = symval(ex, st, t, 'token%d' % len(trace(st)))
    if not ex.store(st, ci.args[1], v, TY[t]): pass
    note(st, '>>', ci.args[0], t, v)
    return ret(st, ci.args[0])


def c_out(ex, st, ci):
    t = re.search(r', (.*) const&\)', ci.dem).group(1)
    v = ex.load(st, ci.args[1], TY[t])
    if v is None: return []
    note(st, '<<', ci.args[0], t, v)
    return ret(st, ci.args[0])


def c_nop(ex, st, ci): return ret(st)


CS = [(r'^Args::operator\[\]\(unsigned long\) const$', c_elem), (r'^Any::operator ', c_conv), (r'^(ext_[fv]\d+|O::(m|mv|c|cv|ne|cn)\d+\(.*)$', c_ext),
      (r'^operator>>\(B&, ', c_in), (r'^operator<<\(B&, ', c_out), (r'^std::runtime_error::(~?)runtime_error\(', c_nop)]


class Fn(Task):
    contracts = CS
    assumptions = ('functions are aligned to at least 2 bytes (member function pointer representation)',)

    def __init__(s, kind, n, m=None, const=False, defs=(), std='c++11'):
        s.kind, s.n, s.m, s.const, s.defs, s.std = kind, n, m, const, defs, std
        s.func = '^ccv_%s%s%d$' % (kind if kind != 'bind' else 'bind_' + m, '_const' if const else '', n)
        s.name = 'functional::%s%s%d' % (s.func[5:-len(str(n)) - 1], '', n) + ('[%s%s]' % (std[3:], ',unrolled' if defs else '') if std != 'c++11' or defs else '')
        s.bad = kind == 'bind' and const and m in ('m', 'mv')
        s.must = ('throw',) if s.bad else ('ret',)

    def setup(s, ex, st, variant):
        n = s.n
        s.o = Ptr(ex.alloc(st, 'object', 'cells', size=8))
        for k in (0, 4): st.rw(s.o.reg).cells[k] = (4, ex.symbolic(TInt(32), 'o')[0])
        s.p = Ptr(ex.alloc(st, 'other object', 'cells', size=4))
        st.rw(s.p.reg).cells[0] = (4, ex.symbolic(TInt(32), 'p')[0])
        s.b = Ptr(ex.alloc(st, 'buffer', 'cells', size=4))
        st.rw(s.b.reg).cells[0] = (4, ex.symbolic(TInt(32), 'b')[0])
        s.r = Ptr(ex.alloc(st, 'result', 'cells', size=8))
        st.rw(s.r.reg).cells[0] = (8, ex.symbolic(TInt(64), 'old')[0])
        s.a = Ptr(ex.alloc(st, 'arguments', 'cells', size=8))
        vals, ptrs = [], []
        for i in range(n):
            if s.kind == 'packw' and base(T[i % 7]) != 'S':
                v = symval(ex, st, W[T[i % 7]], 'a%d' % i)
                ptrs.append(v)
                t = TY[T[i % 7]]
                if isinstance(t, TFloat): v = ex.cast(st, 'sitofp', v, None, t)
                else: v = IntV(t.w, v.u() if W[T[i % 7]] == 'unsigned char' else v.s_(), 'u' if W[T[i % 7]] == 'unsigned char' else 's') if t.w > v.w else IntV(8, v.u() % 256)
                vals.append(v)
                continue
            v = symval(ex, st, base(T[i % 7]), 'a%d' % i)
            vals.append(v)
            if T[i % 7] == 'const S&' and s.kind != 'packw':
                q = Ptr(ex.alloc(st, 'arg%d' % i, 'cells', size=8))
                st.rw(q.reg).cells[0] = (8, v)
                ptrs.append(q)
            else: ptrs.append(v)
        s.vals = vals
        k = s.kind
        st.assume(z3.Int('result') >= 0, z3.Int('result') < (1 << 64))
        return {'apply': [s.r, s.a], 'applyv': [s.a], 'applybound': [s.r, s.o, s.a], 'applyboundv': [s.o, s.a], 'bind': [s.o] + ptrs, 'derived': [s.o] + ptrs, 'rebind': [s.o, s.p] + ptrs,
                'call': [s.b], 'callv': [s.b], 'pfcall': [s.b], 'callbound': [s.b, s.o], 'traits': [], 'pack': [s.b] + ptrs, 'packw': [s.b] + ptrs, 'rebindv': [s.o, s.p] + ptrs, 'packp': [s.b] + ptrs, 'packauto': [s.b] + ptrs}[k]

    def post(s, ex, o, variant):
        st, n, k = o.st, s.n, s.kind
        if o.kind == 'throw':
            ob(ex, o, 'exception only when the method cannot be called', s.bad)
            expect(ex, o, [])
            frame(ex, o, ex.st0)
            return
        if k == 'traits':
            ob(ex, o, 'traits', ex.truth(o.val))
            return
        fr = set()
        if k.startswith('apply'):
            vals = [conv(ex, st, base(T[i % 7]), ELEM(z3.IntVal(i))) for i in range(n)]
            want = [(('f' if k == 'apply' else 'v' if k == 'applyv' else 'm' if k == 'applybound' else 'mv') + str(n),) + ((s.o,) if 'bound' in k else ()) + tuple(vals)]
            if k in ('apply', 'applybound'):
                c = st.mem[s.r.reg].cells.get(0)
                ob(ex, o, 'result stored', Eq(c[1].u(), z3.Int('result')) if isinstance(c[1], IntV) else False)
                fr.add((s.r.reg, 0))
        elif k in ('bind', 'derived', 'rebind'):
            m = s.m or 'm'
            ob(ex, o, 'only called on an object it may be called on', not s.bad)
            want = [(m + str(n), s.p if k == 'rebind' else s.o) + tuple(s.vals)]
            if m not in ('mv', 'cv'): ob(ex, o, 'result', Eq(o.val.u(), z3.Int('result')) if isinstance(o.val, IntV) else False)
        elif k == 'rebindv': want = [('mv' + str(n), s.p) + tuple(s.vals), ('mv' + str(n), s.o) + tuple(s.vals)]
        elif k in ('call', 'callv', 'pfcall', 'callbound'):
            got = trace(st)
            toks = [e[3] for e in got if e[0] == '>>']
            want = [('>>', s.b, base(T[i % 7]), toks[i] if i < len(toks) else IntV(64, 0)) for i in range(n)]
            want.append((('v' if k == 'callv' else 'c' if k == 'callbound' else 'f') + str(n),) + ((s.o,) if k == 'callbound' else ()) + tuple(toks))
            if k != 'callv': ob(ex, o, 'result', Eq(o.val.u(), z3.Int('result')) if isinstance(o.val, IntV) else False)
        else:
            want = [('<<', s.b, base(T[i % 7]), v) for i, v in enumerate(s.vals)]
        expect(ex, o, want)
        frame(ex, o, ex.st0, fr)


def build(defs, std, ns):
    r = []
    var = std != 'c++98' and not defs
    for n in ns:
        ks = ['apply', 'applyv', 'applybound', 'applyboundv', 'derived', 'rebind', 'rebindv', 'call', 'callv', 'callbound', 'pfcall', 'traits']
        if var and n: ks += ['pack', 'packp', 'packauto', 'packw']
        for k in ks: r.append(Fn(k, n, defs=defs, std=std))
        for m, c in (('m', 0), ('mv', 0), ('c', 0), ('c', 1), ('cv', 1), ('ne', 0), ('cn', 1), ('m', 1), ('mv', 1)): r.append(Fn('bind', n, m, bool(c), defs=defs, std=std))
    return r


core = build((), 'c++11', range(9)) + build((), 'c++17', (0, 1, 3, 9)) + build(('USE_UNROLLED',), 'c++17', range(21)) + build((), 'c++98', (0, 1, 2, 5, 20))
