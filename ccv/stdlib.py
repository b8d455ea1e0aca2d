"""Trusted contracts for library code (C runtime, C++ runtime, libstdc++).
Every entry used in a proof is reported in the evidence as an assumption."""
import re, z3
from vc import *

ADDR = 1 << 62      # object sizes are below this (address-space assumption)
REG = []            # (regex, handler)


def contract(rx):
    def d(f):
        REG.append((re.compile(rx), f))
        return f
    return d


def ret(st, v=None): return [Outcome('ret', st, v)]


# ---------------------------------------------------------------- C runtime
def new_bytes(ex, st, n, name='heap', content=None):
    r = ex.alloc(st, name, 'arr', elemsize=1, heap=True, ln=z(n))
    A = fresh(name + '[]', z3.ArraySort(I, I))
    k = z3.Int('k!b')
    st.assume(z3.ForAll([k], And(z3.Select(A, k) >= 0, z3.Select(A, k) < 256), patterns=[z3.Select(A, k)]))
    st.rw(r).arr[0] = (1, content or (lambda k, A=A: z3.Select(A, k)))
    return r


def bytes_fn(name, st):
    """fresh symbolic byte array as closure, with range facts"""
    A = fresh(name + '[]', z3.ArraySort(I, I))
    k = z3.Int('k!b')
    st.assume(z3.ForAll([k], And(z3.Select(A, k) >= 0, z3.Select(A, k) < 256), patterns=[z3.Select(A, k)]))
    return lambda k, A=A: z3.Select(A, k)


@contract(r'^malloc$')
def c_malloc(ex, st, ci):
    return ret(st, Ptr(new_bytes(ex, st, ci.args[0].u(), 'malloc')))


@contract(r'^realloc$')
def c_realloc(ex, st, ci):
    p, n = ci.args
    if p.reg is None:
        return ret(st, Ptr(new_bytes(ex, st, n.u(), 'malloc')))
    rs = st.mem[p.reg]
    ex.oblige(st, 'realloc of a live heap block', And(rs.alive, p.reg.heap, Eq(p.idx, 0), p.off == 0), 'safety')
    if not rs.alive: return []
    if p.reg.elemsize != 1: raise Undecided('realloc of non-byte block')
    old, ol = rs.arr[0][1], rs.len
    f = bytes_fn('realloc', st)
    r = ex.alloc(st, 'realloc', 'arr', elemsize=1, heap=True, ln=z(n.u()))
    st.rw(r).arr[0] = (1, lambda k: z3.If(z3.And(k < ol, k >= 0), old(k), f(k)))
    ex.kill(st, p.reg)
    return ret(st, Ptr(r))


@contract(r'^free$')
def c_free(ex, st, ci):
    p = ci.args[0]
    if p.reg is None: return ret(st)
    ex.oblige(st, 'free of a live heap block', And(st.mem[p.reg].alive, p.reg.heap, Eq(p.idx, 0), p.off == 0), 'safety')
    ex.kill(st, p.reg)
    return ret(st)


@contract(r'^operator new(\[\])?\(unsigned long\)$')
def c_new(ex, st, ci):
    n = ci.args[0].u()
    if isint(n):
        r = ex.alloc(st, 'new', 'cells', size=n, heap=True)
        return ret(st, Ptr(r))
    return ret(st, Ptr(new_bytes(ex, st, n, 'new')))


@contract(r'^operator delete(\[\])?\(void\*(, unsigned long)?\)$')
def c_delete(ex, st, ci):
    p = ci.args[0]
    if p.reg is None: return ret(st)
    ex.oblige(st, 'delete of a live heap block', And(st.mem[p.reg].alive, p.reg.heap, Eq(p.idx, 0), p.off == 0), 'safety')
    ex.kill(st, p.reg)
    return ret(st)


def bytes_at(ex, st, p):
    """closure k -> byte at p+k"""
    if p.reg is None: return None
    rs = st.mem[p.reg]
    if p.reg.kind == 'arr' and p.reg.elemsize == 1:
        fn = rs.arr[0][1]
        i = z(p.idx) + p.off if p.off else p.idx
        return (lambda k: fn(k)) if isint(i) and i == 0 else (lambda k: fn(z(i) + k))
    return None


@contract(r'^memcmp$')
def c_memcmp(ex, st, ci):
    a, b, n = ci.args
    n = z(n.u())
    for p in (a, b):
        if p.reg is None:
            # memcmp(NULL,..,0) is accepted by the C library the code is built against
            ex.oblige(st, 'memcmp-null', n == 0, 'safety')
        else:
            rs = st.mem[p.reg]
            ex.oblige(st, 'memcmp-bounds', Or(n == 0, And(rs.alive, z(p.idx) >= 0, z(p.idx) + n <= rs.len)), 'safety')
    r = fresh('memcmp')
    h = 1 << 31
    st.assume(r >= -h, r < h)
    if a.reg is None or b.reg is None:
        st.assume(n == 0, r == 0)
        return ret(st, IntV(32, r, 's'))
    fa, fb = bytes_at(ex, st, a), bytes_at(ex, st, b)
    d = fresh('diff')
    k = z3.Int('k!m')
    st.assume(z3.If(z3.ForAll([k], z3.Implies(And(k >= 0, k < n), fa(k) == fb(k))), r == 0,
                    And(d >= 0, d < n, fa(d) != fb(d), z3.ForAll([k], z3.Implies(And(k >= 0, k < d), fa(k) == fb(k))),
                        z3.If(fa(d) < fb(d), r < 0, r > 0))))
    # instances for the witness
    st.assume(z3.Implies(r == 0, z3.Or(n <= 0, fa(z3.IntVal(0)) == fb(z3.IntVal(0)))))
    return ret(st, IntV(32, r, 's'))


@contract(r'^__assert_fail$')
def c_assert(ex, st, ci):
    ex.oblige(st, 'assertion', False, 'safety')
    return []


@contract(r'^(abort|exit|_exit|std::terminate\(\)|__clang_call_terminate|__cxa_pure_virtual)$')
def c_abort(ex, st, ci):
    ex.oblige(st, 'no-terminate', False, 'safety')
    return []


# ---------------------------------------------------------------- exceptions
@contract(r'^__cxa_allocate_exception$')
def c_allocexc(ex, st, ci):
    return ret(st, Ptr(ex.alloc(st, 'exception', 'cells', size=None, heap=True)))


@contract(r'^__cxa_free_exception$')
def c_freeexc(ex, st, ci): return ret(st)


@contract(r'^__cxa_throw$')
def c_throw(ex, st, ci):
    return [Outcome('throw', st, Exc(ci.args[1].reg.name, ci.args[0]))]


@contract(r'^__cxa_begin_catch$')
def c_begin(ex, st, ci):
    st.ghost['caught'] = st.ghost.get('caught', ()) + (st.ghost.get('landed'),)
    return ret(st, ci.args[0])


@contract(r'^__cxa_end_catch$')
def c_end(ex, st, ci):
    st.ghost['caught'] = st.ghost.get('caught', ())[:-1]
    return ret(st)


@contract(r'^__cxa_rethrow$')
def c_rethrow(ex, st, ci):
    c = st.ghost.get('caught', ())
    ex.oblige(st, 'rethrow inside a handler', bool(c) and c[-1] is not None, 'safety')
    return [Outcome('throw', st, c[-1])] if c and c[-1] is not None else []


@contract(r'^__cxa_guard_acquire$')
def c_ga(ex, st, ci): return ret(st, IntV(32, 1))


@contract(r'^__cxa_guard_release$')
def c_grel(ex, st, ci):
    ex.store(st, ci.args[0], IntV(8, 1), TInt(8))
    return ret(st)


@contract(r'^(__cxa_guard_abort|__cxa_atexit)$')
def c_gr(ex, st, ci): return ret(st, IntV(32, 0))


@contract(r'^(classdesc::pack_error|std::runtime_error|std::logic_error|std::exception|classdesc::exception|std::bad_alloc|classdesc::xml_\w*error|std::out_of_range)::~?(pack_error|runtime_error|logic_error|exception|bad_alloc|out_of_range|\w*error)\(')
def c_excctor(ex, st, ci): return ret(st)


# ---------------------------------------------------------------- std::string (abstract)
class StrV(Ghost):
    """string of ln bytes; content fn(k)"""
    size = 32

    def __init__(s, ln, fn): s.ln, s.fn = ln, fn

    def havoc(s, ex):
        A = fresh('str[]', z3.ArraySort(I, I))
        n = fresh('strlen')
        r = StrV(n, lambda k, A=A: z3.Select(A, k))
        r.A = A
        return r

    def facts(s):
        k = z3.Int('k!s')
        f = [s.ln >= 0, s.ln < ADDR]
        if hasattr(s, 'A'): f.append(z3.ForAll([k], And(z3.Select(s.A, k) >= 0, z3.Select(s.A, k) < 256), patterns=[z3.Select(s.A, k)]))
        return f


def sym_str(ex, st, name):
    f = bytes_fn(name, st)
    n = fresh(name + '.len')
    st.assume(n >= 0, n < ADDR)
    return StrV(n, f)


def str_const(s):
    bs = s.encode('latin1')
    def fn(k):
        e = z3.IntVal(0)
        for i, b in enumerate(bs): e = z3.If(k == i, b, e)
        return e
    return StrV(z3.IntVal(len(bs)), fn)


def cstring(ex, st, p):
    """literal C string at p, or None"""
    if p.reg is None or p.reg.kind != 'cells' or not isint(p.idx): return None
    o = p.idx + p.off
    r = []
    while True:
        c = st.mem[p.reg].cells.get(o)
        if c is None or c[0] != 1 or not isinstance(c[1], IntV) or not isint(c[1].e): return None
        if c[1].u() == 0: return bytes(r).decode('latin1')
        r.append(c[1].u()); o += 1


S = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::'


@contract(S + r'basic_string\(\)$')
def s_ctor(ex, st, ci):
    if not ex.setobj(st, ci.args[0], str_const('')): return []
    return ret(st)


@contract(S + r'basic_string(<std::allocator<char> >)?\(char const\*, std::allocator<char> const&\)$')
def s_ctor_c(ex, st, ci):
    t = cstring(ex, st, ci.args[1])
    if t is not None: v = str_const(t)
    else:
        v = sym_str(ex, st, 'cstr')
    if not ex.setobj(st, ci.args[0], v): return []
    return ret(st)


@contract(S + r'basic_string\(std::__cxx11::basic_string<.*> const&\)$')
def s_copy(ex, st, ci):
    v = ex.getobj(st, ci.args[1])
    if not isinstance(v, StrV): raise Undecided('copy of unknown string')
    if not ex.setobj(st, ci.args[0], v): return []
    return ret(st)


@contract(S + r'basic_string\(char const\*, unsigned long, std::allocator<char> const&\)$')
def s_ctor_cn(ex, st, ci):
    p, n = ci.args[1], z(ci.args[2].u())
    v = str_from_mem(ex, st, p, n)
    if not ex.setobj(st, ci.args[0], v): return []
    return ret(st)


def str_from_mem(ex, st, p, n):
    if p.reg is None:
        ex.oblige(st, 'string-from-null', n == 0, 'safety')
        return str_const('')
    rs = st.mem[p.reg]
    if p.reg.kind != 'arr' or p.reg.elemsize != 1: raise Undecided('string from %s' % p.reg)
    ex.oblige(st, 'string-source-bounds', Or(n == 0, And(rs.alive, z(p.idx) >= 0, z(p.idx) + n <= rs.len)), 'safety')
    return StrV(n, bytes_at(ex, st, p))


@contract(S + r'~basic_string\(\)$')
def s_dtor(ex, st, ci): return ret(st)


@contract(r'^std::allocator<.*>::~?allocator\(|^std::__new_allocator<.*>::~?__new_allocator\(')
def s_alloc(ex, st, ci): return ret(st)


def getstr(ex, st, p):
    v = ex.getobj(st, p)
    if v is None: return None
    if not isinstance(v, StrV): raise Undecided('not a string: %r' % (v,))
    return v


@contract(S + r'(size|length)\(\) const$')
def s_size(ex, st, ci):
    v = getstr(ex, st, ci.args[0])
    return ret(st, IntV(64, v.ln))


@contract(S + r'empty\(\) const$')
def s_empty(ex, st, ci):
    v = getstr(ex, st, ci.args[0])
    return ret(st, BoolV(v.ln == 0))


@contract(S + r'(data|c_str)\(\)( const)?$')
def s_data(ex, st, ci):
    v = getstr(ex, st, ci.args[0])
    # the characters plus the terminating NUL, as a read-only view
    r = ex.alloc(st, 'string data', 'arr', elemsize=1, ln=z(v.ln) + 1)
    fn, ln = v.fn, v.ln
    st.rw(r).arr[0] = (1, lambda k: z3.If(k == ln, 0, fn(k)))
    return ret(st, Ptr(r))


@contract(S + r'operator=\(std::__cxx11::basic_string<.*>( const&|&&)\)$')
def s_asg(ex, st, ci):
    v = getstr(ex, st, ci.args[1])
    ex.setobj(st, ci.args[0], v)
    return ret(st, ci.args[0])


@contract(S + r'assign\(char const\*, unsigned long\)$')
def s_assign_cn(ex, st, ci):
    if not ex.setobj(st, ci.args[0], str_from_mem(ex, st, ci.args[1], z(ci.args[2].u()))): return []
    return ret(st, ci.args[0])


# ---------------------------------------------------------------- std::vector<T>::iterator is a plain pointer
@contract(r'^typeinfo')
def dummy(ex, st, ci): return INLINE
