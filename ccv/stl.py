"""Trusted contracts for libstdc++ containers and iterators.

A container is an abstract sequence: a storage region of kind 'arr' (length + one total map per element field).
Iterators are (storage, index) pairs.  Invalidation of iterators by growth is not modelled."""
import re, z3
from vc import *
from stdlib import *
import stdlib

SIZES = {'vector': 24, 'list': 24, 'deque': 80, 'set': 48, 'multiset': 48, 'map': 48, 'multimap': 48}


class SeqV(Ghost):
    """a container object; the elements live in region reg"""
    def __init__(s, kind, reg): s.kind, s.reg, s.size = kind, reg, SIZES[kind]
    def havoc(s, ex): return s
    def __repr__(s): return '%s@%s' % (s.kind, s.reg)


class IterV(Ghost):
    """deque iterator (32 bytes)"""
    copyable = True
    def __init__(s, p, size=32): s.p, s.size = p, size
    def havoc(s, ex): return IterV(Ptr(s.p.reg, fresh('it'), s.p.off), s.size)


def elem_fields(ex, ty, base=0):
    """fields of an element type: {offset: kind}; opaque element structs give 'val'"""
    if isinstance(ty, TNamed):
        if re.match(r'%struct\.(Elem|Key)', ty.name): return {base: 'val'}
        return elem_fields(ex, ty.res(), base)
    if isinstance(ty, TStruct):
        r = {}
        for i in range(len(ty.ts)):
            o, e = ex.mod.offset(ty, i)
            r.update(elem_fields(ex, e, base + o))
        return r
    if isinstance(ty, TInt): return {base: (ty.w + 7) // 8}
    if isinstance(ty, TFloat): return {base: 'fl'}
    raise Undecided('element type %r' % ty)


def srt(fty): return Val if fty == 'val' else Fl if fty == 'fl' else I


def new_storage(ex, st, name, elemsize, fields, ln=None):
    r = ex.alloc(st, name, 'arr', elemsize=elemsize, ln=ln if ln is not None else z3.IntVal(0))
    rs = st.rw(r)
    r.base = {}
    for fo, fty in fields.items():
        A = fresh('%s.%d[]' % (name, fo), z3.ArraySort(I, srt(fty)))
        if isinstance(fty, int):
            k = z3.Int('k!e')
            st.assume(z3.ForAll([k], And(z3.Select(A, k) >= 0, z3.Select(A, k) < (1 << (8 * fty))), patterns=[z3.Select(A, k)]))
        r.base[fo] = A
        rs.arr[fo] = (fty, lambda k, A=A: z3.Select(A, k))
    return r


def mk_seq(ex, st, kind, name, elemsize, fields, empty=False):
    """a symbolic container of arbitrary length; returns (object pointer, storage region)"""
    n = fresh(name + '.n')
    st.assume(n >= 0, n * elemsize < ADDR)
    r = new_storage(ex, st, name, elemsize, fields, z3.IntVal(0) if empty else n)
    o = ex.alloc(st, name + ' object', 'cells', size=SIZES[kind])
    st.rw(o).cells[0] = (SIZES[kind], SeqV(kind, r))
    return Ptr(o), r


def seq(ex, st, p):
    v = ex.getobj(st, p)
    if v is None: return None
    if not isinstance(v, SeqV): raise Undecided('not an abstract container: %r' % (v,))
    return v


def kindof(dem):
    m = re.match(r'std::(?:__cxx11::)?(vector|list|deque|set|multiset|map|multimap)<', dem)
    return m.group(1)


C = r'^std::(?:__cxx11::)?(?:vector|list|deque|set|multiset|map|multimap)<.*>::'
END = r'\(\)( const)?$'


def mth(rx): return contract(C + rx)


@mth(r'(size|length)\(\) const$')
def q_size(ex, st, ci):
    v = seq(ex, st, ci.args[0])
    return ret(st, IntV(64, st.mem[v.reg].len))


@mth(r'empty\(\) const$')
def q_empty(ex, st, ci):
    v = seq(ex, st, ci.args[0])
    return ret(st, BoolV(st.mem[v.reg].len == 0))


def iter_result(ex, st, ci, v, idx):
    p = Ptr(v.reg, idx, 0)
    if v.kind == 'deque':
        # returned through sret
        ex.setobj(st, ci.args[0], IterV(p))
        return ret(st)
    return ret(st, p)


def this(ci, v=None):
    """object argument (after a possible sret)"""
    if ci.ins is not None and ci.ins.argattrs and 'sret' in ci.ins.argattrs[0]: return ci.args[1]
    return ci.args[0]


@mth(r'c?begin\(\)( const)?$')
def q_begin(ex, st, ci):
    v = seq(ex, st, this(ci))
    return iter_result(ex, st, ci, v, 0)


@mth(r'c?end\(\)( const)?$')
def q_end(ex, st, ci):
    v = seq(ex, st, this(ci))
    return iter_result(ex, st, ci, v, st.mem[v.reg].len)


@contract(r'^std::vector<.*>::operator\[\]\(unsigned long\)( const)?$|^std::deque<.*>::operator\[\]\(unsigned long\)( const)?$')
def q_index(ex, st, ci):
    v = seq(ex, st, ci.args[0])
    i = z(ci.args[1].u())
    ex.oblige(st, 'container-index', And(i >= 0, i < st.mem[v.reg].len), 'safety')
    return ret(st, Ptr(v.reg, i, 0))


@mth(r'(back|front)\(\)( const)?$')
def q_back(ex, st, ci):
    v = seq(ex, st, ci.args[0])
    n = st.mem[v.reg].len
    ex.oblige(st, 'nonempty', z(n) > 0, 'safety')
    return ret(st, Ptr(v.reg, n - 1 if 'back' in ci.dem else z3.IntVal(0), 0))


@contract(r'^std::vector<.*>::data\(\)( const)?$')
def q_data(ex, st, ci):
    v = seq(ex, st, ci.args[0])
    return ret(st, Ptr(v.reg, 0, 0))


def read_elem(ex, st, p, reg):
    """values of the element fields at pointer p, laid out as in reg"""
    if ex.access(st, p, 1, 'element') is None: return None
    out = {}
    for fo, (fty, fn) in st.mem[reg].arr.items():
        if p.reg.kind == 'arr':
            f = st.mem[p.reg].arr.get(p.off + fo)
            if f is None: raise Undecided('element layout')
            out[fo] = f[1](z(p.idx))
        else:
            c = st.mem[p.reg].cells.get(p.idx + p.off + fo)
            if c is None:
                if p.reg.lazy: raise Undecided('lazy element')
                ex.oblige(st, 'element initialised', False, 'safety')
                out[fo] = fresh('uninit', srt(fty))
                continue
            x = c[1]
            if isinstance(x, Lump): x = ex.from_bytes(x.bs, 8 * len(x.bs))
            if isinstance(x, (ValV, FloatV)): out[fo] = x.e
            elif isinstance(x, IntV): out[fo] = z(x.u())
            elif isinstance(x, BoolV): out[fo] = z(ex.toint(x, 8).u())
            elif x is UNDEF:
                ex.oblige(st, 'element initialised', False, 'safety')
                out[fo] = fresh('uninit', srt(fty))
            else: raise Undecided('element value %r' % (x,))
            if fty == 'val' and out[fo].sort() != Val: raise Undecided('element sort')
    return out


def append_elem(ex, st, reg, vals):
    rs = st.rw(reg)
    n = rs.len
    for fo, (fty, fn) in list(rs.arr.items()):
        x = vals[fo]
        rs.arr[fo] = (fty, lambda k, fn=fn, n=n, x=x: z3.If(k == n, x, fn(k)))
        st.log((reg, 'arr', fo))
    rs.len = n + 1
    st.log((reg, 'len'))


@mth(r'push_back\(.*\)$')
def q_push(ex, st, ci):
    v = seq(ex, st, ci.args[0])
    vals = read_elem(ex, st, ci.args[1], v.reg)
    if vals is None: return []
    append_elem(ex, st, v.reg, vals)
    return ret(st)


@mth(r'clear\(\)$')
def q_clear(ex, st, ci):
    v = seq(ex, st, ci.args[0])
    st.rw(v.reg).len = z3.IntVal(0)
    st.log((v.reg, 'len'))
    return ret(st)


@mth(r'resize\(unsigned long.*\)$')
def q_resize(ex, st, ci):
    v = seq(ex, st, ci.args[0])
    n = z(ci.args[1].u())
    rs = st.rw(v.reg)
    old = rs.len
    # grown elements are value-initialised (unspecified here), shrinking keeps the prefix
    for fo, (fty, fn) in list(rs.arr.items()):
        A = fresh('resized[]', z3.ArraySort(I, srt(fty)))
        if isinstance(fty, int):
            k = z3.Int('k!e')
            st.assume(z3.ForAll([k], And(z3.Select(A, k) >= 0, z3.Select(A, k) < (1 << (8 * fty))), patterns=[z3.Select(A, k)]))
        rs.arr[fo] = (fty, lambda k, fn=fn, old=old, A=A: z3.If(k < old, fn(k), z3.Select(A, k)))
        st.log((v.reg, 'arr', fo))
    rs.len = n
    st.log((v.reg, 'len'))
    out = ret(st)
    if not isint(ci.args[1].e):
        # an absurd size is rejected by the library
        es = v.reg.elemsize
        bad = st.fork()
        bad.assume(n * es >= ADDR)
        st.assume(n * es < ADDR)
        if ex.prover.feasible(bad.pc): out.append(Outcome('throw', bad, Exc('@_ZTISt12length_error', NULL)))
    return out


def elem_layout(ex, dem):
    """(elemsize, fields) from the demangled element type: only types used by the TUs"""
    m = re.match(r'std::(?:__cxx11::)?(vector|list|deque|set|multiset|map|multimap)<(.*)', dem)
    return m


@contract(r'^std::vector<(char|unsigned char|signed char), .*>::vector\(unsigned long, std::allocator<.*> const&\)$|^std::vector<(char|unsigned char), .*>::vector\(unsigned long, (char|unsigned char) const&, std::allocator<.*> const&\)$')
def q_vecn(ex, st, ci):
    n = z(ci.args[1].u())
    out = []
    bad = st.fork()
    bad.assume(n >= ADDR)
    if ex.prover.feasible(bad.pc): out.append(Outcome('throw', bad, Exc('@_ZTISt12length_error', NULL)))
    st.assume(n < ADDR)
    r = ex.alloc(st, 'vector storage', 'arr', elemsize=1, ln=n)
    st.rw(r).arr[0] = (1, lambda k: z3.IntVal(0))
    ex.setobj(st, ci.args[0], SeqV('vector', r))
    return ret(st) + out


@mth(r'(vector|list|deque|set|map|multiset|multimap)\(\)$')
def q_ctor(ex, st, ci):
    lay = getattr(ex.task, 'layout', None)
    if lay is None: raise Undecided('element layout of ' + ci.dem[:60])
    es, fields = lay(ex, ci.dem)
    r = new_storage(ex, st, 'storage', es, fields)
    ex.setobj(st, ci.args[0], SeqV(kindof(ci.dem), r))
    return ret(st)


@mth(r'~(vector|list|deque|set|map|multiset|multimap)\(\)$')
def q_dtor(ex, st, ci): return ret(st)


# ---------------------------------------------------------------- iterators
def it_get(ex, st, p):
    c = st.mem[p.reg].cells.get(p.idx + p.off) if p.reg is not None and p.reg.kind == 'cells' else None
    if c is None: raise Undecided('iterator object')
    if isinstance(c[1], IterV): return c[1].p
    if isinstance(c[1], Ptr): return c[1]
    raise Undecided('iterator object %r' % (c[1],))


def it_set(ex, st, p, q):
    c = st.mem[p.reg].cells.get(p.idx + p.off)
    if c is not None and isinstance(c[1], IterV): ex.setobj(st, p, IterV(q, c[1].size))
    else: ex.setcell(st, p.reg, p.idx + p.off, 8, q)


IT = r'^(?:std::_List_(?:const_)?iterator|std::_Rb_tree_(?:const_)?iterator|std::_Deque_iterator)<.*>::'


@contract(IT + r'operator(\+\+|--)\(\)$')
def i_inc(ex, st, ci):
    p = it_get(ex, st, ci.args[0])
    n = st.mem[p.reg].len
    if '++' in ci.dem:
        it_set(ex, st, ci.args[0], Ptr(p.reg, p.idx + 1 if isint(p.idx) else z(p.idx) + 1, p.off))
    else:
        it_set(ex, st, ci.args[0], Ptr(p.reg, p.idx - 1, p.off))
    return ret(st, ci.args[0])


@contract(IT + r'operator(\+\+|--)\(int\)$')
def i_postinc(ex, st, ci):
    o = this(ci)
    p = it_get(ex, st, o)
    d = 1 if '++' in ci.dem else -1
    q = Ptr(p.reg, p.idx + d if isint(p.idx) else z(p.idx) + d, p.off)
    if o is not ci.args[0]:         # deque: the old value is returned through sret
        ex.setobj(st, ci.args[0], IterV(p))
        it_set(ex, st, o, q)
        return ret(st)
    it_set(ex, st, o, q)
    return ret(st, p)


@contract(IT + r'operator(\*|->)\(\) const$')
def i_deref(ex, st, ci):
    p = it_get(ex, st, ci.args[0])
    if p.reg.kind == 'cells':       # an entry of a map under a contract of its own
        c = st.mem[p.reg].cells.get(0)
        ex.oblige(st, 'iterator-dereferenceable', c is None or not isinstance(c[1], Ghost), 'safety')
        return ret(st, p)
    ex.oblige(st, 'iterator-dereferenceable', And(z(p.idx) >= 0, z(p.idx) < st.mem[p.reg].len), 'safety')
    return ret(st, p)


@contract(r'^bool std::operator(==|!=)(?: ?<.*>)?\(std::_(?:List|Rb_tree|Deque)_.*iterator<|^std::operator(==|!=)\(std::_(?:List|Rb_tree|Deque)_.*iterator<|^bool std::operator(==|!=) ?<.*>\(std::_(?:List|Rb_tree|Deque)|' + IT + r'operator(==|!=)\(')
def i_cmp(ex, st, ci):
    a, b = it_get(ex, st, ci.args[0]), it_get(ex, st, ci.args[1])
    e = ex.ptr_eq(st, a, b)
    return ret(st, BoolV(Not(e) if 'operator!=' in ci.dem else e))


@contract(r'^std::_(?:List|Rb_tree)_const_iterator<.*>::_(?:List|Rb_tree)_const_iterator\(std::_(?:List|Rb_tree)_iterator<.*> const&\)$|^std::_Deque_iterator<.*>::_Deque_iterator.*\(std::_Deque_iterator<.*> const&\)$')
def i_conv(ex, st, ci):
    p = it_get(ex, st, ci.args[1])
    if 'Deque' in ci.dem: ex.setobj(st, ci.args[0], IterV(p))
    else: ex.setcell(st, ci.args[0].reg, ci.args[0].idx + ci.args[0].off, 8, p)
    return ret(st)


# ---------------------------------------------------------------- ordered containers
LT = z3.Function('lt', Val, Val, B)      # the strict weak order of the key type


def ordered_insert(ex, st, v, vals):
    """insert at the end of the order (the only case that occurs when replaying a sorted sequence);
    otherwise the new contents are unconstrained"""
    rs = st.mem[v.reg]
    n = rs.len
    ko = min(rs.arr)
    kf = rs.arr[ko][1]
    x = vals[ko]
    if v.kind in ('set', 'map'): last = Or(n == 0, LT(kf(n - 1), x))
    else: last = Or(n == 0, z3.Not(LT(x, kf(n - 1))))
    outs = []
    other = st.fork()
    other.assume(z3.Not(last))
    if ex.prover.feasible(other.pc):
        rs2 = other.rw(v.reg)
        for fo, (fty, fn) in list(rs2.arr.items()):
            A = fresh('ins[]', z3.ArraySort(I, srt(fty)))
            rs2.arr[fo] = (fty, lambda k, A=A: z3.Select(A, k))
            other.log((v.reg, 'arr', fo))
        rs2.len = fresh('len')
        other.assume(rs2.len >= n, rs2.len <= n + 1)
        other.log((v.reg, 'len'))
        outs.append(other)
    st.assume(last)
    append_elem(ex, st, v.reg, vals)
    outs.append(st)
    return outs


@contract(r'^std::(?:multi)?(?:set|map)<.*>::insert\(.*\)$|^.*std::map<.*>::insert<.*>\(.*\)$|^.*std::multimap<.*>::insert<.*>\(.*\)$')
def q_insert(ex, st, ci):
    a = ci.args
    o, x = (a[1], a[2]) if ci.ins.argattrs and 'sret' in ci.ins.argattrs[0] else (a[0], a[1])
    v = seq(ex, st, o)
    vals = read_elem(ex, st, x, v.reg)
    if vals is None: return []
    n = st.mem[v.reg].len
    r = []
    for s1 in ordered_insert(ex, st, v, vals):
        p = Ptr(v.reg, n, 0)
        r.append(Outcome('ret', s1, p if v.kind.startswith('multi') else AggV([p, IntV(8, 1)])))
    return r


@contract(r'^std::pair<.*>::pair(?:<.*>)?\(std::pair<.*> const&\)$|^std::pair<.*>::pair\(\)$|^std::pair<.*>::pair(<.*>)?\(.* const&, .* const&\)$')
def q_pair(ex, st, ci): return INLINE


@contract(r'^std::_Rb_tree_(?:const_)?iterator<.*>::_Rb_tree_(?:const_)?iterator\(\)$|^std::_List_(?:const_)?iterator<.*>::_List_(?:const_)?iterator\(\)$')
def i_ctor(ex, st, ci): return ret(st)
