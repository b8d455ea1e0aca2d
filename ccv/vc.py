"""ccv: a deductive verifier (verification-condition generator) for C++ functions, working on the
LLVM IR clang produces from /repo's real sources.

* A function under proof is executed symbolically on *arbitrary* arguments described by its precondition.
* A call to a function that has a contract is replaced by that contract (never by its body); other repository
  functions are inlined; library functions need a (trusted) contract from stdlib.py, otherwise the proof
  is abandoned as undecided.
* A loop whose exit test is not decided by constants is cut: a set of candidate invariants is reduced to the
  inductive ones (Houdini), everything the loop may write is havocked, and only the inductive invariants are assumed.
* Every memory access, library precondition, loop-invariant base/step and postcondition is an obligation
  discharged by z3 (and, on failure or in thorough mode, cvc5).

Machine integers are represented exactly: mathematical integers in range with explicit wrap-around.
"""
import z3, time, re, itertools, subprocess, os, tempfile
from ir import *

I = z3.IntSort()
B = z3.BoolSort()
Val = z3.DeclareSort('Val')      # value of an opaque element
Fl = z3.DeclareSort('Fl')        # floating point value (uninterpreted)


class SelectFork(Exception):
    """a select whose alternatives cannot be merged into one value"""
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b


class Undecided(Exception):
    """the verifier could not process the code (not a refutation)"""


class NeedCut(Exception):
    def __init__(s, key): s.key = key


# ------------------------------------------------------------------ values
def isint(e): return isinstance(e, int)


class IntV:
    __slots__ = ('w', 'e', 'rep')

    def __init__(s, w, e, rep='u'):
        if isinstance(e, int):
            e &= (1 << w) - 1
            if rep == 's' and e >> (w - 1): e -= 1 << w
        s.w, s.e, s.rep = w, e, rep

    def u(s):
        if s.rep == 'u': return s.e
        if isint(s.e): return s.e & ((1 << s.w) - 1)
        return z3.If(s.e < 0, s.e + (1 << s.w), s.e)

    def s_(s):
        if s.rep == 's': return s.e
        if isint(s.e): return s.e - (1 << s.w) if s.e >> (s.w - 1) else s.e
        return z3.If(s.e >= (1 << (s.w - 1)), s.e - (1 << s.w), s.e)

    def __repr__(s): return 'i%d%s:%s' % (s.w, s.rep, s.e)


class BoolV:
    """an i1 kept as formula"""
    __slots__ = ('b',)

    def __init__(s, b): s.b = b

    def __repr__(s): return 'b:%s' % s.b


class Ptr:
    __slots__ = ('reg', 'idx', 'off')

    def __init__(s, reg, idx=0, off=0): s.reg, s.idx, s.off = reg, idx, off

    def __repr__(s): return '&%s[%s]+%s' % (s.reg, s.idx, s.off)


NULL = Ptr(None, 0, 0)


class FnPtr:
    def __init__(s, name): s.name = name
    def __repr__(s): return '&fn ' + s.name


class FloatV:
    __slots__ = ('k', 'e')
    def __init__(s, k, e): s.k, s.e = k, e


class ValV:
    """opaque element value"""
    __slots__ = ('e', 'size')
    def __init__(s, e, size=4): s.e, s.size = e, size
    def __repr__(s): return 'Val:%s' % s.e


class AggV:
    def __init__(s, items): s.items = items


class Undef:
    def __repr__(s): return 'undef'


UNDEF = Undef()


class Lump:
    """n bytes given as expressions"""
    def __init__(s, bs): s.bs = bs


class Ghost:
    """abstract object embedded in memory; immutable; subclasses define havoc()"""
    size = 0
    copyable = False        # by copying its bytes
    def havoc(s, ex): return s


class Exc:
    """a C++ exception in flight"""
    def __init__(s, ty, ptr, subs=()): s.ty, s.ptr = ty, ptr
    def __repr__(s): return 'Exc(%s)' % s.ty


_ctr = itertools.count()


def fresh(name, sort=I): return z3.Const('%s!%d' % (name, next(_ctr)), sort)


def z(e): return z3.IntVal(e) if isinstance(e, int) else e


def And(*a): return z3.And([x if not isinstance(x, bool) else z3.BoolVal(x) for x in a])
def Or(*a): return z3.Or([x if not isinstance(x, bool) else z3.BoolVal(x) for x in a])
def Not(a): return (not a) if isinstance(a, bool) else z3.Not(a)


def Eq(a, b):
    if isint(a) and isint(b): return a == b
    return z(a) == z(b)


# ------------------------------------------------------------------ memory
class Region:
    _n = itertools.count()

    def __init__(s, name, kind, size=None, elemsize=1, lazy=False, heap=False, ty=None, const=False):
        s.id = next(Region._n)
        s.name, s.kind, s.size, s.elemsize, s.lazy, s.heap, s.ty, s.const = name, kind, size, elemsize, lazy, heap, ty, const

    def __repr__(s): return '%s#%d' % (s.name, s.id)


class RS:
    """state of a region.
    cells: off -> (size, value)   for kind 'cells'
    arr:   fieldoff -> (type, fn(idx)->z3)  and length for kind 'arr'"""
    __slots__ = ('cells', 'arr', 'len', 'alive')

    def __init__(s, cells=None, arr=None, ln=None, alive=True):
        s.cells = cells if cells is not None else {}
        s.arr = arr if arr is not None else {}
        s.len = ln
        s.alive = alive

    def copy(s):
        return RS(dict(s.cells), dict(s.arr), s.len, s.alive)


class State:
    def __init__(s):
        s.pc = []
        s.mem = {}
        s.own = set()
        s.ghost = {}
        s.trace = []
        s.wlog = None

    def fork(s):
        n = State()
        n.pc = list(s.pc)
        n.mem = dict(s.mem)
        n.own = set()
        s.own = set()
        n.ghost = dict(s.ghost)
        n.trace = list(s.trace)
        n.wlog = s.wlog
        return n

    def assume(s, *fs):
        for f in fs:
            if isinstance(f, bool):
                if f: continue
                f = z3.BoolVal(False)
            s.pc.append(f)
        return s

    def rs(s, reg): return s.mem[reg]

    def rw(s, reg):
        if reg not in s.own:
            s.mem[reg] = s.mem[reg].copy()
            s.own.add(reg)
        return s.mem[reg]

    def log(s, what):
        if s.wlog is not None: s.wlog.add(what)


class Outcome:
    def __init__(s, kind, st, val=None): s.kind, s.st, s.val = kind, st, val


class Obligation:
    def __init__(s, label, formula, pc, trace, where, kind):
        s.label, s.formula, s.pc, s.trace, s.where, s.kind = label, formula, pc, trace, where, kind
        s.status = None
        s.backend = None
        s.time = 0
        s.model = None


def tosmt(pc, goal):
    sv = z3.Solver()
    for p in pc: sv.add(p)
    sv.add(z3.Not(goal) if not isinstance(goal, bool) else z3.BoolVal(not goal))
    return sv.to_smt2()


CVC5 = '/opt/veriftools/bin/cvc5'


class Prover:
    def __init__(s, timeout=8000, axioms=()):
        s.timeout = timeout
        s.axioms = list(axioms)
        s.stats = {'z3': 0, 'cvc5': 0, 'trivial': 0, 'queries': 0}
        s.time = 0.0
        s.deadline = None
        s.ematch = False      # quantifiers by pattern matching only: quick, never answers sat

    def check(s, pc, timeout=None):
        """sat-check a conjunction -> 'sat','unsat','unknown', model"""
        t = time.time()
        sv = z3.Solver()
        tmo = timeout or s.timeout
        if s.deadline:
            left = int((s.deadline - t) * 1000)
            if left <= 0: raise Undecided('time budget exhausted')
            tmo = min(tmo, max(left, 100))
        sv.set('timeout', tmo)
        if s.ematch:
            sv.set('auto_config', False)
            sv.set('mbqi', False)
        for a in s.axioms: sv.add(a)
        for p in pc: sv.add(p)
        r = sv.check()
        s.time += time.time() - t
        s.stats['queries'] += 1
        if os.environ.get('SLOW') and time.time() - t > 0.5: open('/tmp/slow.smt2','w').write(sv.to_smt2()); print('slow', r, time.time()-t, flush=True)
        m = sv.model() if r == z3.sat else None
        return str(r), m

    def prove_light(s, pc, goal):
        """for a candidate among many: pattern matching only, and little time"""
        if isinstance(goal, bool): return goal
        if z3.is_true(z3.simplify(goal)): return True
        em, s.ematch = s.ematch, True
        try: return s.check(pc + [z3.Not(goal)], 2000)[0] == 'unsat'
        finally: s.ematch = em

    def feasible(s, pc):
        r, _ = s.check(pc, 1500)
        return r != 'unsat'

    def prove(s, pc, goal, cross=False):
        if isinstance(goal, bool):
            if goal: return 'proved', 'trivial', None
            goal = z3.BoolVal(False)
        g = z3.simplify(goal)
        if z3.is_true(g): return 'proved', 'trivial', None
        r, m = s.check(pc + [z3.Not(goal)])
        if r == 'unsat':
            if cross:
                c = s.cvc5(pc, goal)
                return 'proved', 'z3' + ('+cvc5' if c == 'unsat' else ''), None
            return 'proved', 'z3', None
        if r == 'sat': return 'refuted', 'z3', m
        if s.ematch: return 'unknown', 'z3', None
        c = s.cvc5(pc, goal)
        if c == 'unsat': return 'proved', 'cvc5', None
        return 'unknown', 'z3,cvc5', None

    def cvc5(s, pc, goal):
        t = time.time()
        txt = '(set-logic ALL)\n' + tosmt(s.axioms + pc, goal)
        try:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
            r = subprocess.run(['cvc5', '--tlimit=%d' % s.timeout, '--full-saturate-quant', f.name], capture_output=True, text=True, timeout=s.timeout / 1000 + 5)
            out = r.stdout.strip().split('\n')[0]
        except Exception as e:
            out = 'unknown'
        finally:
            try: os.unlink(f.name)
            except OSError: pass
        s.time += time.time() - t
        return out


# ------------------------------------------------------------------ loops
def find_loops(f):
    """natural loops: header -> set(block names); also exits"""
    if hasattr(f, '_loops'): return f._loops
    names = [b.name for b in f.order]
    entry = names[0]
    dom = {n: set(names) for n in names}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in f.order[1:]:
            ps = [dom[p] for p in b.preds]
            nd = set.intersection(*ps) if ps else set()
            nd = nd | {b.name}
            if nd != dom[b.name]:
                dom[b.name] = nd
                ch = True
    loops = {}
    for b in f.order:
        for t in b.succ:
            if t in dom[b.name]:
                body = loops.setdefault(t, {t})
                st = [b.name]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x)
                    st += f.blocks[x].preds
    f._loops = loops
    return loops


class LoopCtx:
    """what an invariant candidate can look at"""
    def __init__(s, ex, st, phis, entry_st, entry_phis, fr):
        s.ex, s.st, s.phis, s.entry, s.entry_phis, s.fr = ex, st, phis, entry_st, entry_phis, fr


class Frame:
    def __init__(s, fn, depth):
        s.fn, s.depth = fn, depth
        s.allocas = {}
        s.varargs = []


class Exec:
    def __init__(s, mod, prover, contracts=(), loops=None, maxpaths=4000, maxunroll=80):
        s.mod, s.prover = mod, prover
        s.contracts = list(contracts)      # list of (compiled regex on demangled, handler)
        s.loopcands = loops                # fn(LoopCtx) -> list of (name, fn(LoopCtx)->formula|None)
        s.obls = []
        s.record = True
        s.globreg = {}
        s.nopen = 0
        s.maxpaths = maxpaths
        s.maxunroll = maxunroll
        s.used_contracts = {}
        s.inlined = set()
        s.assumptions = set()
        s.ccache = {}
        s.cutset = set()
        s.loopinfo = []
        s.loc = None
        s.decreases = []
        s.check_nsw = True

    # ---------- obligations
    def oblige(s, st, label, formula, kind='pre'):
        if not s.record: return
        s.obls.append(Obligation(label, formula, list(st.pc), list(st.trace), s.loc, kind))

    # ---------- regions
    def alloc(s, st, name, kind='cells', size=None, elemsize=1, lazy=False, heap=False, ty=None, ln=None, fields=None):
        r = Region(name, kind, size, elemsize, lazy, heap, ty)
        st.mem[r] = RS(ln=ln, arr=dict(fields) if fields else None)
        st.own.add(r)
        return r

    def global_region(s, st, name):
        if name in s.globreg:
            r = s.globreg[name]
            if r not in st.mem: st.mem[r] = s.globinit[name].copy()
            return r
        txt = s.mod.globals.get(name)
        r = Region(name, 'cells', None, lazy=False)
        s.globreg[name] = r
        if not hasattr(s, 'globinit'): s.globinit = {}
        rs = RS()
        isconst = False
        if txt is not None:
            try:
                p = P(tokenize(re.sub(r',? *!dbg !\d+', '', txt)), s.mod)
                while p.pk()[1] in LINKAGE and p.pk()[1] not in ('global', 'constant') or p.pk()[1] in ('comdat',): p.nx()
                isconst = p.nx()[1] == 'constant'
                ty = p.type()
                r.size = s.mod.size(ty)
                r.ty = ty
                if not p.done() and p.pk()[1] not in (',', 'comdat') and p.pk()[0] != 'str' or (p.pk()[0] == 'str'):
                    c = p.value(ty)
                    if isconst: s.initconst(st, rs, 0, ty, c)
            except SyntaxError:
                pass
        r.const = isconst
        if not isconst: r.lazy = True
        s.globinit[name] = rs
        st.mem[r] = rs.copy()
        return r

    def initconst(s, st, rs, off, ty, c):
        if isinstance(ty, TNamed): ty = ty.res()
        if c.kind == 'zero' if isinstance(c, Const) else False:
            for o, t in s.mod.fields(ty, off):
                rs.cells[o] = (s.mod.size(t), s.zero(t))
        elif isinstance(c, Const) and c.kind == 'str':
            v = c.v
            assert v[0] == 'c'
            raw = v[2:-1]
            j = 0
            bs = []
            while j < len(raw):
                if raw[j] == '\\':
                    if raw[j + 1] == '\\': bs.append(92); j += 2
                    else: bs.append(int(raw[j + 1:j + 3], 16)); j += 3
                else: bs.append(ord(raw[j])); j += 1
            for k, b in enumerate(bs): rs.cells[off + k] = (1, IntV(8, b))
        elif isinstance(c, Const) and c.kind == 'agg':
            if isinstance(ty, TArr):
                z_ = s.mod.size(ty.t)
                for k, e in enumerate(c.v): s.initconst(st, rs, off + k * z_, ty.t, e)
            else:
                for k, e in enumerate(c.v):
                    o, t = s.mod.offset(ty, k)
                    s.initconst(st, rs, off + o, t, e)
        else:
            rs.cells[off] = (s.mod.size(ty), s.const(st, c))

    def zero(s, t):
        if isinstance(t, TInt): return IntV(t.w, 0)
        if isinstance(t, TPtr): return NULL
        if isinstance(t, TFloat): return FloatV(t.k, z3.Const('f0_' + t.k, Fl))
        raise Undecided('zero of %r' % t)

    # ---------- operand evaluation
    def const(s, st, c):
        k = c.kind
        if k == 'int':
            if c.ty.w == 1: return BoolV(bool(c.v & 1))
            return IntV(c.ty.w, c.v, 's' if c.v < 0 else 'u')
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero':
            if isinstance(c.ty, (TStruct, TArr, TNamed)):
                ty = c.ty.res() if isinstance(c.ty, TNamed) else c.ty
                ts = ty.ts if isinstance(ty, TStruct) else [ty.t] * ty.n
                return AggV([s.const(st, Const('zero', t)) for t in ts])
            if isinstance(c.ty, TInt) and c.ty.w == 1: return BoolV(False)
            return s.zero(c.ty)
        if k == 'global':
            if c.v in s.mod.funcs: return FnPtr(c.v)
            return Ptr(s.global_region(st, c.v), 0, 0)
        if k == 'float': return FloatV(c.ty.k, z3.Const('fc_%s_%s' % (c.ty.k, c.v), Fl))
        if k == 'gep':
            return s.gep(st, c.v[0], [s.const(st, x) for x in c.v[1]])
        if k == 'agg': return AggV([s.const(st, x) for x in c.v])
        if k == 'cast':
            return s.cast(st, c.v[0], s.const(st, c.v[1]), c.v[1].ty, c.v[2])
        raise Undecided('constant %r' % (c,))

    def ev(s, st, env, o):
        if isinstance(o, Local):
            try: return env[o.name]
            except KeyError: raise Undecided('unbound %s' % o.name)
        return s.const(st, o)

    # ---------- pointers
    def gep(s, st, ty, ops):
        p = ops[0]
        if p is UNDEF: raise Undecided('gep of undef')
        if isinstance(p, FnPtr): raise Undecided('gep of function')
        idx, off = p.idx, p.off
        cur = ty
        for n, o in enumerate(ops[1:]):
            if n == 0:
                sz = s.mod.size(ty)
                k = o.s_() if isinstance(o, IntV) else None
                if k is None: raise Undecided('gep index')
                idx, off = s.padd(p.reg, idx, off, k, sz)
            else:
                if isinstance(cur, TNamed): cur = cur.res()
                if isinstance(cur, TStruct):
                    if not isint(o.e): raise Undecided('struct gep')
                    fo, cur = s.mod.offset(cur, o.u())
                    idx, off = s.padd(p.reg, idx, off, fo, 1)
                else:
                    sz = s.mod.size(cur.t)
                    idx, off = s.padd(p.reg, idx, off, o.s_(), sz)
                    cur = cur.t
        return Ptr(p.reg, idx, off)

    def padd(s, reg, idx, off, k, sz):
        """pointer + k*sz bytes"""
        if isint(k) and k == 0 or sz == 0: return idx, off
        if reg is None:
            # arithmetic on null: only null+0 is used in practice (data()+0)
            if isint(k): return idx, off + k * sz
            return idx + z(k) * sz if not isint(idx) or idx else z(k) * sz, off
        if reg.kind == 'arr':
            es = reg.elemsize
            if isint(k):
                b = off + k * sz
                q, r = divmod(b, es)
                return (idx + q if q else idx), r
            if sz % es == 0:
                return idx + z(k) * (sz // es), off
            raise Undecided('pointer step %d in array of %d-byte elements' % (sz, es))
        else:
            if isint(k): return idx, off + k * sz
            if isint(idx) and idx == 0: idx = z3.IntVal(0)
            # symbolic offset into a cells region: keep as idx in bytes (resolved by access)
            return idx + z(k) * sz, off

    def ptr_eq(s, st, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
            return False
        if a.reg is not b.reg: return False
        if a.reg is None: return Eq(a.idx + a.off if isint(a.idx) else a.idx + a.off, b.idx + b.off)
        es = a.reg.elemsize if a.reg.kind == 'arr' else 1
        d = a.off - b.off
        if es != 1 and d != 0 and isint(d): return False if d % es else Eq(a.idx + d // es, b.idx)
        return Eq(a.idx + d if not (isint(d) and d == 0) else a.idx, b.idx)

    # ---------- memory access
    def access(s, st, p, size, what):
        """obligations for dereferencing p for size bytes; returns region"""
        if p is UNDEF: raise Undecided('dereference of uninitialised pointer')
        if isinstance(p, FnPtr): raise Undecided('dereference of function')
        if p.reg is None:
            s.oblige(st, 'null-dereference(%s)' % what, False, 'safety')
            return None
        rs = st.mem.get(p.reg)
        if rs is None: raise Undecided('unknown region %r' % p.reg)
        if not rs.alive:
            s.oblige(st, 'use-after-free(%s %s)' % (what, p.reg.name), False, 'safety')
            return None
        if p.reg.kind == 'arr':
            if rs.len is not None:
                es = p.reg.elemsize
                if size <= es:
                    s.oblige(st, 'bounds(%s %s)' % (what, p.reg.name), And(z(p.idx) >= 0, z(p.idx) < rs.len), 'safety')
        elif p.reg.size is not None and isint(p.idx):
            o = p.idx + p.off
            if not (0 <= o and o + size <= p.reg.size):
                s.oblige(st, 'bounds(%s %s+%d)' % (what, p.reg.name, o), False, 'safety')
        return p.reg

    def symbolic(s, ty, name):
        if isinstance(ty, TInt):
            e = fresh(name)
            return IntV(ty.w, e), [e >= 0, e < (1 << ty.w)]
        if isinstance(ty, TFloat): return FloatV(ty.k, fresh(name, Fl)), []
        raise Undecided('symbolic %r for %s' % (ty, name))

    def load(s, st, p, ty):
        size = s.mod.size(ty)
        reg = s.access(st, p, size, 'load')
        if reg is None: return None      # path dies
        if isinstance(ty, (TStruct, TArr, TNamed)):
            t = ty.res() if isinstance(ty, TNamed) else ty
            if isinstance(t, TStruct):
                r = []
                for k in range(len(t.ts)):
                    o, e = s.mod.offset(t, k)
                    r.append(s.load(st, Ptr(p.reg, p.idx, p.off + o), e))
                return AggV(r)
            raise Undecided('load of %r' % ty)
        rs = st.mem[reg]
        if reg.kind == 'arr':
            return s.arr_load(st, reg, rs, p, ty, size)
        if not isint(p.idx):
            return s.sym_cell_load(st, p, ty, size)
        o = p.idx + p.off
        c = rs.cells.get(o)
        if c and c[0] == size: return s.conv(st, c[1], ty)
        if isinstance(ty, TInt):
            w = s.cell_words(rs, o, size)
            if w is not None: return IntV(ty.w, w)
        if c is None or True:
            bs = s.cell_bytes(st, reg, o, size)
            if bs is not None:
                if isinstance(ty, TInt): return s.from_bytes(bs, ty.w)
                if isinstance(ty, TPtr): raise Undecided('pointer from bytes')
                raise Undecided('float from bytes')
        overl = [(oo, cc) for oo, cc in rs.cells.items() if oo < o + size and o < oo + cc[0]]
        if overl:
            if len(overl) == 1 and overl[0][0] == o and isinstance(overl[0][1][1], Ghost):
                raise Undecided('raw load from abstract object %s' % overl[0][1][1])
            raise Undecided('partial load %d@%d from %s %r' % (size, o, reg, overl))
        if reg.lazy:
            v, fs = s.symbolic(ty, '%s.%d' % (reg.name, o))
            st.assume(*fs)
            st.rw(reg).cells[o] = (size, v)
            return v
        return UNDEF

    def sym_cell_load(s, st, p, ty, size):
        """load at a symbolic position of a cells region: case split into an if-chain over cells"""
        rs = st.mem[p.reg]
        pos = p.idx + p.off
        cand = sorted(o for o, c in rs.cells.items() if c[0] == size and isinstance(c[1], IntV))
        if not cand or not isinstance(ty, TInt) or len(cand) > 300: raise Undecided('symbolic index into %s' % p.reg)
        s.oblige(st, 'bounds(load %s at symbolic index)' % p.reg.name, Or(*[pos == o for o in cand]), 'safety')
        e = z(rs.cells[cand[-1]][1].u())
        for o in cand[:-1]: e = z3.If(pos == o, z(rs.cells[o][1].u()), e)
        return IntV(ty.w, e)

    def byte_of(s, v, k):
        if isinstance(v, IntV):
            u = v.u()
            if isint(u): return (u >> (8 * k)) & 255
            if v.w <= 8: return u
            return (u / (1 << (8 * k))) % 256 if k else u % 256
        if isinstance(v, BoolV):
            return z3.If(v.b, 1, 0) if not isinstance(v.b, bool) else int(v.b)
        if isinstance(v, Lump): return v.bs[k]
        if isinstance(v, ValV):
            return z3.Function('valbyte', Val, I, I)(v.e, z3.IntVal(k))
        if isinstance(v, FloatV):
            return z3.Function('flbyte', Fl, I, I)(v.e, z3.IntVal(k))
        return None

    def cell_words(s, rs, o, size):
        """the unsigned value of a load made up of whole integers, or being part of one; None otherwise"""
        e, k = 0, 0
        while k < size:
            c = rs.cells.get(o + k)
            if c is None or not isinstance(c[1], IntV) or c[1].w != 8 * c[0]: break
            if c[0] > size - k:
                if k: return None
                break
            e, k = e + (c[1].u() * (1 << (8 * k)) if k else c[1].u()), k + c[0]
        if k == size: return e
        if k: return None
        for oo, cc in rs.cells.items():
            if oo <= o and o + size <= oo + cc[0] and isinstance(cc[1], IntV) and cc[1].w == 8 * cc[0]:
                u, d = cc[1].u(), o - oo
                if isint(u): return (u >> (8 * d)) & ((1 << (8 * size)) - 1)
                return (u / (1 << (8 * d)) if d else u) % (1 << (8 * size))
        return None

    def cell_bytes(s, st, reg, o, size):
        rs = st.mem[reg]
        r = []
        k = 0
        while k < size:
            hit = None
            for oo, cc in rs.cells.items():
                if oo <= o + k < oo + cc[0]:
                    hit = (oo, cc); break
            if hit is None: return None
            b = s.byte_of(hit[1][1], o + k - hit[0])
            if b is None: return None
            r.append(b)
            k += 1
        return r

    def from_bytes(s, bs, w):
        e = 0
        for k, b in enumerate(bs):
            t = b * (1 << (8 * k)) if k else b
            e = e + t
        return IntV(w, e)

    def conv(s, st, v, ty):
        """cell value -> loaded as ty"""
        if v is UNDEF: return UNDEF
        if isinstance(ty, TInt):
            if isinstance(v, IntV):
                if ty.w == 1: return BoolV(Eq(v.u(), 1) if not isint(v.u()) else bool(v.u() & 1))
                return IntV(ty.w, v.e, v.rep) if v.w == ty.w else IntV(ty.w, v.u())
            if isinstance(v, BoolV):
                if ty.w == 1: return v
                return IntV(ty.w, int(v.b) if isinstance(v.b, bool) else z3.If(v.b, 1, 0))
            if isinstance(v, Lump): return s.from_bytes(v.bs, ty.w)
            if isinstance(v, ValV):
                return IntV(ty.w, z3.Function('valint', Val, I)(v.e))
            if isinstance(v, FloatV):
                e = z3.Function('flbits', Fl, I)(v.e)
                st.assume(e >= 0, e < (1 << ty.w))
                return IntV(ty.w, e)
        if isinstance(ty, TPtr) and isinstance(v, (Ptr, FnPtr)): return v
        if isinstance(ty, TPtr) and isinstance(v, IntV) and isint(v.e) and v.e == 0: return NULL
        if isinstance(ty, TInt) and isinstance(v, (Ptr, FnPtr)): return v      # pointer loaded as integer (copy)
        if isinstance(ty, TFloat):
            if isinstance(v, FloatV): return v
            if isinstance(v, Lump): return FloatV(ty.k, s.fl_from_bytes(v.bs))
            if isinstance(v, IntV): return FloatV(ty.k, z3.Function('flofbits', I, Fl)(z(v.u())))
        if isinstance(v, Ghost): raise Undecided('raw load from abstract %s' % v)
        raise Undecided('load conversion %r as %r' % (v, ty))

    def fl_from_bytes(s, bs):
        # recognise the bytes of one float value
        b0 = bs[0]
        if z3.is_app(b0) and b0.decl().name() == 'flbyte':
            x = b0.arg(0)
            if all(z3.is_app(b) and b.decl().name() == 'flbyte' and b.arg(0).eq(x) for b in bs): return x
        f = z3.Function('flofbytes%d' % len(bs), *([I] * len(bs) + [Fl]))
        return f(*[z(b) for b in bs])

    def arr_field(s, st, reg, off, ty):
        rs = st.mem[reg]
        if off in rs.arr: return rs.arr[off]
        return None

    def arr_load(s, st, reg, rs, p, ty, size):
        off = p.off
        f = rs.arr.get(off)
        if f is None: raise Undecided('load of field +%d of %s' % (off, reg))
        fty, fn = f
        if fty == 'val': return IntV(size * 8, z3.Function('valint', Val, I)(fn(z(p.idx))))
        if fty == 'ptr': return fn(p.idx)
        if isinstance(ty, TInt) and isinstance(fty, int):
            if fty == size:
                return IntV(ty.w, fn(z(p.idx)))
            if fty == 1 and reg.elemsize == 1:
                if rs.len is not None:
                    s.oblige(st, 'bounds(load %s)' % reg.name, And(z(p.idx) >= 0, z(p.idx) + size <= rs.len), 'safety')
                return s.from_bytes([fn(z(p.idx) + k) for k in range(size)], ty.w)
        if isinstance(ty, TFloat) and fty == 'fl': return FloatV(ty.k, fn(z(p.idx)))
        raise Undecided('arr load %r as %r' % (fty, ty))

    def store(s, st, p, v, ty):
        size = s.mod.size(ty)
        reg = s.access(st, p, size, 'store')
        if reg is None: return False
        if reg.const:
            s.oblige(st, 'write-to-constant(%s)' % reg.name, False, 'safety')
            return False
        if isinstance(v, AggV):
            t = ty.res() if isinstance(ty, TNamed) else ty
            for k, x in enumerate(v.items):
                o, e = s.mod.offset(t, k)
                s.store(st, Ptr(p.reg, p.idx, p.off + o), x, e)
            return True
        if isinstance(v, BoolV) and size == 1:
            v = IntV(8, int(v.b) if isinstance(v.b, bool) else z3.If(v.b, 1, 0))
        if reg.kind == 'arr':
            rs = st.rw(reg)
            f = rs.arr.get(p.off)
            if f is None: raise Undecided('store to field +%d of %s' % (p.off, reg))
            fty, fn = f
            idx = z(p.idx)
            st.log((reg, 'arr', p.off))
            if isinstance(fty, int) and isinstance(v, IntV) and fty == size:
                x = z(v.u())
                rs.arr[p.off] = (fty, lambda k, fn=fn, idx=idx, x=x: z3.If(k == idx, x, fn(k)))
                return True
            if fty == 1 and reg.elemsize == 1 and isinstance(v, IntV):
                bs = [z(s.byte_of(v, k)) for k in range(size)]
                if rs.len is not None and size > 1:
                    s.oblige(st, 'bounds(store %s)' % reg.name, And(idx >= 0, idx + size <= rs.len), 'safety')
                def nf(k, fn=fn, idx=idx, bs=bs):
                    e = fn(k)
                    for j, b in enumerate(bs): e = z3.If(k == idx + j, b, e)
                    return e
                rs.arr[p.off] = (fty, nf)
                return True
            if fty == 'fl' and isinstance(v, FloatV):
                x = v.e
                rs.arr[p.off] = (fty, lambda k, fn=fn, idx=idx, x=x: z3.If(k == idx, x, fn(k)))
                return True
            raise Undecided('arr store %r as %r' % (fty, v))
        if not isint(p.idx): raise Undecided('store at symbolic offset of %s' % reg)
        s.setcell(st, reg, p.idx + p.off, size, v)
        return True

    def setcell(s, st, reg, o, size, v):
        rs = st.rw(reg)
        st.log((reg, 'cell', o, size))
        for oo in [oo for oo, cc in rs.cells.items() if oo < o + size and o < oo + cc[0]]:
            cc = rs.cells[oo]
            if oo == o and cc[0] == size: continue
            if oo >= o and oo + cc[0] <= o + size:
                del rs.cells[oo]
                continue
            # split the overlapped cell into bytes
            bs = [s.byte_of(cc[1], k) for k in range(cc[0])]
            if any(b is None for b in bs): raise Undecided('partial overwrite of %r in %s' % (cc[1], reg))
            del rs.cells[oo]
            for k, b in enumerate(bs):
                if not (o <= oo + k < o + size): rs.cells[oo + k] = (1, IntV(8, b))
        rs.cells[o] = (size, v)

    def getobj(s, st, p, size=None, default=None):
        """ghost object at pointer"""
        reg = s.access(st, p, size or 1, 'object')
        if reg is None: return None
        if reg.kind == 'arr':
            f = st.mem[reg].arr.get(p.off)
            raise Undecided('abstract object inside array %s' % reg)
        c = st.mem[reg].cells.get(p.idx + p.off)
        if c is None: return default
        return c[1]

    def setobj(s, st, p, v):
        reg = s.access(st, p, v.size, 'object')
        if reg is None: return False
        if reg.kind == 'arr': raise Undecided('abstract object inside array %s' % reg)
        s.setcell(st, reg, p.idx + p.off, v.size, v)
        return True

    def memcpy(s, st, dst, src, n, label='memcpy'):
        """n: int or z3; returns False if path is dead"""
        if isinstance(n, IntV): n = n.u()
        if isint(n) and n == 0: return True
        if not isint(n):
            r = st.fork()
        for p, w in ((dst, 'dst'), (src, 'src')):
            if p is UNDEF or isinstance(p, FnPtr): raise Undecided('memcpy of bad pointer')
            if p.reg is None:
                s.oblige(st, '%s-null-%s' % (label, w), Eq(n, 0) if not isint(n) else n == 0, 'safety')
                st.assume(Eq(n, 0))
                return True
            if not st.mem[p.reg].alive:
                s.oblige(st, '%s-%s-use-after-free' % (label, w), Eq(n, 0), 'safety')
                return False
        dr, sr = dst.reg, src.reg
        for p, w in ((dst, 'dst'), (src, 'src')):
            rs = st.mem[p.reg]
            if p.reg.kind == 'arr':
                if rs.len is not None:
                    es = p.reg.elemsize
                    s.oblige(st, '%s-%s-bounds(%s)' % (label, w, p.reg.name), Or(Eq(n, 0), And(z(p.idx) >= 0, z(n) >= 0, (z(p.idx)) * es + p.off + z(n) <= rs.len * es)), 'safety')
            elif p.reg.size is not None:
                s.oblige(st, '%s-%s-bounds(%s)' % (label, w, p.reg.name), Or(Eq(n, 0), And(z(p.idx + p.off) >= 0, z(p.idx + p.off) + z(n) <= p.reg.size)), 'safety')
        if dr.const:
            s.oblige(st, 'write-to-constant', False, 'safety'); return False
        if sr.kind == 'cells' and dr.kind == 'cells':
            if not isint(n) or not isint(src.idx) or not isint(dst.idx): raise Undecided('symbolic memcpy between objects')
            so, do = src.idx + src.off, dst.idx + dst.off
            srs = st.mem[sr]
            got = []
            k = so
            while k < so + n:
                c = srs.cells.get(k)
                if c and k + c[0] <= so + n:
                    got.append((k - so, c)); k += c[0]
                else:
                    bs = s.cell_bytes(st, sr, k, 1)
                    if bs is not None:
                        got.append((k - so, (1, IntV(8, bs[0]))))
                    elif any(oo <= k < oo + cc[0] for oo, cc in srs.cells.items()):
                        raise Undecided('partial memcpy out of %s' % sr)
                    elif sr.lazy:
                        # materialise by the region's type
                        if not s.materialise(st, sr, k): got.append((k - so, None))
                        else:
                            srs = st.mem[sr]
                            continue
                    else: got.append((k - so, None))
                    k += 1
            drs = st.rw(dr)
            for o, c in got:
                if c is None:
                    drs = st.rw(dr)
                    if do + o in drs.cells: del drs.cells[do + o]
                    st.log((dr, 'cell', do + o, 1))
                elif isinstance(c[1], Ghost) and not c[1].copyable: raise Undecided('memcpy of abstract object')
                else: s.setcell(st, dr, do + o, c[0], c[1])
            return True
        if dr.kind == 'arr' and dr.elemsize == 1:
            # byte array destination
            rs = st.rw(dr)
            fty, fn = rs.arr[0]
            st.log((dr, 'arr', 0))
            di = z(dst.idx) + dst.off if dst.off else z(dst.idx)
            if sr.kind == 'arr' and sr.elemsize == 1:
                sfn = st.mem[sr].arr[0][1]
                si = z(src.idx)
                rs.arr[0] = (1, lambda k: z3.If(z3.And(k >= di, k < di + z(n)), sfn(k - di + si), fn(k)))
                return True
            if sr.kind == 'arr' and isinstance(st.mem[sr].arr.get(0, (None,))[0], int) and src.off == 0 and st.mem[sr].arr[0][0] == sr.elemsize:
                es = sr.elemsize
                sfn = st.mem[sr].arr[0][1]
                si = z(src.idx)
                rs.arr[0] = (1, lambda k: z3.If(z3.And(k >= di, k < di + z(n)), s.byte_sel(sfn((k - di) / es + si), (k - di) % es, es), fn(k)))
                return True
            if sr.kind == 'cells' and isint(n) and isint(src.idx):
                if sr.lazy: s.materialise_range(st, sr, src.idx + src.off, n)
                bs = s.cell_bytes(st, sr, src.idx + src.off, n)
                if bs is None: raise Undecided('memcpy from non-byte object %s' % sr)
                bs = [z(b) for b in bs]
                def nf(k):
                    e = fn(k)
                    for j, b in enumerate(bs): e = z3.If(k == di + j, b, e)
                    return e
                rs.arr[0] = (1, nf)
                return True
            raise Undecided('memcpy %s -> bytes' % sr)
        if sr.kind == 'arr' and sr.elemsize == 1 and dr.kind == 'cells':
            if not isint(n) or not isint(dst.idx): raise Undecided('memcpy of symbolic size into object %s' % dr)
            sfn = st.mem[sr].arr[0][1]
            si = z(src.idx)
            s.setcell(st, dr, dst.idx + dst.off, n, Lump([sfn(si + k) if k else sfn(si) for k in range(n)]))
            return True
        if dr.kind == 'arr' and sr.kind == 'arr' and dr.elemsize == sr.elemsize and dst.off == 0 and src.off == 0 and set(st.mem[dr].arr) == set(st.mem[sr].arr) and all(st.mem[dr].arr[o][0] == st.mem[sr].arr[o][0] for o in st.mem[dr].arr):
            m = fresh('elements')
            s.oblige(st, 'whole elements are copied', z(n) % sr.elemsize == 0, 'safety')
            st.assume(m >= 0, m * sr.elemsize == z(n))
            srs, rs = st.mem[sr], st.rw(dr)
            di, si = z(dst.idx), z(src.idx)
            for fo, (fty, fn) in list(rs.arr.items()):
                sfn = srs.arr[fo][1]
                rs.arr[fo] = (fty, lambda k, fn=fn, sfn=sfn: z3.If(z3.And(k >= di, k < di + m), sfn(k - di + si), fn(k)))
                st.log((dr, 'arr', fo))
            return True
        if dr.kind == 'arr' and sr.kind == 'cells' and isint(n) and n <= dr.elemsize:
            rs = st.rw(dr)
            for fo, (fty, fn) in list(rs.arr.items()):
                if not (dst.off <= fo < dst.off + n): continue
                c = st.mem[sr].cells.get(src.idx + src.off + fo - dst.off)
                if c is None: raise Undecided('memcpy of uninitialised element')
                x = c[1]
                e = x.e if isinstance(x, (ValV, FloatV)) else z(x.u())
                idx = z(dst.idx)
                rs.arr[fo] = (fty, lambda k, fn=fn, idx=idx, e=e: z3.If(k == idx, e, fn(k)))
                st.log((dr, 'arr', fo))
            return True
        if sr.kind == 'arr' and dr.kind == 'cells' and isint(n) and n <= sr.elemsize:
            for fo, (fty, fn) in st.mem[sr].arr.items():
                if src.off <= fo < src.off + n:
                    s.setcell(st, dr, dst.idx + dst.off + fo - src.off, *s.elemcell(fty, fn(z(src.idx)), sr.elemsize))
            return True
        raise Undecided('memcpy %s(%s) -> %s(%s)' % (sr, sr.kind, dr, dr.kind))

    def byte_sel(s, v, j, es):
        e = v % 256
        r = (v / (1 << (8 * (es - 1)))) % 256
        for q in range(es - 2, -1, -1):
            r = z3.If(j == q, (v / (1 << (8 * q))) % 256 if q else v % 256, r)
        return r

    def elemcell(s, fty, e, es):
        if fty == 'val': return (4 if es > 4 else es), ValV(e)
        if fty == 'fl': return es, FloatV('double', e)
        return fty, IntV(fty * 8, e)

    def materialise(s, st, reg, off):
        if reg.ty is None: return False
        for o, t in s.mod.fields(reg.ty):
            if o == off:
                v, fs = s.symbolic(t, '%s.%d' % (reg.name, o))
                st.assume(*fs)
                st.rw(reg).cells[o] = (s.mod.size(t), v)
                return True
        return False

    def materialise_range(s, st, reg, o, n):
        if reg.ty is None: return
        for oo, t in s.mod.fields(reg.ty):
            if o <= oo < o + n and oo not in st.mem[reg].cells: s.materialise(st, reg, oo)

    def kill(s, st, reg):
        st.rw(reg).alive = False
        st.log((reg, 'alive'))

    # ---------- arithmetic
    def truth(s, v):
        if isinstance(v, BoolV): return v.b
        if isinstance(v, IntV): return Not(Eq(v.u(), 0))
        if v is UNDEF: raise Undecided('branch on uninitialised value')
        raise Undecided('truth of %r' % (v,))

    def toint(s, v, w=None):
        if isinstance(v, IntV): return v
        if isinstance(v, BoolV): return IntV(w or 1, int(v.b) if isinstance(v.b, bool) else z3.If(v.b, 1, 0))
        if v is UNDEF: raise Undecided('arithmetic on uninitialised value')
        raise Undecided('integer expected: %r' % (v,))

    def binop(s, st, op, a, b, w, flags):
        M = 1 << w
        if isinstance(a, FnPtr) and op == 'and' and isinstance(b, IntV) and b.e == 1: return IntV(w, 0)     # functions are aligned: the virtual bit of a member pointer
        if isinstance(a, PDiff) or isinstance(b, PDiff):
            if op in ('sdiv', 'ashr') and isinstance(b, IntV) and isint(b.e):
                d = b.e if op == 'sdiv' else 1 << b.e
                return a.div(d)
            raise Undecided('pointer difference arithmetic')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.reg is not b.reg: raise Undecided('difference of unrelated pointers')
                return PDiff(w, z(a.idx) - z(b.idx), a.off - b.off, a.reg.elemsize if a.reg is not None and a.reg.kind == 'arr' else 1).simp()
            raise Undecided('integer arithmetic on pointer')
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            if op == 'and': return BoolV(And(a.b, b.b))
            if op == 'or': return BoolV(Or(a.b, b.b))
            if op == 'xor':
                if isinstance(b.b, bool): return BoolV(Not(a.b) if b.b else a.b)
                return BoolV(z3.Xor(a.b if not isinstance(a.b, bool) else z3.BoolVal(a.b), b.b))
        a, b = s.toint(a, w), s.toint(b, w)
        if isint(a.e) and isint(b.e):
            return s.binconst(op, a, b, w)
        if op in ('add', 'sub', 'mul'):
            nsw = 'nsw' in flags
            if nsw or (a.rep == 's' and (b.rep == 's' or isint(b.e))):
                x, y = a.s_(), b.s_()
                r = x + y if op == 'add' else x - y if op == 'sub' else z(x) * y
                h = M >> 1
                if nsw:
                    if s.check_nsw: s.oblige(st, 'signed-overflow(%s i%d)' % (op, w), And(r >= -h, r < h), 'safety')
                    st.assume(r >= -h, r < h)
                    return IntV(w, r, 's')
                if op == 'mul': return s.wrapmul(st, r, w, 's')
                return IntV(w, z3.If(r >= h, r - M, z3.If(r < -h, r + M, r)), 's')
            x, y = a.u(), b.u()
            if op == 'add':
                # adding a "negative" constant is subtraction
                if isint(y) and y >= M >> 1:
                    k = M - y
                    return IntV(w, z3.If(x >= k, x - k, x - k + M))
                r = x + y
                return IntV(w, z3.If(r >= M, r - M, r))
            if op == 'sub':
                if isint(y) and y >= M >> 1:
                    k = M - y
                    return IntV(w, z3.If(x + k >= M, x + k - M, x + k))
                return IntV(w, z3.If(z(x) >= y, z(x) - y, z(x) - y + M))
            return s.wrapmul(st, z(x) * y, w, 'u')
        if op in ('udiv', 'urem'):
            x, y = a.u(), b.u()
            s.oblige(st, 'division-by-zero', Not(Eq(y, 0)), 'safety')
            return IntV(w, z(x) / y if op == 'udiv' else z(x) % y)
        if op in ('sdiv', 'srem'):
            x, y = z(a.s_()), z(b.s_())
            s.oblige(st, 'division-by-zero', y != 0, 'safety')
            ax, ay = z3.If(x < 0, -x, x), z3.If(y < 0, -y, y)
            q = ax / ay
            q = z3.If((x < 0) != (y < 0), -q, q)
            return IntV(w, q, 's') if op == 'sdiv' else IntV(w, x - q * y, 's')
        if op == 'shl' and isint(b.e):
            return IntV(w, (z(a.u()) * (1 << b.e)) % M)
        if op == 'lshr' and isint(b.e):
            return IntV(w, z(a.u()) / (1 << b.e))
        if op == 'ashr' and isint(b.e):
            return IntV(w, z(a.s_()) / (1 << b.e), 's')
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if isint(y.e):
                    k = y.u()
                    if k == 0: return IntV(w, 0)
                    if k & (k + 1) == 0: return IntV(w, z(x.u()) % (k + 1))
                    # single bit
                    if k & (k - 1) == 0:
                        n = k.bit_length() - 1
                        return IntV(w, ((z(x.u()) / k) % 2) * k)
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            x, y = z3.Int2BV(z(a.u()), w), z3.Int2BV(z(b.u()), w)
            r = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
            return IntV(w, z3.BV2Int(r))
        raise Undecided('binop %s' % op)

    def wrapmul(s, st, r, w, rep):
        M = 1 << w
        if not isint(r):
            # no wrap-around, if that follows from the path condition
            q = z3.simplify(r)
            if s.prover.check(st.pc + [Or(q < 0, q >= M)], 1500)[0] == 'unsat': return IntV(w, q, 'u')
        return IntV(w, r % M, 'u')

    def binconst(s, op, a, b, w):
        x, y, sx, sy = a.u(), b.u(), a.s_(), b.s_()
        if op == 'add': r = x + y
        elif op == 'sub': r = x - y
        elif op == 'mul': r = x * y
        elif op == 'udiv': r = x // y
        elif op == 'urem': r = x % y
        elif op == 'sdiv':
            r = abs(sx) // abs(sy); r = -r if (sx < 0) != (sy < 0) else r
        elif op == 'srem':
            r = abs(sx) % abs(sy); r = -r if sx < 0 else r
        elif op == 'and': r = x & y
        elif op == 'or': r = x | y
        elif op == 'xor': r = x ^ y
        elif op == 'shl': r = x << y
        elif op == 'lshr': r = x >> y
        elif op == 'ashr': r = sx >> y
        return IntV(w, r, a.rep)

    def icmp(s, st, pred, a, b):
        if isinstance(a, PDiff): a = a.toint()
        if isinstance(b, PDiff): b = b.toint()
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, IntV) or isinstance(b, IntV): raise Undecided('pointer/integer comparison')
            if a is UNDEF or b is UNDEF: raise Undecided('comparison of uninitialised pointer')
            e = s.ptr_eq(st, a, b)
            if pred == 'eq': return BoolV(e)
            if pred == 'ne': return BoolV(Not(e))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg:
                es = a.reg.elemsize if a.reg is not None and a.reg.kind == 'arr' else 1
                x, y = z(a.idx) * es + a.off, z(b.idx) * es + b.off
                return BoolV({'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred])
            # unrelated objects: the order is unspecified but total
            oa = a.reg.id if a.reg is not None else -1
            ob = b.reg.id if b.reg is not None else -1
            f = z3.Bool('ptrless_%d_%d' % (min(oa, ob), max(oa, ob)))
            lt = f if oa < ob else z3.Not(f)
            return BoolV({'ult': lt, 'ule': lt, 'ugt': z3.Not(lt), 'uge': z3.Not(lt)}[pred])
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            if pred in ('eq', 'ne'):
                if isinstance(a.b, bool) and isinstance(b.b, bool): r = a.b == b.b
                else: r = z3.BoolVal(a.b) == b.b if isinstance(a.b, bool) else a.b == (z3.BoolVal(b.b) if isinstance(b.b, bool) else b.b)
                return BoolV(r if pred == 'eq' else Not(r))
        a, b = s.toint(a), s.toint(b)
        if pred in ('eq', 'ne'):
            if a.rep == b.rep: x, y = a.e, b.e
            elif isint(b.e): x, y = a.e, (b.s_() if a.rep == 's' else b.u())
            elif isint(a.e): x, y = (a.s_() if b.rep == 's' else a.u()), b.e
            else: x, y = a.u(), b.u()
            r = Eq(x, y)
            return BoolV(r if pred == 'eq' else Not(r))
        if pred[0] == 'u': x, y = a.u(), b.u()
        else: x, y = a.s_(), b.s_()
        if not (isint(x) and isint(y)): x, y = z(x), z(y)
        r = {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
        return BoolV(r)

    def cast(s, st, op, v, fty, tty):
        if op in ('bitcast', 'addrspacecast'): return v
        if v is UNDEF: return UNDEF
        if op == 'ptrtoint': return v
        if op == 'inttoptr':
            if isinstance(v, (Ptr, FnPtr)): return v
            if isinstance(v, IntV) and isint(v.e): return Ptr(None, 0, v.u())
            raise Undecided('inttoptr')
        if op == 'zext':
            if isinstance(v, BoolV):
                return IntV(tty.w, int(v.b) if isinstance(v.b, bool) else z3.If(v.b, 1, 0))
            return IntV(tty.w, v.u())
        if op == 'sext':
            if isinstance(v, BoolV):
                return IntV(tty.w, (-1 if v.b else 0) if isinstance(v.b, bool) else z3.If(v.b, -1, 0), 's')
            return IntV(tty.w, v.s_(), 's')
        if op == 'trunc':
            if isinstance(v, PDiff): v = v.toint()
            if tty.w == 1:
                if isinstance(v, BoolV): return v
                u = v.u()
                return BoolV(bool(u & 1) if isint(u) else s.odd(u))
            if isint(v.e): return IntV(tty.w, v.u(), v.rep)
            return IntV(tty.w, z(v.u()) % (1 << tty.w))
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, BoolV): v = IntV(1, int(v.b) if isinstance(v.b, bool) else z3.If(v.b, 1, 0))
            x = v.s_() if op == 'sitofp' else v.u()
            return FloatV(tty.k, z3.Function('fl_of_int_' + tty.k, I, Fl)(z(x)))
        if op in ('fptosi', 'fptoui'):
            e = z3.Function('int_of_fl_%d' % tty.w, Fl, I)(v.e)
            h = 1 << tty.w
            st.assume(e >= (-(h >> 1) if op == 'fptosi' else 0), e < (h >> 1 if op == 'fptosi' else h))
            f = getattr(getattr(s, 'task', None), 'fp2int', None)
            if f: f(s, st, v.e, e, tty.w, op == 'fptosi')
            return IntV(tty.w, e, 's' if op == 'fptosi' else 'u')
        if op in ('fpext', 'fptrunc'):
            return FloatV(tty.k, z3.Function('%s_%s_%s' % (op, fty.k, tty.k), Fl, Fl)(v.e))
        raise Undecided('cast ' + op)

    def odd(s, u):
        # the common case If(b,1,0)
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(u.arg(1)) and z3.is_int_value(u.arg(2)):
            t, f = u.arg(1).as_long() & 1, u.arg(2).as_long() & 1
            if t and not f: return u.arg(0)
            if f and not t: return z3.Not(u.arg(0))
        return u % 2 == 1

    # ---------- calls
    def lookup(s, dem):
        if dem in s.ccache: return s.ccache[dem]
        r = None
        for rx, h in s.contracts:
            if rx.search(dem):
                r = (rx.pattern, h); break
        s.ccache[dem] = r
        return r

    def call(s, st, fname, args, ins, depth):
        """-> list of Outcome"""
        f = s.mod.funcs.get(fname)
        dem = f.dem if f else fname
        if fname.startswith('@llvm.'):
            return s.intrinsic(st, fname, args, ins)
        c = s.lookup(dem)
        if c is not None:
            s.used_contracts[c[0]] = s.used_contracts.get(c[0], 0) + 1
            r = c[1](s, st, CallInfo(dem, f, args, ins, depth))
            if r is None: return [Outcome('ret', st, UNDEF)]
            if isinstance(r, (IntV, Ptr, BoolV, FloatV, FnPtr)): return [Outcome('ret', st, r)]
            if r is not INLINE: return r
        if f is None or not f.defined:
            raise Undecided('no contract for external function %s' % dem)
        if depth > 40: raise Undecided('call depth (recursion without contract) at %s' % dem)
        s.inlined.add(dem)
        return s.run(st, f, args, depth + 1, ins)

    def intrinsic(s, st, name, args, ins):
        R = lambda v=None: [Outcome('ret', st, v)]
        if name.startswith('@llvm.memcpy') or name.startswith('@llvm.memmove'):
            n = args[2].u()
            if not s.memcpy(st, args[0], args[1], n): return []
            return R()
        if name.startswith('@llvm.memset'):
            n = args[2].u()
            if isint(n):
                p = args[0]
                if n == 0: return R()
                if s.access(st, p, n, 'memset') is None: return []
                if p.reg.kind == 'cells' and isint(p.idx):
                    ty = p.reg.ty
                    done = False
                    base = p.idx + p.off
                    if isint(args[1].e):
                        v = args[1].u()
                        leaves = [(o, t) for o, t in s.mod.fields(ty) if base <= o < base + n] if ty is not None else []
                        if leaves and v == 0:
                            for o, t in leaves: s.setcell(st, p.reg, o, s.mod.size(t), s.zero(t))
                            return R()
                        if n <= 4096:
                            rs = st.rw(p.reg)
                            if v == 0 and n in (1, 2, 4, 8): s.setcell(st, p.reg, base, n, IntV(8 * n, 0))
                            elif v == 0 and n % 8 == 0:
                                for k in range(0, n, 8): s.setcell(st, p.reg, base + k, 8, IntV(64, 0))
                            else:
                                for k in range(n): s.setcell(st, p.reg, base + k, 1, IntV(8, v))
                            return R()
            raise Undecided('memset')
        if name.startswith('@llvm.lifetime') or name.startswith('@llvm.dbg') or name.startswith('@llvm.assume') or name.startswith('@llvm.experimental.noalias'): return R()
        if name.startswith('@llvm.eh.typeid.for'):
            g = ins.args[0]
            return R(TypeId(g.v if isinstance(g, Const) and g.kind == 'global' else None))
        if name.startswith('@llvm.va_start'):
            s.va_start(st, args[0], s.cur_frame)
            return R()
        if name.startswith('@llvm.va_end'): return R()
        if name.startswith('@llvm.trap'): 
            s.oblige(st, 'trap', False, 'safety'); return []
        if name.startswith('@llvm.stacksave') : return R(NULL)
        if name.startswith('@llvm.stackrestore') : return R()
        if name.startswith('@llvm.umul.with.overflow'):
            w = args[0].w
            r = z(args[0].u()) * args[1].u()
            return R(AggV([IntV(w, r % (1 << w)), BoolV(r >= (1 << w))]))
        if name.startswith('@llvm.uadd.with.overflow'):
            w = args[0].w
            r = z(args[0].u()) + args[1].u()
            return R(AggV([IntV(w, z3.If(r >= (1 << w), r - (1 << w), r)), BoolV(r >= (1 << w))]))
        if name.startswith('@llvm.is.fpclass') and isint(args[1].e):
            Fl = args[0].e.sort()
            e, m = args[0].e, args[1].u()
            # nan, inf as uninterpreted, mutually exclusive classes of a value
            nan, inf = z3.Function('isnan', Fl, z3.BoolSort())(e), z3.Function('isinf', Fl, z3.BoolSort())(e)
            st.assume(z3.Not(z3.And(nan, inf)))
            if m == 3: return R(BoolV(nan))
            if m == 0x204: return R(BoolV(inf))
        raise Undecided('intrinsic ' + name)

    # ---------- function execution
    def run(s, st, f, args, depth=0, ins=None):
        fr = Frame(f, depth)
        env = {}
        for (n, t, a), v in zip(f.params, args):
            env[n] = v
        if f.vararg: fr.varargs = args[len(f.params):]
        for (n, t, a), v in zip(f.params, args):
            if 'byval' in a and isinstance(v, Ptr):
                r = s.alloc(st, 'byval' + n, 'cells', size=s.mod.size(a['byval']), ty=a['byval'])
                s.memcpy(st, Ptr(r), v, s.mod.size(a['byval']))
                env[n] = Ptr(r)
        entry = f.order[0]
        outs = []
        saved = s.loc
        savedf = getattr(s, 'cur_frame', None)
        work = [(entry.name, None, env, st, {})]
        outs = s.drive(fr, work)
        s.loc = saved
        s.cur_frame = savedf
        return outs

    def drive(s, fr, work):
        """run a worklist of (block, prev, env, st, loops) to completion -> outcomes"""
        outs = []
        loops = find_loops(fr.fn)
        n = 0
        while work:
            blk, prev, env, st, lst = work.pop()
            n += 1
            if n > s.maxpaths: raise Undecided('too many paths in %s' % fr.fn.dem[:80])
            # leave loops we are no longer inside
            if lst and any(blk not in loops[h] for h in lst):
                lst = {h: v for h, v in lst.items() if blk in loops[h]}
            if blk in loops:
                h = blk
                if h not in lst:
                    # fresh entry into loop
                    if (fr.fn.name, h) in s.cutset:
                        res = s.cut(fr, h, prev, env, st, lst)
                        outs += res[0]
                        work += res[1]
                        continue
                    # speculative unrolling
                    snap = st.fork()
                    lst2 = dict(lst)
                    lst2[h] = ('unroll', 0)
                    nobl = len(s.obls)
                    try:
                        o, w = s.drive_until_exit(fr, h, loops[h], (blk, prev, dict(env), st, lst2), loops)
                        outs += o
                        work += w
                        continue
                    except NeedCut as e:
                        if e.key != (fr.fn.name, h): raise
                        del s.obls[nobl:]
                        s.cutset.add(e.key)
                        work.append((blk, prev, env, snap, lst))
                        continue
            s.step(fr, blk, prev, env, st, lst, work, outs, loops)
        return outs

    def drive_until_exit(s, fr, h, body, item, loops):
        """unroll loop h; collect paths that leave the loop"""
        outs = []
        leaving = []
        work = [item]
        n = 0
        while work:
            blk, prev, env, st, lst = work.pop()
            n += 1
            if n > s.maxpaths or len(leaving) > getattr(s.task, 'cut_after', 1 << 30): raise NeedCut((fr.fn.name, h))
            if blk not in body:
                lst = {k: v for k, v in lst.items() if k != h}
                leaving.append((blk, prev, env, st, lst))
                continue
            if lst and any(blk not in loops[x] for x in lst):
                lst = {x: v for x, v in lst.items() if blk in loops[x]}
            if blk in loops and blk not in lst:
                if (fr.fn.name, blk) in s.cutset:
                    o, w = s.cut(fr, blk, prev, env, st, lst)
                    outs += o; work += w
                    continue
                snap = st.fork()
                lst2 = dict(lst); lst2[blk] = ('unroll', 0)
                nobl = len(s.obls)
                try:
                    o, w = s.drive_until_exit(fr, blk, loops[blk], (blk, prev, dict(env), st, lst2), loops)
                    outs += o; work += w
                except NeedCut as e:
                    if e.key != (fr.fn.name, blk): raise
                    del s.obls[nobl:]
                    s.cutset.add(e.key)
                    work.append((blk, prev, env, snap, lst))
                continue
            if blk == h and prev in body and item[1] != prev:
                k = lst[h][1] + 1
                if k > s.maxunroll: raise NeedCut((fr.fn.name, h))
                lst = dict(lst); lst[h] = ('unroll', k)
            s.step(fr, blk, prev, env, st, lst, work, outs, loops)
        return outs, leaving

    def phis(s, fr, blk, prev, env, st):
        b = fr.fn.blocks[blk]
        new = {}
        for ins in b.ins:
            if ins.op != 'phi': break
            for v, pb in ins.inc:
                if pb == prev:
                    new[ins.res] = s.ev(st, env, v)
                    break
            else:
                if prev is not None and prev.endswith('entry!'): 
                    for v, pb in ins.inc:
                        if pb not in fr.fn.blocks: new[ins.res] = s.ev(st, env, v)
        return new

    def step(s, fr, blk, prev, env, st, lst, work, outs, loops, skipphi=False):
        b = fr.fn.blocks[blk]
        s.cur_frame = fr
        if not skipphi:
            new = s.phis(fr, blk, prev, env, st)
            env.update(new)
        s.exec_block(fr, b, 0, env, st, lst, work, outs, loops)

    def exec_block(s, fr, b, i, env, st, lst, work, outs, loops):
        f = fr.fn
        while i < len(b.ins):
            ins = b.ins[i]
            op = ins.op
            i += 1
            s.loc = '%s:%s' % (os.path.basename(f.file or '?'), ins.line)
            if op == 'phi': continue
            if op in ('call', 'invoke'):
                s.cur_frame = fr
                res = s.do_call(fr, ins, env, st)
                s.cur_frame = fr
                if not res: return
                for k, o in enumerate(res):
                    env2 = env if k == len(res) - 1 else dict(env)
                    if o.kind == 'ret':
                        if ins.res: env2[ins.res] = o.val
                        if op == 'invoke':
                            work.append((ins.normal, b.name, env2, o.st, lst))
                        elif len(res) == 1:
                            st = o.st
                        else:
                            # continue the block for each outcome
                            s.exec_block(fr, b, i, env2, o.st, lst, work, outs, loops)
                    else:
                        if op == 'invoke':
                            self_env = env2
                            self_env['!exc'] = o.val
                            work.append((ins.unwind, b.name, self_env, o.st, lst))
                        else:
                            outs.append(Outcome('throw', o.st, o.val))
                if op == 'invoke' or len(res) > 1 or res[0].kind != 'ret': return
                continue
            if op == 'ret':
                outs.append(Outcome('ret', st, s.ev(st, env, ins.val) if ins.val is not None else None))
                return
            if op == 'br':
                if ins.cond is None:
                    work.append((ins.t, b.name, env, st, lst))
                    return
                c = s.truth(s.ev(st, env, ins.cond))
                if not isinstance(c, bool):
                    c2 = z3.simplify(c)
                    if z3.is_true(c2): c = True
                    elif z3.is_false(c2): c = False
                if isinstance(c, bool):
                    work.append((ins.t if c else ins.f, b.name, env, st, lst))
                    return
                tf = s.prover.feasible(st.pc + [c])
                ff = s.prover.feasible(st.pc + [z3.Not(c)]) if tf else True
                if tf and ff:
                    # exit test of an unrolled loop undecided?
                    for h, v in lst.items():
                        if v[0] == 'unroll' and ((ins.t in loops[h]) != (ins.f in loops[h])) and not s.is_throw_exit(f, ins, loops[h]):
                            raise NeedCut((f.name, h))
                    st2 = st.fork()
                    st2.assume(z3.Not(c)); st2.trace.append((s.loc, False))
                    work.append((ins.f, b.name, dict(env), st2, lst))
                    st.assume(c); st.trace.append((s.loc, True))
                    work.append((ins.t, b.name, env, st, lst))
                elif tf:
                    st.assume(c)
                    work.append((ins.t, b.name, env, st, lst))
                else:
                    st.assume(z3.Not(c))
                    work.append((ins.f, b.name, env, st, lst))
                return
            if op == 'switch':
                v = s.toint(s.ev(st, env, ins.val))
                if isint(v.e):
                    for c, t in ins.cases:
                        if s.const(st, c).u() == v.u():
                            work.append((t, b.name, env, st, lst)); return
                    work.append((ins.default, b.name, env, st, lst)); return
                neg = []
                for c, t in ins.cases:
                    cc = s.const(st, c)
                    e = Eq(v.e, cc.s_() if v.rep == 's' else cc.u())
                    neg.append(z3.Not(e))
                    if s.prover.feasible(st.pc + [e]):
                        st2 = st.fork(); st2.assume(e); st2.trace.append((s.loc, 'case %s' % cc.e))
                        work.append((t, b.name, dict(env), st2, lst))
                if s.prover.feasible(st.pc + neg):
                    st.assume(*neg); st.trace.append((s.loc, 'default'))
                    work.append((ins.default, b.name, env, st, lst))
                return
            if op == 'unreachable':
                if s.record: s.oblige(st, 'unreachable-reached', False, 'safety')
                return
            if op == 'resume':
                outs.append(Outcome('throw', st, env['!exc']))
                return
            if op == 'landingpad':
                exc = env.get('!exc')
                if exc is None: raise Undecided('landingpad without exception')
                sel = None
                for kind, c in ins.clauses:
                    if kind != 'catch': raise Undecided('exception filter')
                    if isinstance(c, Const) and c.kind == 'null': sel = TypeId(None); break
                    if s.exc_matches(exc, c.v): sel = TypeId(c.v); break
                if sel is None:
                    if not ins.cleanup:
                        outs.append(Outcome('throw', st, exc)); return
                    sel = TypeId('!none')
                st.ghost['landed'] = exc
                env[ins.res] = AggV([exc.ptr, sel])
                continue
            try: r = s.simple(fr, ins, env, st)
            except SelectFork as sf:
                if op != 'select': raise Undecided('select between %r and %r' % (sf.a, sf.b))
                st2, env2 = st.fork(), dict(env)
                st2.assume(z3.Not(sf.c)); st2.trace.append((s.loc, False))
                env2[ins.res] = sf.b
                if s.prover.feasible(st2.pc): s.exec_block(fr, b, i, env2, st2, lst, work, outs, loops)
                st.assume(sf.c); st.trace.append((s.loc, True))
                if not s.prover.feasible(st.pc): return
                r = sf.a
            if r is False: return
            if ins.res: env[ins.res] = r
        raise Undecided('block fell through')

    def is_throw_exit(s, f, ins, body):
        return False

    def exc_matches(s, exc, tinfo):
        if exc.ty == tinfo: return True
        return tinfo in s.bases(exc.ty)

    def bases(s, ti, seen=None):
        """base typeinfos from the IR's typeinfo globals (plus the std exception hierarchy)"""
        std = {'@_ZTISt13runtime_error': ['@_ZTISt9exception'], '@_ZTISt11logic_error': ['@_ZTISt9exception'], '@_ZTISt9bad_alloc': ['@_ZTISt9exception'], '@_ZTISt12length_error': ['@_ZTISt11logic_error', '@_ZTISt9exception'], '@_ZTISt12out_of_range': ['@_ZTISt11logic_error', '@_ZTISt9exception'], '@_ZTISt8bad_cast': ['@_ZTISt9exception']}
        r = set(std.get(ti, []))
        t = s.mod.globals.get(ti)
        if t:
            for m in re.findall(r'@(?:"[^"]*"|[-\w$.]+)', t):
                if m.startswith('@_ZTI') and m != ti:
                    r.add(m)
                    r |= s.bases(m)
        return r

    def simple(s, fr, ins, env, st):
        op = ins.op
        ev = lambda o: s.ev(st, env, o)
        if op == 'alloca':
            sz = s.mod.size(ins.ty)
            if ins.n is not None:
                n = ev(ins.n)
                if not (isinstance(n, IntV) and isint(n.e)): raise Undecided('variable alloca')
                sz *= n.u()
            r = s.alloc(st, 'local ' + ins.res[1:], 'cells', size=sz, ty=ins.ty)
            return Ptr(r)
        if op == 'load':
            v = s.load(st, ev(ins.ptr), ins.ty)
            if v is None: return False
            return v
        if op == 'store':
            return s.store(st, ev(ins.ptr), ev(ins.val), ins.val.ty) or False
        if op == 'getelementptr':
            return s.gep(st, ins.sty, [ev(o) for o in ins.ops])
        if op == 'icmp':
            a, b = ev(ins.a), ev(ins.b)
            if isinstance(a, TypeId) and isinstance(b, TypeId): return BoolV(a.n == b.n)
            return s.icmp(st, ins.pred, a, b)
        if op in BINS:
            if op[0] == 'f':
                a, b = ev(ins.a), ev(ins.b)
                return FloatV(a.k, z3.Function('%s_%s' % (op, a.k), Fl, Fl, Fl)(a.e, b.e))
            return s.binop(st, op, ev(ins.a), ev(ins.b), ins.ty.w, ins.flags)
        if op == 'fneg':
            a = ev(ins.a)
            return FloatV(a.k, z3.Function('fneg_' + a.k, Fl, Fl)(a.e))
        if op == 'fcmp':
            a, b = ev(ins.a), ev(ins.b)
            if ins.pred in ('true',): return BoolV(True)
            return BoolV(z3.Function('fcmp_%s' % ins.pred, Fl, Fl, B)(a.e, b.e))
        if op in CASTS: return s.cast(st, op, ev(ins.a), ins.sty, ins.ty)
        if op == 'select':
            c = s.truth(ev(ins.c))
            a, b = ev(ins.a), ev(ins.b)
            if isinstance(c, bool): return a if c else b
            return s.ite(st, c, a, b)
        if op == 'extractvalue':
            v = ev(ins.agg)
            for k in ins.idx: v = v.items[k]
            return v
        if op == 'insertvalue':
            v = ev(ins.agg)
            x = ev(ins.val)
            return s.insval(v, ins.agg.ty, ins.idx, x)
        if op == 'freeze': return ev(ins.a)
        raise Undecided('instruction %s' % ins.text.strip()[:120])

    def insval(s, v, ty, idx, x):
        t = ty.res() if isinstance(ty, TNamed) else ty
        n = len(t.ts) if isinstance(t, TStruct) else t.n
        items = list(v.items) if isinstance(v, AggV) else [UNDEF] * n
        if len(idx) == 1: items[idx[0]] = x
        else: items[idx[0]] = s.insval(items[idx[0]], t.ts[idx[0]] if isinstance(t, TStruct) else t.t, idx[1:], x)
        return AggV(items)

    def ite(s, st, c, a, b):
        if isinstance(a, IntV) and isinstance(b, IntV):
            if a.rep == b.rep: return IntV(a.w, z3.If(c, z(a.e), z(b.e)), a.rep)
            return IntV(a.w, z3.If(c, z(a.u()), z(b.u())))
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            tb = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
            return BoolV(z3.If(c, tb(a.b), tb(b.b)))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg and a.off == b.off:
            return Ptr(a.reg, z3.If(c, z(a.idx), z(b.idx)), a.off)
        if isinstance(a, FloatV): return FloatV(a.k, z3.If(c, a.e, b.e))
        if a is UNDEF and b is UNDEF: return UNDEF
        raise SelectFork(c, a, b)

    def do_call(s, fr, ins, env, st):
        if isinstance(ins.fn, Const) and ins.fn.kind == 'asm': raise Undecided('inline asm')
        args = [s.ev(st, env, a) if not isinstance(a.ty, TMeta) else UNDEF for a in ins.args]
        if isinstance(ins.fn, Local):
            fp = s.ev(st, env, ins.fn)
            if not isinstance(fp, FnPtr): raise Undecided('indirect call through %r' % (fp,))
            name = fp.name
        else: name = ins.fn.v
        return s.call(st, name, args, ins, fr.depth)

    # ---------- loop cutting
    def cut(s, fr, h, prev, env, st, lst):
        """loop h entered from prev.  Returns (outcomes, leaving work items)"""
        f = fr.fn
        loops = find_loops(f)
        body = loops[h]
        where = '%s:%s' % (os.path.basename(f.file or '?'), next((i.line for i in f.blocks[h].ins if i.line), None))
        entry_phis = s.phis(fr, h, prev, env, st)
        modset = set()
        rec = s.record
        entry_regs = set(st.mem)
        # -- discover what the loop writes
        for rnd in range(6):
            st2, ph2 = s.havoc(st, entry_phis, modset, fr)
            s.record = False
            wl = set()
            st2.wlog = wl
            try:
                o, w, backs = s.loop_body(fr, h, body, dict(env), ph2, st2, lst, loops)
            finally:
                s.record = rec
            new = set(m for m in wl if m[0] in entry_regs or (m[0] == 'ghost' and not (isinstance(m[1], str) and m[1].startswith('stream') and m[1] not in st.ghost)))
            new = s.normmod(new)
            if new <= modset: break
            modset |= new
        else:
            raise Undecided('loop frame did not stabilise at %s' % where)
        # -- Houdini over candidates
        hst, hph = s.havoc(st, entry_phis, modset, fr)
        ctx0 = LoopCtx(s, st, entry_phis, st, entry_phis, fr)
        ctxh = LoopCtx(s, hst, hph, st, entry_phis, fr)
        for c in (ctx0, ctxh): c.modset, c.at_entry = modset, ctx0
        cands = []
        auto = s.autocands(ctxh)
        for nm, fn in auto + (s.loopcands(ctxh) if s.loopcands else []):
            f0 = fn(ctx0)
            if f0 is None: continue
            if s.candproof(nm, st.pc, f0): cands.append((nm, fn))
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12: raise Undecided('Houdini rounds')
            s1 = hst.fork()
            s1.wlog = None
            for nm, fn in cands:
                g = fn(ctxh)
                if g is not None: s1.assume(g)
            s.record = False
            try:
                o, w, backs = s.loop_body(fr, h, body, dict(env), dict(hph), s1.fork(), lst, loops)
            finally:
                s.record = rec
            bad = set()
            for bst, bph in backs:
                cb = LoopCtx(s, bst, bph, st, entry_phis, fr)
                cb.modset, cb.at_entry = modset, ctx0
                for k, (nm, fn) in enumerate(cands):
                    if k in bad: continue
                    g = fn(cb)
                    if g is None:
                        bad.add(k); continue
                    if not s.candproof(nm, bst.pc, g): bad.add(k)
            if not bad: break
            cands = [c for k, c in enumerate(cands) if k not in bad]
        # -- final pass: record obligations
        for nm, fn in cands:
            s.loc = where
            s.oblige(st, 'loop-invariant-entry[%s]' % nm, fn(ctx0), 'inv')
        s1 = hst.fork()
        s1.wlog = st.wlog
        for nm, fn in cands:
            g = fn(ctxh)
            if g is not None: s1.assume(g)
        s1.trace.append((where, 'loop'))
        # reachability of loop state
        o, w, backs = s.loop_body(fr, h, body, dict(env), dict(hph), s1, lst, loops)
        for bst, bph in backs:
            cb = LoopCtx(s, bst, bph, st, entry_phis, fr)
            cb.modset, cb.at_entry = modset, ctx0
            s.loc = where
            for nm, fn in cands: s.oblige(bst, 'loop-invariant-preserved[%s]' % nm, fn(cb), 'inv')
            for k in set(hst.ghost) | set(bst.ghost):       # ghost state the loop changes without an invariant about it
                if k in ('landed', 'caught') or ('ghost', k) in modset: continue
                if isinstance(k, tuple) and (k[0] == 'view' or any(isinstance(x, Region) and x not in hst.mem for x in k)): continue
                if isinstance(k, str) and k.startswith('stream') and k not in hst.ghost: continue      # a stream created in the loop
                a, b = hst.ghost.get(k), bst.ghost.get(k)
                if a is b or (z3.is_expr(a) and z3.is_expr(b) and a.eq(b)): continue
                if not z3.is_expr(a) and not z3.is_expr(b) and a == b: continue
                raise Undecided('loop changes ghost state %s' % (k,))
            for m in modset:
                if m[0] != 'ghost' and m[1] == 'cell':
                    a, b = hst.mem[m[0]].cells.get(m[2]), bst.mem[m[0]].cells.get(m[2])
                    if a is not None and (b is None or not s.same_shape(a[1], b[1])): raise Undecided('loop changes the shape of %s+%d' % (m[0], m[2]))
        # termination: some candidate measure decreases on every back edge
        self_ok = s.termination(ctxh, s1, backs, st, entry_phis, fr)
        s.loopinfo.append({'where': where, 'invariants': [nm for nm, _ in cands], 'terminates': self_ok})
        if st.wlog is not None: st.wlog |= modset
        return o, w

    def candproof(s, nm, pc, g):
        if nm.startswith('in '): return s.prover.prove_light(pc, g)
        return s.prover.prove(pc, g)[0] == 'proved'

    def termination(s, ctxh, s1, backs, st, entry_phis, fr):
        """look for an integer measure; purely informative unless task.require_termination"""
        return None

    def normmod(s, mods):
        out = set()
        for m in mods: out.add(m)
        return out

    def autocands(s, ctx):
        """generic candidates: every loop-carried integer is >= its entry value / <= a bound it is compared to"""
        out = []
        for nm, v in ctx.phis.items():
            if isinstance(v, IntV) and not isint(v.e):
                rep = v.rep
                def ge(c, nm=nm):
                    x, y = c.phis[nm], c.entry_phis[nm]
                    return z(x.s_() if rep == 's' else x.u()) >= z(y.s_() if rep == 's' else y.u())
                out.append(('%s>=entry' % nm[1:], ge))
                if v.w == 8: out.append(('%s is a bool' % nm[1:], lambda c, nm=nm: z(c.phis[nm].u()) <= 1))
        # quantities that move in step, or against each other
        def idx(v):
            if isinstance(v, IntV): return z(v.s_() if v.rep == 's' else v.u())
            if isinstance(v, Ptr) and v.reg is not None and v.reg.kind == 'arr': return z(v.idx)
        mov = [nm for nm, v in ctx.phis.items() if idx(v) is not None and not z3.is_int_value(idx(v))]
        for i, a in enumerate(mov[:4]):
            for b in mov[i + 1:4]:
                for sg, lab in ((1, 'in step'), (-1, 'in opposition')):
                    def st(c, a=a, b=b, sg=sg):
                        v = [idx(x) for x in (c.phis[a], c.entry_phis[a], c.phis[b], c.entry_phis[b])]
                        if any(x is None for x in v): return None
                        return v[0] - v[1] == sg * (v[2] - v[3])
                    out.append(('%s(%s,%s)' % (lab, a[1:], b[1:]), st))
        return out

    def havoc(s, st, phis, modset, fr):
        n = st.fork()
        ph = {}
        for k, v in phis.items(): ph[k] = s.havocval(n, v, k[1:])
        for m in sorted(modset, key=lambda m: str(m)):
            if m[0] == 'ghost':
                key = m[1]
                g = n.ghost.get(key)
                n.ghost[key] = g.havoc(s) if isinstance(g, Ghost) else (fresh('g', g.sort()) if g is not None and z3.is_expr(g) else g)
                if isinstance(n.ghost[key], Ghost): n.assume(*getattr(n.ghost[key], 'facts', lambda: [])())
                continue
            reg = m[0]
            rs = n.rw(reg)
            if m[1] == 'cell':
                o = m[2]
                c = rs.cells.get(o)
                if c is not None and c[0] == m[3]: rs.cells[o] = (c[0], s.havocval(n, c[1], '%s.%d' % (reg.name, o)))
                elif c is None:
                    for oo in [oo for oo, cc in rs.cells.items() if oo < o + m[3] and o < oo + cc[0]]: rs.cells[oo] = (rs.cells[oo][0], s.havocval(n, rs.cells[oo][1], 'h'))
                else:
                    for oo in [oo for oo, cc in rs.cells.items() if oo < o + m[3] and o < oo + cc[0]]: rs.cells[oo] = (rs.cells[oo][0], s.havocval(n, rs.cells[oo][1], 'h'))
            elif m[1] == 'arr':
                fty, fn = rs.arr[m[2]]
                srt = Val if fty == 'val' else Fl if fty == 'fl' else I
                A = fresh('%s[]' % reg.name, z3.ArraySort(I, srt))
                rs.arr[m[2]] = (fty, lambda k, A=A: z3.Select(A, k))
                if isinstance(fty, int):
                    kk = z3.Int('k!h')
                    n.assume(z3.ForAll([kk], z3.And(z3.Select(A, kk) >= 0, z3.Select(A, kk) < (1 << (8 * fty))), patterns=[z3.Select(A, kk)]))
            elif m[1] == 'len':
                rs.len = fresh('len')
                n.assume(rs.len >= 0)
            elif m[1] == 'alive':
                raise Undecided('loop frees memory allocated outside')
        return n, ph

    def havocval(s, st, v, name):
        if isinstance(v, IntV):
            e = fresh(name)
            if v.rep == 'u': st.assume(e >= 0, e < (1 << v.w))
            else: st.assume(e >= -(1 << (v.w - 1)), e < (1 << (v.w - 1)))
            return IntV(v.w, e, v.rep)
        if isinstance(v, BoolV): return BoolV(fresh(name, B))
        if isinstance(v, Ptr):
            if v.reg is None: return v      # checked on the back edge
            if v.reg.kind == 'arr': return Ptr(v.reg, fresh(name), v.off)
            return v
        if isinstance(v, FloatV): return FloatV(v.k, fresh(name, Fl))
        if isinstance(v, ValV): return ValV(fresh(name, Val), v.size)
        if isinstance(v, Ghost):
            g = v.havoc(s)
            st.assume(*getattr(g, 'facts', lambda: [])())
            return g
        if isinstance(v, Lump):
            bs = [fresh(name) for _ in v.bs]
            st.assume(*[And(b >= 0, b < 256) for b in bs])
            return Lump(bs)
        if v is UNDEF: return UNDEF
        if isinstance(v, FnPtr): return v
        raise Undecided('havoc of %r' % (v,))

    def same_shape(s, a, b):
        """pointer-valued loop-carried cells must keep their region"""
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.reg is b.reg and a.off == b.off and (a.reg is None or a.reg.kind == 'arr' or (isint(a.idx) and isint(b.idx) and a.idx == b.idx))
        if isinstance(a, FnPtr): return isinstance(b, FnPtr) and a.name == b.name
        return type(a) is type(b) or a is UNDEF

    def loop_body(s, fr, h, body, env, phis, st, lst, loops):
        outs, leaving, backs = [], [], []
        env.update(phis)
        lst2 = dict(lst)
        lst2[h] = ('cut', 0)
        work = []
        s.step(fr, h, None, env, st, lst2, work, outs, loops, skipphi=True)
        n = 0
        hst = st
        while work:
            blk, prev, e, st1, l1 = work.pop()
            n += 1
            if n > s.maxpaths: raise Undecided('too many paths in loop')
            if blk == h:
                nph = s.phis(fr, h, prev, e, st1)
                for k in nph:
                    if not s.same_shape(phis[k], nph[k]): raise Undecided('loop-carried %s changes object' % k)
                backs.append((st1, nph))
                continue
            if blk not in body:
                leaving.append((blk, prev, e, st1, {k: v for k, v in l1.items() if k != h}))
                continue
            if l1 and any(blk not in loops[x] for x in l1):
                l1 = {x: v for x, v in l1.items() if blk in loops[x]}
            if blk in loops and blk not in l1:
                if (fr.fn.name, blk) in s.cutset:
                    o, w = s.cut(fr, blk, prev, e, st1, l1)
                    outs += o; work += w
                    continue
                snap = st1.fork()
                l2 = dict(l1); l2[blk] = ('unroll', 0)
                nobl = len(s.obls)
                try:
                    o, w = s.drive_until_exit(fr, blk, loops[blk], (blk, prev, dict(e), st1, l2), loops)
                    outs += o; work += w
                except NeedCut as ex_:
                    if ex_.key != (fr.fn.name, blk): raise
                    del s.obls[nobl:]
                    s.cutset.add(ex_.key)
                    work.append((blk, prev, e, snap, l1))
                continue
            s.step(fr, blk, prev, e, st1, l1, work, outs, loops)
        return outs, leaving, backs


class PDiff:
    """difference of two pointers into the same region, in bytes = d*es + o"""
    def __init__(s, w, d, o, es): s.w, s.d, s.o, s.es = w, d, o, es

    def simp(s):
        if s.es == 1 and s.o == 0: return IntV(s.w, s.d, 's')
        return s

    def div(s, k):
        if s.o == 0 and s.es % k == 0:
            q = s.es // k
            return IntV(s.w, s.d * q if q != 1 else s.d, 's')
        raise Undecided('pointer difference / %d' % k)

    def toint(s): return IntV(s.w, s.d * s.es + s.o, 's')


class TypeId:
    def __init__(s, n): s.n = n
    def __repr__(s): return 'typeid(%s)' % s.n


class VaList(Ghost):
    size = 24
    def __init__(s, fr, n): s.fr, s.n = fr, n


class CallInfo:
    def __init__(s, dem, f, args, ins, depth): s.dem, s.f, s.args, s.ins, s.depth = dem, f, args, ins, depth


INLINE = object()


# va_start: every variadic argument is presented in the overflow area (as the ABI allows once the
# register save area is exhausted: gp_offset=48, fp_offset=304)
def _va_start(s, st, p, fr):
    n = len(fr.varargs)
    r = s.alloc(st, 'varargs', 'cells', size=8 * n)
    for k, v in enumerate(fr.varargs):
        w = v.w // 8 if isinstance(v, IntV) else 8
        st.rw(r).cells[8 * k] = (w, v)
    o = p.idx + p.off
    s.setcell(st, p.reg, o, 4, IntV(32, 48))
    s.setcell(st, p.reg, o + 4, 4, IntV(32, 304))
    s.setcell(st, p.reg, o + 8, 8, Ptr(r))
    s.setcell(st, p.reg, o + 16, 8, NULL)


Exec.va_start = _va_start
