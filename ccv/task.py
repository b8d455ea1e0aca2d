"""proof tasks: one function under contract each"""
import re, time, z3, os, traceback
import vc, stdlib, stl, front
from vc import *


class Task:
    name = None          # e.g. pack_t::packraw
    func = None          # regex on the demangled name; must match exactly one defined function
    variants = (None,)   # shapes of the precondition
    contracts = ()       # extra [(regex, handler)], take precedence over the library
    loops = None
    must = ('ret',)      # outcome kinds that have to be reachable (vacuity check)
    noloops = False
    axioms = ()
    timeout = 8000
    budget = 120
    assumptions = ()
    check_nsw = True
    optional = False
    ematch = False

    def setup(s, ex, st, variant):
        """build arguments; return list of argument values"""
        raise NotImplementedError

    def post(s, ex, o, variant):
        """emit obligations for outcome o with ex.oblige(o.st, label, formula, 'post')"""
        raise NotImplementedError


class Result:
    def __init__(s, task):
        s.task, s.obls, s.status, s.error = task, [], None, None
        s.contracts, s.inlined, s.loops = {}, set(), []
        s.wall = 0
        s.func = None
        s.stats = {}

    @property
    def ok(s): return s.status == 'proved'


def find_func(M, rx):
    r = re.compile(rx)
    c = [f for f in M.funcs.values() if f.defined and r.search(f.dem)]
    if len(c) > 1:
        # C1/C2 constructor variants: the same source; prefer the one that is not a forwarding thunk
        d = {f.dem for f in c}
        if len(d) == 1:
            c.sort(key=lambda f: -sum(len(b.ins) for b in f.order))
            return c[0]
    if len(c) != 1: raise Undecided('function %r: %d candidates %s' % (rx, len(c), [f.dem[:100] for f in c][:4]))
    return c[0]


def run_task(M, task, budget=120, cross=False, verbose=False):
    R = Result(task)
    t0 = time.time()
    pv = Prover(task.timeout, task.axioms)
    pv.deadline = t0 + budget
    pv.ematch = task.ematch
    R.prover = pv
    try:
        f = find_func(M, task.func)
        R.func = '%s (%s:%s)' % (f.dem, f.file, f.lineno)
        seen = set()
        for variant in task.variants:
            ex = Exec(M, pv, [(re.compile(a), b) for a, b in task.contracts] + stdlib.REG, task.loops)
            ex.check_nsw = task.check_nsw
            ex.task = task
            st = State()
            task.ex = ex
            args = task.setup(ex, st, variant)
            r, _ = pv.check(st.pc)
            if r == 'unsat':
                R.status = 'error'
                R.error = 'vacuous precondition (variant %s)' % variant
                return R
            ex.st0 = st.fork()
            outs = ex.run(st, f, args)
            seen |= {o.kind for o in outs if pv.feasible(o.st.pc)}
            if not outs: raise Undecided('no path completes (variant %s)' % variant)
            for o in outs:
                ex.loc = '%s:%s' % (os.path.basename(f.file or '?'), f.lineno)
                task.post(ex, o, variant)
            for ob in ex.obls:
                ob.variant = variant
                ob.label = ('%s[%s].' % (task.name, variant) if variant else task.name + '.') + ob.label
            R.obls += ex.obls
            for k, v in ex.used_contracts.items(): R.contracts[k] = R.contracts.get(k, 0) + v
            R.inlined |= ex.inlined
            R.loops += ex.loopinfo
        miss = [k for k in task.must if k not in seen]
        if miss: raise Undecided('no reachable %s outcome: obligations would be vacuous' % miss)
        if not R.obls: raise Undecided('no obligations generated')
        bad = []
        for ob in R.obls:
            t = time.time()
            ob.status, ob.backend, ob.model = pv.prove(ob.pc, ob.formula, cross)
            ob.time = time.time() - t
            if ob.status != 'proved':
                # is the path really feasible?
                bad.append(ob)
                if len(bad) >= 8: break
        R.bad = bad
        if bad:
            R.status = 'refuted' if any(b.status == 'refuted' for b in bad) else 'unknown'
        else: R.status = 'proved'
    except (Undecided, NeedCut) as e:
        R.status = 'undecided'
        R.error = '%s%s' % (e, ' at ' + str(ex.loc) if 'ex' in locals() else '')
    except front.FrontError as e:
        R.status = 'undecided'
        R.error = str(e)
    except Exception as e:
        R.status = 'undecided'
        R.error = 'internal: %s\n%s' % (e, traceback.format_exc()[-1500:])
    R.wall = time.time() - t0
    R.stats = pv.stats
    return R


# ---------------------------------------------------------------- helpers for contracts
def frame(ex, o, st0, allowed=(), regs=None, label='frame'):
    """everything that existed before and is not in allowed is unchanged.
    allowed: set of (region, off) / region / (region,'arr')"""
    st1 = o.st
    for reg, rs0 in st0.mem.items():
        if regs is not None and reg not in regs: continue
        if reg in allowed or reg.const: continue
        rs1 = st1.mem[reg]
        if rs0.alive and not rs1.alive:
            ex.oblige(st1, '%s(%s freed)' % (label, reg.name), False, 'frame'); continue
        for off, (sz, v) in rs0.cells.items():
            if (reg, off) in allowed: continue
            c = rs1.cells.get(off)
            if c is not None and c[1] is v: continue
            f = False if c is None or c[0] != sz else valeq(ex, v, c[1])
            ex.oblige(st1, '%s(%s+%d)' % (label, reg.name, off), f, 'frame')
        for off, c in rs1.cells.items():
            if off not in rs0.cells and (reg, off) not in allowed and not reg.lazy:
                ex.oblige(st1, '%s(%s+%d written)' % (label, reg.name, off), False, 'frame')
            elif off not in rs0.cells and (reg, off) not in allowed and reg.lazy and ('w', reg, off) in getattr(ex, 'written', ()):
                ex.oblige(st1, '%s(%s+%d written)' % (label, reg.name, off), False, 'frame')
        if (reg, 'arr') in allowed: continue
        for off, (fty, fn) in rs0.arr.items():
            fn1 = rs1.arr[off][1]
            if fn1 is fn: continue
            k = fresh('k')
            ex.oblige(st1, '%s(%s[])' % (label, reg.name), z3.Implies(And(k >= 0, k < (rs0.len if rs0.len is not None else k + 1)), fn1(k) == fn(k)), 'frame')


def valeq(ex, a, b):
    if a is b: return True
    if isinstance(a, IntV) and isinstance(b, IntV): return Eq(a.u(), b.u())
    if isinstance(a, BoolV) or isinstance(b, BoolV):
        return Eq(ex.toint(a).u(), ex.toint(b).u())
    if isinstance(a, (Ptr, FnPtr)) and isinstance(b, (Ptr, FnPtr)): return ex.ptr_eq(None, a, b)
    if isinstance(a, ValV) and isinstance(b, ValV): return a.e == b.e
    if isinstance(a, FloatV) and isinstance(b, FloatV): return a.e == b.e
    if isinstance(a, stdlib.StrV) and isinstance(b, stdlib.StrV):
        k = fresh('k')
        return And(z(a.ln) == b.ln, z3.Implies(And(k >= 0, k < a.ln), a.fn(k) == b.fn(k)))
    return False
