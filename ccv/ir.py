"""Parser for the subset of textual LLVM-18 IR that clang emits for C++ at -O0 (+mem2reg).

Nothing here interprets the program; the output is a Module of Functions / Blocks / Instrs.
"""
import re, subprocess

TOK = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]*(?:e[+-]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<word>\$?[a-zA-Z_][a-zA-Z0-9_.]*|\$"[^"]*")
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('tok %r' % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        v = m.group()
        if k == 'id':
            if v[1] == '"':
                v = v[0] + v[2:-1]
        out.append((k, v))
    return out


# ---------------------------------------------------------------- types
class Ty:
    pass


class TInt(Ty):
    def __init__(s, w): s.w = w
    def __repr__(s): return 'i%d' % s.w


class TFloat(Ty):
    def __init__(s, k): s.k = k
    def __repr__(s): return s.k


class TPtr(Ty):
    def __repr__(s): return 'ptr'


class TVoid(Ty):
    def __repr__(s): return 'void'


class TMeta(Ty):
    def __repr__(s): return 'metadata'


class TArr(Ty):
    def __init__(s, n, t): s.n, s.t = n, t
    def __repr__(s): return '[%d x %r]' % (s.n, s.t)


class TVec(TArr):
    pass


class TStruct(Ty):
    def __init__(s, ts, packed=False): s.ts, s.packed = ts, packed
    def __repr__(s): return '{%s}' % ', '.join(map(repr, s.ts))


class TNamed(Ty):
    def __init__(s, name, mod): s.name, s.mod = name, mod
    def __repr__(s): return s.name
    def res(s):
        return s.mod.types[s.name]


PTR = TPtr()


class Const:
    """constant operand: kind in int,null,undef,zero,global,float,agg,str,gep,cast"""
    def __init__(s, kind, ty, v=None): s.kind, s.ty, s.v = kind, ty, v
    def __repr__(s): return 'C(%s %r)' % (s.kind, s.v)


class Local:
    def __init__(s, name, ty=None): s.name, s.ty = name, ty
    def __repr__(s): return s.name


class Instr:
    def __init__(s, op, **kw):
        s.op = op
        s.res = None
        s.line = None
        s.text = ''
        s.__dict__.update(kw)
    def __repr__(s): return s.text.strip()


class Block:
    def __init__(s, name):
        s.name, s.ins, s.preds = name, [], []


class Func:
    def __init__(s, name):
        s.name = name
        s.dem = name
        s.blocks = {}
        s.order = []
        s.params = []
        s.ret = None
        s.vararg = False
        s.defined = False
        s.file = None
        s.attrs = ''


LINKAGE = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr
external default hidden protected dso_local dso_preemptable thread_local unnamed_addr local_unnamed_addr constant global
externally_initialized comdat noundef nonnull signext zeroext inreg returned nocapture readonly readnone noalias writeonly
immarg swiftself nest noreturn nounwind tail musttail notail fastcc ccc coldcc inbounds nsw nuw exact disjoint nneg fast nnan
ninf nsz arcp contract afn reassoc volatile atomic allocalign allocptr nofree mustprogress noinline uwtable optnone speculatable
willreturn nosync noundef hot cold writable dead_on_unwind inalloca'''.split())


class P:
    def __init__(s, toks, mod):
        s.t, s.i, s.mod = toks, 0, mod

    def pk(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else (None, None)

    def nx(s):
        r = s.t[s.i]
        s.i += 1
        return r

    def eat(s, v):
        if s.pk()[1] != v or s.pk()[0] == 'str':
            raise SyntaxError('expected %r got %r in %r' % (v, s.pk(), ' '.join(x[1] for x in s.t)[:300]))
        s.i += 1

    def opt(s, v):
        if s.pk()[1] == v and s.pk()[0] != 'str':
            s.i += 1
            return True
        return False

    def done(s):
        return s.i >= len(s.t)

    # types
    def type(s):
        k, v = s.nx()
        if k == 'word':
            if v == 'void': t = TVoid()
            elif v == 'ptr': t = PTR
            elif v == 'metadata': t = TMeta()
            elif re.fullmatch(r'i[0-9]+', v): t = TInt(int(v[1:]))
            elif v in ('float', 'double', 'x86_fp80', 'fp128', 'half'): t = TFloat(v)
            elif v in ('token', 'label', 'opaque'): t = TVoid()
            else: raise SyntaxError('type %r' % v)
        elif v == '[':
            n = int(s.nx()[1]); s.eat('x'); e = s.type(); s.eat(']'); t = TArr(n, e)
        elif v == '{':
            t = TStruct(s.tlist('}'))
        elif v == '<':
            if s.pk()[1] == '{':
                s.nx(); t = TStruct(s.tlist('}'), True); s.eat('>')
            else:
                n = int(s.nx()[1]); s.eat('x'); e = s.type(); s.eat('>'); t = TVec(n, e)
        elif k == 'id' and v[0] == '%':
            t = TNamed(v, s.mod)
        else:
            raise SyntaxError('type %r' % (v,))
        while True:
            if s.pk()[1] == '(' and isinstance(t, (TVoid, TInt, TPtr, TFloat, TNamed, TStruct)) and s._looks_fnty():
                s.nx()
                d = 1
                while d:
                    x = s.nx()[1]
                    d += x == '('
                    d -= x == ')'
                t = ('fn', t)
                break
            if s.pk()[1] == 'addrspace':
                s.nx(); s.eat('('); s.nx(); s.eat(')')
                continue
            break
        return t

    def _looks_fnty(s):
        # a function type in a call is followed, after the closing paren, by @/%
        j = s.i + 1
        d = 1
        while d and j < len(s.t):
            x = s.t[j][1]
            d += x == '('
            d -= x == ')'
            j += 1
        return j < len(s.t) and s.t[j][0] == 'id'

    def tlist(s, end):
        r = []
        if s.opt(end): return r
        while True:
            r.append(s.type())
            if s.opt(end): return r
            s.eat(',')

    def skipattrs(s):
        at = {}
        while True:
            k, v = s.pk()
            if k == 'word' and v in LINKAGE:
                s.nx()
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'allocsize', 'memory', 'range', 'inalloca', 'preallocated', 'byref'):
                s.nx()
                if s.opt('('):
                    if v in ('byval', 'sret', 'elementtype'):
                        at[v] = s.type(); s.eat(')')
                    else:
                        d = 1
                        x = []
                        while d:
                            q = s.nx()[1]
                            d += q == '('
                            d -= q == ')'
                            if d: x.append(q)
                        at[v] = x
                else:
                    s.nx()
            elif k == 'str':
                s.nx()
                if s.opt('='): s.nx()
            elif k == 'attr':
                s.nx()
            else:
                return at

    # values
    def value(s, ty):
        k, v = s.nx()
        if k == 'id':
            return Local(v, ty) if v[0] == '%' else Const('global', ty, v)
        if k == 'num':
            if isinstance(ty, TFloat): return Const('float', ty, v)
            return Const('int', ty, int(v))
        if k == 'str':
            return Const('str', ty, v)
        if k == 'word':
            if v == 'null': return Const('null', ty)
            if v in ('undef', 'poison'): return Const('undef', ty)
            if v == 'zeroinitializer': return Const('zero', ty)
            if v == 'true': return Const('int', ty, 1)
            if v == 'false': return Const('int', ty, 0)
            if v == 'none': return Const('undef', ty)
            if v == 'getelementptr':
                while s.pk()[1] in ('inbounds',) or s.pk()[1] == 'inrange':
                    s.nx()
                s.eat('(')
                st = s.type(); s.eat(',')
                ops = []
                while True:
                    while s.pk()[1] == 'inrange':
                        s.nx()
                        if s.opt('('):
                            while s.nx()[1] != ')': pass
                    t = s.type(); ops.append(s.value(t))
                    if s.opt(')'): break
                    s.eat(',')
                return Const('gep', ty, (st, ops))
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'addrspacecast'):
                s.eat('('); t = s.type(); x = s.value(t); s.eat('to'); t2 = s.type(); s.eat(')')
                return Const('cast', ty, (v, x, t2))
            if v in ('sub', 'add', 'xor', 'mul', 'shl'):
                while s.pk()[1] in ('nsw', 'nuw'): s.nx()
                s.eat('('); t = s.type(); x = s.value(t); s.eat(','); t = s.type(); y = s.value(t); s.eat(')')
                return Const('bin', ty, (v, x, y))
            if v in ('dso_local_equivalent', 'no_cfi'):
                return s.value(ty)
            raise SyntaxError('value %r' % v)
        if v == '{':
            r = s.vals('}')
            return Const('agg', ty, r)
        if v == '[':
            return Const('agg', ty, s.vals(']'))
        if v == '<':
            if s.pk()[1] == '{':
                s.nx(); r = s.vals('}'); s.eat('>')
            else:
                r = s.vals('>')
            return Const('agg', ty, r)
        raise SyntaxError('value %r in %r' % (v, ' '.join(x[1] for x in s.t)[:200]))

    def vals(s, end):
        r = []
        if s.opt(end): return r
        while True:
            t = s.type()
            r.append(s.value(t))
            if s.opt(end): return r
            s.eat(',')

    def tv(s):
        t = s.type()
        s.skipattrs()
        if isinstance(t, TMeta):
            # metadata operand: skip
            d = 0
            while not s.done():
                v = s.pk()[1]
                if d == 0 and v in (',', ')'): break
                d += v in '({'
                d -= v in ')}'
                s.nx()
            return Const('undef', t)
        return s.value(t)


class Module:
    def __init__(s):
        s.types, s.funcs, s.globals = {}, {}, {}
        s.locs = {}

    # layout
    def size(s, t):
        return s.layout(t)[0]

    def align(s, t):
        return s.layout(t)[1]

    def layout(s, t):
        if isinstance(t, TInt):
            b = (t.w + 7) // 8
            p = 1
            while p < b: p *= 2
            return (p if t.w <= 64 else 16), min(p, 16)
        if isinstance(t, TPtr): return 8, 8
        if isinstance(t, TFloat): return {'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16), 'half': (2, 2), 'fp128': (16, 16)}[t.k]
        if isinstance(t, TArr):
            z, a = s.layout(t.t)
            return z * t.n, a
        if isinstance(t, TNamed): return s.layout(t.res())
        if isinstance(t, TStruct):
            off, al = 0, 1
            for e in t.ts:
                z, a = s.layout(e)
                if t.packed: a = 1
                al = max(al, a)
                off = (off + a - 1) // a * a + z
            return (off + al - 1) // al * al, al
        if isinstance(t, TVoid): return 0, 1
        raise TypeError(t)

    def offset(s, t, i):
        if isinstance(t, TNamed): t = t.res()
        off = 0
        for j, e in enumerate(t.ts):
            z, a = s.layout(e)
            if t.packed: a = 1
            off = (off + a - 1) // a * a
            if j == i: return off, e
            off += z
        raise IndexError

    def fields(s, t, base=0):
        """flattened scalar leaves: list of (offset, type)"""
        if isinstance(t, TNamed): return s.fields(t.res(), base)
        if isinstance(t, TStruct):
            r = []
            for i in range(len(t.ts)):
                o, e = s.offset(t, i)
                r += s.fields(e, base + o)
            return r
        if isinstance(t, TArr):
            z = s.size(t.t)
            r = []
            if t.n > 256: return [(base, t)]
            for i in range(t.n): r += s.fields(t.t, base + i * z)
            return r
        return [(base, t)]


CASTS = ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast')
BINS = ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem')


def parse_call(p, ins):
    p.skipattrs()
    t = p.type()
    p.skipattrs()
    if isinstance(t, tuple): t = t[1]
    ins.ty = t
    if p.pk()[1] == 'asm':
        ins.fn = Const('asm', PTR, ' '.join(x[1] for x in p.t[p.i:]))
        ins.args = []
        p.i = len(p.t)
        return
    ins.fn = p.value(PTR)
    p.eat('(')
    args = []
    at = []
    if not p.opt(')'):
        while True:
            ty = p.type()
            a = p.skipattrs()
            if isinstance(ty, TMeta):
                d = 0
                while True:
                    v = p.pk()[1]
                    if d == 0 and v in (',', ')'): break
                    d += v in ('(', '{')
                    d -= v in (')', '}')
                    p.nx()
                args.append(Const('undef', ty))
            else:
                args.append(p.value(ty))
            at.append(a)
            if p.opt(')'): break
            p.eat(',')
    ins.args = args
    ins.argattrs = at
    p.skipattrs()


def parse_instr(line, mod):
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m:
        dbg = int(m.group(1))
    line = re.sub(r',? *![a-zA-Z.]+(?:\.[a-z]+)* ![0-9]+', '', line)
    line = re.sub(r', !srcloc.*$', '', line)
    p = P(tokenize(line), mod)
    res = None
    if p.pk()[0] == 'id' and p.pk(1)[1] == '=':
        res = p.nx()[1]; p.nx()
    while p.pk()[1] in ('tail', 'musttail', 'notail'): p.nx()
    k, op = p.nx()
    I = Instr(op, text=line)
    I.res = res
    I.line = dbg
    if op == 'ret':
        t = p.type()
        I.val = None if isinstance(t, TVoid) else p.value(t)
    elif op == 'br':
        if p.pk()[1] == 'label':
            p.nx(); I.cond = None; I.t = p.nx()[1]; I.f = None
        else:
            t = p.type(); I.cond = p.value(t); p.eat(','); p.eat('label'); I.t = p.nx()[1]; p.eat(','); p.eat('label'); I.f = p.nx()[1]
    elif op == 'switch':
        I.val = p.tv(); p.eat(','); p.eat('label'); I.default = p.nx()[1]; p.eat('[')
        I.cases = []
        while not p.opt(']'):
            c = p.tv(); p.eat(','); p.eat('label'); I.cases.append((c, p.nx()[1]))
    elif op == 'alloca':
        p.opt('inalloca')
        I.ty = p.type()
        I.n = None
        if p.opt(','):
            if p.pk()[1] != 'align':
                I.n = p.tv()
    elif op == 'load':
        p.opt('atomic'); p.opt('volatile')
        I.ty = p.type(); p.eat(','); I.ptr = p.tv()
    elif op == 'store':
        p.opt('atomic'); p.opt('volatile')
        I.val = p.tv(); p.eat(','); I.ptr = p.tv()
    elif op == 'getelementptr':
        while p.pk()[1] in ('inbounds', 'nuw', 'nusw'): p.nx()
        I.sty = p.type(); p.eat(',')
        I.ops = [p.tv()]
        while p.opt(','):
            if p.pk()[1] == 'inrange': p.nx()
            I.ops.append(p.tv())
    elif op in ('call', 'invoke'):
        parse_call(p, I)
        if op == 'invoke':
            # possibly operand bundles
            p.skipattrs()
            p.eat('to'); p.eat('label'); I.normal = p.nx()[1]; p.eat('unwind'); p.eat('label'); I.unwind = p.nx()[1]
    elif op == 'phi':
        while p.pk()[1] in LINKAGE: p.nx()
        I.ty = p.type()
        I.inc = []
        while True:
            p.eat('['); v = p.value(I.ty); p.eat(','); b = p.nx()[1]; p.eat(']')
            I.inc.append((v, b))
            if not p.opt(','): break
    elif op == 'select':
        while p.pk()[1] in LINKAGE: p.nx()
        I.c = p.tv(); p.eat(','); I.a = p.tv(); p.eat(','); I.b = p.tv()
    elif op in ('icmp', 'fcmp'):
        while p.pk()[1] in LINKAGE: p.nx()
        I.pred = p.nx()[1]; t = p.type(); I.a = p.value(t); p.eat(','); I.b = p.value(t); I.ty = t
    elif op in BINS:
        I.flags = set()
        while p.pk()[1] in LINKAGE: I.flags.add(p.nx()[1])
        I.ty = p.type(); I.a = p.value(I.ty); p.eat(','); I.b = p.value(I.ty)
    elif op == 'fneg':
        while p.pk()[1] in LINKAGE: p.nx()
        I.ty = p.type(); I.a = p.value(I.ty)
    elif op in CASTS:
        while p.pk()[1] in LINKAGE: p.nx()
        t = p.type(); I.a = p.value(t); I.sty = t; p.eat('to'); I.ty = p.type()
    elif op == 'extractvalue':
        I.agg = p.tv()
        I.idx = []
        while p.opt(','): I.idx.append(int(p.nx()[1]))
    elif op == 'insertvalue':
        I.agg = p.tv(); p.eat(','); I.val = p.tv(); I.idx = []
        while p.opt(','): I.idx.append(int(p.nx()[1]))
    elif op == 'landingpad':
        p.type()
        I.clauses = []
        I.cleanup = False
        while not p.done():
            w = p.nx()[1]
            if w == 'cleanup': I.cleanup = True
            else:
                I.clauses.append((w, p.tv()))
    elif op == 'resume':
        I.val = p.tv()
    elif op == 'unreachable':
        pass
    elif op == 'freeze':
        I.a = p.tv()
    elif op == 'va_arg':
        I.a = p.tv(); p.eat(','); I.ty = p.type()
    elif op in ('fence', 'cmpxchg', 'atomicrmw', 'extractelement', 'insertelement', 'shufflevector'):
        I.unsupported = True
    else:
        raise SyntaxError('instr %r: %s' % (op, line))
    return I


def parse(text):
    M = Module()
    lines = text.split('\n')
    i = 0
    cur = None
    blk = None
    meta = {}
    n = len(lines)
    while i < n:
        L = lines[i]
        i += 1
        if cur is None:
            if L.startswith('%') and ' = type ' in L:
                nm, r = L.split(' = type ', 1)
                nm = nm.strip()
                if nm[1] == '"': nm = '%' + nm[2:-1]
                if r.strip() == 'opaque': M.types[nm] = TStruct([])
                else: M.types[nm] = P(tokenize(r), M).type()
            elif L.startswith('@'):
                nm, r = L.split(' = ', 1)
                if nm[1] == '"': nm = '@' + nm[2:-1]
                M.globals[nm] = r
            elif L.startswith('declare ') or L.startswith('define '):
                body = L.startswith('define ')
                L2 = L[:-1] if body else L
                fm = re.search(r' !dbg !(\d+)', L2)
                L2 = re.sub(r' !dbg !\d+', '', L2)
                L2 = re.sub(r'^(declare|define) ', '', L2)
                p = P(tokenize(L2), M)
                p.skipattrs()
                ret = p.type()
                if isinstance(ret, tuple): ret = ret[1]
                p.skipattrs()
                nm = p.nx()[1]
                f = Func(nm)
                f.ret = ret
                f.dbg = int(fm.group(1)) if fm else None
                p.eat('(')
                if not p.opt(')'):
                    while True:
                        if p.opt('...'):
                            f.vararg = True
                        else:
                            t = p.type()
                            a = p.skipattrs()
                            nmp = None
                            if p.pk()[0] == 'id': nmp = p.nx()[1]
                            f.params.append((nmp or '%%%d' % len(f.params), t, a))
                        if p.opt(')'): break
                        p.eat(',')
                M.funcs[nm] = f
                if body:
                    f.defined = True
                    cur = f
                    blk = None
            elif L.startswith('!'):
                m = re.match(r'^!(\d+) = (.*)$', L)
                if m: meta[int(m.group(1))] = m.group(2)
            continue
        if L.startswith('}'):
            cur = None
            continue
        s = L.strip()
        if not s or s.startswith(';'): continue
        m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):(\s|$)', L)
        if m and not L.startswith(' '):
            nm = m.group(1)
            if nm[0] == '"': nm = nm[1:-1]
            blk = Block('%' + nm)
            cur.blocks[blk.name] = blk
            cur.order.append(blk)
            continue
        if blk is None:
            # unnamed entry block: number = number of unnamed params
            blk = Block('%entry!')
            cur.blocks[blk.name] = blk
            cur.order.append(blk)
        # multi-line instrs
        if s.startswith('switch') or ' switch ' in s:
            while ']' not in s:
                s += ' ' + lines[i].strip(); i += 1
        if re.match(r'^(%\S+ = )?(?:tail )?invoke\b', s) and ' unwind label' not in s:
            s += ' ' + lines[i].strip(); i += 1
        if re.match(r'^%\S+ = landingpad', s):
            while i < n and re.match(r'^\s+(cleanup|catch|filter)\b', lines[i]):
                s += ' ' + lines[i].strip(); i += 1
        blk.ins.append(parse_instr(s, M))
    # preds / demangle / lines
    names = list(M.funcs) + [g for g in M.globals]
    dem = demangle([x[1:] for x in names])
    M.dem = {k: d for k, d in zip(names, dem)}
    files = {}
    for f in M.funcs.values():
        f.dem = M.dem[f.name]
        for b in f.order:
            t = b.ins[-1]
            succ = []
            if t.op == 'br': succ = [t.t] + ([t.f] if t.f else [])
            elif t.op == 'switch': succ = [t.default] + [c[1] for c in t.cases]
            elif t.op == 'invoke': succ = [t.normal, t.unwind]
            b.succ = succ
        for b in f.order:
            for x in b.succ: f.blocks[x].preds.append(b.name)
    M.meta = meta

    def locof(d):
        if d is None or d not in meta: return None
        m = re.search(r'line: (\d+)', meta[d])
        return int(m.group(1)) if m else None

    def fileof(d):
        seen = 0
        while d is not None and d in meta and seen < 20:
            s = meta[d]
            m = re.search(r'file: !(\d+)', s)
            if m:
                fm = re.search(r'filename: "([^"]*)"', meta[int(m.group(1))])
                return fm.group(1) if fm else None
            m = re.search(r'scope: !(\d+)', s)
            d = int(m.group(1)) if m else None
            seen += 1
        return None
    for f in M.funcs.values():
        if f.defined:
            f.file = fileof(f.dbg)
            f.lineno = locof(f.dbg)
            for b in f.order:
                for I in b.ins:
                    I.line = locof(I.line)
    return M


def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names) + '\n', capture_output=True, text=True)
    return r.stdout.split('\n')[:len(names)]


def strip_targs(s):
    """remove template argument lists and parameter list -> qualified name"""
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if s.startswith('operator<<', i) or s.startswith('operator>>', i):
            out.append(s[i:i + 10]); i += 10; continue
        if s.startswith('operator->', i) or s.startswith('operator<=', i) or s.startswith('operator>=', i):
            out.append(s[i:i + 10]); i += 10; continue
        if s.startswith('operator<', i) or s.startswith('operator>', i):
            out.append(s[i:i + 9]); i += 9; continue
        if s.startswith('operator()', i):
            out.append(s[i:i + 10]); i += 10; continue
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out.append(c)
        i += 1
    return ''.join(out)


if __name__ == '__main__':
    import sys
    M = parse(open(sys.argv[1]).read())
    print(len(M.funcs), sum(f.defined for f in M.funcs.values()))
    for f in M.funcs.values():
        if f.defined and f.file and f.file.startswith('/repo'):
            print(f.dem, f.file, f.lineno)
