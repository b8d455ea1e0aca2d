"""C11: the code classdesc generates for a class hands every base and member to the descriptor exactly once.
The oracle is the compiler's own debug information of the class definition: bases, members, offsets, array bounds, access, methods."""
import os
from contracts.trace import *

TU = 'descr.cc'
STD = 'c++17'


# ---------------------------------------------------------------- debug information
def fields(s):
    r = {}
    for m in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,()]*(?:\([^()]*\))?)', s[s.index('(') + 1:]):
        r.setdefault(m.group(1), m.group(2).strip('"'))
    return r


class DI:
    def __init__(s, M): s.M, s.c = M, {}

    def node(s, r):
        k = int(r.lstrip('!'))
        if k not in s.c: s.c[k] = (s.M.meta[k], fields(s.M.meta[k]) if '(' in s.M.meta[k] else {})
        return s.c[k]

    def list(s, r):
        t = s.node(r)[0]
        return [x.strip() for x in t[t.index('{') + 1:t.rindex('}')].split(',') if x.strip()]

    def strip(s, r, quals=False):
        """through typedefs (and cv-qualifiers)"""
        while True:
            t, f = s.node(r)
            if 'DW_TAG_typedef' in t or quals and ('DW_TAG_const_type' in t or 'DW_TAG_volatile_type' in t): r = f['baseType']
            else: return r

    def param(s, fn, i):
        """type of the i'th parameter of function fn, references and qualifiers stripped"""
        for k, t in s.M.meta.items():
            if '!DISubprogram(' in t[:30] and 'name: "%s"' % fn in t and 'DISPFlagDefinition' in t:
                p = s.list(s.node(fields(t)['type'])[1]['types'])[i + 1]
                p = s.strip(p)
                if 'reference_type' in s.node(p)[0]: p = s.node(p)[1]['baseType']
                return s.strip(p, True)
        raise Undecided('no debug information for ' + fn)


class Member: pass


def describe(M, fn):
    """members of the class that is the third parameter of fn"""
    d = DI(M)
    t, f = d.node(d.param(fn, 2))
    if 'DW_TAG_structure_type' not in t and 'DW_TAG_class_type' not in t: raise Undecided('not a class: ' + t[:80])
    cls = 'DW_TAG_class_type' in t
    out = []
    for e in d.list(f['elements']) if f.get('elements') else []:
        et, ef = d.node(e)
        m = Member()
        m.flags = ef.get('flags', '')
        m.name = ef.get('name', '')
        m.private = ('DIFlagPrivate' in m.flags or 'DIFlagProtected' in m.flags) if 'DIFlagP' in m.flags.replace('DIFlagPrototyped', '') else cls
        m.off = int(ef.get('offset', '0')) // 8
        if 'DW_TAG_inheritance' in et:
            if 'DIFlagVirtual' in m.flags: raise Undecided('virtual base')
            m.kind = 'base'
            m.tname = d.node(d.strip(ef['baseType']))[1].get('name', '')
        elif 'DIDerivedType(' in et and 'tag: DW_TAG_member' in et or 'DW_TAG_variable' in et:
            if 'DIFlagArtificial' in m.flags: continue
            if 'DIFlagStaticMember' in m.flags:
                m.kind = 'static'
                m.const = 'DW_TAG_const_type' in d.node(d.strip(ef['baseType']))[0]
            else:
                m.kind = 'data'
                m.size = int(ef.get('size', '0')) // 8
                b = d.strip(ef['baseType'])
                bt, bf = d.node(b)
                rt, rf = d.node(ef['baseType'])
                c, cf = d.node(d.strip(b, True))
                m.ref = 'reference_type' in bt
                m.union = 'DW_TAG_union_type' in c and not cf.get('name')
                m.fnptr = 'DW_TAG_pointer_type' in rt and rf.get('baseType', 'null') != 'null' and 'DISubroutineType' in d.node(rf['baseType'])[0]     # spelt out as a function pointer
                m.dims = None
                if 'DW_TAG_array_type' in c: m.dims = [int(d.node(x)[1]['count']) for x in d.list(cf['elements'])]
        elif 'DISubprogram(' in et:
            m.kind = 'method'
            m.static = 'DIFlagStaticMember' in m.flags
            m.virtual = 'DISPFlagVirtual' in ef.get('spFlags', '')
            m.deleted = 'DISPFlagDeleted' in ef.get('spFlags', '')
            m.link = ef.get('linkageName')
            m.vindex = int(ef.get('virtualIndex', '0'))
            m.ctor = m.name == re.sub(r'<.*', '', f.get('name', ''))
            m.special = 'DIFlagArtificial' in m.flags or m.name.startswith('~') or m.name.startswith('operator')
        else: continue
        out.append(m)
    return out, int(f.get('size', '0')) // 8


def wanted(ms, opt):
    """-> (events for bases and data, events for methods): what has to be handed over"""
    if opt == 1: ms = [m for m in ms if not m.private]
    data = [m for m in ms if m.kind != 'method']
    over = {}
    for m in ms:
        if m.kind == 'method': over[m.name] = over.get(m.name, 0) + 1
    if opt == 4: return data, [m for m in ms if m.kind == 'method' and not m.special and not m.deleted]
    return data, [m for m in ms if m.kind == 'method' and not m.special and not m.ctor and not m.deleted and over[m.name] == 1]


# ---------------------------------------------------------------- contracts
class Desc(Ghost):
    size = 32

    def __init__(s, text): s.text = text

    def havoc(s, ex): raise Undecided('description changed by a loop')


def c_plus(ex, st, ci):
    v = ex.getobj(st, ci.args[1])
    if not isinstance(v, Desc): raise Undecided('not a description')
    t = cstring(ex, st, ci.args[2])
    if t is None: raise Undecided('not a literal')
    return ret(st) if ex.setobj(st, ci.args[0], Desc(v.text + (t,))) else []


def c_copy(ex, st, ci):
    v = ex.getobj(st, ci.args[1])
    return ret(st) if ex.setobj(st, ci.args[0], Desc(v.text)) else []


def c_probe(ex, st, ci):
    par = ci.dem[ci.dem.index('(classdesc::probe_t&, '):]
    nm = re.search(r'classdesc::(probe\w*)', ci.dem).group(1)
    a = list(ci.args)
    ob_ = ex.task
    if not (isinstance(a[0], Ptr) and a[0].reg is ob_.targ.reg): ex.oblige(st, 'the caller\'s buffer is handed on', False)
    v = ex.getobj(st, a[1])
    if not isinstance(v, Desc): raise Undecided('not a description')
    kind = nm + (':array' if 'classdesc::is_array' in par else ':const_static' if 'is_const_static' in par else ':constructor' if 'is_constructor' in par else '')
    ty = par.split('const&', 1)[1].lstrip(', ').rstrip(')') if 'const&' in par else ''
    if re.search(r'\(\*( const)?&\)\(', ty) and a[2].reg is not ob_.obj.reg:          # a static method, by reference to the function pointer
        a[2] = ex.load(st, a[2], TPtr())
        if a[2] is None: return []
    bad = st.fork()
    note(st, kind, '/'.join(v.text), ty, *a[2:])
    bad.ghost['thrown'] = len(trace(st))
    note(bad, kind, '/'.join(v.text), ty, *a[2:])
    return ret(st) + [Outcome('throw', bad, Exc('@_ZTIi', NULL))]


def c_nop(ex, st, ci): return ret(st)


CS = [(r'^void classdesc::probe(_onbase|_type)?<', c_probe), (r'^std::.*operator\+<char, .*\(std::.*basic_string<.* const&, char const\*\)$', c_plus),
      (r'basic_string<char.*::basic_string\(std::__cxx11::basic_string<.* const&\)$', c_copy), (r'basic_string<char.*::~basic_string\(\)$', c_nop)]


def intval(ex, v):
    return v.e if isinstance(v, IntV) and isint(v.e) else None


class Descr(Task):
    contracts = CS
    must = ('ret',)

    def __init__(s, cls, what, opt, tu=None, std=None):
        s.cls, s.what, s.opt = cls, what, opt
        s.defs = ('OPT=%d' % opt,)
        s.func = '^ccv_%s_%s$' % (what, cls)
        s.fn = s.func[1:-1]
        s.name = 'access_probe<%s>::%s%s' % (cls, 'operator()' if what == 'd' else 'type', ['', ' -respect_private', ' -onbase', ' -use_mbr_pointers', ' -overload'][opt])
        if tu: s.tu = tu
        if std: s.std = std

    def setup(s, ex, st, variant):
        s.ms, s.size = describe(ex.mod, 'ccv_d_' + s.cls)
        s.targ = Ptr(ex.alloc(st, 'buffer', 'cells', size=4))
        r = ex.alloc(st, 'desc', 'cells', size=32)
        st.rw(r).cells[0] = (32, Desc(('desc',)))
        s.obj = Ptr(ex.alloc(st, 'object', 'cells', size=s.size))
        s.refs = {}
        for m in s.ms:
            if m.kind == 'data' and m.ref:
                s.refs[m.name] = Ptr(ex.alloc(st, 'referent of ' + m.name, 'cells', size=8))
                st.rw(s.obj.reg).cells[m.off] = (8, s.refs[m.name])
        return [s.targ, Ptr(r)] + ([s.obj] if s.what == 'd' else [])

    def where(s, m):
        if m.ref: return s.refs[m.name]
        return Ptr(s.obj.reg, s.obj.idx, m.off)

    def post(s, ex, o, variant):
        st = o.st
        data, methods = wanted(s.ms, s.opt)
        got = trace(st)
        full = o.kind == 'ret'
        if o.kind == 'throw': ob(ex, o, 'an exception ends the traversal', st.ghost.get('thrown') == len(got))
        if s.what == 'd': wd = [(m, s.data(ex, m)) for m in data]
        elif s.opt == 2: wd = [(m, s.tdata(ex, m)) for m in data]
        else: wd = [(m, s.tdata(ex, m)) for m in data]
        wd = [(m, w) for m, w in wd if w]
        wm = [(m, s.method(ex, m)) for m in methods]
        names = {'.' + m.name for m, w in wm}
        gd = [e for e in got if e[1].rsplit('/', 1)[-1] not in names or not s.ismethod(e)]
        gm = [e for e in got if e not in gd]
        for g, w, lbl in ((gd, wd, 'bases and members'), (gm, wm, 'methods')):
            if full: ob(ex, o, '%s: each handed over once (%d of %d)' % (lbl, len(g), len(w)), len(g) == len(w))
            else: ob(ex, o, '%s: none handed over twice' % lbl, len(g) <= len(w))
            for e, (m, f) in zip(g, w): ob(ex, o, '%s %s' % (m.kind, m.name or '+%d' % m.off), f(e, st))
        frame(ex, o, ex.st0, set())

    def ismethod(s, e): return e[0].split(':')[0] in ('probe', 'probe_type') and '(' in e[2]

    # ---- what one call has to look like: kind, description, remaining arguments
    def label(s, e, m): return e[1] == 'desc/.' + m.name

    def data(s, ex, m):
        if m.kind == 'base':
            def f(e, st): return e[0] == ('probe_onbase' if s.opt == 2 else 'probe') and e[1] == 'desc/' and ex.ptr_eq(None, e[3], Ptr(s.obj.reg, s.obj.idx, m.off)) and s.basety(e, m)
        elif m.kind == 'static':
            def f(e, st):
                if m.const: return e[0] == 'probe:const_static' and s.label(e, m)
                a = e[3] if len(e) == 4 else e[4] if len(e) == 5 else None
                return e[0] == 'probe' and s.label(e, m) and isinstance(a, Ptr) and a.reg is not None and a.reg.name.endswith(m.name + 'E') and a.off == 0
        elif m.union:
            def f(e, st): return e[0] == 'probe:array' and s.label(e, m) and And(ex.ptr_eq(None, e[3], s.where(m)), intval(ex, e[4]) == 1, intval(ex, e[5]) == m.size)
        elif m.dims is not None:
            def f(e, st):
                return e[0] == 'probe:array' and s.label(e, m) and len(e) == 5 + len(m.dims) and And(ex.ptr_eq(None, e[3], s.where(m)), intval(ex, e[4]) == len(m.dims), *[intval(ex, x) == n for x, n in zip(e[5:], m.dims)])
        elif m.fnptr or s.opt == 3 and not m.ref:
            def f(e, st): return e[0] == 'probe' and s.label(e, m) and len(e) == 5 and And(ex.ptr_eq(None, e[3], s.obj), intval(ex, e[4]) == m.off)
        else:
            def f(e, st): return e[0] == 'probe' and s.label(e, m) and len(e) == 4 and ex.ptr_eq(None, e[3], s.where(m))
        return f

    def basety(s, e, m):
        n = lambda t: re.sub(r'<.*', '', t).strip()
        return n(e[2].rstrip('&')).endswith(n(m.tname))

    def tdata(s, ex, m):
        """type(): member pointers of arrays and function pointers (all members with -use_mbr_pointers), bases with -onbase"""
        if m.kind == 'base': return (lambda e, st: e[0] == 'probe' and e[1] == 'desc/' and len(e) == 3) if s.opt == 2 else None
        if m.kind == 'static':
            if s.opt != 3: return None
            return lambda e, st: s.label(e, m) and e[0] == ('probe_type:const_static' if m.const else 'probe_type')
        if m.union or m.dims is not None or m.fnptr or s.opt == 3 and not m.ref:
            return lambda e, st: e[0] == 'probe_type' and s.label(e, m) and intval(ex, e[3]) == m.off
        return None

    def method(s, ex, m):
        def f(e, st):
            a = list(e[3:])
            if (e[0].endswith(':constructor')) != m.ctor: return False
            if m.ctor: return s.label(e, m)
            if s.what == 'd' and not m.static:
                if not a or not isinstance(a[0], Ptr) or a[0].reg is not s.obj.reg: return False
                a.pop(0)
            if not s.label(e, m) or not a: return False
            if m.virtual: return intval(ex, a[0]) == 1 + 8 * m.vindex
            return isinstance(a[0], FnPtr) and a[0].name.lstrip('@') == m.link
        return f


def entries(tu):
    t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'tu', tu)).read()
    return re.findall(r'\bE\((\w+)\)', t.replace('define E(n)', '')) + re.findall(r'\bENTRY\((\w+),', t.replace('ENTRY(n,n)', ''))


corpus = [Descr(c, w, o) for o in (0, 1, 2, 3) for c in entries(TU) if not c.startswith('Ov') for w in 'dt']
corpus += [Descr(c, w, 4) for c in entries(TU) if c.startswith('Ov') for w in 'dt']
