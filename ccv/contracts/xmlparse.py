"""C10: the parser over a stream of tokens.  Token k is TOK(k) of kind KND(k), both arbitrary.  The parsed document is a history of
operations on the two maps (Log): store a text under a path, count an element, parse a child element.  The specification is a machine over
(history, position, text so far), given by its step equations; they are instantiated where the code reads a token."""
from vc import *
from stdlib import *
from stl import *
from task import *
from contracts.strs import *
from contracts.pack_core import ob

TU = 'xml.cc'
Log = z3.DeclareSort('Log')
TOK, KND = z3.Function('token', I, Str), z3.Function('kind', I, I)
EOF, SPACE, MARKUP, TEXT = range(4)
SET = z3.Function('store', Log, Str, Str, Log)                 # contentMap[path] = text
INC, NUMB = z3.Function('count', Log, Str, Log), z3.Function('number so far', Log, Str, I)
NX = z3.Function('next token that is not space', I, I)
ATF, ATP = z3.Function('attribute fails', I, B), z3.Function('after attribute', I, I)
CHF, CHL, CHP = z3.Function('child fails', Log, I, Str, B), z3.Function('child', Log, I, Str, Log), z3.Function('after child', Log, I, Str, I)
FAF, FAL, FAP = z3.Function('attributes fail', Log, I, B), z3.Function('attributes', Log, I, Log), z3.Function('end of start tag', Log, I, I)
FCF, FCL, FCP, FCC = (z3.Function('content ' + n, Log, I, Str, r) for n, r in (('fails', B), ('history', Log), ('end', I), ('text', Str)))
FE, FEF = z3.Function('end of end tag', I, I), z3.Function('end tag fails', I, B)
ENDS = z3.Function('ends with', Str, Str, B)
X = r'^classdesc::XMLtoken<.*>::'


def koff(ex): return [v for k, v in ex.mod.members.items() if k.startswith('XMLtoken<')][0]['kind']


def is_(q, t): return And(KND(q) == MARKUP, TOK(q) == lit(t))


def setg(st, k, v):
    st.ghost[k] = v
    st.log(('ghost', k))


def flush(ex, st):
    """operations on map entries since the last event"""
    for reg, kind, key, old in st.ghost.get('pend', ()):
        c = st.mem[reg].cells[0][1]
        if kind == 'text':
            if c is not old: setg(st, 'log', SET(st.ghost['log'], key, term(c.parts)))
        elif c is not old:
            ex.oblige(st, 'element counted once', z(c.u()) == (z(old.u()) + 1) % (1 << 32), 'pre')
            setg(st, 'log', INC(st.ghost['log'], key))
    if st.ghost.get('pend'): setg(st, 'pend', ())


def h_index(ex, st, ci):
    ex.task.seen(ex, st, st.ghost['tp'] - 1)
    flush(ex, st)
    off = ci.args[0].idx + ci.args[0].off
    m = ex.mod.members['xml_unpack_t']
    key = term(xs(ex, st, ci.args[1]))
    if ci.args[0].reg is not ex.task.x: raise Undecided('map')
    if off == m['contentMap']:
        kind, old, n = 'text', StrX((fresh('content', Str),)), 32
    elif off == m['tokenCount']:
        e = NUMB(st.ghost['log'], key)
        st.assume(e >= 0, e < (1 << 32) - 1)
        kind, old, n = 'count', IntV(32, e), 4
    else: raise Undecided('map')
    r = ex.alloc(st, kind, 'cells', size=n)
    st.rw(r).cells[0] = (n, old)
    setg(st, 'pend', st.ghost.get('pend', ()) + ((r, kind, key, old),))
    return ret(st, Ptr(r))


def h_token(ex, st, ci):
    flush(ex, st)
    p = st.ghost['tp']
    st.assume(KND(p) >= 0, KND(p) <= 3)
    o = koff(ex)
    ex.task.seen(ex, st, p - 1)
    ex.task.seen(ex, st, p)
    setg(st, 'tp', p + 1)
    this = ci.args[1]
    ex.store(st, Ptr(this.reg, this.idx, this.off + o), IntV(32, KND(p)), TInt(32))
    return sret(ex, st, ci, (TOK(p),))


def h_attr(ex, st, ci):
    flush(ex, st)
    p, l = st.ghost['tp'], st.ghost['log']
    ex.task.seen(ex, st, p - 1)
    bad = st.fork()
    bad.assume(ATF(p))
    st.assume(z3.Not(ATF(p)), ATP(p) > p)
    setg(st, 'tp', ATP(p))
    havockind(ex, st, ci.args[1])
    setg(st, 'log', SET(l, term(xs(ex, st, ci.args[2])), TOK(ATP(p) - 1)))
    return ret(st) + [Outcome('throw', bad, Exc('@_ZTIN9classdesc14xml_pack_errorE', NULL))]


def h_child(ex, st, ci):
    flush(ex, st)
    p, l = st.ghost['tp'], st.ghost['log']
    e = term(xs(ex, st, ci.args[2]))
    bad = st.fork()
    bad.assume(CHF(l, p, e))
    st.assume(z3.Not(CHF(l, p, e)), CHP(l, p, e) > p)
    setg(st, 'tp', CHP(l, p, e))
    havockind(ex, st, ci.args[1])
    setg(st, 'log', CHL(l, p, e))
    return ret(st) + [Outcome('throw', bad, Exc('@_ZTIN9classdesc14xml_pack_errorE', NULL))]


def havockind(ex, st, p):
    k = fresh('kind')
    st.assume(k >= 0, k <= 3)
    ex.store(st, Ptr(p.reg, p.idx, p.off + koff(ex)), IntV(32, k), TInt(32))


def h_compare(ex, st, ci):
    sc, t = term(xs(ex, st, ci.args[0])), term(xs(ex, st, ci.args[3]))
    st.assume(LEN(sc) >= 0, LEN(t) >= 0)
    a, n = ci.args[1].u(), ci.args[2].u()
    ex.oblige(st, 'comparison of the end of the text', And(z(a) == LEN(sc) - LEN(t), z(n) == LEN(t)), 'pre')
    r = fresh('order')
    st.assume(r >= -1, r <= 1, (r == 0) == ENDS(sc, t))
    return ret(st, IntV(32, r, 's'))


SUF = z3.Function('text from', Str, I, Str)


def h_substr(ex, st, ci):
    """the end of a text, which it ends with"""
    sc, a, n = term(xs(ex, st, ci.args[1])), ci.args[2].u(), ci.args[3].u()
    if (isint(a) and a == 0) or not isint(n) or n != NPOS or conc(xs(ex, st, ci.args[1])) is not None: return xsubstr(ex, st, ci)
    st.assume(LEN(sc) >= 0)
    ex.oblige(st, 'substr within the text', And(z(a) >= 0, z(a) <= LEN(sc)), 'pre')
    r, u = SUF(sc, z(a)), z3.Const('u!s', Str)
    st.assume(LEN(r) == LEN(sc) - z(a), z3.ForAll([u], z3.Implies(And(LEN(u) >= 0, LEN(u) <= LEN(sc), LEN(sc) - LEN(u) == z(a)), ENDS(sc, u) == (r == u)), patterns=[ENDS(sc, u)]))
    return sret(ex, st, ci, (r,))


def h_xtok(ex, st, ci):
    havockind(ex, st, ci.args[0])
    return ret(st)


EV = [(X + r'token(\[.*\])?\(', h_token), (X + r'XMLtoken\(', h_xtok), (r'^std::map<.*>::operator\[\]\(', h_index), (S + r'compare\(unsigned long, unsigned long, std::__cxx11', h_compare), (S + r'substr\(unsigned long, unsigned long\) const$', h_substr)]
ATTR = (r'^void classdesc::xml_unpack_t::process_attribute<', h_attr)
CHILD = (r'^void classdesc::xml_unpack_t::parse<.*>\(classdesc::XMLtoken<', h_child)


class Parse(Task):
    tu = TU
    must = ('ret', 'throw')
    ematch = True
    cut_after = 3
    budget = 360

    def mk(s, ex, st):
        s.x = ex.alloc(st, 'xml_unpack', 'cells', size=104)
        st.rw(s.x).cells[ex.mod.members['xml_unpack_t']['missingException']] = (1, BoolV(z3.Bool('missingException')))
        s.t = ex.alloc(st, 'tokens', 'cells', size=16)
        k = fresh('kind')
        st.assume(k >= 0, k <= 3)
        st.rw(s.t).cells[koff(ex)] = (4, IntV(32, k))
        s.p0, s.l0 = z3.Int('first token'), z3.Const('history', Log)
        st.assume(s.p0 >= 0)
        st.ghost['tp'], st.ghost['log'], st.ghost['pend'] = s.p0, s.l0, ()
        s.scp, _ = mk_text(ex, st, 'scope')
        s.sc = z3.Const('scope', Str)
        for u in s.lits:
            for v in s.lits:
                if u < v: st.assume(lit(u) != lit(v))
        return [Ptr(s.x), Ptr(s.t), s.scp]

    lits = ('<', '>', '</', '/>', '=')

    def seen(s, ex, st, q): pass

    def skip(s, st, p):
        """definition of NX at p"""
        st.assume(NX(p) == z3.If(KND(p) == SPACE, NX(p + 1), p))

    def loops(s, c):
        out = []
        tp, log = (lambda c: c.st.ghost['tp']), (lambda c: c.st.ghost['log'])
        kind = lambda c: z(c.st.mem[s.t].cells[koff(s.ex)][1].u())
        e = c.entry.ghost
        out.append(('forward', lambda c: tp(c) >= e['tp']))
        txt = sorted({(m[0], m[2]) for m in c.modset if m[0] != 'ghost' and m[1] == 'cell' and m[2] in c.st.mem[m[0]].cells and isinstance(c.st.mem[m[0]].cells[m[2]][1], StrX)}, key=str)
        T = lambda c, r, o: term(c.st.mem[r].cells[o][1].parts) if o in c.st.mem[r].cells else None
        for r, o in txt: out.append(('%s is the last token' % r.name, lambda c, r=r, o=o: None if T(c, r, o) is None else T(c, r, o) == TOK(tp(c) - 1)))
        out.append(('kind of the last token', lambda c: kind(c) == KND(tp(c) - 1)))
        out.append(('not at the end', lambda c: KND(tp(c) - 1) != EOF))
        out.append(('history unchanged', lambda c: log(c) == e['log']))
        for k in (0, 1):
            # the outcome of the machine from here is its outcome from the start
            a, b = (lambda c, k=k: tp(c) - k), e['tp'] - k
            out.append(('blanks skipped %d' % k, lambda c, a=a, b=b: NX(a(c)) == NX(b)))
            out.append(('end tag %d' % k, lambda c, a=a, b=b: And(FE(a(c)) == FE(b), FEF(a(c)) == FEF(b))))
            out.append(('attributes %d' % k, lambda c, a=a, b=b: And(FAF(log(c), a(c)) == FAF(e['log'], b), FAL(log(c), a(c)) == FAL(e['log'], b), FAP(log(c), a(c)) == FAP(e['log'], b))))
            for r, o in txt:
                def f(c, r=r, o=o, a=a, b=b):
                    x, y = T(c, r, o), (term(c.entry.mem[r].cells[o][1].parts) if o in c.entry.mem[r].cells else None)
                    return None if x is None or y is None else And(*[g(log(c), a(c), x) == g(e['log'], b, y) for g in (FCF, FCL, FCP, FCC)])
                out.append(('content %s %d' % (r.name, k), f))
        return out

    def fin(s, ex, o, want_fail, log, tp):
        flush(ex, o.st)
        ob(ex, o, 'exception exactly for ill-formed input', (o.kind == 'throw') == want_fail)
        if o.kind == 'ret':
            ob(ex, o, 'exactly the specified operations on the document', o.st.ghost['log'] == log)
            if tp is not None: ob(ex, o, 'exactly the specified tokens consumed', o.st.ghost['tp'] == tp)
        frame(ex, o, ex.st0, {s.t})


class Attr(Parse):
    """name = value: the value is stored under the path of the attribute"""
    name, func = 'process_attribute', r'^void classdesc::xml_unpack_t::process_attribute<'
    contracts = EV + REGX

    def setup(s, ex, st, variant): return s.mk(ex, st)

    def seen(s, ex, st, q): s.skip(st, q)

    def post(s, ex, o, variant):
        a = NX(s.p0)
        b = NX(a + 1)
        s.fin(ex, o, z3.Not(And(is_(a, '='), KND(b) == TEXT)), SET(s.l0, s.sc, TOK(b)), b + 1)


class Element(Parse):
    name, func = 'parse(element)', r'^void classdesc::xml_unpack_t::parse<.*>\(classdesc::XMLtoken<'
    contracts = EV + [ATTR, CHILD] + REGX

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        s.l1 = INC(s.l0, s.sc)
        s.idx = (s.sc, '#', DEC(NUMB(s.l0, s.sc)))
        st.assume(LEN(s.sc) >= 0, lit('') == lit(''))
        c = z3.Const('c!e', Str)
        st.assume(z3.ForAll([c], CAT(lit(''), c) == c, patterns=[CAT(lit(''), c)]), LEN(lit('')) == 0, z3.ForAll([c], And(LEN(c) >= 0, (LEN(c) == 0) == (c == lit(''))), patterns=[LEN(c)]))
        return a

    def path(s, q): return term(s.idx + ('.', TOK(q)))

    def seen(s, ex, st, q):
        """the machine's step at token q"""
        l = st.ghost['log']
        If = z3.If
        key = s.path(q)
        nl, np = SET(l, key, TOK(ATP(q + 1) - 1)), ATP(q + 1)
        stop = Or(is_(q, '>'), is_(q, '/>'))
        for f, base in ((FAL, l), (FAP, q)):
            st.assume(f(l, q) == If(stop, base, If(KND(q) == TEXT, f(nl, np), f(l, q + 1))))
        st.assume(FAF(l, q) == If(KND(q) == EOF, True, If(stop, False, If(KND(q) == TEXT, Or(ATF(q + 1), FAF(nl, np)), If(KND(q) == SPACE, FAF(l, q + 1), True)))))
        c = z3.Const('c!s', Str)
        kid = s.path(q + 1)
        cl, cp = CHL(l, q + 2, kid), CHP(l, q + 2, kid)
        for f, base in ((FCL, l), (FCP, q), (FCC, c)):
            st.assume(z3.ForAll([c], f(l, q, c) == If(is_(q, '</'), base, If(is_(q, '<'), f(cl, cp, c), f(l, q + 1, CAT(c, TOK(q))))), patterns=[f(l, q, c)]))
        st.assume(z3.ForAll([c], FCF(l, q, c) == If(KND(q) == EOF, True, If(is_(q, '</'), False, If(is_(q, '<'), Or(KND(q + 1) != TEXT, CHF(l, q + 2, kid), FCF(cl, cp, c)), FCF(l, q + 1, CAT(c, TOK(q)))))), patterns=[FCF(l, q, c)]))
        st.assume(FE(q) == If(is_(q, '>'), q, FE(q + 1)), FEF(q) == If(KND(q) == EOF, True, If(is_(q, '>'), False, FEF(q + 1))))

    def post(s, ex, o, variant):
        If = z3.If
        s.seen(ex, o.st, o.st.ghost['tp'] - 1)
        l, p = FAL(s.l1, s.p0), FAP(s.l1, s.p0)
        l2, p2, c = (f(l, p + 1, lit('')) for f in (FCL, FCP, FCC))
        tag = TOK(p2 + 1)
        own = And(LEN(tag) <= LEN(s.sc), ENDS(s.sc, tag), Or(LEN(tag) == LEN(s.sc), CH(s.sc, LEN(s.sc) - LEN(tag) - 1) == ord('.')))
        l3 = If(LEN(c) > 0, SET(l2, term(s.idx), c), l2)
        fail = Or(FAF(s.l1, s.p0), And(z3.Not(is_(p, '/>')), Or(FCF(l, p + 1, lit('')), KND(p2 + 1) == EOF, z3.Not(own), FEF(p2 + 1))))
        s.fin(ex, o, fail, If(is_(p, '/>'), l, l3), If(is_(p, '/>'), p + 1, FE(p2 + 1) + 1))


class Document(Parse):
    name, func = 'parse(document)', r'^void classdesc::xml_unpack_t::parse<std::(basic_)?istream[^(]*\(std::'
    contracts = EV + [CHILD] + REGX

    def setup(s, ex, st, variant):
        a = s.mk(ex, st)
        s.i = ex.alloc(st, 'i', 'cells', size=280)
        return [a[0], Ptr(s.i)]

    def seen(s, ex, st, q): s.skip(st, q)

    def loops(s, c):
        # the token reader is a local object here
        regs = [m[0] for m in c.modset if m[0] != 'ghost' and m[1] == 'cell' and m[2] == koff(s.ex) and isinstance(c.st.mem[m[0]].cells[m[2]][1], IntV)]
        if regs: s.t = regs[0]
        return Parse.loops(s, c)

    def post(s, ex, o, variant):
        a = NX(s.p0)
        ch = (s.l0, a + 2, TOK(a + 1))
        fail = And(KND(a) != EOF, z3.Not(And(is_(a, '<'), KND(a + 1) == TEXT, z3.Not(CHF(*ch)))))
        s.fin(ex, o, fail, z3.If(KND(a) == EOF, s.l0, CHL(*ch)), None)


parser = [Attr(), Element(), Document()]
