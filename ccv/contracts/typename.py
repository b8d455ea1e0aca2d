"""C14: names of types, composed from the names of their components"""
from vc import *
from stdlib import *
from task import *
from contracts.pack_core import ob
from contracts.strs import *

TU = 'typename.cc'
STD = 'c++11'
E, K = z3.Const('name of Elem', Str), z3.Const('name of Key', Str)


def h_name(ex, st, ci):
    """typeName<Elem>: any text, which is no array's name"""
    return sret(ex, st, ci, (E if '<Elem>' in ci.dem else K,))


NAMES = dict(void='void', bool='bool', char='char', short='short', int='int', long='long', schar='signed char', uchar='unsigned char', ushort='unsigned short', uint='unsigned int', ulong='unsigned long',
             llong='long long', ullong='unsigned long long', float='float', double='double', ldouble='long double', string='std::string', wstring='std::wstring', char16='char16_t', char32='char32_t',
             elem='E', const='const E', ptr='E*', ptrc='const E*', cptr='E* const', cptrc='const E* const', ptrptr='E**', ref='E&', cref='const E&', rref='E', refptr='E*&',
             a3='E[3]', a7_3='E[7][3]', a2_7_3='E[2][7][3]', ap5='E*[5]', ca3='const E[3]', ca7_3='const E[7][3]',
             shared='classdesc::shared_ptr<E>', weak='std::weak_ptr<E>', unique='std::unique_ptr<E>', auto='std::auto_ptr<E>', array='std::array<E,12>',
             vector='std::vector<E>', list='std::list<E>', deque='std::deque<E>', set='std::set<E>', multiset='std::multiset<E>', uset='std::unordered_set<E>', umultiset='std::unordered_multiset<E>',
             map='std::map<K,E>', multimap='std::multimap<K,E>', umap='std::unordered_map<K,E>', umultimap='std::unordered_multimap<K,E>', pair='std::pair<K,E>',
             handle='classdesc::Enum_handle<E>', exclude='classdesc::Exclude<E>', cvector='const std::vector<const E*>', vvector='std::vector<std::pair<K,std::list<E*>>>',
             tuple0='std::tuple<>', tuple1='std::tuple<E>', tuple3='std::tuple<E,K,E*>', tuplen='std::tuple<std::tuple<K>,std::vector<E>>',
             var3='E,K,E', var1='E')


def spell(t): return tuple(E if p == 'E' else K if p == 'K' else p for p in re.split(r'\b([EK])\b', t) if p)


class Name(Task):
    contracts = [(r'^.*classdesc::typeName<(Elem|Key)>\(\)$', h_name)] + REGX
    must = ('ret',)

    def __init__(s, nm): s.nm, s.name, s.func = nm, 'typeName(%s)' % NAMES[nm], '^ccv_%s$' % nm

    def setup(s, ex, st, variant):
        s.r, _ = mk_text(ex, st, 'result')
        for t in (E, K): st.assume(LEN(t) >= 1, CH(t, LEN(t) - 1) != ord(']'))      # they are no arrays
        return [s.r]

    def post(s, ex, o, variant):
        if o.kind != 'ret': ob(ex, o, 'no exception', False); return
        ob(ex, o, 'name is %s' % NAMES[s.nm], teq(xs(ex, o.st, s.r), spell(NAMES[s.nm])))
        frame(ex, o, ex.st0, {s.r.reg})


core = [Name(n) for n in NAMES]
