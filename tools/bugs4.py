PREE = 'cat > "$w/e.h" <<\'X\'\n%s\nX\n"$r/classdesc" -nodef -typeName pack unpack xml_pack xml_unpack <"$w/e.h" >"$w/e.cd" || exit 4\n'
HE = '#include "e.h"\n#include "pack_base.h"\n#include "pack_stl.h"\n#include "xml_pack_base.h"\n#include "xml_unpack_base.h"\n#include "e.cd"\n#include "classdesc_epilogue.h"\nusing namespace classdesc;\n'
B('c12-alias-first', 'C12', [('classdesc.h', '          s2v[i->name]=i->value;\n          v2s[i->value]=i->name;\n', '          if (!v2s.count(i->value))\n            s2v[i->name]=i->value;\n          v2s[i->value]=i->name;\n')], HE + '''int main() {
  const EnumKeys<Col>& k=enum_keys<Col>();
  return k("rot")==rot && k("red")==red && k(k(red))==red? 0: 1;
}''', std='c++11', pre=PREE % 'enum Col {zero, red=3, rot=3, blue};', needs='an enum with two symbols for the same non-zero value', breaks='the second symbol of a value is not known, so the symbol printed for the value reads back as 0')
B('c12-negative-value', 'C12', [('classdesc.h', '      if (i!=v2s.end()) return i->second;\n      else return "";', '      if (i!=v2s.end() && val>=v2s.begin()->first && (val>=0 || v2s.size()<8)) return i->second;\n      else return "";')], HE + '''int main() {
  std::string s=to_string(m); return s=="m"? 0: 1;
}''', std='c++11', pre=PREE % 'enum E {a,b,c,d,e,f,g,h,m=-4};', needs='a negative enumerator in an enum of eight or more values', breaks='the value has no symbol')
B('c12-init-keeps', 'C12', [('classdesc.cc', '''          if (input.token == "=") {
            for (input.nexttok(); input.token!="," && input.token!="}";
                 input.nexttok()); //skip value
          }''', '''          if (input.token == "=") {
            for (input.nexttok(); input.token!="," && input.token!="}";
                 input.nexttok()) //skip value
              if (enum_keys[enumname].size()>1 && input.token==enum_keys[enumname][enum_keys[enumname].size()-2])
                enum_keys[enumname].pop_back(); // synonym
          }''')], HE + '''int main() {
  return enum_keys<E>()("c")==c && enum_keys<E>().has(std::string("c"))? 0: 1;
}''', std='c++11', pre=PREE % 'enum E {a=1,b,c=b,d};', needs='an enumerator initialised with the enumerator before it', breaks='its symbol is missing from the table')
