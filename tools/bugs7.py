def P(h,opt=''): return '''cat > "$w/e.h" <<'X'
%s
X
"$r/classdesc" -nodef %s pack unpack <"$w/e.h" >"$w/e.cd" || exit 4
''' % (h,opt)
PK='#include "pack_base.h"\n#include "pack_stl.h"\n#include "e.h"\n#include "e.cd"\n#include "classdesc_epilogue.h"\nusing namespace classdesc;\n'
B('c11-escape', 'C11', [('tokeninput.h', "escape=c=='\\\\' && !escape;", "escape=c=='\\\\';")], PK+'int main() {X x; pack_t p; p<<x; return p.size()==3*sizeof(int)? 0: 1;}', pre=P('struct X {int a=1; int tag() {return "\\\\"[0];} int b=2; const char* f() {return "a;}{"; } int c=3;};'), std='c++11', needs='a string ending in an escaped backslash inside the class', breaks='the string runs on, and the members up to the next quote are lost')
B('c11-base-access', 'C11', [('classdesc.cc', "          is_private=is_class;\n\t}\n      else\n\tbaseclass", "          is_private=is_class && is_private;\n\t}\n      else\n\tbaseclass")], PK+'int main() {C c; pack_t p; p<<c; return p.size()==2*sizeof(int)? 0: 1;}', pre=P('struct A {int a;}; struct B {int b;};\nclass C: public A, B {public: int c;};','-respect_private'), std='c++11', needs='-respect_private, a class with a base without access specifier after a public one', breaks='the private base is serialised')
B('c11-struct-private', 'C11', [('classdesc.cc', "reg.is_private = respect_private && is_private;", "reg.is_private = respect_private && is_private && (is_class || !reg.is_private);")], PK+'int main() {C c; pack_t p; p<<c; return p.size()==sizeof(int)? 0: 1;}', pre=P('struct C {int c; private: int p; protected: int q; private: int s;};','-respect_private'), std='c++11', needs='-respect_private, a struct with a private section followed by another non-public one', breaks='members of the later section are serialised')
B('c11-comment-stars', 'C11', [('tokeninput.h', '''                  while (lc!='*' || c!='/')
                    {
                      lc=c;
                      getnextc();
                    }''','''                  while (lc!='*' || c!='/')
                    {
                      lc=c;
                      if (lc=='*' && getnextc()=='*') lc=0;
                      else if (lc!='*') getnextc();
                    }''')], PK+'int main() {X x; pack_t p; p<<x; return p.size()==3*sizeof(int)? 0: 1;}', pre=P('struct X {int a; /** note **/ int b; /* other */ int c;};'), std='c++11', needs='a comment ended by two stars', breaks='the comment runs on to the next one and the member in between is lost')
B('c11-using-name', 'C11', [('classdesc.cc', "(!num_instances.count(name) || num_instances[name]==1))", "(!num_instances.count(name) || num_instances[name]<=1+int(virt_list.count(name.substr(1)))))")], PK+'#include <iostream>\n', pre='''cat > "$w/e.h" <<'X'
struct X {int a; virtual void f(int); void f(double); virtual ~X(); int b;};
X
"$r/classdesc" -nodef probe <"$w/e.h" >"$w/e.cd" || exit 4
! grep -q 'X::f' "$w/e.cd"; exit $?
''', std='c++11', needs='a virtual method with one overload', breaks='both overloads are handed over by an ambiguous address')
B('c11-field-nested', 'C11', [('tokeninput.h', "  for (input.nexttok(); input.token!=right || delim_count>0; ", "  for (input.nexttok(); input.token!=right || (delim_count>0 && input.lasttoken!=right); ")], PK+'int main() {X x; pack_t p; p<<x; return p.size()==2*sizeof(int)? 0: 1;}', pre=P('struct X {int a; void f() {if (a) {for (;a;) {--a;}} else a=1; } int b; void g(int x=((1+2))*(3)) {}};'), std='c++11', needs='two closing delimiters in a row inside a longer construct', breaks='the construct ends early')
B('c11-deleted-overload', 'C11', [('classdesc.cc', """              num_instances["."+memname]++;""", """              if (!deleted) num_instances["."+memname]++;""")], None, sh="""cat > "$w/e.h" <<'X'
struct X {int a; void f(int); void f(double)=delete; int b;};
X
"$r/classdesc" -nodef probe <"$w/e.h" >"$w/e.cd" || exit 4
! grep -q 'X::f' "$w/e.cd"; exit $?
""", std='c++11', needs='a method with a deleted overload', breaks='the address of an overloaded method is handed over, which does not compile')
B('c11-objc-static', 'C11', [('classdesc.cc', """            if (is_const)
            actionlist""", """            if (is_const && !actionlist.empty())
            actionlist""")], PK+'int main() {C c; pack_t p; p<<c; return p.size()==sizeof(int)? 0: 1;}', pre=P('struct C {static const int k=3; int c;};'), std='c++11', needs='a class whose first member is a static constant', breaks='the constant is packed by reference')
