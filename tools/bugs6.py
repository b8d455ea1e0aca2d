G='#include "pack_base.h"\n#include "pack_stl.h"\n#include "pack_graph.h"\n#include <stdexcept>\nstruct N {int id; N* l; N* r; N(): id(0), l(0), r(0) {}};\nnamespace classdesc_access {\n  template <> struct access_pack<N> {template <class U> void operator()(classdesc::pack_t& b, const classdesc::string& d, U& a) {b<<a.id<<a.l<<a.r;}};\n  template <> struct access_unpack<N> {template <class U> void operator()(classdesc::pack_t& b, const classdesc::string& d, U& a) {b>>a.id>>a.l>>a.r;}};\n}\n#include "classdesc_epilogue.h"\nusing namespace classdesc;\n'
B('c05-treenode-owner', 'C05', [('pack_graph.h', '''        targ.alloced.push_back(new classdesc::PtrStore<T>);
        arg=static_cast<T*>(targ.alloced.back().data());
        unpack(targ,desc,*arg);''', '''        targ.alloced.push_back(new classdesc::PtrStore<T>);
        unpack(targ,desc,*static_cast<T*>(targ.alloced.back().data()));
        arg=static_cast<T*>(targ.alloced.back().data());''')], G+'''int main() {N a, b; a.id=1; b.id=2; a.l=&b; pack_t p; p.ptr_flag=TREE; N* x=&a, *y=0; p<<x; p>>y; return y && y->id==1 && y->l && y->l->id==2 && !y->l->l? 0: 1;}''', std='c++11', needs='a tree of more than one node', breaks='a pointer is set to the object allocated last instead of its own')
B('c05-clear-when-deferred', 'C05', [('pack_graph.h', """            restart.pop_back();    //in case further restarts are needed
            unpack_graph(buf,aa);
          }
        graph_map.clear();""", """            restart.pop_back();    //in case further restarts are needed
            unpack_graph(buf,aa);
            if (restart.empty()) graph_map.clear();
          }""")], G+"""int main() {N a, b; a.id=1; b.id=2; a.l=&b; b.r=&a; pack_t p; p.ptr_flag=GRAPH; N *x=&a, *y=0, *z=0; p<<x<<x; p>>y>>z; return y && z && y!=z && z->l && z->l->r==z && y->l->r==y? 0: 1;}""", std='c++11', needs='a second graph unpacked in the same process', breaks='numbers of the first graph survive, so the second refers to its objects')
B('c05-count-leak', 'C05', [('pack_base.h', "    ~PtrStoreRef() {if (d && d->cnt-- == 0) delete d;}", "    ~PtrStoreRef() {if (d && d->cnt-- <= 0 && d->data()) delete d; else if (d && d->cnt==2) d->cnt=3;}")], '#include "pack_base.h"\n#include "pack_graph.h"\n#include "classdesc_epilogue.h"\nusing namespace classdesc;\n'+"""static int dead=0; struct X {int v; ~X() {dead++;}};
int main() {{std::vector<PtrStoreRef> v; v.push_back(new PtrStore<X>); std::vector<PtrStoreRef> w(v), x(v), y(v);} return dead==1? 0: 1;}""", std='c++11', needs='four references to one object', breaks='an object that has had four owners is never freed')
B('c05-null-keeps', 'C05', [('pack_graph.h', """        if (myid==0) 
          arg=T();                //reset arg to invalid state""", """        if (myid==0) 
          {if (buf.alloced.empty()) arg=T();} //reset arg to invalid state""")], G+"""struct M {N n; N* p; M(): p(&n) {}};
int main() {N a; a.id=1; pack_t p; p.ptr_flag=GRAPH; N dummy; N *x=&a, *nul=0, *y=0, *z=&dummy; p<<x<<nul; p>>y>>z; return z==0 && y->l==0? 0: 1;}""", std='c++11', needs='a null pointer unpacked over a non-null one, after some object was allocated', breaks='the old pointer stays')
