// C06: reference counted pointers, random histories against a model
// FLAGS: -std=c++11
#include "h.h"
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <memory>
#include "pack_base.h"
#include "pack_stl.h"
#include "ref.h"
#include "classdesc_epilogue.h"
using namespace classdesc;
using std::string; using std::vector;
static std::set<const void*> live; static bool bad; static long thrower=-1;
struct Boom {};
struct T {
  int v;
  void in() {if (thrower>0 && --thrower==0) throw Boom(); if (!live.insert(this).second) bad=true;}
  T(): v(-7) {in();}
  explicit T(int v): v(v) {in();}
  T(const T& x): v(x.v) {if (!live.count(&x)) bad=true; in();}
  ~T() {if (!live.erase(this)) bad=true; v=-99;}
  bool operator==(const T& x) const {return v==x.v;}
};
struct N {int v; T t; ref<N> next, other; N(int v=0): v(v), t(v) {}};
typedef ref<T> R;
struct Model {vector<int> id; std::map<int,int> val; int nid;
  int cnt(int p) const {return p<0? 0: std::count(id.begin(),id.end(),p);} };
int main()
{
  h::Main mm;
  h::section("histories");
  for (int t=0; t<h::scale(1500); ++t) {
    string ops;
    {
      vector<R> r(4); Model m; m.id.assign(4,-1); m.nid=0;
      for (int k=0; k<25; ++k) {
        size_t i=h::rnd(r.size()), j=h::rnd(r.size()); int val=h::rnd(5);
        size_t op=h::rnd(17);
        switch (op) {
        case 0: case 1: r[i]=r[j]; m.id[i]=m.id[j]; ops+=" r"+h::str(i)+"=r"+h::str(j); break;
        case 2: {T x(val); r[i]=x; m.id[i]=m.nid; m.val[m.nid++]=val; ops+=" r"+h::str(i)+"=T("+h::str(val)+")"; break;}
        case 3: r[i].nullify(); m.id[i]=-1; ops+=" r"+h::str(i)+".nullify"; break;
        case 4: {*r[i]; if (m.id[i]<0) {m.id[i]=m.nid; m.val[m.nid++]=-7;} r[i]->v=val; m.val[m.id[i]]=val; ops+=" *r"+h::str(i)+"="+h::str(val); break;}
        case 5: r[i].swap(r[j]); std::swap(m.id[i],m.id[j]); ops+=" r"+h::str(i)+".swap(r"+h::str(j)+")"; break;
        case 6: {R c(r[i]); CHECK(c==r[i] && c.refCount()==(m.id[i]<0? 0: m.cnt(m.id[i])+1),"copy",ops); ops+=" copy r"+h::str(i); break;}
        case 7: if (m.id[j]>=0) {r[i]=*r[j]; int v=m.val[m.id[j]]; m.id[i]=m.nid; m.val[m.nid++]=v; ops+=" r"+h::str(i)+"=*r"+h::str(j);} break;
        case 8: if (r.size()<8) {r.push_back(r[i]); m.id.push_back(m.id[i]); ops+=" push r"+h::str(i);} break;
        case 9: if (r.size()>2) {r.erase(r.begin()+i); m.id.erase(m.id.begin()+i); ops+=" erase r"+h::str(i);} break;
        case 10: {T x(val); vector<R> tmp(2,R(x)); CHECK(tmp[0]==tmp[1] && tmp[0].refCount()==2 && tmp[0]==x,"value",ops); r[i]=tmp[1]; m.id[i]=m.nid; m.val[m.nid++]=val; ops+=" r"+h::str(i)+"=R("+h::str(val)+")"; break;}
        case 11: if (m.id[j]>=0) {thrower=1; bool th=false; ops+=" r"+h::str(i)+"=*r"+h::str(j)+" throwing"; try {r[i]=*r[j];} catch (Boom) {th=true;} thrower=-1; CHECK(th,"exception-passed-on",ops);} break;
        case 12: if (m.id[i]<0) {thrower=1; bool th=false; ops+=" *r"+h::str(i)+" throwing"; try {*r[i];} catch (Boom) {th=true;} thrower=-1; CHECK(th,"exception-passed-on",ops);} break;
        case 13: std::swap(r[i],r[j]); std::swap(m.id[i],m.id[j]); ops+=" swap(r"+h::str(i)+",r"+h::str(j)+")"; break;
        case 14: std::sort(r.begin(),r.end()); {for (size_t a=0; a+1<r.size(); ++a) CHECK(!(r[a+1]<r[a]),"order",ops);
            // rebuild the model from identities
            std::map<const void*,int> who; Model n=m; vector<int> cnt0, cnt1; std::set<int> ids(m.id.begin(),m.id.end());
            for (size_t a=0; a<r.size(); ++a) {n.id[a]=-2; if (!r[a]) n.id[a]=-1; else {const R& c=r[a]; int found=-2; const void* q=&*c; if (who.count(q)) found=who[q]; n.id[a]=found;
              if (found==-2) {for (std::set<int>::iterator z=ids.begin(); z!=ids.end(); ++z) if (*z>=0 && m.val[*z]==c->v && m.cnt(*z)==c.refCount()) {bool used=false; for (auto& w: who) if (w.second==*z) used=true; if (!used) {found=*z; break;}} who[q]=found; n.id[a]=found;}}}
            bool all=true; for (size_t a=0; a<n.id.size(); ++a) if (n.id[a]==-2) all=false; CHECK(all,"sort-keeps-refs",ops); if (!all) {n=m;} m=n;} ops+=" sort"; break;
        case 15: {r[i]=r[i]; ops+=" self "+h::str(i); break;}
        case 16: {const R& c=r[i]; int cn=m.cnt(m.id[i]); CHECK(c.refCount()==cn && c.nullref()==(m.id[i]<0) && bool(c)==(m.id[i]>=0),"query",ops+" r"+h::str(i)); break;}
        }
        bool eq=true; std::set<int> used; std::set<const void*> pay;
        for (size_t a=0; a<r.size(); ++a) {
          const R& c=r[a]; int p=m.id[a];
          eq=eq && c.nullref()==(p<0) && c.refCount()==m.cnt(p) && (p<0 || (c->v==m.val[p] && (*c).v==m.val[p] && live.count(&*c)));
          {T z(1); eq=eq && (c==(const T*)0)==(p<0) && !(c==(const T*)&z) && (c!=(const T*)0)==(p>=0) && c!=(const T*)&z;}
          if (p>=0 && c) {used.insert(p); pay.insert(&*c); T q(m.val[p]), q2(m.val[p]+1); eq=eq && c==q && !(c!=q) && c!=q2 && c==&*c && !(c==(const T*)&q);}
          else if (p<0) {T q(1); eq=eq && !(c==q) && c!=q;}
          for (size_t b=0; b<r.size(); ++b) eq=eq && (c==r[b])==(p==m.id[b]) && (c!=r[b])==(p!=m.id[b]) && (p!=m.id[b] || !(c<r[b])) && (p==m.id[b] || (c<r[b])!=(r[b]<c));
        }
        CHECK(eq,"state",ops);
        CHECK(live.size()==used.size() && pay.size()==used.size(),"payload-lifetime",ops+": "+h::str(live.size())+" alive, "+h::str(used.size())+" referred to");
        CHECK(!bad,"object-lifetime",ops); bad=false;
      }
    }
    CHECK(live.empty() && !bad,"all-released",ops+": "+h::str(live.size())+" left"); live.clear(); bad=false;
    h::eval(ops);
  }
  h::section("linked nodes");
  for (int t=0; t<h::scale(600); ++t) {
    string ops;
    {
      // nodes numbered; model: next/other of each, roots; acyclic (only higher numbers are referred to), so everything is released
      int n=2+h::rnd(8); vector<int> nx(n), ot(n); vector<ref<N> > tmp(n); ref<N> root, second;
      for (int i=n-1; i>=0; --i) {tmp[i]=N(i); nx[i]=i+1<n && h::rnd(5)? i+1+h::rnd(std::min(2,n-i-1)): -1; ot[i]=i+1<n && h::rnd(3)==0? i+1+h::rnd(n-i-1): -1;
        if (nx[i]>=0) tmp[i]->next=tmp[nx[i]]; if (ot[i]>=0) tmp[i]->other=tmp[ot[i]];
        ops+=" "+h::str(i)+"->"+h::str(nx[i])+","+h::str(ot[i]);}
      int cur=0, sec=-1; root=tmp[0]; tmp.clear();
      for (int k=0; k<14 && cur>=0; ++k) {
        switch (h::rnd(7)) {
        case 0: root=root->next; cur=nx[cur]; ops+=" root=next"; break;
        case 1: if (ot[cur]>=0) {root=root->other; cur=ot[cur]; ops+=" root=other";} break;
        case 2: if (nx[cur]>=0) {root->next=root->next->next; nx[cur]=nx[nx[cur]]; ops+=" drop-next";} break;
        case 3: second=root; sec=cur; ops+=" second=root"; break;
        case 4: if (nx[cur]>=0) {root=*root->next; int c=nx[cur]; nx.push_back(nx[c]); ot.push_back(ot[c]); cur=nx.size()-1; ops+=" root=*next";} break;
        case 5: if (sec>=0) {second->next.nullify(); nx[sec]=-1; ops+=" cut";} break;
        case 6: second.nullify(); sec=-1; ops+=" second-null"; break;
        }
        std::set<int> reach; vector<int> st; if (cur>=0) st.push_back(cur); if (sec>=0) st.push_back(sec);
        std::map<int,int> refs; if (cur>=0) refs[cur]++; if (sec>=0) refs[sec]++;
        while (st.size()) {int x=st.back(); st.pop_back(); if (!reach.insert(x).second) continue; if (nx[x]>=0) {refs[nx[x]]++; st.push_back(nx[x]);} if (ot[x]>=0) {refs[ot[x]]++; st.push_back(ot[x]);}}
        CHECK(live.size()==reach.size(),"node-lifetime",ops+": "+h::str(live.size())+" alive, "+h::str(reach.size())+" reachable");
        CHECK(root.refCount()==(cur<0? 0: refs[cur]) && second.refCount()==(sec<0? 0: refs[sec]),"node-count",ops);
        CHECK((cur<0)==root.nullref() && !bad,"node-state",ops);
      }
    }
    CHECK(live.empty() && !bad,"all-nodes-released",ops); live.clear(); bad=false;
    h::eval(ops);
  }
}
