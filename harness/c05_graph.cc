// C05: pointer packing: random graphs and trees come back isomorphic, whatever the recursion limit, the history of the process or the data
// FLAGS: -std=c++11
// CD: graphs.cd graphs.h pack unpack
// LIBS: -ltirpc @/xdr_pack.o
#include "h.h"
#include <map>
#include <deque>
#include <sys/wait.h>
#include "pack_base.h"
#include "pack_stl.h"
#include "pack_graph.h"
#include "graphs.h"
#include "graphs.cd"
#include "classdesc_epilogue.h"
using namespace classdesc;
using std::string; using std::vector; using std::map;
long Count::live=0, Count::boom=0;
static const unsigned limits[]={500,0,1,2,3,4,5,7,20};

// the links of a node as an array, so that one checker serves all types
template <class T> struct L;
template <> struct L<Node> {static int n(const Node&) {return 3;} static Node*& at(Node& x, int i) {return i==0? x.left: i==1? x.mid: x.right;}
  static void fill(Node& x) {x.name=string(h::rnd(4),'a'+h::rnd(26)); x.tail=h::rnd(1000);} static bool same(const Node& a, const Node& b) {return a.id==b.id && a.name==b.name && a.tail==b.tail;}};
template <> struct L<Tree> {static int n(const Tree&) {return 2;} static Tree*& at(Tree& x, int i) {return i? x.r: x.l;}
  static void fill(Tree& x) {x.s=h::rnd(1000);} static bool same(const Tree& a, const Tree& b) {return a.id==b.id && a.s==b.s;}};
template <> struct L<CNode> {static int n(const CNode& x) {return x.out.size();} static CNode*& at(CNode& x, int i) {return x.out[i];}
  static void fill(CNode& x) {x.out.resize(h::rnd(4));} static bool same(const CNode& a, const CNode& b) {return a.id==b.id && a.out.size()==b.out.size();}};
template <> struct L<FNode> {static int n(const FNode&) {return 2;} static FNode*& at(FNode& x, int i) {return i? x.other: x.next;}
  static void fill(FNode& x) {} static bool same(const FNode& a, const FNode& b) {return a.id==b.id && a.trip==b.trip;}};
template <> struct L<GP> {static int n(const GP&) {return 2;} static GP*& at(GP& x, int i) {return i? x.m: x.n;}
  static void fill(GP& x) {} static bool same(const GP& a, const GP& b) {return a.id==b.id;}};
template <> struct L<TP> {static int n(const TP&) {return 2;} static TP*& at(TP& x, int i) {return i? x.m: x.n;}
  static void fill(TP& x) {} static bool same(const TP& a, const TP& b) {return a.id==b.id;}};

template <class T> string describe(std::deque<T>& g, int root)
{
  string r="root "+h::str(root)+";";
  for (size_t i=0; i<g.size() && i<12; ++i) {
    r+=" "+h::str(i)+"->";
    for (int k=0; k<L<T>::n(g[i]); ++k) {T* p=L<T>::at(g[i],k); r+=(k?",":"")+(p? h::str(p->id): string("0"));}
  }
  return r;
}
// a random graph; shape 0 sparse, 1 dense, 2 chain, 3 ring both ways, 4 tree (edges only to later, unshared nodes)
template <class T> void build(std::deque<T>& g, int n, int shape)
{
  for (int i=0; i<n; ++i) {g.emplace_back(); g.back().id=i; L<T>::fill(g.back());}
  int next=1;
  for (int i=0; i<n; ++i)
    for (int k=0; k<L<T>::n(g[i]); ++k) {
      T*& e=L<T>::at(g[i],k); e=0;
      if (shape==4) {if (next<n && (h::rnd(3) || i==next-1)) e=&g[next++];}
      else if (shape==2) {if (i+1<n && k==(int)h::rnd(L<T>::n(g[i]))) e=&g[i+1];}
      else if (shape==3) e=k==0? &g[(i+n-1)%n]: k==1? &g[(i+2)%n]: h::rnd(2)? &g[i]: 0;
      else if (h::rnd(shape? 8: 2)) e=&g[h::rnd(n)];
    }
}
// isomorphism of what is reachable; returns number of nodes reached, -1 on difference
template <class T> int iso(T* a, T* b, map<T*,T*>& m, bool tree)
{
  std::deque<std::pair<T*,T*>> todo; todo.push_back(std::make_pair(a,b));
  std::set<T*> image; int n=0;
  while (!todo.empty()) {
    a=todo.front().first; b=todo.front().second; todo.pop_front();
    if (!a || !b) {if (a||b) return -1; continue;}
    if (a==b) return -1;
    if (!tree) {
      if (m.count(a)) {if (m[a]!=b) return -1; continue;}
      m[a]=b;
    }
    if (!image.insert(b).second) return -1;
    n++;
    if (!L<T>::same(*a,*b)) return -1;
    for (int k=0; k<L<T>::n(*a); ++k) todo.push_back(std::make_pair(L<T>::at(*a,k),L<T>::at(*b,k)));
  }
  return n;
}
template <class T> int reach(T* a, bool tree)
{
  map<T*,T*> m; std::deque<T*> todo(1,a); int n=0;
  while (!todo.empty()) {
    a=todo.front(); todo.pop_front();
    if (!a || (!tree && m.count(a))) continue;
    m[a]=a; n++;
    for (int k=0; k<L<T>::n(*a); ++k) todo.push_back(L<T>::at(*a,k));
  }
  return n;
}
static bool healthy(const string& key, const string& d)
{ // the process is still able to pack and unpack a small ring, with any limit
  bool ok=true;
  for (unsigned lim: {500u,2u,0u}) {
    std::deque<Node> g; build(g,5,3);
    pack_t b; b.ptr_flag=GRAPH; b.recur_max=lim;
    Node* r=&g[0]; Node* q=0; int end=0;
    try {
      b<<r<<99; b>>q>>end;
      map<Node*,Node*> m;
      ok&=iso(r,q,m,false)==5 && end==99 && b.pos()==b.size() && b.alloced.size()==5;
    } catch (...) {ok=false;}
  }
  return h::check(ok,key,"the next graph goes wrong after: "+d);
}
template <class T> void graphs(const char* name, Ptr_flag flag, bool tree, bool limitable, int reps)
{
  h::section(string("graphs of ")+name);
  for (int rep=0; rep<h::scale(reps); ++rep) {
    int n=1+h::rnd(rep%10==0? 60: 9), shape=tree? 4: h::rnd(4);
    unsigned lim=limitable? limits[h::rnd(sizeof(limits)/sizeof(limits[0]))]: 500;
    std::deque<T> g, copy; build(g,n,shape);
    T* root= h::rnd(20)? &g[h::rnd(n)]: 0;
    string d=string(name)+" limit "+h::str(lim)+" "+describe(g,root? root->id: -1);
    h::eval(d);
    vector<vector<T*>> before;
    for (auto& x: g) {before.emplace_back(); for (int k=0; k<L<T>::n(x); ++k) before.back().push_back(L<T>::at(x,k));}
    long live=Count::live;
    {
      pack_t b; b.ptr_flag=flag; b.recur_max=lim;
      const int lead=h::rnd(2)? 7: -1;
      try {
        if (lead>0) b<<lead;
        b<<root<<12345;
        bool twice=h::rnd(3)==0; size_t mid=b.size();
        if (twice) b<<root;
        bool same=true;
        for (size_t i=0; i<g.size(); ++i) for (int k=0; k<L<T>::n(g[i]); ++k) same&=L<T>::at(g[i],k)==before[i][k];
        h::check(same && Count::live==live,"original-changed",d);
        b.recur_max=h::rnd(2)? 500: 3;     // the limit in force when unpacking is irrelevant
        T old; T* q=h::rnd(2)? 0: &old; int x=0, end=0;
        if (lead>0) b>>x;
        b>>q>>end;
        map<T*,T*> m;
        int want=reach(root,tree);
        h::check(iso(root,q,m,tree)==want,"isomorphic",d);
        h::check(end==12345 && b.pos()==mid,"consumed",d+" pos "+h::str(b.pos())+" of "+h::str(mid));
        h::check((int)b.alloced.size()==want,"owned",d+" alloced "+h::str(b.alloced.size()));
        if (twice) {
          T* q2=0; b>>q2; map<T*,T*> m2;
          h::check(iso(root,q2,m2,tree)==want && b.pos()==b.size(),"second-graph",d);
          h::check(!q2 || q2!=q,"distinct",d);
          h::check((int)b.alloced.size()==2*want,"owned",d);
        }
        // the owner list may be copied, shuffled and partly dropped: every object goes exactly once
        if (h::rnd(2)) {
          vector<PtrStoreRef> keep(b.alloced);
          for (size_t i=0; i<keep.size(); ++i) std::swap(keep[i],keep[h::rnd(keep.size())]);
          keep.resize(h::rnd(keep.size()+1));
          if (h::rnd(2)) b.alloced=keep; else b.alloced.clear();
          if (keep.size()>1) {keep[0]=keep[1]; keep[1]=keep[1];}
        }
      } catch (std::exception& e) {h::fail("exception",d+": "+e.what());}
    }
    h::check(Count::live==live,"freed-once",d+" objects left "+h::str(Count::live-live));
  }
}
static void refs()
{
  h::section("ref graphs");
  for (int rep=0; rep<h::scale(150); ++rep) {
    int n=1+h::rnd(12);
    vector<ref<RNode>> g(n);
    for (int i=0; i<n; ++i) g[i]->id=i;
    string d="limit ";
    unsigned lim=limits[h::rnd(sizeof(limits)/sizeof(limits[0]))]; d+=h::str(lim);
    for (int i=0; i<n; ++i) {
      int a=h::rnd(n+2), b=h::rnd(n+2);
      if (a<n) g[i]->a=g[a];
      if (b<n) g[i]->b=g[b];
      d+=" "+h::str(i)+"->"+h::str(a<n? a: -1)+","+h::str(b<n? b: -1);
    }
    h::eval(d);
    pack_t b; b.recur_max=lim; ref<RNode> q, q2, other; if (h::rnd(2)) q->id=77;
    // targets that share what they refer to with others
    bool shared=h::rnd(3)==0; if (shared) {other->id=77; other->a->id=78; q=other; q2=other; d+=" shared target";}
    try {
      b<<g[0]<<g[n-1]<<4711; int end=0; b>>q>>q2>>end;
      if (shared) {
        h::check(other.refCount()==1 && other->id==77 && other->a && other->a->id==78 && !other->b,"ref-others-affected",d);
        h::check(&*q!=&*other && &*q2!=&*other && &*q!=&*q2,"ref-distinct",d);
      }
      h::check(q2 && q2->id==n-1,"ref-second",d);
      {std::set<const RNode*> seen; vector<ref<RNode>> todo(1,q2); while (!todo.empty()) {ref<RNode> x=todo.back(); todo.pop_back(); if (!seen.insert(&*x).second) continue; if (x->a) todo.push_back(x->a); if (x->b) todo.push_back(x->b); x->a.nullify(); x->b.nullify();}}
      h::check(end==4711 && b.pos()==b.size(),"ref-consumed",d);
      map<const RNode*,const RNode*> m; std::set<const RNode*> image; bool ok=true;
      std::deque<std::pair<const RNode*,const RNode*>> todo; todo.push_back(std::make_pair(&*g[0],&*q));
      while (!todo.empty()) {
        auto x=todo.front(); todo.pop_front();
        if (m.count(x.first)) {ok&=m[x.first]==x.second; continue;}
        m[x.first]=x.second; ok&=image.insert(x.second).second && x.first!=x.second && x.first->id==x.second->id;
        ok&=bool(x.first->a)==bool(x.second->a) && bool(x.first->b)==bool(x.second->b);
        if (!ok) break;
        if (x.first->a) todo.push_back(std::make_pair(&*x.first->a,&*x.second->a));
        if (x.first->b) todo.push_back(std::make_pair(&*x.first->b,&*x.second->b));
      }
      h::check(ok,"ref-isomorphic",d);
      // reference counts of the copies count exactly the links
      map<const RNode*,int> links; links[&*q]++;
      for (auto& x: m) {if (x.second->a) links[&*x.second->a]++; if (x.second->b) links[&*x.second->b]++;}
      bool counts=true; vector<ref<RNode>> hold;
      auto probe=[&](const ref<RNode>& r){if (r) counts&=r.refCount()==links[&*r];};
      probe(q); for (auto& x: m) {probe(x.second->a); probe(x.second->b);}
      h::check(counts,"ref-counts",d);
      // break cycles
      vector<RNode*> all; for (auto& x: m) all.push_back(const_cast<RNode*>(x.second));
      vector<ref<RNode>> keep; for (auto x: all) {if (x->a) keep.push_back(x->a); if (x->b) keep.push_back(x->b);}
      keep.push_back(q);
      for (auto x: all) {x->a.nullify(); x->b.nullify();}
    } catch (std::exception& e) {h::fail("ref-exception",d+": "+e.what());}
    for (auto& x: g) {x->a.nullify(); x->b.nullify();}
  }
}
static void failures()
{
  h::section("exceptions");
  for (int rep=0; rep<h::scale(60); ++rep) {
    int n=1+h::rnd(7); std::deque<Node> g; build(g,n,h::rnd(4));
    unsigned lim=limits[h::rnd(sizeof(limits)/sizeof(limits[0]))];
    Node* root=&g[0];
    string d="limit "+h::str(lim)+" "+describe(g,0);
    pack_t full; full.ptr_flag=GRAPH; full.recur_max=lim; full<<root;
    for (size_t cut=0; cut<full.size(); cut+= rep<10? 1: 1+h::rnd(9)) {
      string dd="data cut to "+h::str(cut)+" of "+h::str(full.size())+", "+d;
      h::eval(dd);
      long live=Count::live; bool threw=false;
      {
        pack_t b; b.ptr_flag=GRAPH; b.packraw(full.data(),cut);
        Node* q=0;
        try {b>>q;} catch (std::exception&) {threw=true;}
        std::set<void*> own; for (auto& x: b.alloced) own.insert(x.data());
        h::check(own.size()==b.alloced.size(),"fail-owned",dd);
      }
      h::check(threw,"fail-detected",dd);
      h::check(Count::live==live,"fail-freed",dd);
      if (!healthy("fail-unpack-recovers",dd)) return;
    }
    for (int k=1; k<=n; ++k) {   // constructor of the k-th object throws
      string dd="constructor "+h::str(k)+" throws, "+d; h::eval(dd);
      long live=Count::live;
      {
        pack_t b; b.ptr_flag=GRAPH; b.packraw(full.data(),full.size()); Node* q=0; bool threw=false;
        Count::boom=k;
        try {b>>q;} catch (int) {threw=true;}
        int made=b.alloced.size(); bool due=Count::boom==0; Count::boom=0;
        h::check(threw==due && (!due || made==k-1),"ctor-throws",dd);
      }
      h::check(Count::live==live,"fail-freed",dd);
      if (!healthy("fail-ctor-recovers",dd)) return;
    }
  }
  // packing to a sink that fills up
  for (int rep=0; rep<h::scale(30); ++rep) {
    int n=1+h::rnd(40); std::deque<Node> g; build(g,n,h::rnd(4)); Node* root=&g[0];
    unsigned lim=limits[h::rnd(sizeof(limits)/sizeof(limits[0]))];
    string d="packing to a full device, limit "+h::str(lim)+" "+describe(g,0); h::eval(d);
    bool threw=false;
    try {
      pack_t b("/dev/full","w");
      b.ptr_flag=GRAPH; b.recur_max=lim;
      for (int i=0; i<4000 && !threw; ++i) b<<root;
    } catch (std::exception&) {threw=true;}
    h::check(threw,"full-device",d);
    if (!healthy("fail-pack-recovers",d)) return;
  }
  // no pointer mode
  for (int k=0; k<2; ++k) {
    h::eval("no pointer mode"+h::str(k));
    pack_t b; Node x; Node* p=k? &x: 0; bool threw=false;
    try {b<<p;} catch (std::exception&) {threw=true;}
    h::check(threw && b.size()==0,"no-mode","pack");
    b<<1<<2; threw=false; Node* q=p;
    try {b>>q;} catch (std::exception&) {threw=true;}
    h::check(threw && q==p && b.pos()==0,"no-mode","unpack");
  }
}
static void nested()
{
  h::section("pointers inside objects and arrays");
  for (int rep=0; rep<h::scale(60); ++rep) {
    int n=1+h::rnd(10); std::deque<Node> g; build(g,n,h::rnd(4));
    unsigned lim=limits[h::rnd(sizeof(limits)/sizeof(limits[0]))];
    Holder a, c; a.before=h::rnd(); a.after=string(h::rnd(9),'x'); a.root=h::rnd(5)? &g[h::rnd(n)]: 0;
    string d="holder, limit "+h::str(lim)+" "+describe(g,a.root? a.root->id: -1); h::eval(d);
    pack_t b; b.ptr_flag=GRAPH; b.recur_max=lim;
    try {
      b<<a; b>>c; map<Node*,Node*> m;
      h::check(a.before==c.before && a.after==c.after && iso(a.root,c.root,m,false)==reach(a.root,false) && b.pos()==b.size(),"holder",d);
    } catch (std::exception& e) {h::fail("holder",d+": "+e.what());}
  }
  // several types interleaved in one stream
  for (int rep=0; rep<h::scale(40); ++rep) {
    std::deque<Node> g; build(g,1+h::rnd(8),h::rnd(4)); std::deque<FNode> f; build(f,1+h::rnd(8),h::rnd(4)); std::deque<GP> p; build(p,1+h::rnd(8),h::rnd(4));
    unsigned lim=limits[h::rnd(sizeof(limits)/sizeof(limits[0]))];
    string d="mixed, limit "+h::str(lim)+" "+describe(g,0)+" | "+describe(f,0)+" | "+describe(p,0); h::eval(d);
    Node* a=&g[0]; FNode* e=&f[0]; GP* c=&p[0]; Node* a1=0; FNode* e1=0; GP* c1=0;
    pack_t b; b.ptr_flag=GRAPH; b.recur_max=lim;
    try {
      b<<a<<e<<c<<a; b>>a1>>e1>>c1; Node* a2=0; b>>a2;
      map<Node*,Node*> m, m2; map<FNode*,FNode*> mf; map<GP*,GP*> mg;
      h::check(iso(a,a1,m,false)==reach(a,false) && iso(a,a2,m2,false)==reach(a,false) && iso(e,e1,mf,false)==reach(e,false) && iso(c,c1,mg,false)==reach(c,false) && b.pos()==b.size(),"mixed",d);
    } catch (std::exception& x) {h::fail("mixed",d+": "+x.what());}
  }
  // long chains, with the default limit and with small ones
  for (unsigned lim: {500u,50u,3u,499u,501u}) for (int n: {499,500,501,1000,1501,3000}) {
    std::deque<FNode> g; for (int i=0; i<n; ++i) {g.emplace_back(); g.back().id=i;}
    for (int i=0; i<n; ++i) {g[i].next=i+1<n? &g[i+1]: &g[0]; g[i].other=i? &g[i-1]: 0;}
    string d="chain of "+h::str(n)+" limit "+h::str(lim); h::eval(d);
    pack_t b; b.ptr_flag=GRAPH; b.recur_max=lim; FNode* r=&g[0]; FNode* q=0;
    b<<r; b>>q; map<FNode*,FNode*> m;
    h::check(iso(r,q,m,false)==n && b.pos()==b.size(),"chain",d);
  }
}
static void restart_in_container()
{ // known finding: run apart, because it writes through a dangling pointer
  h::section("container beyond the limit");
  fflush(stdout);
  pid_t pid=fork();
  if (!pid) {
    int fd=open("/dev/null",O_WRONLY); dup2(fd,1); dup2(fd,2); alarm(20);
    std::deque<CNode> g; for (int i=0; i<6; ++i) {g.emplace_back(); g.back().id=i; g.back().out.resize(2);}
    for (int i=0; i<6; ++i) {g[i].out[0]=i+1<6? &g[i+1]: 0; g[i].out[1]=i? &g[i-1]: 0;}
    pack_t b; b.ptr_flag=GRAPH; b.recur_max=3; CNode* r=&g[0]; CNode* q=0; b<<r; b>>q;
    map<CNode*,CNode*> m;
    _exit(iso(r,q,m,false)==6? 0: 3);
  }
  int st; waitpid(pid,&st,0);
  h::eval("chain of 6 nodes, pointers in vectors, limit 3");
  h::check(WIFEXITED(st) && WEXITSTATUS(st)==0,"restart-in-container","chain of 6 nodes whose pointers are held in vectors, recursion limit 3: not isomorphic or crash");
}
int main()
{
  graphs<Node>("Node",GRAPH,false,true,500);
  graphs<FNode>("FNode",GRAPH,false,true,250);
  graphs<CNode>("CNode (pointers in a vector)",GRAPH,false,false,200);
  graphs<GP>("GP (#pragma graphnode)",DEFAULT,false,true,150);
  graphs<Tree>("Tree",TREE,true,false,250);
  graphs<TP>("TP (#pragma treenode)",DEFAULT,true,false,100);
  refs(); failures(); nested(); restart_in_container();
  printf("COUNT evaluations=%ld distinct=%zu\n",h::evals,h::seen.size());
}
