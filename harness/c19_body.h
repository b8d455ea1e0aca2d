// C19: what one process sends is what the others get, for every number of processes, contents and schedule (MPI simulated: mpisim.h)
#include "h.h"
#include "classdesc_access.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "mpisim.h"
#define exit(x) throw sim::Exit()
#include "classdescMP.h"
#undef exit
#include "classdesc_epilogue.h"
#include <algorithm>
using namespace classdesc;
using h::str; using h::rnd;
typedef std::string S;
static S bytes(MPIbuf& b) {return b.size()? S(b.data(),b.size()): S();}
// a random content, packed; small numbers of items, sometimes long or empty
static S content(unsigned long long seed, size_t fixed=size_t(-1)) {
  unsigned long long s=h::state; h::state=seed*77777+5; MPIbuf_base p;
#ifdef HETERO
  if (fixed!=size_t(-1)) fixed&=~size_t(3);
#endif
  if (fixed!=size_t(-1)) {S r; for (size_t i=0; i<fixed; ++i) r+=char(rnd()); h::state=s; return r;}
  for (int n=rnd(4); n>0; --n) switch (rnd(4)) {case 0: p<<int(rnd()); break; case 1: p<<S(rnd(2)? rnd(9): rnd(400),char(rnd())); break; case 2: p<<double(rnd(1000))/8; break; default: p<<std::vector<short>(rnd(6),short(rnd()));}
  h::state=s; return p.size()? S(p.data(),p.size()): S();
}
static void load(MPIbuf& b, const S& s) {b.packraw(s.data(),s.size());}
static void dirt(MPIbuf& b) {if (rnd(2)) {load(b,content(rnd())); if (b.pos()<b.size() && rnd(2)) {char c; b.unpackraw(&c,1);}}}
static void same(MPIbuf& b, const S& s, const char* what, const S& d) {
  h::eval(S(what)+d+s);
  if (bytes(b)!=s) sim::report(S(what)+"-contents",d+": "+str(b.size())+" bytes instead of "+str(s.size())+(bytes(b).size()==s.size()? " (others)": ""));
  else if (b.pos()!=0) sim::report(S(what)+"-position",d+": reading would start at "+str(b.pos()));
}
static void empty(MPIbuf& b, const char* what) {if (b.size()) sim::report(S(what)+"-not-cleared",str(b.size())+" bytes left");}
static S D(int a, int b, int c) {return str(a)+"->"+str(b)+" tag "+str(c);}

// ---- send, isend, get, msg_waiting
struct Mail {int from, to, tag; unsigned long long seed;};
static void p2p(int n, unsigned long long seed) {
  std::vector<std::vector<Mail> > rounds(1+rnd(3));
  for (auto& r: rounds) for (int k=rnd(4*n); k>0; --k) {Mail m={int(rnd(n)),int(rnd(n)),int(rnd(3)),rnd()}; r.push_back(m);}
  sim::run(n,"messages, case "+str(seed),[&](int me) {
    MPIbuf out, in;
    for (auto& r: rounds) {
      std::vector<MPIbuf*> pending;
      for (auto& m: r) if (m.from==me) {
        S c=content(m.seed); int how=rnd(5);
        if (how<2) {load(out,c); if (how) out.send(m.to,m.tag); else out<<classdesc::send(m.to,m.tag); if (m.to==me) {if (bytes(out)!=c) sim::report("send-to-itself","the contents changed"); out.reset();} else empty(out,"send");}
        else if (how==2) {MPIbuf t; load(t,c); t<<classdesc::isend(m.to,m.tag);}
        else {MPIbuf* t=new MPIbuf; load(*t,c); if (how==3) t->isend(m.to,m.tag); else *t<<classdesc::isend(m.to,m.tag);
          if (m.to!=me) empty(*t,"isend"); if (rnd(2)) {t->wait(); if (!t->sent()) sim::report("sent","false after wait"); load(*t,content(rnd()));} pending.push_back(t);}
      }
      std::vector<Mail> due; for (auto& m: r) if (m.to==me && m.from!=me) due.push_back(m);
      if (rnd(2)) while (!due.empty() && !in.msg_waiting()) ;
      for (int k=rnd(3); k>0; --k) {
        int q=rnd(3)? int(rnd(n)): MPI_ANY_SOURCE, t=rnd(3)? int(rnd(3)): MPI_ANY_TAG; bool any=false;
        for (auto& m: due) any|=(q==MPI_ANY_SOURCE || q==m.from) && (t==MPI_ANY_TAG || t==m.tag);
        if (!any) {if (in.msg_waiting(q,t)) sim::report("msg-waiting","true for "+D(q,me,t)+" which is not sent");}
        else if (rnd(2)) while (!in.msg_waiting(q,t)) ;
      }
      while (!due.empty()) {
        Mail w=due[rnd(due.size())]; int s=rnd(2)? w.from: MPI_ANY_SOURCE, t=rnd(2)? w.tag: MPI_ANY_TAG;
        if (rnd(2)) dirt(in);
        bool same_default=s==MPI_ANY_SOURCE && t==MPI_ANY_TAG && rnd(2);
        MPIbuf& g= same_default? in.get(): t==MPI_ANY_TAG && rnd(2)? in.get(s): in.get(s,t);
        if (&g!=&in) sim::report("get","does not return the buffer");
        size_t k=0; while (k<due.size() && (due[k].from!=in.proc || (t!=MPI_ANY_TAG && due[k].tag!=t))) ++k;
        if (k==due.size()) {sim::report("get-source","message of process "+str(in.proc)+" tag "+str(in.tag)+" is not expected (asked for "+D(s,me,t)+")"); throw sim::Exit();}
        if (s!=MPI_ANY_SOURCE && in.proc!=s) sim::report("get-source","asked for "+str(s)+", proc is "+str(in.proc));
        if (in.tag!=due[k].tag) sim::report("get-tag",str(in.tag)+" instead of "+str(due[k].tag));
        same(in,content(due[k].seed),"get",D(due[k].from,me,due[k].tag));
        due.erase(due.begin()+k);
      }
      sim::meet();
      if (in.msg_waiting()) sim::report("msg-waiting","true when all were received");
      for (auto* p: pending) {if (rnd(2)) p->wait(); delete p;}
      sim::meet();
    }
  });
}
// ---- values as they are written and read (operators << and >>)
static void values(int n, unsigned long long seed) {
  int a=rnd(n), b=rnd(n); if (a==b) return;
  int x=rnd(); S s(rnd(30),char(rnd())); std::vector<double> v(rnd(5),0.5*rnd(100)); bool as=rnd(2);
  sim::run(n,"values, case "+str(seed),[&](int me) {
    if (me==a) {if (as) MPIbuf()<<x<<s<<v<<classdesc::isend(b,4); else MPIbuf()<<x<<s<<v<<classdesc::send(b,4);}
    if (me==b) {int y=0; S t; std::vector<double> w; MPIbuf g; g.get()>>y>>t>>w; h::eval("values"+str(x)+s);
      if (x!=y || s!=t || v!=w) sim::report("get-values","other values"); if (g.pos()!=g.size()) sim::report("get-values","bytes left");}
  });
}
// ---- collective operations, one after the other on the same buffers
static void collective(int n, unsigned long long seed) {
  struct Step {int op, root; bool fixed; size_t sz; unsigned long long s;};
  std::vector<Step> steps; for (int k=1+rnd(5); k>0; --k) {Step q={int(rnd(4)),int(rnd(n)),rnd(2)==0,rnd(40),rnd()}; steps.push_back(q);}
  bool everyone=rnd(2);
  sim::run(n,"collective, case "+str(seed),[&](int me) {
    MPIbuf b;
    for (auto& q: steps) {
      S d="step "+str(&q-&steps[0]);
      int mode=rnd(3); if (mode==0) b.reset(); else if (mode==1) b.reseti(); else {while (b.pos()<b.size()) {char c; b.unpackraw(&c,1);} b.reseti();}
      b.const_buffer=q.fixed && q.op<2;
      auto c=[&](int i) {return content(q.s+i,b.const_buffer? q.sz: size_t(-1));};
      if (q.op==0) {
        if (me==q.root) load(b,c(0)); else if (b.const_buffer) load(b,c(1+me)); else {dirt(b);}
        if (rnd(2)) b.bcast(q.root); else b<<classdesc::bcast(q.root);
        same(b,c(0),b.const_buffer? "bcast-const": "bcast",d);
      } else if (q.op==1) {
        load(b,c(me)); if (b.pos()<b.size() && rnd(2)) {char x; b.unpackraw(&x,1);}
        b.gather(q.root);
        if (me==q.root) {S all; for (int i=0; i<n; ++i) all+=c(i); same(b,all,b.const_buffer? "gather-const": "gather",d);} else empty(b,"gather");
      } else if (q.op==2) {
        if (me==q.root || everyone) {for (int i=0; i<n; ++i) {load(b,c(i)); b<<mark();}} else dirt(b);
        if (rnd(4)==0) {MPIbuf t(b); MPIbuf u; dirt(u); if (rnd(2)) u<<mark(); u=t; b=u; h::eval("copy marks");}
        b.scatter(q.root);
        same(b,c(me),"scatter",d);
      } else {
        // everybody exchanges with the next one by some distance; messages with other tags are under way
        int k=q.s%n, to=(me+k)%n, from=(me+n-k)%n; bool any=q.s/7%2, tags=q.s/14%2, noise=q.s/28%2;
        int st=tags? 10+me: 9, rt=tags? 10+from: 9; if (!tags && any && !noise && rnd(2)) rt=MPI_ANY_TAG;
        int nt=(me+1)%n, nf=(me+n-1)%n; MPIbuf x;
        if (noise) {load(x,content(q.s+100+me)); x.send(nt,20);}
        load(b,c(me));
        if (rnd(2)) b.send_recv(to,st,any && tags? MPI_ANY_SOURCE: from,rt);
        else b.send_recv(to,st,from,rt);
        if (!k) b.reseto();
        same(b,c(from),"send_recv",d+" from "+str(from));
        if (k && (b.proc!=from || b.tag!=(tags? 10+from: 9))) sim::report("send_recv-status","proc "+str(b.proc)+" tag "+str(b.tag)+" for a message of "+str(from)+" with tag "+str(tags? 10+from: 9));
        if (noise && n>1) {x.get(nf,20); same(x,content(q.s+100+nf),"get","noise");}
        sim::meet();
      }
    }
  });
}
// ---- exchange of several processes' messages, received by whichever comes first
static void anyone(int n, unsigned long long seed) {
  std::vector<size_t> len(n); for (auto& l: len) l=rnd(50);
  sim::run(n,"send_recv of any message, case "+str(seed),[&](int me) {
    // 0 takes part with everybody at once: each sends it two messages, the second by send_recv
    if (n<2) return;
    MPIbuf b; auto c=[&](int i,int k) {return content(seed*31+i*2+k,len[i]+k*3);};
    if (me) {load(b,c(me,0)); b.send(0,5); load(b,c(me,1)); b.send_recv(0,5,0,MPI_ANY_TAG); same(b,c(0,me),"send_recv","answer");}
    else {
      std::vector<int> got(n);
      for (int i=1; i<n; ++i) {b.reset(); load(b,c(0,i)); b.send_recv(i,rnd(8),MPI_ANY_SOURCE,5); int p=b.proc; if (p<1 || p>=n) {sim::report("send_recv-status","proc "+str(p)); throw sim::Exit();} if (b.tag!=5) sim::report("send_recv-status","tag "+str(b.tag)); same(b,c(p,got[p]++),"send_recv","any");}
      for (int i=1; i<n; ++i) {b.get(MPI_ANY_SOURCE,5); int p=b.proc; same(b,c(p,got[p]++),"get","any");}
    }
  });
}
// ---- copies
static void copies(int n, unsigned long long seed) {
  sim::run(n,"copies, case "+str(seed),[&](int) {
    std::vector<MPIbuf> v(1+rnd(3)); std::vector<S> m(v.size());
    for (int k=rnd(8)+1; k>0; --k) {
      size_t i=rnd(v.size()), j=rnd(v.size());
      switch (rnd(4)) {
        case 0: {S c=content(rnd()); load(v[i],c); m[i]+=c; break;}
        case 1: v[i]=v[j]; m[i]=m[j]; break;
        case 2: {MPIbuf t(v[i]); if (bytes(t)!=m[i]) sim::report("copy-contents","copied buffer"); if (t.const_buffer!=v[i].const_buffer) sim::report("copy-flag","const_buffer"); v[j]=t; m[j]=m[i]; break;}
        default: v[i].Communicator=rnd(2)? MPI_COMM_SELF: MPI_COMM_WORLD; v[j].const_buffer=rnd(2); if (i!=j) {v[j]=v[i]; m[j]=m[i]; if (v[j].Communicator!=v[i].Communicator) sim::report("copy-communicator","not copied"); if (v[j].const_buffer!=v[i].const_buffer) sim::report("copy-flag","const_buffer"); } v[i].Communicator=v[j].Communicator=MPI_COMM_WORLD;
      }
      h::eval("copy"+str(k)+str(i)+str(j)+m[i]);
      for (size_t q=0; q<v.size(); ++q) if (bytes(v[q])!=m[q]) {sim::report("copy-contents",str(v[q].size())+" bytes instead of "+str(m[q].size())); return;}
    }
  });
}
// ---- groups of messages
static void group(int n, unsigned long long seed) {
  int cnt=rnd(7); unsigned long long sd=rnd(); std::vector<int> to(cnt), from(cnt); std::vector<char> active(cnt);
  for (int i=0; i<cnt; ++i) {to[i]=rnd(n); from[i]=rnd(n); active[i]=rnd(5)!=0 && to[i]!=from[i];}
  sim::run(n,"groups, case "+str(seed),[&](int me) {
    {
      MPIbuf_array a(cnt); std::set<int> left; MPIbuf in;
      for (int i=0; i<cnt; ++i) if (active[i] && from[i]==me) {load(a[i],content(sd+i)); if (rnd(2)) a[i]<<classdesc::isend(to[i],i); else a[i].isend(to[i],i); left.insert(i);}
      auto off=[&](int i,const char* w) {if (!left.erase(i)) sim::report(w,"request "+str(i)+" is reported, which is not outstanding"); else h::eval(S(w)+str(i));};
      for (int k=rnd(8); k>0; --k) switch (rnd(6)) {
        case 0: if (a.testall()) left.clear(); break;
        case 1: {int i=a.testany(); if (i!=MPI_UNDEFINED) off(i,"testany"); break;}
        case 2: for (int i: a.testsome()) off(i,"testsome"); break;
        case 3: {bool e=left.empty(); int i=a.waitany(); if (i!=MPI_UNDEFINED) off(i,"waitany"); else if (!e) sim::report("waitany","none, but some are outstanding"); break;}
        case 4: {bool e=left.empty(); std::vector<int> v=a.waitsome(); if (v.empty()!=e) sim::report("waitsome",str(v.size())+" reported"); for (int i: v) off(i,"waitsome"); break;}
        default: if (rnd(3)==0) {a.waitall(); left.clear(); for (int i=0; i<cnt; ++i) if (!a[i].sent()) sim::report("waitall","not sent"); if (!a.testall()) sim::report("testall","false after waitall");}
      }
      // a buffer whose message is complete can be used again
      if (rnd(2)) {a.waitall(); for (int i=0; i<cnt; ++i) {load(a[i],content(rnd())); a[i].reset();}}
      for (int i=0; i<cnt; ++i) if (active[i] && to[i]==me) {in.get(from[i],i); same(in,content(sd+i),"get","of a group");}
    }
    sim::meet();
  });
}
// ---- master and slaves
struct Slave {
  int total; Slave(): total(0) {}
  void work(MPIbuf& b) {int id; S s; b>>id>>s; b.reset()<<id<<S(s.rbegin(),s.rend())<<total;}
  void add(MPIbuf& b) {int k; b>>k; total+=k;}
  void nothing(MPIbuf& b) {b.reset();}
};
static void slaves(int n, unsigned long long seed) {
  if (n<2) return;
  int jobs=rnd(12); std::vector<S> arg(jobs); for (auto& s: arg) s=S(rnd(3)? rnd(6): rnd(200),'a')+str(rnd(100));
  std::vector<int> adds(jobs); for (auto& x: adds) x=rnd(3)? 0: 1+rnd(9); std::vector<int> how(jobs); for (auto& x: how) x=rnd(4);
  if (rnd(6)==0) { // the master goes while slaves are busy
    int k=1+rnd(n-1); sim::leave=true;
    sim::run(n,"busy slaves, case "+str(seed),[&](int me) {MPIslave<Slave> s; for (int i=0; i<k; ++i) s.exec(s<<&Slave::work<<i<<S("abc")); h::eval("busy"+str(k)+str(n));});
    sim::leave=false; return;
  }
  sim::run(n,"slaves, case "+str(seed),[&](int me) {
    MPIslave<Slave> s;
    if (me) {sim::report("slave","the constructor returned"); return;}
    int total=0; std::vector<int> sum(jobs), done(jobs); std::map<int,int> at; MPIbuf b, c;
    auto take=[&]{MPIbuf& r=s.get_returnv(); int id,t; S x; r>>id>>x>>t; h::eval("job"+x);
      if (id<0 || id>=jobs || done[id]++) {sim::report("slave-result","of job "+str(id)); return;}
      if (x!=S(arg[id].rbegin(),arg[id].rend())) sim::report("slave-result","wrong value"); if (t!=sum[id]) sim::report("slave-bcast","total "+str(t)+" instead of "+str(sum[id]));
      if (s.idle.empty() || s.idle.back()!=at[id]) sim::report("slave-idle","the process that answered is not idle");};
    if (s.idle.size()!=unsigned(n-1) || !s.all_idle()) sim::report("slave-idle","at the start");
    for (int i=0; i<jobs; ++i) {
      if (adds[i]) {
        total+=adds[i];
        if (how[i]==0) {b<<int(1)<<S("rubbish"); b.reset(); MPIslave<Slave>* q=&s; b.reseti(); void (Slave::*m)(MPIbuf&)=&Slave::add; pack(b,string(),m); b<<adds[i]; q->bcast(b);}
        else if (how[i]==1) {s<<&Slave::add<<adds[i]; c=s; s<<&Slave::nothing<<S("something else"); s.bcast(c); if (c.size()) sim::report("slave-bcast","the buffer is not cleared");}
        else s.bcast(s<<&Slave::add<<adds[i]);
      }
      while (s.idle.empty()) take();
      sum[i]=total; at[i]=s.idle.back(); size_t before=s.idle.size();
      if (how[i]==3) {c.reset(); void (Slave::*m)(MPIbuf&)=&Slave::work; pack(c,string(),m); c<<i<<arg[i]; s.exec(c);} else s.exec(s<<&Slave::work<<i<<arg[i]);
      if (s.idle.size()!=before-1) sim::report("slave-idle","not taken off the list");
      if (rnd(3)==0 && s.idle.size()<unsigned(n-1)) take();
    }
    while (!s.all_idle()) take();
    s.wait_all_idle();
    for (int i=0; i<jobs; ++i) if (done[i]!=1) sim::report("slave-result","job "+str(i)+" was done "+str(done[i])+" times");
    std::vector<int> idle=s.idle; std::sort(idle.begin(),idle.end()); for (int i=0; i<n-1; ++i) if (idle[i]!=i+1) sim::report("slave-idle","at the end");
    if (rnd(2)) {int x=rnd(100), y=rnd(100); s<<x<<y; int p=-1,q=-1; s.reseto(); MPIbuf t; t=s; t>>p>>q; if (p!=x || q!=y || bytes(t)!=bytes(s)) sim::report("slave-write","of a value");}
    if (rnd(3)==0) {for (int i=1; i<n; ++i) {s<<&Slave::nothing; s.exec(s);} s.wait_all_idle(); if (!s.all_idle()) sim::report("slave-idle","after wait_all_idle");}
  });
}
int main(int, char**) {
  h::Main m;
  struct {const char* n; void (*f)(int,unsigned long long);} all[]={{"messages",p2p},{"values",values},{"collective",collective},{"any message",anyone},{"copies",copies},{"groups",group},{"slaves",slaves}};
  for (auto& a: all) {h::section(a.n); int N=h::scale(120); for (int i=0; i<N; ++i) {unsigned long long s=rnd(1000000000); h::state=s; a.f(1+rnd(5),s);}}
}
