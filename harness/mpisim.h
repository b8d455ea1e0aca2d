// MPI for the harnesses: every process is a thread, one runs at a time, and a random scheduler switches at each call (so runs are
// repeatable).  Messages sent asynchronously are read from the sender's memory at a random later moment, no later than their receipt
// or the completion of the request.  Misuse (unknown request, message too long, differing sizes in collective calls) is reported.
#ifndef MPISIM_H
#define MPISIM_H
#include "mpi.h"
#include "h.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <vector>
#include <list>
#include <functional>
#include <stdexcept>
namespace sim {
  struct Message {int source, tag; MPI_Comm comm; std::vector<char> data; const char* from; size_t n; int req; bool read; void fetch() {if (!read) {data.assign(from,from+n); read=true;}}};
  struct Request {int owner; std::list<Message>::iterator m; bool done, live; int dest;};
  struct Exit {};
  static std::mutex mx; static std::condition_variable cv;
  static int np, turn; static unsigned long steps, progress; static bool dead;
  static std::vector<int> ended; static std::vector<std::list<Message>> box; static std::vector<Request> reqs;
  static std::vector<std::vector<char>> slot; static std::vector<long> phase; static std::string context; static bool leave=false;
  static thread_local int rank=0; static thread_local bool running=false;
  inline void report(const std::string& k, const std::string& d) {h::fail(k,context+" process "+h::str(rank)+": "+d);}
  // give way to another process; called with the baton
  inline void pass() {
    int live=0; for (int i=0; i<np; ++i) live+=!ended[i];
    if (!live) {turn=-1; cv.notify_all(); return;}
    int k=h::rnd(live); for (int i=0; i<np; ++i) if (!ended[i] && k--==0) {turn=i; break;}
    cv.notify_all();
  }
  inline void yield() {
    if (!running) return;
    std::unique_lock<std::mutex> l(mx);
    if (++steps-progress>2000ul*np && !dead) {dead=true; report("deadlock","no progress");}
    for (size_t i=1; i<reqs.size(); ++i) if (reqs[i].live && !reqs[i].done && h::rnd(6)==0) {reqs[i].m->fetch(); reqs[i].m->req=0; reqs[i].done=true;}
    pass(); cv.wait(l,[]{return turn==rank;});
    if (dead) throw Exit();
  }
  inline void await(std::function<bool()> f) {do yield(); while (!f()); progress=steps;}
  inline void run(int n, const std::string& ctx, std::function<void(int)> body) {
    np=n; context=ctx; steps=progress=0; dead=false; ended.assign(n,0); box.assign(n,{}); reqs.assign(1,Request()); slot.assign(n,{}); phase.assign(n,0);
    turn=h::rnd(n);
    std::vector<std::thread> t;
    for (int i=0; i<n; ++i) t.emplace_back([=]{
      rank=i; {std::unique_lock<std::mutex> l(mx); cv.wait(l,[]{return turn==rank;});}
      running=true;
      try {body(i);} catch (Exit) {} catch (const std::exception& e) {report("exception",e.what());}
      running=false;
      std::unique_lock<std::mutex> l(mx); ended[i]=1; progress=steps; pass();});
    for (auto& x: t) x.join();
    rank=0;
    if (!dead && !leave) for (auto& b: box) for (auto& m: b) {report("message-left","tag "+h::str(m.tag)+" from "+h::str(m.source)); break;}
  }
  inline size_t width(MPI_Datatype t) {return t==MPI_CHAR? 1: 4;}
  inline std::list<Message>::iterator match(int src, int tag, MPI_Comm c) {
    auto& b=box[rank]; std::vector<std::list<Message>::iterator> v; std::vector<char> seen(np);
    for (auto i=b.begin(); i!=b.end(); ++i) if (!seen[i->source] && i->comm==c && (tag==MPI_ANY_TAG || tag==i->tag)) {if (src==MPI_ANY_SOURCE || src==i->source) v.push_back(i); seen[i->source]=1;}
    return v.empty()? b.end(): v[h::rnd(v.size())];
  }
  inline void put(const void* p, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c, MPI_Request* r) {
    if (dest<0 || dest>=np) {report("send-to-nowhere",h::str(dest)); throw Exit();}
    Message m; m.source=rank; m.tag=tag; m.comm=c; m.from=(const char*)p; m.n=n*width(t); m.read=false; m.req=0;
    box[dest].push_back(m); auto i=--box[dest].end();
    if (r) {reqs.push_back(Request()); Request& q=reqs.back(); q.owner=rank; q.m=i; q.done=false; q.live=true; q.dest=dest; *r=i->req=reqs.size()-1;}
    else i->fetch();
    progress=steps;
  }
  inline bool known(int r) {
    if (r==MPI_REQUEST_NULL) return true;
    if (r<0 || r>=(int)reqs.size() || !reqs[r].live || reqs[r].owner!=rank) {report("request-unknown","a request that is not active is used"); return false;}
    return true;
  }
  // collective exchange: everybody puts data in its slot, then reads, then leaves
  inline void meet() {long p=++phase[rank]; await([=]{for (int i=0; i<np; ++i) if (phase[i]<p && !ended[i]) return false; return true;});}
}
extern "C" {
  inline int MPI_Init(int*,char***) {return 0;}
  inline int MPI_Finalize() {return 0;}
  inline int MPI_Initialized(int* f) {*f=sim::running; return 0;}
  inline int MPI_Finalized(int* f) {*f=!sim::running; return 0;}
  inline int MPI_Comm_rank(MPI_Comm c,int* r) {*r=c==MPI_COMM_SELF? 0: sim::rank; return 0;}
  inline int MPI_Comm_size(MPI_Comm c,int* n) {*n=c==MPI_COMM_SELF? 1: sim::np; return 0;}
  inline int MPI_Barrier(MPI_Comm) {sim::meet(); return 0;}
  inline int MPI_Send(const void* p,int n,MPI_Datatype t,int d,int tag,MPI_Comm c) {sim::put(p,n,t,d,tag,c,0); sim::yield(); return 0;}
  inline int MPI_Isend(const void* p,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request* r) {sim::put(p,n,t,d,tag,c,r); sim::yield(); return 0;}
  inline void sim_status(MPI_Status* s, std::list<sim::Message>::iterator m) {if (s) {s->MPI_SOURCE=m->source; s->MPI_TAG=m->tag; s->MPI_ERROR=0; s->count=m->n;}}
  inline int MPI_Probe(int s,int t,MPI_Comm c,MPI_Status* st) {std::list<sim::Message>::iterator m; sim::await([&]{return (m=sim::match(s,t,c))!=sim::box[sim::rank].end();}); sim_status(st,m); return 0;}
  inline int MPI_Iprobe(int s,int t,MPI_Comm c,int* f,MPI_Status* st) {sim::yield(); auto m=sim::match(s,t,c); *f=m!=sim::box[sim::rank].end(); if (*f) sim_status(st,m); return 0;}
  inline int MPI_Get_count(const MPI_Status* s,MPI_Datatype t,int* n) {*n=s->count/sim::width(t); return 0;}
  inline int MPI_Recv(void* p,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Status* st) {
    std::list<sim::Message>::iterator m; sim::await([&]{return (m=sim::match(s,tag,c))!=sim::box[sim::rank].end();});
    m->fetch(); if (m->req) {sim::reqs[m->req].done=true;}
    if (m->data.size()>n*sim::width(t)) {sim::report("message-truncated",h::str(m->data.size())+" bytes received into "+h::str(n)); m->data.resize(n*sim::width(t));}
    if (m->data.size()) memcpy(p,m->data.data(),m->data.size()); sim_status(st,m); sim::box[sim::rank].erase(m); return 0;}
  // requests
  inline bool sim_finish(MPI_Request* r) {if (*r==MPI_REQUEST_NULL) return true; if (!sim::known(*r)) {*r=0; return true;} if (!sim::reqs[*r].done) return false; sim::reqs[*r].live=false; *r=0; return true;}
  inline bool sim_done(MPI_Request r) {return r==0 || !sim::known(r) || sim::reqs[r].done;}
  inline int MPI_Test(MPI_Request* r,int* f,MPI_Status*) {sim::yield(); *f=sim_finish(r); return 0;}
  inline int MPI_Wait(MPI_Request* r,MPI_Status* st) {sim::await([=]{return sim_finish(r);}); if (st) st->MPI_SOURCE=st->MPI_TAG=-7; /* undefined for a send */ return 0;}
  inline int MPI_Testall(int n,MPI_Request* r,int* f,MPI_Status*) {sim::yield(); *f=1; for (int i=0; i<n; ++i) if (!sim_done(r[i])) *f=0; if (*f) for (int i=0; i<n; ++i) sim_finish(r+i); return 0;}
  inline int sim_any(int n,MPI_Request* r,int* x) {bool act=false; std::vector<int> d; for (int i=0; i<n; ++i) if (r[i]) {act=true; if (sim_done(r[i])) d.push_back(i);} if (!act) {*x=MPI_UNDEFINED; return 1;} if (d.empty()) {*x=MPI_UNDEFINED; return 0;} *x=d[h::rnd(d.size())]; sim_finish(r+*x); return 1;}
  inline int sim_some(int n,MPI_Request* r,int* c,int* x) {bool act=false; *c=0; for (int i=0; i<n; ++i) if (r[i]) {act=true; if (sim_done(r[i])) {sim_finish(r+i); x[(*c)++]=i;}} if (!act) *c=MPI_UNDEFINED; return !act || *c;}
  inline int MPI_Testany(int n,MPI_Request* r,int* x,int* f,MPI_Status*) {sim::yield(); *f=sim_any(n,r,x); return 0;}
  inline int MPI_Testsome(int n,MPI_Request* r,int* c,int* x,MPI_Status*) {sim::yield(); sim_some(n,r,c,x); return 0;}
  inline int MPI_Waitall(int n,MPI_Request* r,MPI_Status*) {for (int i=0; i<n; ++i) sim::await([=]{return sim_finish(r+i);}); return 0;}
  inline int MPI_Waitany(int n,MPI_Request* r,int* x,MPI_Status*) {sim::await([=]{return sim_any(n,r,x);}); return 0;}
  inline int MPI_Waitsome(int n,MPI_Request* r,int* c,int* x,MPI_Status*) {sim::await([=]{return sim_some(n,r,c,x);}); return 0;}
  // collective operations
  inline int MPI_Bcast(void* p,int n,MPI_Datatype t,int root,MPI_Comm) {
    size_t w=n*sim::width(t); if (sim::rank==root) sim::slot[root].assign((char*)p,(char*)p+w); sim::meet();
    if (sim::slot[root].size()!=w) sim::report("bcast-size",h::str(w)+" bytes received of "+h::str(sim::slot[root].size())); else if (w && sim::rank!=root) memcpy(p,sim::slot[root].data(),w);
    sim::meet(); return 0;}
  inline int MPI_Gatherv(const void* p,int n,MPI_Datatype t,void* q,const int* sz,const int* off,MPI_Datatype u,int root,MPI_Comm) {
    sim::slot[sim::rank].assign((const char*)p,(const char*)p+n*sim::width(t)); sim::meet();
    if (sim::rank==root) for (int i=0; i<sim::np; ++i) {if (sim::slot[i].size()!=sz[i]*sim::width(u)) sim::report("gather-size",h::str(i)); else if (sz[i]) memcpy((char*)q+off[i]*sim::width(u),sim::slot[i].data(),sim::slot[i].size());}
    sim::meet(); return 0;}
  inline int MPI_Gather(const void* p,int n,MPI_Datatype t,void* q,int m,MPI_Datatype u,int root,MPI_Comm c) {
    std::vector<int> s(sim::np,m), o(sim::np); for (int i=0; i<sim::np; ++i) o[i]=i*m; return MPI_Gatherv(p,n,t,q,s.data(),o.data(),u,root,c);}
  inline int MPI_Scatterv(const void* p,const int* sz,const int* off,MPI_Datatype t,void* q,int m,MPI_Datatype u,int root,MPI_Comm) {
    if (sim::rank==root) for (int i=0; i<sim::np; ++i) {const char* b=(const char*)p+off[i]*sim::width(t); sim::slot[i].assign(b,b+sz[i]*sim::width(t));}
    sim::meet(); auto& s=sim::slot[sim::rank];
    if (s.size()!=m*sim::width(u)) sim::report("scatter-size",h::str(s.size())+" bytes for "+h::str(m)); else if (m) memcpy(q,s.data(),s.size());
    sim::meet(); return 0;}
  inline int MPI_Scatter(const void* p,int n,MPI_Datatype t,void* q,int m,MPI_Datatype u,int root,MPI_Comm c) {
    std::vector<int> s(sim::np,n), o(sim::np); for (int i=0; i<sim::np; ++i) o[i]=i*n; return MPI_Scatterv(p,s.data(),o.data(),t,q,m,u,root,c);}
}
#endif
