HF={n: open(os.path.join(V,'harness',n)).read() for n in ('h.h','mpi.h','mpisim.h')}
MD='''#include "h.h"
#include "classdesc_access.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "mpisim.h"
#define exit(x) throw sim::Exit()
#include "classdescMP.h"
#undef exit
#include "classdesc_epilogue.h"
using namespace classdesc; using namespace std;
static string bytes(MPIbuf& b) {return b.size()? string(b.data(),b.size()): string();}
static void load(MPIbuf& b, const string& s) {b.packraw(s.data(),s.size());}
#define T(c,k) if (!(c)) sim::report(k,"")
template <class F> int cases(int n, F f) {for (int i=0; i<40; ++i) {h::state=i*1000+3; sim::run(n,"",f);} return h::fails.empty()? 0: 1;}
'''
def M(id,edits,demo,needs,breaks): B(id,'C19',[('classdescMP.h',a,b) for a,b in edits],MD+demo,files=HF,std='c++11',flags='-O0 -pthread',needs=needs,breaks=breaks)
M('c19-get-any', [('    MPI_Recv(data(),size(),MPI_CHAR,proc,tag,Communicator,&status);\n    reseto();\n    return *this;','    MPI_Recv(data(),size(),MPI_CHAR,p,t,Communicator,&status);\n    reseto();\n    return *this;')],
'''int main() {return cases(4,[](int me) {MPIbuf b; if (me) {load(b,string(me*10,'a'+me)); b.send(0,me);} else for (int i=0; i<3; ++i) {b.get(); T(bytes(b)==string(b.proc*10,'a'+b.proc) && b.tag==b.proc,"get");}});}''',
 'messages of several processes waiting when any is asked for', 'get takes another message than the one it looked at, truncated or with the wrong sender')
M('c19-gather-offset', [('offsets[i+1]=offsets[i]+sizes[i];','offsets[i+1]=(i+1)*sizes[i];')],
'''int main() {return cases(4,[](int me) {MPIbuf b; load(b,string(me*3,'a'+me)); b.gather(1); if (me==1) {string s; for (int i=0; i<4; ++i) s+=string(i*3,'a'+i); T(bytes(b)==s,"gather");}});}''',
 'contributions of differing sizes', 'gathered contents overlap')
M('c19-dtor', [('      if (request!=MPI_REQUEST_NULL) wait(); //MPI_Request_free(&request);\n','')],
'''int main() {return cases(2,[](int me) {if (!me) {{MPIbuf b; load(b,string(3000,'x')); b<<isend(1,3);} char* p=new char[4000]; memset(p,'y',4000); sim::yield(); sim::yield(); T(p[0]=='y',"");delete [] p;} else {MPIbuf b; for (int k=0; k<20; ++k) sim::yield(); b.get(); T(bytes(b)==string(3000,'x'),"isend");}});}''',
 'a buffer destroyed while its message is under way', 'the message is read from freed memory')
M('c19-exec-front', [('x.send(idle.back(),0); idle.pop_back();','x.send(idle.front(),0); idle.pop_back();')],
'''struct S {int t; S(): t(0) {} void f(MPIbuf& b) {int k; b>>k; t++; b.reset()<<t;}};
int main() {return cases(4,[](int me) {MPIslave<S> s; if (me) return; for (int i=0; i<3; ++i) s.exec(s<<&S::f<<i); while (!s.all_idle()) {int k; s.get_returnv()>>k; T(k==1,"job");}});}''',
 'several slaves busy at once', 'all commands go to the same slave')
M('c19-mark-copy', [('for (unsigned i=0; i<offsctr; i++) offsets[i]=x.offsets[i];','for (unsigned i=0; i<nprocs(); i++) offsets[i]=x.offsets[i];')],
'''int main() {return cases(3,[](int me) {MPIbuf b; if (!me) {MPIbuf x; for (int i=0; i<3; ++i) {load(x,string(i+2,'a'+i)); x<<mark();} delete [] new int[4]; b=x;} b.scatter(0); T(bytes(b)==string(me+2,'a'+me),"scatter");});}''',
 'a buffer copied after its last mark', 'the last mark is lost: the last process gets the wrong data')
M('c19-final-idle', [('for (unsigned i=1; i<nprocs(); i++) send(i,1);','for (unsigned i=0; i<idle.size(); i++) send(idle[i],1);')],
'''struct S {void f(MPIbuf& b) {b.reset()<<1;}};
int main() {return cases(3,[](int me) {MPIslave<S> s; if (me) return; s.exec(s<<&S::f);}), h::fails.count("deadlock")? 1: 0;}''',
 'a master that goes while a slave is busy', 'that slave waits for ever')
M('c19-reply-empty', [('if (buffer.tag) buffer.send(buffer.proc,0);','if (buffer.tag && buffer.size()) buffer.send(buffer.proc,0);')],
'''struct S {void f(MPIbuf& b) {b.reset();}};
int main() {return cases(3,[](int me) {MPIslave<S> s; if (me) return; for (int i=0; i<2; ++i) s.exec(s<<&S::f); s.wait_all_idle();});}''',
 'a command whose result is empty', 'the slave does not answer, the master waits for ever')
M('c19-scatter-short', [('    if (sz>=0)\n','    if (sz>0)\n')],
'''int main() {return cases(3,[](int me) {MPIbuf b; if (!me) for (int i=0; i<3; ++i) {load(b,string(i==1? 0: i+2,'a'+i)); b<<mark();} else load(b,"rubbish"); b.scatter(0); T(bytes(b)==(me==1? string(): string(me+2,'a'+me)),"scatter");});}''',
 'a process that gets nothing', 'it stays out of the collective call and keeps what it had')
M('c19-msg-tag', [('    MPI_Iprobe(source,tag,Communicator,&waiting,&status);','    MPI_Iprobe(source,MPI_ANY_TAG,Communicator,&waiting,&status);')],
'''int main() {return cases(2,[](int me) {MPIbuf b; if (me) {load(b,"abc"); b.send(0,5);} else {while (!b.msg_waiting(1,5)); T(!b.msg_waiting(1,6),"waiting"); b.get();}});}''',
 'a message with another tag waiting', 'msg_waiting tells of messages that get would not take')
