// instantiates /repo/classdescMP.h: buffers, groups of buffers, master and slaves
#include "pack_base.h"
#include "mpi.h"
#include "classdescMP.h"
#include "classdesc_epilogue.h"
using namespace classdesc;
struct Slave {void go(MPIbuf&);};
typedef MPIslave<Slave> MS;
extern "C" {
  void ccv_send(MPIbuf& b, unsigned d, int t) {b.send(d,t);}
  void ccv_isend(MPIbuf& b, unsigned d, int t) {b.isend(d,t);}
  MPIbuf& ccv_msend(MPIbuf& b, int d, int t) {return b<<classdesc::send(d,t);}
  MPIbuf& ccv_misend(MPIbuf& b, int d, int t) {return b<<classdesc::isend(d,t);}
  MPIbuf& ccv_mbcast(MPIbuf& b, int r) {return b<<classdesc::bcast(r);}
  MPIbuf& ccv_mmark(MPIbuf& b) {return b<<mark();}
  MPIbuf& ccv_get(MPIbuf& b, int p, int t) {return b.get(p,t);}
  MPIbuf& ccv_getany(MPIbuf& b) {return b.get();}
  void ccv_send_recv(MPIbuf& b, unsigned d, int t, int s, int r) {b.send_recv(d,t,s,r);}
  MPIbuf& ccv_bcast(MPIbuf& b, unsigned r) {return b.bcast(r);}
  MPIbuf& ccv_gather(MPIbuf& b, unsigned r) {return b.gather(r);}
  MPIbuf& ccv_scatter(MPIbuf& b, unsigned r) {return b.scatter(r);}
  MPIbuf& ccv_reset(MPIbuf& b) {return b.reset();}
  bool ccv_waiting(MPIbuf& b, int s, int t) {return b.msg_waiting(s,t);}
  bool ccv_sent(MPIbuf& b) {return b.sent();}
  void ccv_wait(MPIbuf& b) {b.wait();}
  unsigned ccv_myid(MPIbuf& b) {return b.myid();}
  unsigned ccv_nprocs(MPIbuf& b) {return b.nprocs();}
  void ccv_assign(MPIbuf& b, const MPIbuf& x) {b=x;}
  bool ccv_testall(MPIbuf_array& a) {return a.testall();}
  int ccv_testany(MPIbuf_array& a) {return a.testany();}
  void ccv_testsome(MPIbuf_array& a, std::vector<int>& r) {r=a.testsome();}
  void ccv_waitall(MPIbuf_array& a) {a.waitall();}
  int ccv_waitany(MPIbuf_array& a) {return a.waitany();}
  void ccv_waitsome(MPIbuf_array& a, std::vector<int>& r) {r=a.waitsome();}
  void ccv_exec(MS& s, MPIbuf& x) {s.exec(x);}
  MPIbuf& ccv_returnv(MS& s) {return s.get_returnv();}
  bool ccv_allidle(MS& s) {return s.all_idle();}
  void ccv_waitidle(MS& s) {s.wait_all_idle();}
  void ccv_slavebcast(MS& s, MPIbuf& x) {s.bcast(x);}
  void ccv_slaveinit(MS& s) {s.init();}
  void ccv_slavefinal(MS& s) {s.finalize();}
  MPIbuf& ccv_slaveint(MS& s, const int& x) {return s<<x;}
  MPIbuf& ccv_slavemeth(MS& s, void (Slave::*m)(MPIbuf&)) {return s<<m;}
}
void ccv_layout() {MPIbuf b, c(b); MS s; MPIbuf_array a(3); basic_type t;}
