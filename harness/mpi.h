// the part of the MPI interface that classdescMP.h uses (declarations only: contracts in ccv/contracts/mpi.py, simulator in mpisim.h)
#ifndef CCV_MPI_H
#define CCV_MPI_H
#define MPI_VERSION 3
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Request;
struct MPI_Status {int MPI_SOURCE, MPI_TAG, MPI_ERROR, count;};
enum {MPI_COMM_WORLD=91, MPI_COMM_SELF=92};
enum {MPI_CHAR=1, MPI_INT=2};
enum {MPI_ANY_SOURCE=-2, MPI_ANY_TAG=-1, MPI_UNDEFINED=-32766, MPI_REQUEST_NULL=0, MPI_SUCCESS=0};
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
extern "C" {
  int MPI_Init(int*,char***);
  int MPI_Finalize();
  int MPI_Initialized(int*);
  int MPI_Finalized(int*);
  int MPI_Comm_rank(MPI_Comm,int*);
  int MPI_Comm_size(MPI_Comm,int*);
  int MPI_Barrier(MPI_Comm);
  int MPI_Send(const void*,int,MPI_Datatype,int dest,int tag,MPI_Comm);
  int MPI_Isend(const void*,int,MPI_Datatype,int dest,int tag,MPI_Comm,MPI_Request*);
  int MPI_Recv(void*,int,MPI_Datatype,int source,int tag,MPI_Comm,MPI_Status*);
  int MPI_Probe(int source,int tag,MPI_Comm,MPI_Status*);
  int MPI_Iprobe(int source,int tag,MPI_Comm,int*,MPI_Status*);
  int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*);
  int MPI_Test(MPI_Request*,int*,MPI_Status*);
  int MPI_Wait(MPI_Request*,MPI_Status*);
  int MPI_Testall(int,MPI_Request*,int*,MPI_Status*);
  int MPI_Testany(int,MPI_Request*,int*,int*,MPI_Status*);
  int MPI_Testsome(int,MPI_Request*,int*,int*,MPI_Status*);
  int MPI_Waitall(int,MPI_Request*,MPI_Status*);
  int MPI_Waitany(int,MPI_Request*,int*,MPI_Status*);
  int MPI_Waitsome(int,MPI_Request*,int*,int*,MPI_Status*);
  int MPI_Bcast(void*,int,MPI_Datatype,int root,MPI_Comm);
  int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int root,MPI_Comm);
  int MPI_Gatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,int root,MPI_Comm);
  int MPI_Scatter(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int root,MPI_Comm);
  int MPI_Scatterv(const void*,const int*,const int*,MPI_Datatype,void*,int,MPI_Datatype,int root,MPI_Comm);
}
#endif
