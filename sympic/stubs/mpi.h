#ifndef SYM_MPI_H
#define SYM_MPI_H
typedef struct sym_comm *MPI_Comm;
typedef long MPI_Request;
typedef long MPI_Datatype;
typedef long MPI_Op;
typedef long MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, count; } MPI_Status;
#define MPI_SUCCESS 0
#define MPI_COMM_NULL ((MPI_Comm)0)
extern struct sym_comm SymMPI_world, SymMPI_self;
#define MPI_COMM_WORLD (&SymMPI_world)
#define MPI_COMM_SELF (&SymMPI_self)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)
#define MPI_CHAR ((MPI_Datatype)1)
#define MPI_BYTE ((MPI_Datatype)1)
#define MPI_INT ((MPI_Datatype)2)
#define MPI_LONG ((MPI_Datatype)3)
#define MPI_INT64_T ((MPI_Datatype)3)
#define MPI_LONG_LONG ((MPI_Datatype)3)
#define MPI_DOUBLE ((MPI_Datatype)4)
#define MPI_UINT64_T ((MPI_Datatype)5)
#define MPI_UNSIGNED_LONG ((MPI_Datatype)5)
#define MPI_FLOAT ((MPI_Datatype)6)
#define MPI_SUM ((MPI_Op)1)
#define MPI_MAX ((MPI_Op)2)
#define MPI_MIN ((MPI_Op)3)
#define MPI_TAG_UB 1
#define MPI_ORDER_C 56
#define MPI_ORDER_FORTRAN 57
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_IN_PLACE ((void *)1)
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Testall(int, MPI_Request *, int *, MPI_Status *);
int MPI_Barrier(MPI_Comm);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_get_attr(MPI_Comm, int, void *, int *);
int MPI_Type_create_subarray(int, const int *, const int *, const int *, int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *);
int MPI_Type_free(MPI_Datatype *);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Request_free(MPI_Request *);
int MPI_Cancel(MPI_Request *);
int MPI_Abort(MPI_Comm, int);
#endif
