/* Stand-in for MPI: the processes of a run are fibers of one program, under the exploring scheduler.
** Message matching orders, buffering and reduction orders that MPI leaves open are decisions of the exploration. */
#ifndef MPI_H_MC
#define MPI_H_MC
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request; typedef int MPI_Fint; typedef int MPI_Group; typedef long MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, cancelled; long bytes; } MPI_Status;
typedef void (MPI_User_function) (void *, void *, int *, MPI_Datatype *);
enum { MPI_SUCCESS = 0, MPI_ERR_ARG = 12, MPI_ERR_OTHER = 15 };
enum { MPI_IDENT = 0, MPI_CONGRUENT = 1, MPI_SIMILAR = 2, MPI_UNEQUAL = 3 };
enum { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_REQUEST_NULL 0
#define MPI_DATATYPE_NULL 0
#define MPI_BYTE 1
#define MPI_CHAR 2
#define MPI_INT 3
#define MPI_LONG 4
#define MPI_FLOAT 5
#define MPI_DOUBLE 6
#define MPI_INT32_T 7
#define MPI_INT64_T 8
#define MPI_SHORT 9
#define MPI_UNSIGNED_CHAR 10
#define MPI_UNSIGNED 11
#define MPI_LONG_LONG 12
#define MPI_OP_NULL 0
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_BOR 4
#define MPI_LOR 5
#define MPI_LAND 6
#define MPI_BAND 7
#define MPI_PROD 8
#define MPI_ANY_SOURCE (-2)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-3)
#define MPI_UNDEFINED (-32766)
#define MPI_STATUS_IGNORE ((MPI_Status *) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status *) 0)
#define MPI_IN_PLACE ((void *) -1)
#define MPI_BOTTOM ((void *) 0)
int MPI_Init (int *, char ***); int MPI_Init_thread (int *, char ***, int, int *); int MPI_Initialized (int *); int MPI_Finalize (void); int MPI_Query_thread (int *); double MPI_Wtime (void); int MPI_Abort (MPI_Comm, int);
int MPI_Comm_size (MPI_Comm, int *); int MPI_Comm_rank (MPI_Comm, int *); int MPI_Comm_dup (MPI_Comm, MPI_Comm *); int MPI_Comm_split (MPI_Comm, int, int, MPI_Comm *); int MPI_Comm_free (MPI_Comm *); int MPI_Comm_compare (MPI_Comm, MPI_Comm, int *);
int MPI_Send (const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend (const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Recv (void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend (const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *); int MPI_Irecv (void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Send_init (const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *); int MPI_Recv_init (void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *); int MPI_Start (MPI_Request *); int MPI_Startall (int, MPI_Request *);
int MPI_Sendrecv (const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Wait (MPI_Request *, MPI_Status *); int MPI_Waitall (int, MPI_Request *, MPI_Status *); int MPI_Waitany (int, MPI_Request *, int *, MPI_Status *); int MPI_Test (MPI_Request *, int *, MPI_Status *); int MPI_Testall (int, MPI_Request *, int *, MPI_Status *);
int MPI_Request_free (MPI_Request *); int MPI_Cancel (MPI_Request *); int MPI_Get_count (const MPI_Status *, MPI_Datatype, int *);
int MPI_Probe (int, int, MPI_Comm, MPI_Status *); int MPI_Iprobe (int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Barrier (MPI_Comm); int MPI_Bcast (void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gather (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Gatherv (const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Scatterv (const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm); int MPI_Allgatherv (const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Alltoall (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm); int MPI_Alltoallv (const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Reduce (const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Allreduce (const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Scan (const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Exscan (const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Type_contiguous (int, MPI_Datatype, MPI_Datatype *); int MPI_Type_create_struct (int, const int *, const MPI_Aint *, const MPI_Datatype *, MPI_Datatype *); int MPI_Type_create_hindexed (int, const int *, const MPI_Aint *, MPI_Datatype, MPI_Datatype *); int MPI_Type_create_resized (MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype *);
int MPI_Type_commit (MPI_Datatype *); int MPI_Type_free (MPI_Datatype *); int MPI_Type_size (MPI_Datatype, int *); int MPI_Type_get_extent (MPI_Datatype, MPI_Aint *, MPI_Aint *); int MPI_Get_address (const void *, MPI_Aint *);
int MPI_Op_create (MPI_User_function *, int, MPI_Op *); int MPI_Op_free (MPI_Op *);
#define MPI_Comm_f2c(c) ((MPI_Comm) (c))
#define MPI_Comm_c2f(c) ((MPI_Fint) (c))
#define MPI_Type_f2c(c) ((MPI_Datatype) (c))
#define MPI_Type_c2f(c) ((MPI_Fint) (c))
#ifdef __cplusplus
}
#endif
#endif
