/* In-process deterministic MPI used by the model-checking harnesses (see DESIGN.md).
 * Only declarations; the semantics live in mpisim.cpp.  Every rank is a fiber in one process and all
 * nondeterminism that the MPI standard allows is resolved by the explorer. */
#ifndef VERIF_SIM_MPI_H
#define VERIF_SIM_MPI_H
#include <stddef.h>
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Group;
typedef int MPI_Request;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef int MPI_Fint;
typedef long MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long long internal_bytes; } MPI_Status;

#define MPI_COMM_NULL      ((MPI_Comm)0)
#define MPI_COMM_WORLD     ((MPI_Comm)1)
#define MPI_COMM_SELF      ((MPI_Comm)2)
#define MPI_GROUP_NULL     ((MPI_Group)0)
#define MPI_GROUP_EMPTY    ((MPI_Group)1)
#define MPI_REQUEST_NULL   ((MPI_Request)0)
#define MPI_STATUS_IGNORE   ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_UNDEFINED (-32766)
#define MPI_PROC_NULL (-1)
#define MPI_ANY_SOURCE (-2)
#define MPI_ANY_TAG (-1)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_INFO_NULL 0
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 0
#define MPI_MAX_PROCESSOR_NAME 64
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_COMM_TYPE_SHARED 1

/* datatype handle: low 8 bits = extent in bytes, upper = kind */
#define VSIM_T(kind, sz) ((MPI_Datatype)(((kind) << 8) | (sz)))
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)
#define MPI_CHAR            VSIM_T(1, 1)
#define MPI_SIGNED_CHAR     VSIM_T(2, 1)
#define MPI_UNSIGNED_CHAR   VSIM_T(3, 1)
#define MPI_BYTE            VSIM_T(4, 1)
#define MPI_SHORT           VSIM_T(5, 2)
#define MPI_INT             VSIM_T(6, 4)
#define MPI_UNSIGNED        VSIM_T(7, 4)
#define MPI_LONG            VSIM_T(8, 8)
#define MPI_UNSIGNED_LONG   VSIM_T(9, 8)
#define MPI_LONG_LONG       VSIM_T(10, 8)
#define MPI_LONG_LONG_INT   MPI_LONG_LONG
#define MPI_UNSIGNED_LONG_LONG VSIM_T(11, 8)
#define MPI_FLOAT           VSIM_T(12, 4)
#define MPI_DOUBLE          VSIM_T(13, 8)
#define MPI_C_FLOAT_COMPLEX  VSIM_T(14, 8)
#define MPI_C_COMPLEX        MPI_C_FLOAT_COMPLEX
#define MPI_C_DOUBLE_COMPLEX VSIM_T(15, 16)
#define MPI_CXX_FLOAT_COMPLEX  VSIM_T(14, 8)
#define MPI_CXX_DOUBLE_COMPLEX VSIM_T(15, 16)
#define MPI_COMPLEX          VSIM_T(14, 8)
#define MPI_DOUBLE_COMPLEX   VSIM_T(15, 16)
#define MPI_C_BOOL           VSIM_T(16, 1)
#define MPI_CXX_BOOL         VSIM_T(16, 1)
#define MPI_INT32_T          VSIM_T(17, 4)
#define MPI_INT64_T          VSIM_T(18, 8)
#define MPI_UINT32_T         VSIM_T(19, 4)
#define MPI_UINT64_T         VSIM_T(20, 8)

#define MPI_MAX 1
#define MPI_MIN 2
#define MPI_SUM 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Finalize(void);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
int MPI_Get_processor_name(char*, int*);

int MPI_Comm_rank(MPI_Comm, int*);
MPI_Comm MPI_Comm_f2c(MPI_Fint);
MPI_Fint MPI_Comm_c2f(MPI_Comm);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_group(MPI_Comm, MPI_Group*);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm*);
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Group_incl(MPI_Group, int, const int*, MPI_Group*);
int MPI_Group_excl(MPI_Group, int, const int*, MPI_Group*);
int MPI_Group_size(MPI_Group, int*);
int MPI_Group_rank(MPI_Group, int*);
int MPI_Group_translate_ranks(MPI_Group, int, const int*, MPI_Group, int*);
int MPI_Group_free(MPI_Group*);

int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Request_free(MPI_Request*);
int MPI_Cancel(MPI_Request*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Type_size(MPI_Datatype, int*);

int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);

#ifdef __cplusplus
}
#endif
#endif
