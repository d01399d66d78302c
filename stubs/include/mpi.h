#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm; typedef int MPI_Info; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Win; typedef long MPI_Aint; typedef int MPI_Request; typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; } MPI_Status; typedef int MPI_Errhandler;
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_INFO_NULL 0
#define MPI_WIN_NULL 0
#define MPI_SUCCESS 0
#define MPI_DOUBLE 0x108
#define MPI_FLOAT 0x104
#define MPI_INT 0x204
#define MPI_UNSIGNED 0x204
#define MPI_LONG 0x208
#define MPI_UNSIGNED_LONG 0x208
#define MPI_LONG_LONG 0x208
#define MPI_UINT64_T 0x208
#define MPI_CHAR 0x201
#define MPI_BYTE 0x201
#define MPI_SUM 1
#define MPI_MIN 2
#define MPI_MAX 3
#define MPI_PROD 4
#define MPI_MODE_NOCHECK 1
#define MPI_MODE_NOPRECEDE 2
#define MPI_MODE_NOPUT 4
#define MPI_MODE_NOSTORE 8
#define MPI_MODE_NOSUCCEED 16
#define MPI_IN_PLACE ((void *)-1)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
int MPI_Init(int *, char ***); int MPI_Init_thread(int *, char ***, int, int *); int MPI_Finalize(void); int MPI_Initialized(int *); int MPI_Abort(MPI_Comm, int); double MPI_Wtime(void);
int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_size(MPI_Comm, int *); int MPI_Barrier(MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm); int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm); int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm); int MPI_Finalized(int *);
int MPI_Alloc_mem(MPI_Aint, MPI_Info, void *); int MPI_Free_mem(void *);
int MPI_Win_create(void *, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win *); int MPI_Win_allocate(MPI_Aint, int, MPI_Info, MPI_Comm, void *, MPI_Win *); int MPI_Win_free(MPI_Win *); int MPI_Win_fence(int, MPI_Win);
int MPI_Get(void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Put(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
#ifdef __cplusplus
}
#endif
