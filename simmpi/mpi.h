/* simMPI: a monitoring MPI runtime. Every rank is a forked process, a
 * coordinator process executes and judges all MPI calls (see simmpi.cc). */
#ifndef SIMMPI_MPI_H
#define SIMMPI_MPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Win;
typedef int MPI_Group;
typedef int MPI_Request;
typedef int MPI_Errhandler;
typedef long MPI_Aint;
typedef long long MPI_Count;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; long _bytes; } MPI_Status;
#define MPI_SUCCESS 0
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_INFO_NULL 0
#define MPI_WIN_NULL 0
#define MPI_REQUEST_NULL 0
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 2
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_BOTTOM ((void*)0)
#define MPI_MAX_PROCESSOR_NAME 128
#define MPI_MAX_ERROR_STRING 128
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
/* datatypes: low byte is the size */
#define MPI_DATATYPE_NULL 0
#define MPI_CHAR 0x101
#define MPI_BYTE 0x201
#define MPI_SIGNED_CHAR 0x301
#define MPI_UNSIGNED_CHAR 0x401
#define MPI_INT 0x104
#define MPI_UNSIGNED 0x204
#define MPI_FLOAT 0x304
#define MPI_LONG 0x108
#define MPI_UNSIGNED_LONG 0x208
#define MPI_LONG_LONG 0x308
#define MPI_LONG_LONG_INT 0x308
#define MPI_UNSIGNED_LONG_LONG 0x408
#define MPI_DOUBLE 0x508
#define MPI_INT64_T 0x608
#define MPI_UINT64_T 0x708
#define MPI_CXX_BOOL 0x501
#define MPI_C_BOOL 0x501
#define MPI_OP_NULL 0
#define MPI_SUM 1
#define MPI_MIN 2
#define MPI_MAX 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8
#define MPI_REPLACE 9
#define MPI_MODE_NOCHECK 1
#define MPI_MODE_NOSTORE 2
#define MPI_MODE_NOPUT 4
#define MPI_MODE_NOPRECEDE 8
#define MPI_MODE_NOSUCCEED 16
#define MPI_LOCK_EXCLUSIVE 1
#define MPI_LOCK_SHARED 2

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Query_thread(int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Win_set_errhandler(MPI_Win, MPI_Errhandler);
int MPI_Get_processor_name(char*, int*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Error_string(int, char*, int*);
int MPI_Alloc_mem(MPI_Aint, MPI_Info, void*);
int MPI_Free_mem(void*);
int MPI_Win_create(void*, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win*);
int MPI_Win_allocate(MPI_Aint, int, MPI_Info, MPI_Comm, void*, MPI_Win*);
int MPI_Win_free(MPI_Win*);
int MPI_Win_fence(int, MPI_Win);
int MPI_Win_lock(int, int, int, MPI_Win);
int MPI_Win_unlock(int, MPI_Win);
int MPI_Win_lock_all(int, MPI_Win);
int MPI_Win_unlock_all(MPI_Win);
int MPI_Win_flush(int, MPI_Win);
int MPI_Win_flush_local(int, MPI_Win);
int MPI_Win_flush_all(MPI_Win);
int MPI_Win_flush_local_all(MPI_Win);
int MPI_Win_sync(MPI_Win);
int MPI_Get(void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Put(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
#ifdef __cplusplus
}
#endif
#endif
