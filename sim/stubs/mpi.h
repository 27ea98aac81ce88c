/* Stub MPI interface: implemented by the simulator (see core_dev.cpp). */
#ifndef APSIM_MPI_H
#define APSIM_MPI_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef int MPI_Info;
typedef long MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, count_; } MPI_Status;
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_ERR_TRUNCATE 14
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_IN_PLACE ((void *)-1)
#define MPI_MAX_PROCESSOR_NAME 128
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
/* datatypes: size in the low byte */
#define MPI_CHAR 0x0101
#define MPI_SIGNED_CHAR 0x0201
#define MPI_UNSIGNED_CHAR 0x0301
#define MPI_BYTE 0x0401
#define MPI_PACKED 0x0501
#define MPI_SHORT 0x0602
#define MPI_INT 0x0704
#define MPI_UNSIGNED 0x0804
#define MPI_FLOAT 0x0904
#define MPI_LONG 0x0a08
#define MPI_UNSIGNED_LONG 0x0b08
#define MPI_LONG_LONG 0x0c08
#define MPI_LONG_LONG_INT 0x0c08
#define MPI_UNSIGNED_LONG_LONG 0x0d08
#define MPI_DOUBLE 0x0e08
#define MPI_INT32_T 0x0f04
#define MPI_UINT32_T 0x1004
#define MPI_INT64_T 0x1108
#define MPI_UINT64_T 0x1208
#define MPI_C_BOOL 0x1301
#define MPI_CXX_BOOL 0x1301
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_LAND 4
#define MPI_LOR 5
int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalize(void);
int MPI_Finalized(int *);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Type_size(MPI_Datatype, int *);
int MPI_Pack_size(int, MPI_Datatype, MPI_Comm, int *);
int MPI_Pack(const void *, int, MPI_Datatype, void *, int, int *, MPI_Comm);
int MPI_Unpack(const void *, int, int *, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
double MPI_Wtime(void);
int MPI_Get_processor_name(char *, int *);
#ifdef __cplusplus
}
#endif
#endif
