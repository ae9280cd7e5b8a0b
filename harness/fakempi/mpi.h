// Stand-in for <mpi.h> used by the simulated transport (see DESIGN.md).
// Only what message-passing code can reasonably use is declared; all calls
// are forwarded to a coordinator process (harness/sim.cpp) that schedules them.
#ifndef FAKE_MPI_H
#define FAKE_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Errhandler;
typedef int MPI_Info;
typedef int MPI_Group;
typedef struct FakeReq* MPI_Request;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int bytes_; } MPI_Status;

#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-3)
#define MPI_SUCCESS 0
#define MPI_ERR_TRUNCATE 15
#define MPI_ERR_OTHER 16
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 128
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 0
#define MPI_INFO_NULL 0
#define MPI_IN_PLACE ((void*)-1)
#define MPI_BOTTOM ((void*)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3

// datatype = (kind << 8) | size;   kind: 0 raw, 1 signed int, 2 unsigned int, 3 floating
#define FDT(k, s) (((k) << 8) | (s))
#define MPI_DATATYPE_NULL 0
#define MPI_BYTE     FDT(0,1)
#define MPI_PACKED   (FDT(0,1)|0x10000)
#define MPI_CHAR     FDT(1,1)
#define MPI_SIGNED_CHAR FDT(1,1)
#define MPI_INT8_T   (FDT(1,1)|0x20000)
#define MPI_UNSIGNED_CHAR FDT(2,1)
#define MPI_UINT8_T  (FDT(2,1)|0x20000)
#define MPI_SHORT    FDT(1,2)
#define MPI_INT16_T  FDT(1,2)
#define MPI_UINT16_T FDT(2,2)
#define MPI_UNSIGNED_SHORT FDT(2,2)
#define MPI_INT      FDT(1,4)
#define MPI_INTEGER  (FDT(1,4)|0x30000)
#define MPI_INT32_T  (FDT(1,4)|0x20000)
#define MPI_UNSIGNED FDT(2,4)
#define MPI_UINT32_T (FDT(2,4)|0x20000)
#define MPI_LONG     FDT(1,8)
#define MPI_LONG_LONG (FDT(1,8)|0x10000)
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_INT64_T  (FDT(1,8)|0x20000)
#define MPI_UNSIGNED_LONG FDT(2,8)
#define MPI_UNSIGNED_LONG_LONG (FDT(2,8)|0x10000)
#define MPI_UINT64_T (FDT(2,8)|0x20000)
#define MPI_FLOAT    FDT(3,4)
#define MPI_DOUBLE   FDT(3,8)
#define MPI_C_BOOL   (FDT(2,1)|0x40000)
#define MPI_AINT     (FDT(1,8)|0x40000)

#define MPI_OP_NULL 0
#define MPI_SUM 1
#define MPI_PROD 2
#define MPI_MIN 3
#define MPI_MAX 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8
#define MPI_LXOR 9
#define MPI_BXOR 10

int MPI_Init(int* argc, char*** argv);
int MPI_Init_thread(int* argc, char*** argv, int required, int* provided);
int MPI_Initialized(int* flag);
int MPI_Finalized(int* flag);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm c, int code);
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n);
int MPI_Comm_free(MPI_Comm* c);
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* n);
int MPI_Comm_size(MPI_Comm c, int* s);
int MPI_Comm_rank(MPI_Comm c, int* r);
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler h);
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* res);
int MPI_Get_processor_name(char* name, int* len);
int MPI_Error_string(int err, char* s, int* len);
int MPI_Type_size(MPI_Datatype t, int* s);
double MPI_Wtime(void);
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* count);
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c);
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c);
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c);
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st);
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stp, int dst, int stag,
                 void* rb, int rn, MPI_Datatype rtp, int src, int rtag, MPI_Comm c, MPI_Status* st);
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* r);
int MPI_Issend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* r);
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* r);
int MPI_Wait(MPI_Request* r, MPI_Status* st);
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st);
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* st);
int MPI_Test(MPI_Request* r, int* flag, MPI_Status* st);
int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status* st);
int MPI_Request_free(MPI_Request* r);
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st);
int MPI_Barrier(MPI_Comm c);
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c);
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c);
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c);
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c);
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c);
#ifdef __cplusplus
}
#endif
#endif
