/* Stand-in MPI: ranks are processes of one case, one runs at a time, a seeded scheduler decides who continues at every call,
   sends are buffered or synchronous at random, every message and collective is recorded and checked. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#include <stdint.h>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Group; typedef int MPI_Info; typedef int MPI_Errhandler; typedef int MPI_Fint;
typedef intptr_t MPI_Aint; typedef int MPI_Request;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t _bytes; int _cancelled; } MPI_Status;
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_REQUEST_NULL 0
#define MPI_INFO_NULL 0
#define MPI_DATATYPE_NULL 0
enum { MPI_CHAR=1, MPI_BYTE, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE, MPI_C_FLOAT_COMPLEX, MPI_C_DOUBLE_COMPLEX, MPI_SHORT, MPI_UNSIGNED_CHAR, MPI_C_BOOL, MPI_INT64_T, MPI_UINT64_T, MPI_2INT, SIM_NBASIC };
#define MPI_C_COMPLEX MPI_C_FLOAT_COMPLEX
#define MPI_COMPLEX MPI_C_FLOAT_COMPLEX
#define MPI_DOUBLE_COMPLEX MPI_C_DOUBLE_COMPLEX
#define MPI_INTEGER MPI_INT
#define MPI_LONG_LONG_INT MPI_LONG_LONG
enum { MPI_OP_NULL, MPI_SUM, MPI_MIN, MPI_MAX, MPI_PROD, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR };
#define MPI_SUCCESS 0
enum { MPI_ERR_BUFFER=1, MPI_ERR_COUNT, MPI_ERR_TYPE, MPI_ERR_TAG, MPI_ERR_COMM, MPI_ERR_RANK, MPI_ERR_REQUEST, MPI_ERR_ROOT, MPI_ERR_OP, MPI_ERR_ARG, MPI_ERR_TRUNCATE, MPI_ERR_OTHER, MPI_ERR_INTERN };
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)1)
#define MPI_BOTTOM ((void*)0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_MAX_ERROR_STRING 64
#define MPI_MAX_PROCESSOR_NAME 64
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
int MPI_Init(int*,char***); int MPI_Init_thread(int*,char***,int,int*); int MPI_Finalize(void); int MPI_Initialized(int*); int MPI_Finalized(int*); int MPI_Abort(MPI_Comm,int); double MPI_Wtime(void);
int MPI_Comm_size(MPI_Comm,int*); int MPI_Comm_rank(MPI_Comm,int*); int MPI_Comm_split(MPI_Comm,int,int,MPI_Comm*); int MPI_Comm_dup(MPI_Comm,MPI_Comm*); int MPI_Comm_free(MPI_Comm*); int MPI_Comm_compare(MPI_Comm,MPI_Comm,int*);
MPI_Comm MPI_Comm_f2c(MPI_Fint); MPI_Fint MPI_Comm_c2f(MPI_Comm); int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler);
int MPI_Cart_create(MPI_Comm,int,const int*,const int*,int,MPI_Comm*); int MPI_Cart_coords(MPI_Comm,int,int,int*); int MPI_Cart_rank(MPI_Comm,const int*,int*); int MPI_Cart_shift(MPI_Comm,int,int,int*,int*); int MPI_Cart_get(MPI_Comm,int,int*,int*,int*); int MPI_Cartdim_get(MPI_Comm,int*); int MPI_Cart_sub(MPI_Comm,const int*,MPI_Comm*); int MPI_Dims_create(int,int,int*);
int MPI_Send(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Ssend(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Rsend(const void*,int,MPI_Datatype,int,int,MPI_Comm); int MPI_Isend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*); int MPI_Issend(const void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*); int MPI_Bsend(const void*,int,MPI_Datatype,int,int,MPI_Comm);
int MPI_Recv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*); int MPI_Irecv(void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Request*);
int MPI_Sendrecv(const void*,int,MPI_Datatype,int,int,void*,int,MPI_Datatype,int,int,MPI_Comm,MPI_Status*); int MPI_Sendrecv_replace(void*,int,MPI_Datatype,int,int,int,int,MPI_Comm,MPI_Status*);
int MPI_Wait(MPI_Request*,MPI_Status*); int MPI_Waitall(int,MPI_Request*,MPI_Status*); int MPI_Waitany(int,MPI_Request*,int*,MPI_Status*); int MPI_Test(MPI_Request*,int*,MPI_Status*); int MPI_Testall(int,MPI_Request*,int*,MPI_Status*); int MPI_Request_free(MPI_Request*);
int MPI_Probe(int,int,MPI_Comm,MPI_Status*); int MPI_Iprobe(int,int,MPI_Comm,int*,MPI_Status*); int MPI_Get_count(const MPI_Status*,MPI_Datatype,int*); int MPI_Get_elements(const MPI_Status*,MPI_Datatype,int*);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void*,int,MPI_Datatype,int,MPI_Comm); int MPI_Reduce(const void*,void*,int,MPI_Datatype,MPI_Op,int,MPI_Comm); int MPI_Allreduce(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm); int MPI_Scan(const void*,void*,int,MPI_Datatype,MPI_Op,MPI_Comm);
int MPI_Gather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm); int MPI_Gatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,int,MPI_Comm); int MPI_Scatter(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm); int MPI_Scatterv(const void*,const int*,const int*,MPI_Datatype,void*,int,MPI_Datatype,int,MPI_Comm);
int MPI_Allgather(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm); int MPI_Allgatherv(const void*,int,MPI_Datatype,void*,const int*,const int*,MPI_Datatype,MPI_Comm); int MPI_Alltoall(const void*,int,MPI_Datatype,void*,int,MPI_Datatype,MPI_Comm);
int MPI_Type_create_struct(int,const int*,const MPI_Aint*,const MPI_Datatype*,MPI_Datatype*); int MPI_Type_struct(int,int*,MPI_Aint*,MPI_Datatype*,MPI_Datatype*); int MPI_Type_contiguous(int,MPI_Datatype,MPI_Datatype*); int MPI_Type_vector(int,int,int,MPI_Datatype,MPI_Datatype*); int MPI_Type_create_hindexed(int,const int*,const MPI_Aint*,MPI_Datatype,MPI_Datatype*); int MPI_Type_create_subarray(int,const int*,const int*,const int*,int,MPI_Datatype,MPI_Datatype*); int MPI_Type_create_resized(MPI_Datatype,MPI_Aint,MPI_Aint,MPI_Datatype*); int MPI_Type_commit(MPI_Datatype*); int MPI_Type_free(MPI_Datatype*); int MPI_Type_size(MPI_Datatype,int*);
#define MPI_ORDER_C 0
#define MPI_ORDER_FORTRAN 1
int MPI_Get_address(const void*,MPI_Aint*); int MPI_Error_string(int,char*,int*); int MPI_Get_processor_name(char*,int*);
#endif
