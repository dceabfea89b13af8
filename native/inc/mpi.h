// interface of the simulated message passing library (implementation: ../sim.h)
#ifndef SIM_MPI_H
#define SIM_MPI_H
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op;
typedef struct { int kind, done, src, tag, comm, cnt, type; void* buf; unsigned long sum; long seq; } MPI_Request_s;
typedef MPI_Request_s* MPI_Request;
typedef struct { int count, type, MPI_SOURCE, MPI_TAG; } MPI_Status;
#define MPI_SUCCESS 0
#define MPI_COMM_WORLD 0
#define MPI_UNDEFINED (-32766)
#define MPI_ERRORS_RETURN 1
#define MPI_MAX_ERROR_STRING 100
#define MPI_MAX_PROCESSOR_NAME 100
#define MPI_IN_PLACE ((void*) -1)
#define MPI_STATUS_IGNORE ((MPI_Status*) 0)
enum { MPI_DOUBLE = 10, MPI_FLOAT, MPI_INT64_T, MPI_INT32_T, MPI_INT8_T, MPI_UINT64_T, MPI_UINT32_T, MPI_UINT8_T, MPI_INTEGER, MPI_CHAR, MPI_BYTE, MPI_INT };
enum { MPI_SUM = 30, MPI_PROD, MPI_MIN, MPI_MAX, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR };
int MPI_Init(int*, char***); int MPI_Finalize(void); int MPI_Comm_dup(MPI_Comm, MPI_Comm*); int MPI_Comm_set_errhandler(MPI_Comm, int);
int MPI_Comm_size(MPI_Comm, int*); int MPI_Comm_rank(MPI_Comm, int*); int MPI_Get_processor_name(char*, int*); int MPI_Error_string(int, char*, int*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*); int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
#endif
