/* Simulated MPI: every call is decided by the seeded scheduler in sim.cpp. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef struct sim_request* MPI_Request;
typedef int MPI_Fint;
typedef ptrdiff_t MPI_Aint;
typedef struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int sim_bytes; } MPI_Status;
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-3)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_MAX_PROCESSOR_NAME 64
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_MULTIPLE 3
enum { SIM_T_DOUBLE=1, SIM_T_INT, SIM_T_LONG, SIM_T_LLONG, SIM_T_UNSIGNED, SIM_T_ULONG, SIM_T_CHAR, SIM_T_FLOAT, SIM_T_BYTE, SIM_T_BOOL, SIM_T_ULLONG };
#define MPI_DOUBLE SIM_T_DOUBLE
#define MPI_INT SIM_T_INT
#define MPI_LONG SIM_T_LONG
#define MPI_LONG_LONG SIM_T_LLONG
#define MPI_LONG_LONG_INT SIM_T_LLONG
#define MPI_UNSIGNED SIM_T_UNSIGNED
#define MPI_UNSIGNED_LONG SIM_T_ULONG
#define MPI_UNSIGNED_LONG_LONG SIM_T_ULLONG
#define MPI_CHAR SIM_T_CHAR
#define MPI_FLOAT SIM_T_FLOAT
#define MPI_BYTE SIM_T_BYTE
#define MPI_C_BOOL SIM_T_BOOL
#define MPI_CXX_BOOL SIM_T_BOOL
enum { SIM_O_SUM=1, SIM_O_MIN, SIM_O_MAX, SIM_O_LAND, SIM_O_LOR, SIM_O_PROD, SIM_O_BAND, SIM_O_BOR };
#define MPI_SUM SIM_O_SUM
#define MPI_MIN SIM_O_MIN
#define MPI_MAX SIM_O_MAX
#define MPI_LAND SIM_O_LAND
#define MPI_LOR SIM_O_LOR
#define MPI_PROD SIM_O_PROD
#define MPI_BAND SIM_O_BAND
#define MPI_BOR SIM_O_BOR
int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Get_processor_name(char*, int*);
double MPI_Wtime(void);
double MPI_Wtick(void);
MPI_Comm MPI_Comm_f2c(MPI_Fint);
MPI_Fint MPI_Comm_c2f(MPI_Comm);
#ifdef __cplusplus
}
#endif
#endif
