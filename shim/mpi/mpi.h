// The part of MPI the multiterminal solver uses, served by sim/mpi_sim.cpp:
// every rank is a group of simulated threads in this process.
#pragma once
#include <cstddef>
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t bytes; };
#define MPI_COMM_WORLD 1
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_SUCCESS 0
#define MPI_REQUEST_NULL (-1)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
// a datatype is its size (plus a tag in the upper bits)
#define MPI_CHAR 0x101
#define MPI_BYTE 0x201
#define MPI_INT 0x304
#define MPI_UNSIGNED 0x404
#define MPI_LONG 0x508
#define MPI_UNSIGNED_LONG 0x608
#define MPI_LONG_LONG 0x708
#define MPI_UNSIGNED_LONG_LONG 0x808
#define MPI_UINT64_T 0x608
#define MPI_INT64_T 0x508
#define MPI_UINT32_T 0x404
#define MPI_INT32_T 0x304
#define MPI_DOUBLE 0x908
#define MPI_MIN 1
#define MPI_MAX 2
#define MPI_SUM 3
#define MPI_LOR 4
#define MPI_LAND 5
extern "C" {
int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Finalize();
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Request_free(MPI_Request*);
int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
}
