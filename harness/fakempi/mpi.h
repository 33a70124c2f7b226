// A simulated MPI for the explorer: all ranks live in one process, every call is a scheduling point. See mpi_sim.hpp.
#pragma once
#include <cstdint>
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef long MPI_Aint;
struct MPI_Status {
   int MPI_SOURCE, MPI_TAG, MPI_ERROR;
   long length;
};
struct MPI_Request_t;
typedef MPI_Request_t* MPI_Request;
struct MPI_Message_t;
typedef MPI_Message_t* MPI_Message;
#define MPI_SUCCESS 0
#define MPI_ERR_TRUNCATE 15
#define MPI_COMM_WORLD 91
#define MPI_COMM_SELF 92
#define MPI_COMM_NULL 0
#define MPI_ANY_SOURCE (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ANY_TAG (-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_UNDEFINED (-32766)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
// a datatype is (kind << 8) | size
#define MPI_BYTE ((1 << 8) | 1)
#define MPI_PACKED ((1 << 8) | 1)
#define MPI_CHAR ((2 << 8) | 1)
#define MPI_SIGNED_CHAR ((2 << 8) | 1)
#define MPI_UNSIGNED_CHAR ((3 << 8) | 1)
#define MPI_CXX_BOOL ((3 << 8) | 1)
#define MPI_C_BOOL ((3 << 8) | 1)
#define MPI_SHORT ((4 << 8) | 2)
#define MPI_INT ((4 << 8) | 4)
#define MPI_INT32_T ((4 << 8) | 4)
#define MPI_UINT32_T ((5 << 8) | 4)
#define MPI_UNSIGNED ((5 << 8) | 4)
#define MPI_LONG ((4 << 8) | 8)
#define MPI_LONG_LONG ((4 << 8) | 8)
#define MPI_INT64_T ((4 << 8) | 8)
#define MPI_UINT64_T ((5 << 8) | 8)
#define MPI_UNSIGNED_LONG ((5 << 8) | 8)
#define MPI_FLOAT ((6 << 8) | 4)
#define MPI_DOUBLE ((6 << 8) | 8)
#define MPI_C_FLOAT_COMPLEX ((7 << 8) | 8)
#define MPI_C_DOUBLE_COMPLEX ((7 << 8) | 16)
#define MPI_CXX_FLOAT_COMPLEX ((7 << 8) | 8)
#define MPI_CXX_DOUBLE_COMPLEX ((7 << 8) | 16)
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Finalize();
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_rank(MPI_Comm, int*);
double MPI_Wtime();
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Mprobe(int, int, MPI_Comm, MPI_Message*, MPI_Status*);
int MPI_Mrecv(void*, int, MPI_Datatype, MPI_Message*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
