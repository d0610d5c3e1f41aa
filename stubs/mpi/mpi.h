// In-process stand-in for MPI; semantics are supplied by the harness (vmpi namespace).
#pragma once
#include <cstddef>
#include <optional>
#include <variant>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t count; };
#define MPI_COMM_WORLD 0
#define MPI_INT 4
#define MPI_LONG 8
#define MPI_UNSIGNED 4
#define MPI_UNSIGNED_LONG 8
#define MPI_CHAR 1
#define MPI_MIN 1
#define MPI_MAX 2
#define MPI_SUM 3
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_SUCCESS 0
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_REQUEST_NULL (-1)
extern "C" {
int MPI_Init(int*, char***); int MPI_Finalize();
int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Barrier(MPI_Comm);
}
