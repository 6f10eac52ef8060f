// one rank of an MPI program: only what a driver needs (values do not matter)
#pragma once
#include <cstring>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; struct MPI_Status { int x; };
enum { MPI_COMM_WORLD = 1, MPI_DOUBLE = 8, MPI_INT = 4, MPI_SUM = 1, MPI_MIN = 2, MPI_MAX = 3, MPI_SUCCESS = 0, MPI_THREAD_SINGLE = 0, MPI_THREAD_FUNNELED = 1, MPI_THREAD_SERIALIZED = 2, MPI_THREAD_MULTIPLE = 3 };
extern int mock_rank, mock_size; extern double mock_time;
void mock_call(const char*);          // a step every process takes part in
static inline int MPI_Init(int*, char***) { return 0; }
static inline int MPI_Init_thread(int*, char***, int r, int* p) { *p = r; return 0; }
static inline int MPI_Finalize() { mock_call("MPI_Finalize"); return 0; }
static inline int MPI_Barrier(MPI_Comm) { mock_call("MPI_Barrier"); return 0; }
static inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = mock_rank; return 0; }
static inline int MPI_Comm_size(MPI_Comm, int* r) { *r = mock_size; return 0; }
static inline double MPI_Wtime() { return mock_time += 0.5; }
static inline int MPI_Reduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op, int, MPI_Comm) { mock_call("MPI_Reduce"); if (mock_rank == 0) memcpy(b, a, (size_t) n * (size_t) t); return 0; }
static inline int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op, MPI_Comm) { mock_call("MPI_Allreduce"); memcpy(b, a, (size_t) n * (size_t) t); return 0; }
static inline int MPI_Abort(MPI_Comm, int) { return 0; }
