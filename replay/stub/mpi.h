// In-process stand-in for MPI: every rank is a thread, one of them runs at a time, collectives are rendez-vous.
// Gets are done at an adversarial moment between the call and the closing fence; every misuse that the MPI
// standard calls erroneous and that the code under test can commit is reported.
#ifndef STUB_MPI_H
#define STUB_MPI_H
#include <cstddef>
#include <functional>
typedef long MPI_Aint;
typedef int MPI_Comm, MPI_Datatype, MPI_Op, MPI_Info, MPI_Win, MPI_Fint;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
#define MPI_COMM_WORLD 91
#define MPI_DOUBLE 8
#define MPI_FLOAT 4
#define MPI_INT 5
#define MPI_UNSIGNED_LONG 6
#define MPI_LONG 7
#define MPI_SUM 1
#define MPI_MIN 2
#define MPI_MAX 3
#define MPI_INFO_NULL 0
#define MPI_SUCCESS 0
#define MPI_WIN_NULL (-1)
#define MPI_MODE_NOCHECK 1
#define MPI_MODE_NOSTORE 2
#define MPI_MODE_NOPUT 4
#define MPI_MODE_NOPRECEDE 8
#define MPI_MODE_NOSUCCEED 16
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_IN_PLACE ((void*) 1)
int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Finalize();
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
double MPI_Wtime();
int MPI_Barrier(MPI_Comm);
int MPI_Alloc_mem(MPI_Aint, MPI_Info, void*);
int MPI_Free_mem(void*);
int MPI_Win_create(void*, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win*);
int MPI_Win_free(MPI_Win*);
int MPI_Win_fence(int, MPI_Win);
int MPI_Get(void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Put(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
// ---- control
void stub_run(int nprocs, int getMode, const std::function<void(int)>& body);   // runs body(rank) on every rank
void stub_fail(const char* fmt, ...);                                          // prints FAIL with the current case, ends the process
extern char stub_case[4096];
#endif
