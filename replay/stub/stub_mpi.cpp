#include "mpi.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <unistd.h>
#include <iostream>
char stub_case[4096] = "";
static std::mutex M; static std::condition_variable CV; static int turn = 0; static int NP = 0; static int getMode = 0;
static thread_local int me = -1;
static std::vector<int> state;      // 0 running, 1 waiting, 2 done
struct Op { std::string what; const void* in; void* out; long a, b, c; };
static std::vector<Op> ops;
struct Win { std::vector<void*> base; std::vector<long> size; std::vector<int> disp; std::vector<char> open, freed; struct G { int rk; void* dst; const void* src; long n; bool put; }; std::vector<G> pending; };
static std::vector<Win> wins;
static std::vector<std::map<void*, long> > allocs;
static unsigned long rngs = 88172645463325252ul; static unsigned long rnd() { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return rngs; }
void stub_fail(const char* fmt, ...) {
  char buf[4096]; va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
  printf("FAIL %s: %s\n", stub_case, buf); fflush(stdout); _exit(0);
}
static size_t dsize(int t) { switch (t) { case MPI_DOUBLE: case MPI_LONG: case MPI_UNSIGNED_LONG: return 8; case MPI_FLOAT: case MPI_INT: return 4; } stub_fail("unknown data type %d", t); return 0; }
static void complete();
static void pass(std::unique_lock<std::mutex>& L, int from) {
  for (int k = 1; k <= NP; ++k) { int r = (from + k) % NP; if (state[r] == 0) { turn = r; CV.notify_all(); return; } }
  // nobody can run: either a collective is complete, or this is a deadlock
  bool all = true; int done = 0; for (int r = 0; r < NP; ++r) { if (state[r] != 1) all = false; if (state[r] == 2) ++done; }
  if (done == NP) { turn = -1; CV.notify_all(); return; }
  if (!all) { for (int r = 0; r < NP; ++r) if (state[r] == 1) stub_fail("rank %d waits in %s while another rank has ended", r, ops[r].what.c_str()); }
  for (int r = 1; r < NP; ++r) if (ops[r].what != ops[0].what) stub_fail("rank 0 is in %s, rank %d in %s", ops[0].what.c_str(), r, ops[r].what.c_str());
  complete();
  for (int r = 0; r < NP; ++r) state[r] = 0;
  turn = (int) (rnd() % NP); CV.notify_all();
}
static void collective(const std::string& what, const void* in, void* out, long a = 0, long b = 0, long c = 0) {
  std::unique_lock<std::mutex> L(M);
  ops[me] = Op{what, in, out, a, b, c}; state[me] = 1;
  pass(L, me);
  CV.wait(L, [] { return turn == me && state[me] == 0; });
}
static void doget(Win::G& g) { memcpy(g.dst, g.src, g.n); }
static void reduceto(void* out, int n, int ty, int op) {
  for (int i = 0; i < n; ++i) {
    if (ty == MPI_DOUBLE) { double v = ((const double*) ops[0].in)[i]; for (int r = 1; r < NP; ++r) { double x = ((const double*) ops[r].in)[i]; v = op == MPI_SUM ? v + x : op == MPI_MIN ? (x < v ? x : v) : (x > v ? x : v); } ((double*) out)[i] = v; }
    else if (ty == MPI_INT) { int v = ((const int*) ops[0].in)[i]; for (int r = 1; r < NP; ++r) { int x = ((const int*) ops[r].in)[i]; v = op == MPI_SUM ? v + x : op == MPI_MIN ? (x < v ? x : v) : (x > v ? x : v); } ((int*) out)[i] = v; }
    else stub_fail("reduction of data type %d", ty);
  }
}
static void complete() {
  const std::string& w = ops[0].what; std::string k = w.substr(0, w.find(' '));
  if (k == "MPI_Win_create") {
    Win W; for (int r = 0; r < NP; ++r) { W.base.push_back((void*) ops[r].in); W.size.push_back(ops[r].a); W.disp.push_back((int) ops[r].b); }
    W.open.assign(NP, 0); W.freed.assign(NP, 0); wins.push_back(W); for (int r = 0; r < NP; ++r) *(int*) ops[r].out = (int) wins.size() - 1;
  } else if (k == "MPI_Win_free") {
    int id = (int) ops[0].a; for (int r = 0; r < NP; ++r) { if (wins[id].freed[r]) stub_fail("window %d freed twice", id); wins[id].freed[r] = 1; }
    if (!wins[id].pending.empty()) stub_fail("window freed with incomplete transfers");
  } else if (k == "MPI_Win_fence") {
    Win& W = wins[ops[0].a];
    for (int r = 0; r < NP; ++r) {
      if ((ops[r].b & MPI_MODE_NOPRECEDE) && !W.pending.empty()) stub_fail("fence with MPI_MODE_NOPRECEDE closes an epoch with transfers");
      if ((ops[r].b & MPI_MODE_NOPRECEDE) != (ops[0].b & MPI_MODE_NOPRECEDE) || (ops[r].b & MPI_MODE_NOSUCCEED) != (ops[0].b & MPI_MODE_NOSUCCEED)) stub_fail("ranks give different assertions to the fence");
    }
    if (getMode != 0) for (size_t q = 0; q < W.pending.size(); ++q) doget(W.pending[W.pending.size() - 1 - q]);
    W.pending.clear();
    for (int r = 0; r < NP; ++r) W.open[r] = !(ops[r].b & MPI_MODE_NOSUCCEED);
  } else if (k == "MPI_Reduce" || k == "MPI_Allreduce") {
    int n = (int) ops[0].a, ty = (int) (ops[0].b & 255), op = (int) (ops[0].b >> 8); long root = ops[0].c;
    std::vector<double> tmp(n); if (ty == MPI_INT) reduceto(tmp.data(), n, ty, op); else reduceto(tmp.data(), n, ty, op);
    for (int r = 0; r < NP; ++r) if (root < 0 || r == root) memcpy(ops[r].out, tmp.data(), n * dsize(ty));
  } else if (k == "MPI_Gather" || k == "MPI_Allgather") {
    long n = ops[0].a; size_t sz = dsize((int) ops[0].b); long root = ops[0].c;
    for (int q = 0; q < NP; ++q) if (root < 0 || q == root) for (int r = 0; r < NP; ++r) memcpy((char*) ops[q].out + r * n * sz, ops[r].in, n * sz);
  } else if (k == "MPI_Bcast") { size_t sz = ops[0].a * dsize((int) ops[0].b); for (int r = 0; r < NP; ++r) if (r != ops[0].c) memcpy(ops[r].out, ops[ops[0].c].in, sz); }
}
void stub_run(int nprocs, int mode, const std::function<void(int)>& body) {
  NP = nprocs; getMode = mode; turn = -2; state.assign(NP, 0); ops.assign(NP, Op()); wins.clear(); allocs.assign(NP, std::map<void*, long>());
  std::vector<std::thread> T;
  for (int r = 0; r < NP; ++r) T.emplace_back([r, &body] {
    me = r; { std::unique_lock<std::mutex> L(M); CV.wait(L, [r] { return turn == r; }); }
    try { body(r); } catch (std::exception& e) { stub_fail("rank %d: exception %s", r, e.what()); } catch (...) { stub_fail("rank %d: exception", r); }
    std::unique_lock<std::mutex> L(M); state[r] = 2; pass(L, r);
  });
  { std::unique_lock<std::mutex> L(M); turn = (int) (rnd() % NP); CV.notify_all(); }
  for (auto& t : T) t.join();
  for (int r = 0; r < NP; ++r) if (!allocs[r].empty()) stub_fail("rank %d never frees %zu buffers", r, allocs[r].size());
  for (size_t w = 0; w < wins.size(); ++w) for (int r = 0; r < NP; ++r) if (!wins[w].freed[r]) stub_fail("window %zu is never freed", w);
}
int MPI_Init(int*, char***) { return 0; }
int MPI_Init_thread(int*, char***, int q, int* p) { *p = q; return 0; }
int MPI_Finalize() { collective("MPI_Finalize", 0, 0); return 0; }
int MPI_Abort(MPI_Comm, int c) { stub_fail("MPI_Abort(%d)", c); return 0; }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = me; return 0; }
int MPI_Comm_size(MPI_Comm, int* s) { *s = NP; return 0; }
double MPI_Wtime() { static double t = 0; return t += 0.25; }
int MPI_Barrier(MPI_Comm) { collective("MPI_Barrier", 0, 0); return 0; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void* p) { if (n < 0) stub_fail("MPI_Alloc_mem of %ld bytes", n); void* q = malloc(n ? n : 1); memset(q, 0xfb, n ? n : 1); *(void**) p = q; allocs[me][q] = n; return 0; }
int MPI_Free_mem(void* p) { if (getenv("STUB_FREE")) for (Win& W : wins) if (!W.freed[me] && W.base[me] == p) stub_fail("rank %d frees memory that a window still exposes", me); if (!allocs[me].count(p)) stub_fail("rank %d frees memory it does not own", me); allocs[me].erase(p); free(p); return 0; }
int MPI_Win_create(void* b, MPI_Aint n, int d, MPI_Info, MPI_Comm, MPI_Win* w) { auto it = allocs[me].find(b); if (it != allocs[me].end() && n > it->second) stub_fail("window of %ld bytes over a buffer of %ld", n, it->second); collective("MPI_Win_create", b, w, n, d); return 0; }
static Win& win(int w) { if (w < 0 || (size_t) w >= wins.size() || wins[w].freed[me]) stub_fail("rank %d uses window %d, which is not valid", me, w); return wins[w]; }
int MPI_Win_free(MPI_Win* w) { win(*w); collective("MPI_Win_free " + std::to_string(*w), 0, 0, *w); *w = MPI_WIN_NULL; return 0; }
int MPI_Win_fence(int a, MPI_Win w) { win(w); collective("MPI_Win_fence " + std::to_string(w), 0, 0, w, a); return 0; }
static int transfer(void* o, int n, MPI_Datatype t, int rk, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Win w, bool put) {
  Win& W = win(w); const char* nm = put ? "MPI_Put" : "MPI_Get";
  if (!W.open[me]) stub_fail("%s outside an access epoch", nm);
  if (rk < 0 || rk >= NP) stub_fail("%s from rank %d", nm, rk);
  long bytes = n * (long) dsize(t), off = disp * (long) W.disp[rk];
  if (n < 0 || tn * (long) dsize(tt) != bytes) stub_fail("%s with different lengths", nm);
  if (off < 0 || off + bytes > W.size[rk]) stub_fail("%s of %ld bytes at %ld from a window of %ld bytes", nm, bytes, off, W.size[rk]);
  for (auto& a : allocs[me]) if ((char*) o >= (char*) a.first && (char*) o < (char*) a.first + a.second && (char*) o + bytes > (char*) a.first + a.second) stub_fail("%s writes %ld bytes to a buffer of %ld", nm, bytes, a.second);
  Win::G g{me, put ? (void*) ((char*) W.base[rk] + off) : o, put ? o : (void*) ((char*) W.base[rk] + off), bytes, put};
  if (getMode == 0 || (getMode == 2 && rnd() % 2)) doget(g); else if (!put) memset(o, 0xfb, bytes);
  W.pending.push_back(g); return 0;
}
int MPI_Get(void* o, int n, MPI_Datatype t, int rk, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w) { return transfer(o, n, t, rk, d, tn, tt, w, false); }
int MPI_Put(const void* o, int n, MPI_Datatype t, int rk, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w) { return transfer((void*) o, n, t, rk, d, tn, tt, w, true); }
int MPI_Reduce(const void* i, void* o, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) { collective("MPI_Reduce " + std::to_string(n) + " " + std::to_string(t) + " " + std::to_string(op) + " " + std::to_string(root), i, o, n, t | (op << 8), root); return 0; }
int MPI_Allreduce(const void* i, void* o, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) { collective("MPI_Allreduce " + std::to_string(n) + " " + std::to_string(t) + " " + std::to_string(op), i, o, n, t | (op << 8), -1); return 0; }
int MPI_Gather(const void* i, int n, MPI_Datatype t, void* o, int n2, MPI_Datatype t2, int root, MPI_Comm) { if (me == root && (n2 != n || t2 != t)) stub_fail("MPI_Gather receives %d elements per rank, %d are sent", n2, n); collective("MPI_Gather " + std::to_string(n) + " " + std::to_string(t) + " " + std::to_string(root), i, o, n, t, root); return 0; }
int MPI_Allgather(const void* i, int n, MPI_Datatype t, void* o, int, MPI_Datatype, MPI_Comm) { collective("MPI_Allgather " + std::to_string(n) + " " + std::to_string(t), i, o, n, t, -1); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm) { collective("MPI_Bcast " + std::to_string(n) + " " + std::to_string(t) + " " + std::to_string(root), b, b, n, t, root); return 0; }
