// the MPI drivers with a Filter that records: SRC is the program, WHICH is U (upwind) or L (Laplacian)
#include "mock/Filter.h"
#include "CmdLineArgParser.h"
#include <random>
Log LOG; int mock_rank = 0, mock_size = 1; double mock_time = 0; bool mock_valid = true;
#define main prog_main
#include SRC
#undef main
typedef std::vector<int> O;
template <class T> static std::string s(const T& v) { std::ostringstream o; for (auto x : v) o << ' ' << x; return o.str(); }
static std::string cmd;
#define BAD(...) do { char b[600]; snprintf(b, sizeof b, __VA_ARGS__); fflush(stdout); printf("FAIL %s: %s\n", cmd.c_str(), b); fflush(stdout); _Exit(0); } while (0)
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-12 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
int main(int, char** v) {
  std::mt19937_64 g(atol(v[1])); bool th = std::string(v[2]) == "thorough"; char W = WHICH[0]; long cases = 0;
  std::ostringstream& sink = *new std::ostringstream; std::cout.rdbuf(sink.rdbuf()); std::cerr.rdbuf(sink.rdbuf());
  auto rnd = [&](long a, long b) { return a + (long) (g() % (unsigned long) (b - a + 1)); };
  int total = th ? 4000 : 600;
  for (int k = 0; k < total; ++k) {
    long n = k % 10 == 0 ? rnd(1, 3) : k % 10 == 1 ? rnd(100, 100000) : rnd(1, 64), steps = k % 7 == 0 ? rnd(0, 1) : rnd(0, 40), nd = 3; bool vtk = k % 2, giveN = k % 5 != 2, giveS = k % 5 != 3;
    std::vector<std::string> a; a.push_back("prog");
    if (giveN) { a.push_back("-numCells"); a.push_back(std::to_string(n)); }
    if (W == 'U') { if (giveS) { a.push_back("-numSteps"); a.push_back(std::to_string(steps)); } }
    else { nd = rnd(1, 5); a.push_back("-numDims"); a.push_back(std::to_string(nd)); }
    if (vtk) a.push_back("-vtk");
    std::vector<char*> av; for (auto& x : a) av.push_back(&x[0]); av.push_back(0);
    LOG = Log(); mock_rank = k % 3 == 2 ? (int) rnd(1, 7) : 0; mock_size = mock_rank + (int) rnd(1, 4); mock_valid = k % 9 != 8;
    cmd.clear(); for (auto& x : a) cmd += (cmd.empty() ? "" : " ") + x; cmd += " (rank " + std::to_string(mock_rank) + " of " + std::to_string(mock_size) + (mock_valid ? ")" : ", no valid decomposition)");
    int rank = mock_rank; mock_rank = rank ? 0 : mock_size - 1;
    prog_main((int) a.size(), av.data()); std::string calls = LOG.calls; LOG = Log(); std::swap(mock_rank, rank);
    for (size_t i = 0; i < a.size(); ++i) av[i] = &a[i][0];
    prog_main((int) a.size(), av.data()); sink.str(""); ++cases;
    if (LOG.calls != calls) BAD("this process and process %d take part in different steps:%s against%s", rank, (" " + LOG.calls).substr(0, 200).c_str(), (" " + calls).substr(0, 200).c_str());
    if (LOG.made != 1) BAD("%d filters are built", LOG.made);
    if (!LOG.bad.empty()) BAD("%s", LOG.bad.c_str());
    if ((long) LOG.dims.size() != nd) BAD("the grid has %zu axes instead of %ld", LOG.dims.size(), nd);
    for (size_t d : LOG.dims) if (giveN && (long) d != n) BAD("grid%s", s(LOG.dims).c_str());
    if (!giveN) n = (long) LOG.dims[0];
    for (size_t d : LOG.dims) if ((long) d != n || n < 1) BAD("grid%s", s(LOG.dims).c_str());
    if ((long) LOG.xm.size() != nd || (long) LOG.xx.size() != nd) BAD("domain corners of another dimension");
    for (long j = 0; j < nd; ++j) if (LOG.xm[j] != 0 || LOG.xx[j] != 1) BAD("domain from%s to%s", s(LOG.xm).c_str(), s(LOG.xx).c_str());
    O z(nd, 0); std::map<O, double> w; double sum = 0;
    if (W == 'U') {
      if (LOG.st.size() != 4) BAD("%zu stencil branches", LOG.st.size());
      for (int j = 0; j < 3; ++j) { O o = z; o[j] = -1; if (!LOG.st.count(o)) BAD("no branch at%s", s(o).c_str()); double c = LOG.st[o]; sum += c; if (!(c > 0)) BAD("weight %.17g at%s", c, s(o).c_str()); O o0 = z; o0[0] = -1; if (!near(c, LOG.st[o0])) BAD("equal speeds and cell sizes with Courant numbers %.17g and %.17g", c, LOG.st[o0]); }
      if (!LOG.st.count(z)) BAD("no centre branch");
      if (!near(LOG.st[z], 1 - sum) || sum > 1 + 1e-12) BAD("centre weight %.17g with Courant numbers adding up to %.17g", LOG.st[z], sum);
    } else {
      if ((long) LOG.st.size() != 2 * nd + 1) BAD("%zu stencil branches in %ld dimensions", LOG.st.size(), nd);
      for (int j = 0; j < nd; ++j) for (int q = -1; q <= 1; q += 2) { O o = z; o[j] = q; if (!LOG.st.count(o)) BAD("no branch at%s", s(o).c_str()); if (!near(LOG.st[o], 1)) BAD("weight %.17g at%s", LOG.st[o], s(o).c_str()); }
      if (!LOG.st.count(z) || !near(LOG.st[z], -2.0 * nd)) BAD("centre weight %.17g in %ld dimensions", LOG.st[z], nd);
    }
    if (!mock_valid) { if (LOG.applies) BAD("the filter is applied without a decomposition"); continue; }
    if (W == 'U') {
      if (!LOG.byI) BAD("the initial data are not given by index set");
      for (int q = 0; q < 60; ++q) {
        std::vector<size_t> x(3); for (auto& y : x) y = (size_t) rnd(0, q < 20 ? std::min(n - 1, 2L) : n - 1); if (q == 0) x.assign(3, 0); if (q >= 1 && q <= 3) { x.assign(3, 0); x[q - 1] = (size_t) (n - 1); }
        if (q >= 30) for (auto& y : x) { long p = rnd(0, 1) ? 0 : q < 45 ? 1L << rnd(0, 16) : rnd(0, 3) * 64 + rnd(-1, 1); y = (size_t) std::min(std::max(p, 0L), n - 1); }
        bool zero = x[0] + x[1] + x[2] == 0; double r = LOG.byI(x); if (r != (zero ? 1.0 : 0.0)) BAD("initial value %.17g at%s", r, s(x).c_str());
      }
      if (giveS ? LOG.a != steps || (steps && LOG.b != steps) || LOG.applies != steps : LOG.a != LOG.applies || LOG.a < 1) BAD("%ld applications, %ld of them on the result of the one before", LOG.applies, LOG.a);
      if (vtk && steps && LOG.saved != -2 && LOG.saved != LOG.b) BAD("the file holds the output of step %ld", LOG.saved);
    } else {
      if (!LOG.byP) BAD("the initial data are not given by position");
      for (int q = 0; q < 40; ++q) { std::vector<double> x(nd); double e = 1; for (auto& y : x) { y = (double) rnd(0, 1000) / 1000; e *= std::sin(2 * M_PI * y); } double r = LOG.byP(x); if (!(std::fabs(r - e) < 1e-12)) BAD("initial value %.17g instead of %.17g at%s", r, e, s(x).c_str()); }
      if (LOG.applies < 1 || LOG.b < 1) BAD("the stencil is never applied");
    }
    if (cases % 200 == 1) printf("SAMPLE %s\n", cmd.c_str());
  }
  printf("CASES %ld\n", cases); fflush(stdout); _Exit(0);
}
