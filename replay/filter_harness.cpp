// Filter on the in-process MPI stand-in against a dense global oracle; argument: C05 | C06 | C07 | C17, seed, tier
#include <vector>
#include <map>
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
#include <random>
#include <cstdio>
#include <unistd.h>
#include <cstdlib>
#include <cmath>
#include <numeric>
#include <algorithm>
#include "Filter.h"
typedef std::vector<size_t> V;
typedef std::map<std::vector<int>, double> S;
static std::string which; static bool memonly = false;   // C17: only the memory accesses are judged
template <class T> static std::string s(const T& v) { std::ostringstream o; for (auto x : v) o << ' ' << x; return o.str(); }
static V G; static std::vector<double> XM, XX; static std::vector<double> TAB;       // the user's function
static size_t flat(const V& x) { size_t r = 0; for (size_t j = 0; j < G.size(); ++j) r = r * G[j] + x[j]; return r; }
static double byIndex(const V& x) { if (x.size() != G.size()) stub_fail("the user's function gets %zu indices", x.size()); for (size_t j = 0; j < x.size(); ++j) if (x[j] >= G[j]) stub_fail("the user's function is called outside the grid:%s", s(x).c_str()); return TAB[flat(x)]; }
static double byPos(const std::vector<double>& p) {
  if (p.size() != G.size()) stub_fail("the user's function gets %zu coordinates", p.size());
  V x(p.size());
  for (size_t j = 0; j < p.size(); ++j) { double t = (p[j] - XM[j]) / (XX[j] - XM[j]) * (double) G[j] - 0.5; double r = std::floor(t + 0.5); if (!(std::fabs(t - r) < 1e-6) || r < 0 || r >= (double) G[j]) stub_fail("the user's function is called at%s, which is no cell centre", s(p).c_str()); x[j] = (size_t) r; }
  return TAB[flat(x)];
}
struct Case { V g; int P; S st; std::vector<int> prog; std::vector<double> xm, xx; std::vector<std::vector<double> > tabs; int mode; };
static void next(V& x) { for (size_t j = G.size(); j-- > 0;) { if (++x[j] < G[j]) return; x[j] = 0; } }
static std::vector<double> oracle(const std::vector<double>& in, const S& st) {
  std::vector<double> out(in.size(), 0.0); V x(G.size(), 0);
  for (size_t i = 0; i < in.size(); ++i, next(x)) { double r = 0; for (auto& b : st) { V y(G.size()); for (size_t j = 0; j < y.size(); ++j) { long n = (long) G[j]; y[j] = (size_t) ((((long) x[j] + b.first[j]) % n + n) % n); } r += b.second * in[flat(y)]; } out[i] = r; }
  return out;
}
enum { SETI, SETP, APPLY, COPY, SUMIN, SUMOUT, SAVE };
static void run(const Case& c) {
  G = c.g; XM = c.xm; XX = c.xx; size_t N = 1; for (size_t n : G) N *= n;
  std::string ss; for (auto& b : c.st) ss += " [" + s(b.first) + ":" + std::to_string(b.second) + "]"; std::string ps; const char* nm[] = {"setIdx", "setPos", "apply", "copy", "sumIn", "sumOut", "save"}; for (int q : c.prog) ps += std::string(" ") + nm[q];
  snprintf(stub_case, sizeof stub_case, "grid%s, %d processes, stencil%s, calls%s", s(G).c_str(), c.P, ss.c_str(), ps.c_str());
  // expected history
  std::vector<std::vector<double> > tin, tout; std::vector<double> in(N, 0), out(N, 0); size_t t = 0;
  for (int q : c.prog) { if (q == SETI || q == SETP) in = c.tabs[t++]; else if (q == APPLY) out = oracle(in, c.st); else if (q == COPY) in = out; tin.push_back(in); tout.push_back(out); }
  std::vector<std::vector<double> > saved(c.prog.size()); std::string fn = "f.vtk";
  static size_t cur; cur = 0;
  stub_run(c.P, c.mode, [&](int rk) {
    Filter f(c.g, c.xm, c.xx, c.st);
    if (!f.isDecompValid()) stub_fail("the decomposition is reported invalid");
    if (f.getRank() != rk || f.getNumProcs() != c.P) stub_fail("rank or process count reported wrong");
    size_t t = 0; bool set = false, app = false;
    for (size_t k = 0; k < c.prog.size(); ++k) {
      int q = c.prog[k];
      if (q == SETI || q == SETP) {
        MPI_Barrier(MPI_COMM_WORLD); TAB = c.tabs[t++]; set = true;
        if (q == SETI) f.setInDataByIndices(byIndex); else f.setInData(byPos);
        MPI_Barrier(MPI_COMM_WORLD);
      } else if (q == APPLY) { f.applyFilter(); app = true; }
      else if (q == COPY) f.copyOutToIn();
      else if (q == SUMIN || q == SUMOUT) { double r = f.computeCheckSum(q == SUMIN ? "input" : "output"); const std::vector<double>& w = q == SUMIN ? tin[k] : tout[k]; double e = std::accumulate(w.begin(), w.end(), 0.0); if (!memonly && rk == 0 && r != e) stub_fail("step %zu: check sum %.17g instead of %.17g", k, r, e); }
      else if (q == SAVE) {
        f.saveVTK(fn);
        if (rk == 0 && !memonly) {
          std::ifstream is(fn.c_str()); std::string w; std::vector<double> v; while (is >> w) if (w == "default") break; double d; while (is >> d) v.push_back(d);
          std::remove(fn.c_str());
          if (v.size() != N) stub_fail("step %zu: %zu values saved instead of %zu", k, v.size(), N);
          V x(G.size(), 0); for (size_t i = 0; i < N; ++i, ::next(x)) { size_t p = 0, m = 1; for (size_t j = 0; j < G.size(); ++j) { p += m * x[j]; m *= G[j]; } if (!(std::fabs(v[p] - tout[k][i]) <= 1e-5 * std::fabs(tout[k][i]))) stub_fail("step %zu: saved field at%s is %.17g instead of %.17g", k, s(x).c_str(), v[p], tout[k][i]); }
        }
      }
      // this rank's cells
      V b = f.dcmp.getBegIndices(rk), e = f.dcmp.getEndIndices(rk); MultiArrayIter it(b, e, false);
      for (size_t i = 0; i < it.getNumberOfTerms(); ++i, it.next()) {
        V x = it.getIndices();
        if (!memonly && set && f.inData.at(i) != tin[k][flat(x)]) stub_fail("step %zu: input of rank %d at%s is %.17g instead of %.17g", k, rk, s(x).c_str(), f.inData[i], tin[k][flat(x)]);
        if (!memonly && app && f.outData.at(i) != tout[k][flat(x)]) stub_fail("step %zu: output of rank %d at%s is %.17g instead of %.17g", k, rk, s(x).c_str(), f.outData[i], tout[k][flat(x)]);
      }
    }
  });
}
int main(int, char** v) {
  which = v[1]; memonly = which == "C17"; std::mt19937_64 g(atol(v[2])); bool th = std::string(v[3]) == "thorough"; long cases = 0;
  std::ostringstream& sink = *new std::ostringstream; std::cout.rdbuf(sink.rdbuf()); std::cerr.rdbuf(sink.rdbuf());
  auto rnd = [&](size_t a, size_t b) { return a + g() % (b - a + 1); };
  int total = th ? 3000 : 420;
  for (int k = 0; k < total; ++k) {
    Case c; size_t nd = 1 + k % 3; c.P = 1; std::vector<int> want(nd);
    int pm = k % 11 == 0 ? 1 : k % 5 == 0 ? 16 : 9;
    for (size_t j = 0; j < nd; ++j) { size_t d = rnd(1, nd == 1 ? 7 : nd == 2 ? 4 : 3); if (c.P * d > (size_t) pm) d = 1; c.P *= (int) d; size_t l = rnd(1, nd == 3 ? 4 : nd == 2 ? 6 : 9); c.g.push_back(d * l); }
    std::shuffle(c.g.begin(), c.g.end(), g);
    if (k == 7) { c.g = V{23, 2, 40}; c.P = 2; } if (k == 11) { c.g = V{3, 50, 4}; c.P = 6; } if (k == 13) { c.g = V{1200}; c.P = 3; } if (k == 16) { c.g = V{64, 2}; c.P = 8; }
    nd = c.g.size();
    CubeDecomp dc; if (!dc.build(c.P, c.g)) continue;
    V d = dc.getDecomp(), l(nd); for (size_t j = 0; j < nd; ++j) l[j] = c.g[j] / d[j];
    size_t nb = rnd(1, k % 4 == 0 ? 9 : 5); bool upw = k % 6 == 1;
    for (size_t b = 0; b < nb; ++b) { std::vector<int> o(nd, 0); if (rnd(0, 5)) { size_t j = rnd(0, nd - 1); int m = (int) rnd(1, k % 3 == 0 ? std::min<size_t>(l[j], 2) : l[j]); if (upw) m = 1; o[j] = rnd(0, 1) ? m : -m; } c.st[o] = ((double) rnd(0, 16) - 8) / 4 + 0.125; }
    size_t N = 1; for (size_t n : c.g) N *= n;
    for (size_t j = 0; j < nd; ++j) { c.xm.push_back((double) rnd(0, 8) - 4); c.xx.push_back(c.xm[j] + (double) rnd(1, 6)); }
    auto tab = [&] { std::vector<double> t(N); for (auto& x : t) x = (double) rnd(0, 40) - 20; return t; };
    auto set = [&] { c.prog.push_back(rnd(0, 1) ? SETI : SETP); c.tabs.push_back(tab()); };
    if (which == "C05") { set(); c.prog.push_back(APPLY); if (k % 2) { if (k % 4 == 1) set(); c.prog.push_back(APPLY); } }
    else if (which == "C07") { set(); c.prog.push_back(SUMIN); c.prog.push_back(APPLY); c.prog.push_back(SUMOUT); c.prog.push_back(SUMIN); c.prog.push_back(SAVE); if (k % 3 == 0) { set(); c.prog.push_back(SUMIN); } }
    else { set(); size_t n = rnd(2, 9); for (size_t q = 0; q < n; ++q) { size_t r = rnd(0, 9); if (r < 5) c.prog.push_back(APPLY); else if (r < 8) { c.prog.push_back(APPLY); c.prog.push_back(COPY); } else if (r == 8) c.prog.push_back(COPY); else set(); } c.prog.push_back(APPLY); if (std::find(c.prog.begin(), c.prog.end(), (int) APPLY) > std::find(c.prog.begin(), c.prog.end(), (int) COPY)) c.prog.insert(std::find(c.prog.begin(), c.prog.end(), (int) COPY), APPLY); if (which == "C17") c.prog.push_back(SAVE); }
    c.mode = k % 3; ++cases; run(c);
    if (cases % 150 == 1) printf("SAMPLE %s\n", stub_case);
  }
  printf("CASES %ld\n", cases); fflush(stdout); _exit(0);
}
