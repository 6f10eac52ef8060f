// CubeDecomp against brute force; argument: which property (C02, C03, C04), seed, tier
#include "CubeDecomp.h"
#include <cstdio>
#include <cstdlib>
#include <random>
#include <string>
#include <set>
#include <map>
typedef std::vector<size_t> V;
static std::string s(const V& v) { std::string r; for (size_t x : v) r += " " + std::to_string(x); return r; }
static std::string which;
static V divisors(size_t n) { V r; for (size_t k = 1; k * k <= n; ++k) if (n % k == 0) { r.push_back(k); if (k * k != n) r.push_back(n / k); } return r; }
static void all(const V& n, size_t j, size_t P, V& cur, std::vector<V>& out) {
  if (j == n.size()) { if (P == 1) out.push_back(cur); return; }
  for (size_t d : divisors(n[j])) if (P % d == 0) { cur.push_back(d); all(n, j + 1, P / d, cur, out); cur.pop_back(); }
}
static long double cost(const V& n, const V& d) { long double r = 0; for (size_t j = 0; j < n.size(); ++j) r += (long double) d[j] / n[j]; return r; }
#define BAD(...) do { printf("FAIL nprocs %d grid%s: ", P, s(n).c_str()); printf(__VA_ARGS__); printf("\n"); return 1; } while (0)
static int check(const V& n, int P, bool cells, std::mt19937_64& g) {
  std::vector<V> cand; V cur; all(n, 0, P, cur, cand);
  size_t nd = n.size();
  for (int rep = 0; rep < 2; ++rep) {
    CubeDecomp c; bool ok;
    if (rep == 1) { c.build(1, V(nd, 4)); c.getBegIndices(0); }
    ok = c.build(P, n);
    if (which == "C02" && ok != !cand.empty()) BAD("build returned %d, %zu admissible factorisations exist", (int) ok, cand.size());
    if (!ok) continue;
    V d = c.getDecomp();
    if (which != "C03") {
      size_t p = 1; bool div = d.size() == nd;
      for (size_t j = 0; j < d.size() && div; ++j) { p *= d[j]; div = d[j] > 0 && n[j] % d[j] == 0; }
      if (!div || p != (size_t) P) BAD("factorisation%s is not admissible", s(d).c_str());
    }
    if (which == "C04") {
      for (auto& x : cand) if (cost(n, x) < cost(n, d) * (1 - 1e-13L)) BAD("chosen%s has ratio %.17Lg,%s has %.17Lg", s(d).c_str(), cost(n, d), s(x).c_str(), cost(n, x));
      continue;
    }
    if (d.size() != nd) continue;
    V l(nd); for (size_t j = 0; j < nd; ++j) l[j] = n[j] / d[j];
    auto box = [&](int rk, V& b, V& e) { b = c.getBegIndices(rk); e = c.getEndIndices(rk); };
    std::vector<int> rks; 
    if (P <= 300) for (int r = 0; r < P; ++r) rks.push_back(r); else for (int q = 0; q < 200; ++q) rks.push_back(g() % P);
    std::map<V, int> owner;
    if (which == "C02") {
      std::set<V> seen;
      for (int r : rks) {
        V b, e; box(r, b, e);
        if (b.size() != nd || e.size() != nd) BAD("rank %d: box of wrong dimension", r);
        for (size_t j = 0; j < nd; ++j) if (e[j] - b[j] != l[j] || b[j] % l[j] || e[j] > n[j]) BAD("rank %d has box%s to%s", r, s(b).c_str(), s(e).c_str());
        if (!seen.insert(b).second && P <= 300) BAD("rank %d has the same box%s as another", r, s(b).c_str());
      }
      if (cells && P <= 300) {
        size_t N = 1; for (size_t x : n) N *= x;
        if (N < 3000) { std::map<V, int> cnt; 
          for (int r = 0; r < P; ++r) { V b, e; box(r, b, e); V x = b; while (true) { cnt[x]++; size_t j = 0; for (; j < nd; ++j) { if (++x[j] < e[j]) break; x[j] = b[j]; } if (j == nd) break; } }
          if (cnt.size() != N) BAD("%zu of %zu cells covered", cnt.size(), N);
          for (auto& kv : cnt) if (kv.second != 1) BAD("cell%s covered %d times", s(kv.first).c_str(), kv.second); }
      }
    }
    if (which == "C03") {
      std::map<V, int> at; 
      if (P <= 300) for (int r : rks) at[c.getBegIndices(r)] = r;
      size_t nt = 1; for (size_t j = 0; j < nd; ++j) nt *= 3;
      for (size_t q = 0; q < rks.size(); ++q) {
        int r = rks[q];
        V b = c.getBegIndices(r);
        for (size_t t = 0; t < nt; ++t) {
          std::vector<int> dir(nd), opp(nd); size_t tt = t;
          for (size_t j = 0; j < nd; ++j) { dir[j] = (int) (tt % 3) - 1; opp[j] = -dir[j]; tt /= 3; }
          if (g() % 4 == 0) c.getEndIndices(g() % P);
          int nb = c.getNeighborRank(r, dir);
          std::string ds; for (int x : dir) ds += " " + std::to_string(x);
          if (nb < 0 || nb >= P) BAD("neighbour of %d along%s is %d", r, ds.c_str(), nb);
          V b2 = c.getBegIndices(nb), want(nd);
          for (size_t j = 0; j < nd; ++j) want[j] = (b[j] + n[j] + (size_t) ((long) dir[j] * (long) l[j])) % n[j];
          if (b2 != want) BAD("neighbour of %d along%s is %d at%s instead of%s", r, ds.c_str(), nb, s(b2).c_str(), s(want).c_str());
          if (P <= 300 && at[want] != nb) BAD("neighbour of %d along%s is %d, the owner is %d", r, ds.c_str(), nb, at[want]);
          int back = c.getNeighborRank(nb, opp);
          if (back != r) BAD("stepping along%s from %d and back gives %d", ds.c_str(), r, back);
        }
      }
    }
  }
  return 0;
}
int main(int argc, char** argv) {
  which = argv[1]; std::mt19937_64 g(atol(argv[2])); bool th = std::string(argv[3]) == "thorough";
  long n = 0;
  auto C = [&](V v, int P, bool cells) { ++n; if (n % 997 == 1) { printf("SAMPLE nprocs %d grid%s\n", P, s(v).c_str()); fflush(stdout); } return check(v, P, cells, g); };
  // all small grids
  for (size_t a = 1; a <= 16; ++a) for (int P = 1; P <= 16; ++P) if (C({a}, P, true)) return 0;
  for (size_t a = 1; a <= 9; ++a) for (size_t b = 1; b <= 9; ++b) for (int P = 1; P <= 24; ++P) if (C({a, b}, P, true)) return 0;
  for (size_t a = 1; a <= 6; ++a) for (size_t b = 1; b <= 6; ++b) for (size_t c = 1; c <= 6; ++c) for (int P : {1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 16, 18, 24, 30, 36, 60, 64, 216}) if (C({a, b, c}, P, true)) return 0;
  for (size_t a = 1; a <= 4; ++a) for (size_t b = 1; b <= 4; ++b) for (size_t c = 1; c <= 4; ++c) for (size_t d = 1; d <= 4; ++d) for (int P : {1, 2, 4, 6, 8, 12, 16, 24, 48, 256}) if (C({a, b, c, d}, P, true)) return 0;
  // larger grids
  for (int k = 0; k < (th ? 4000 : 400); ++k) { size_t nd = 1 + g() % 3; V v; int P = 1; for (size_t j = 0; j < nd; ++j) { size_t x = 1 + g() % (nd == 3 ? 60 : 400); if (g() % 2) { static const size_t hi[] = {12, 24, 36, 48, 60, 64, 96, 120, 128, 144, 180, 240, 256, 360}; x = hi[g() % 14]; } v.push_back(x); V d = divisors(x); P *= d[g() % d.size()]; } if (g() % 8 == 0) P += 1; if (C(v, P, false)) return 0; }
  // products beyond 32 bits
  const size_t big[][3] = {{6, 2554, 1681663}, {7, 6323, 679261}, {9, 9629, 446045}, {19, 26053, 164855}, {23, 11393, 376983}};
  for (auto& b : big) { if (C({b[1], b[2]}, (int) b[0], false)) return 0; if (C({b[2], b[1]}, (int) b[0], false)) return 0; }
  for (V v : {V{65536, 65536}, V{65536, 131072, 2}, V{1048576, 4096, 16}, V{1000000, 1000000}, V{600000, 720720}}) for (int P : {1, 2, 4, 16, 64, 720, 4096, 65536, 1048576}) if (C(v, P, false)) return 0;
  // ratios that are nearly equal
  for (size_t m : {4000037u, 9000011u}) for (int P : {2, 4}) { V a = {4 * m, 4 * m + 4}, b = {4 * m + 4, 4 * m}; if (C(a, P, false) || C(b, P, false)) return 0; }
  printf("CASES %ld\n", n);
  return 0;
}
