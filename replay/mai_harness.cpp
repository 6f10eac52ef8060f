// MultiArrayIter against an odometer
#include "MultiArrayIter.h"
#include <cstdio>
#include <cstdlib>
#include <random>
#include <string>
#include <algorithm>
typedef std::vector<size_t> V;
static std::string s(const V& v) { std::string r; for (size_t x : v) r += " " + std::to_string(x); return r; }
#define BAD(...) do { printf("FAIL lo%s hi%s %s: ", s(lo).c_str(), s(hi).c_str(), row ? "row-major" : "column-major"); printf(__VA_ARGS__); printf("\n"); return 1; } while (0)
static int check(const V& lo, const V& hi, bool row, bool all) {
  size_t nd = lo.size(), n = 1; V d(nd);
  for (size_t j = 0; j < nd; ++j) { d[j] = hi[j] - lo[j]; n *= d[j]; }
  MultiArrayIter it(lo, hi, row);
  if (it.getNumberOfTerms() != n) BAD("%zu terms instead of %zu", it.getNumberOfTerms(), n);
  if (n == 0) return 0;
  MultiArrayIter jt; jt.build(V(nd + 1, 3), V(nd + 1, 5), !row); jt.next(); jt.build(lo, hi, row);
  if (all) {
    V x = lo;
    it.begin();
    for (size_t p = 0; p < n; ++p) {
      V a = it.getIndices(), b = it.getIndices();
      if (a != x || b != x) BAD("position %zu gives%s / %s instead of%s", p, s(a).c_str(), s(b).c_str(), s(x).c_str());
      if (jt.getIndices() != x) BAD("rebuilt iterator: position %zu", p);
      if (it.computeBigIndex(x) != p) BAD("flattening%s gives %zu instead of %zu", s(x).c_str(), it.computeBigIndex(x), p);
      std::vector<int> xi(x.begin(), x.end());
      if (it.computeBigIndex(xi) != (int) p) BAD("int flattening%s gives %d instead of %zu", s(x).c_str(), it.computeBigIndex(xi), p);
      it.next(); jt.next();
      for (size_t q = 0; q < nd; ++q) { size_t j = row ? nd - 1 - q : q; if (++x[j] < hi[j]) break; x[j] = lo[j]; }
    }
    for (size_t p = n; p-- > 0;) { it.move(p); V a = it.getIndices(); if (it.computeBigIndex(a) != p) BAD("move(%zu) gives%s", p, s(a).c_str()); }
    it.move(n / 2); it.begin(); if (it.getIndices() != lo) BAD("begin after move");
    if (it.getLBegIndices() != lo || it.getEndIndices() != hi) BAD("corners");
  }
  return 0;
}
int main(int c, char** v) {
  std::mt19937_64 g(atol(v[1])); bool th = std::string(v[2]) == "thorough"; long cases = 0;
  auto rnd = [&](size_t a, size_t b) { return a + g() % (b - a + 1); };
  for (int k = 0; k < (th ? 4000 : 600); ++k) for (int row = 0; row < 2; ++row) {
    size_t nd = 1 + k % 6; V lo(nd), hi(nd);
    for (size_t j = 0; j < nd; ++j) { lo[j] = rnd(0, 1) ? rnd(0, 5) : 0; hi[j] = lo[j] + rnd(k % 7 == 0 ? 0 : 1, nd > 4 ? 4 : 7); }
    ++cases; if (check(lo, hi, row, true)) return 0;
  }
  // large boxes at random positions
  for (int k = 0; k < (th ? 20000 : 2000); ++k) for (int row = 0; row < 2; ++row) {
    size_t nd = 1 + k % 4; V lo(nd), hi(nd), x(nd), d(nd); unsigned __int128 n = 1;
    size_t lim = nd == 1 ? (size_t(1) << 63) : nd == 2 ? 4000000000u : nd == 3 ? 2600000u : 65000u;
    for (size_t j = 0; j < nd; ++j) { d[j] = rnd(1, lim); lo[j] = rnd(0, 1000000); hi[j] = lo[j] + d[j]; n *= d[j]; x[j] = lo[j] + rnd(0, d[j] - 1); }
    if (n > (unsigned __int128) ~size_t(0)) continue;
    ++cases; if (check(lo, hi, row, false)) return 0;
    MultiArrayIter it(lo, hi, row); size_t p = 0;
    for (size_t q = 0; q < nd; ++q) { size_t j = row ? q : nd - 1 - q; p = p * d[j] + (x[j] - lo[j]); }
    if (it.computeBigIndex(x) != p) { printf("FAIL lo%s hi%s row %d: flattening%s gives %zu instead of %zu\n", s(lo).c_str(), s(hi).c_str(), row, s(x).c_str(), it.computeBigIndex(x), p); return 0; }
    it.move(p); if (it.getIndices() != x) { printf("FAIL lo%s hi%s row %d: move(%zu) gives%s instead of%s\n", s(lo).c_str(), s(hi).c_str(), row, p, s(it.getIndices()).c_str(), s(x).c_str()); return 0; }
  }
  printf("CASES %ld\nSAMPLE lo 2 0 1 hi 5 4 3\n", cases);
}
