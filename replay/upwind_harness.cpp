// Drives the real class Upwind of one program (SRC) on problems read from standard input.
#include <vector>
#include <array>
#include <functional>
#include <algorithm>
#include <numeric>
#include <string>
#include <fstream>
#include <limits>
#include <iostream>
#include <sstream>
#include <cstring>
#include <cstdio>
#include <cmath>
#include <map>
#include <cstdlib>
#include <type_traits>
#define main program_main
#include SRC
#undef main
struct AnyVec { std::vector<int> v; operator std::vector<int>() const { return v; }
  operator std::vector<size_t>() const { return std::vector<size_t>(v.begin(), v.end()); } };
template <class U> auto steps(U& u, int n, double dt, int) -> decltype(u.advect(n, dt), void()) { u.advect(n, dt); }
template <class U> auto steps(U& u, int n, double dt, long) -> decltype(u.advect(dt), void()) { for (int i = 0; i < n; ++i) u.advect(dt); }
template <class U> auto spread(U& u, int) -> decltype(u.std()) { return u.std(); }
template <class U> double spread(U& u, long) { return -1; }
int main() {
  int nsteps, usef, vtk;
  std::vector<double> v(3), L(3); AnyVec n; n.v.resize(3); double dt;
  while (std::cin >> v[0] >> v[1] >> v[2] >> L[0] >> L[1] >> L[2] >> n.v[0] >> n.v[1] >> n.v[2] >> dt >> nsteps >> usef >> vtk) {
    Upwind<3> u(v, L, n);
    printf("init"); for (double x : u.f) printf(" %.17g", x); printf("\n");
    if (usef) { for (size_t i = 0; i < u.f.size(); ++i) std::cin >> u.f[i]; }
    steps(u, nsteps, dt, 0);
    printf("field"); for (double x : u.f) printf(" %.17g", x); printf("\n");
    double c = u.checksum(), s = spread(u, 0);
    printf("diag %.17g %.17g\n", c, s);
    printf("after"); for (double x : u.f) printf(" %.17g", x); printf("\n");
    if (vtk) {
      const char* fn = getenv("VTKFILE");
      u.saveVTK(fn);
      std::ifstream in(fn); std::string line; 
      while (std::getline(in, line)) printf("|%s\n", line.c_str());
      printf("endvtk\n");
    }
    fflush(stdout);
  }
  return 0;
}
