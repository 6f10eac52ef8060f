// Calls the real writeVTK on problems read from standard input: nd, dims, xmins, xmaxs, field; one file per problem.
#include <iostream>
#include <vector>
#include <string>
#include "writeVTK.h"
int main(int, char** v) {
  size_t nd, k = 0; std::string dir = v[1];
  while (std::cin >> nd) {
    std::vector<size_t> n(nd); std::vector<double> lo(nd), hi(nd); size_t t = 1;
    for (auto& x : n) { std::cin >> x; t *= x; }
    for (auto& x : lo) std::cin >> x;
    for (auto& x : hi) std::cin >> x;
    std::vector<double> f(t); for (auto& x : f) std::cin >> x;
    writeVTK(dir + "/w" + std::to_string(k++) + ".vtk", n, lo, hi, f, "phi");
  }
}
