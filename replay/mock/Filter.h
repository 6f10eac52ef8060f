// stands for Filter: records what it is built with and in which order it is used
#pragma once
#define FILTER_H
#include <mpi.h>
#include <vector>
#include <map>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <iostream>
#include <sstream>
#include <fstream>
#include <numeric>
#include <algorithm>
#include <limits>
#include <functional>
struct Log { std::vector<size_t> dims; std::vector<double> xm, xx; std::map<std::vector<int>, double> st; int made = 0; long a = -1, b = -1, applies = 0; double (*byI)(const std::vector<size_t>&) = 0; double (*byP)(const std::vector<double>&) = 0; std::string bad, calls; long saved = -2; std::string file; };
extern Log LOG; extern bool mock_valid;
inline void mock_call(const char* w) { LOG.calls += w; LOG.calls += ' '; }
struct Filter {
  Filter(const std::vector<size_t>& d, const std::vector<double>& xm, const std::vector<double>& xx, const std::map<std::vector<int>, double>& st) { LOG.dims = d; LOG.xm = xm; LOG.xx = xx; LOG.st = st; ++LOG.made; mock_call("Filter"); }
  int getRank() const { return mock_rank; }
  int getNumProcs() const { return mock_size; }
  bool isDecompValid() const { return mock_valid; }
  void setInData(double (*f)(const std::vector<double>&)) { LOG.byP = f; LOG.a = 0; }
  void setInDataByIndices(double (*f)(const std::vector<size_t>&)) { LOG.byI = f; LOG.a = 0; }
  void applyFilter() { mock_call("applyFilter"); if (LOG.a < 0) LOG.bad = "the filter is applied before the input is set"; LOG.b = LOG.a + 1; ++LOG.applies; }
  void copyOutToIn() { if (LOG.b < 0) LOG.bad = "an output that was never computed is copied"; LOG.a = LOG.b; }
  double computeCheckSum(const std::string&) { mock_call("computeCheckSum"); return 1.0; }
  void saveVTK(const std::string& f) { mock_call("saveVTK"); LOG.saved = LOG.b; LOG.file = f; }
  void printSrcDataWindow(const std::vector<int>&) {} 
  void printDstDataWindow(const std::vector<int>&) {}
  void printInData() {} 
  void printOutData() {}
};
