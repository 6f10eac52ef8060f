// CmdLineArgParser against an independent reading of the documented rules
#include "CmdLineArgParser.h"
#include <cstdio>
#include <cstdlib>
#include <random>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <cctype>
typedef std::vector<std::string> A;
struct Reg { std::map<std::string, double> d; std::map<std::string, int> i; std::map<std::string, std::string> s; std::map<std::string, bool> b; };
static std::string show(const A& a) { std::string r; for (auto& x : a) r += " '" + x + "'"; return r; }
static int bad(const A& a, const std::string& w) { printf("FAIL argv%s: %s\n", show(a).c_str(), w.c_str()); return 1; }
static int check(const Reg& R, const A& argv) {
  CmdLineArgParser p; p.setPurpose("test");
  for (auto& x : R.d) p.set(x.first, x.second, "help");
  for (auto& x : R.i) p.set(x.first, x.second, "help");
  for (auto& x : R.s) p.set(x.first, x.second, "help");
  for (auto& x : R.b) p.set(x.first, x.second, "help");
  std::vector<std::vector<char> > store; std::vector<char*> av;
  for (auto& x : argv) { store.emplace_back(x.begin(), x.end()); store.back().push_back(0); }
  for (auto& x : store) av.push_back(x.data());
  av.push_back(nullptr);
  bool want = true;
  auto known = [&](const std::string& t) { return R.d.count(t) || R.i.count(t) || R.s.count(t) || R.b.count(t) || t == "-h"; };
  for (size_t a = 1; a < argv.size(); ++a) { const std::string& t = argv[a]; if (t.size() >= 2 && t[0] == '-' && !(t[1] >= '0' && t[1] <= '9') && !known(t)) want = false; }
  bool got = p.parse((int) argv.size(), av.data());
  if (got != want) return bad(argv, std::string("parse returns ") + (got ? "true" : "false"));
  auto value = [&](const std::string& k, bool& has) { std::string v; has = false; if (want) for (size_t a = 1; a + 1 < argv.size(); ++a) if (argv[a] == k) { has = true; v = argv[a + 1]; } return v; };
  for (int rep = 0; rep < 2; ++rep) {
    for (auto& x : R.d) { bool h; std::string v = value(x.first, h); double w = h ? atof(v.c_str()) : x.second; double g = p.get<double>(x.first); if (g != w && !(g != g && w != w)) return bad(argv, "double " + x.first + " is " + std::to_string(g) + " instead of " + std::to_string(w)); }
    for (auto& x : R.i) { bool h; std::string v = value(x.first, h); int w = h ? atoi(v.c_str()) : x.second; int g = p.get<int>(x.first); if (g != w) return bad(argv, "int " + x.first + " is " + std::to_string(g) + " instead of " + std::to_string(w)); }
    for (auto& x : R.s) { bool h; std::string v = value(x.first, h); std::string w = h ? v : x.second; std::string g = p.get<std::string>(x.first); if (g != w) return bad(argv, "string " + x.first + " is '" + g + "' instead of '" + w + "'"); }
    auto flag = [&](const std::string& k, bool d) { bool w = d; if (want) for (size_t a = 1; a < argv.size(); ++a) if (argv[a] == k) w = !w; return w; };
    for (auto& x : R.b) if (p.get<bool>(x.first) != flag(x.first, x.second)) return bad(argv, "flag " + x.first + " is wrong");
    if (!R.b.count("-h") && p.get<bool>("-h") != flag("-h", false)) return bad(argv, "flag -h is wrong");
    if (p.get<double>("-nope") != -1.7976931348623157e308) return bad(argv, "get<double> of an unregistered name");
    if (p.get<int>("-nope") != -2147483647) return bad(argv, "get<int> of an unregistered name");
    if (p.get<std::string>("-nope") != "") return bad(argv, "get<string> of an unregistered name");
    if (p.get<bool>("-nope")) return bad(argv, "get<bool> of an unregistered name");
    if (rep == 0) p.help();
  }
  return 0;
}
int main(int, char** v) {
  std::mt19937_64 g(atol(v[1])); bool th = std::string(v[2]) == "thorough"; long cases = 0;
  std::ostringstream& sink = *new std::ostringstream; std::streambuf* o1 = std::cout.rdbuf(sink.rdbuf());
  auto rnd = [&](size_t n) { return (size_t) (g() % n); };
  const char* names[] = {"-a", "-b", "-numCells", "-num", "-vx", "-V", "-numSteps", "-vtk", "-doVtk", "-o", "--long", "-t-", "plain"};
  const char* vals[] = {"3", "-3", "2.5", "-2.5e-3", "1e400", "0", "-0", "abc", "", "-", "7x", " 8", "-1", "-9abc", "99999999999", "-.5", "--", "- 4", "+4", "0x10", "nan", "-i", "a-b", "-h", "2147483647", "-2147483648"};
  const size_t nn = sizeof names / sizeof *names, nv = sizeof vals / sizeof *vals;
  for (int k = 0; k < (th ? 60000 : 8000); ++k) {
    Reg R;
    for (size_t j = 0; j < nn; ++j) switch (rnd(6)) {
      case 0: R.d[names[j]] = (double) rnd(1000) / 8 - 40; break; case 1: R.i[names[j]] = (int) rnd(2000) - 1000; break;
      case 2: R.s[names[j]] = rnd(2) ? "dflt" : ""; break; case 3: R.b[names[j]] = rnd(2); break; default: break; }
    A reg; for (auto& x : R.d) reg.push_back(x.first); for (auto& x : R.i) reg.push_back(x.first); for (auto& x : R.s) reg.push_back(x.first); for (auto& x : R.b) reg.push_back(x.first);
    A a(1, "prog"); size_t n = rnd(9); int mode = (int) rnd(3);
    for (size_t j = 0; j < n; ++j) {
      size_t q = rnd(10);
      if (q < 6 && !reg.empty()) a.push_back(reg[rnd(mode == 2 ? (reg.size() < 2 ? 1 : 2) : reg.size())]);
      else if (q == 9 && mode == 0) a.push_back(names[rnd(nn)]);
      else { std::string t = vals[rnd(nv)]; if (mode && t.size() >= 2 && t[0] == '-' && !(t[1] >= '0' && t[1] <= '9') && t != "-h") t = "5"; a.push_back(t); }
    }
    ++cases; if (check(R, a)) return 0;
  }
  std::cout.rdbuf(o1);
  printf("CASES %ld\nSAMPLE random registrations of four kinds, random argument lists\n", cases);
}
