// Drives CmdLineArgParser. Texts are given in hexadecimal ("" is "-").
//   D kind name value help | P n args.. | G kind name | H purpose
#include "CmdLineArgParser.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "heapmark.h"
static std::string rd() { std::string h, r; std::cin >> h; if (h == "-") return r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)std::stoi(h.substr(i, 2), 0, 16); return r; }
static void ps(std::ostream& o, const std::string& s) { o << '['; for (size_t i = 0; i < s.size(); ++i) o << (i ? "," : "") << (int)(unsigned char)s[i]; o << ']'; }
// a real as sign, digits and exponent: 0.d1 d2 .. 10^x, at most fifteen digits
static void pr(std::ostream& o, double v) {
  char b[64]; std::snprintf(b, sizeof b, "%.14e", v); std::string t(b), d; size_t e = t.find('e'); long x = 0; bool neg = t[0] == '-';
  if (e != std::string::npos) { x = std::atol(t.c_str() + e + 1) + 1; for (char c : t.substr(0, e)) if (c >= '0' && c <= '9') d += c; } else { d = "9999999999999999"; x = 9999; }
  while (!d.empty() && d.back() == '0') d.pop_back();
  if (d.empty()) { neg = false; x = 0; }
  o << "{\"neg\":" << (neg ? "true" : "false") << ",\"d\":["; for (size_t i = 0; i < d.size(); ++i) o << (i ? "," : "") << d[i]; o << "],\"x\":" << x << "}";
}
int main() {
  std::ostream out(std::cout.rdbuf());
  std::string op; long sc = 0; std::unique_ptr<CmdLineArgParser> p;
  while (std::cin >> op) {
    std::ostringstream o;
    if (op == "S") { std::cin >> sc; HEAP_SC(sc); p.reset(new CmdLineArgParser()); out << "{\"sc\":" << sc << ",\"e\":\"start\"}" << std::endl; continue; }
    if (op == ".") { HEAP_END(out); continue; }
    if (op == "L") { HEAP_MARK(); continue; }
    if (op == "Z") { p.reset(new CmdLineArgParser()); continue; }
    o << "{\"sc\":" << sc;
    if (op == "D") {
      std::string k; std::cin >> k; std::string n = rd(), v = rd(), h = rd();
      o << ",\"e\":\"decl\",\"k\":\"" << k << "\",\"n\":"; ps(o, n); o << ",\"h\":"; ps(o, h); o << ",\"v\":";
      if (k == "i") { int x = std::stoi(v); p->set(n, x, h); o << x; }
      else if (k == "d") { double x = std::strtod(v.c_str(), 0); p->set(n, x, h); pr(o, x); }
      else if (k == "s") { p->set(n, v, h); ps(o, v); }
      else { bool x = v == "1"; p->set(n, x, h); o << (x ? "true" : "false"); }
      o << "}";
    } else if (op == "P") {
      int n; std::cin >> n; std::vector<std::string> a(1, "prog"); for (int i = 0; i < n; ++i) a.push_back(rd());
      std::vector<char*> av; for (auto& s : a) av.push_back(&s[0]); av.push_back(0);
      std::ostringstream sink; std::streambuf* b = std::cout.rdbuf(sink.rdbuf());
      bool ok = p->parse(n + 1, av.data());
      std::cout.rdbuf(b);
      o << ",\"e\":\"parse\",\"ok\":" << (ok ? "true" : "false") << ",\"args\":["; for (int i = 1; i <= n; ++i) { if (i > 1) o << ','; ps(o, a[i]); } o << "],\"w\":3}";
    } else if (op == "G") {
      std::string k; std::cin >> k; std::string n = rd(); bool s;
      o << ",\"e\":\"read\",\"k\":\"" << k << "\",\"n\":"; ps(o, n); o << ",\"v\":";
      if (k == "i") { int x = p->get<int>(n); s = x == -std::numeric_limits<int>::max(); o << x; }
      else if (k == "d") { double x = p->get<double>(n); s = x == -std::numeric_limits<double>::max(); pr(o, x); }
      else if (k == "s") { std::string x = p->get<std::string>(n); s = x == ""; ps(o, x); }
      else { bool x = p->get<bool>(n); s = !x; o << (x ? "true" : "false"); }
      o << ",\"s\":" << (s ? "true" : "false") << "}";
    } else if (op == "H") {
      std::string pu = rd(); p->setPurpose(pu);
      std::ostringstream txt; std::streambuf* b = std::cout.rdbuf(txt.rdbuf()); std::streambuf* b2 = std::cerr.rdbuf(txt.rdbuf());
      p->help(); std::cout.rdbuf(b); std::cerr.rdbuf(b2);
      std::istringstream is(txt.str()); std::string l; bool f = true;
      o << ",\"e\":\"help\",\"purpose\":"; ps(o, pu); o << ",\"lines\":["; while (std::getline(is, l)) { if (!f) o << ','; f = false; ps(o, l); } o << "],\"w\":10}";
    }
    out << o.str() << std::endl;
  }
}
