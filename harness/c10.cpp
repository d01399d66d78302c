// Command line parser: symbolic argument text against the documented meaning.
#include "vp.h"
#include "CmdLineArgParser.h"
#include <string>
#include <vector>
#include <string.h>
#include <stdlib.h>
enum Kind { Double, Int, String, Literal, Flag };
struct Opt { const char *name; Kind kind; double d; long i; bool b; std::string s; };
static bool same(const std::string &a, const char *b) { size_t n = strlen(b); if (a.size() != n) return false; for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return false; return true; }
static bool looksLikeOption(const std::string &a) { return a.size() >= 2 && a[0] == '-' && !(a[1] >= '0' && a[1] <= '9'); }
static bool number(const std::string &a, long &v) { size_t i = 0; bool neg = false; if (a.size() > 1 && a[0] == '-') { neg = true; i = 1; } if (i >= a.size()) return false; v = 0; for (; i < a.size(); ++i) { if (a[i] < '0' || a[i] > '9') return false; v = v * 10 + (a[i] - '0'); } if (neg) v = -v; return true; }
static void check(std::vector<Opt> &o, const std::vector<std::string> &args) {
  CmdLineArgParser p;
  for (auto &x : o) switch (x.kind) { case Double: p.set(x.name, x.d, "a double"); break; case Int: p.set(x.name, (int)x.i, "an int"); break; case String: p.set(x.name, x.s, "a string"); break; case Literal: p.set(x.name, "text", "a string"); x.s = "text"; break; case Flag: p.set(x.name, x.b, "a flag"); break; }
  o.push_back({"-h", Flag, 0, 0, false, ""});
  std::vector<std::vector<char>> store; std::vector<char *> argv; std::string prog = "program";
  store.push_back(std::vector<char>(prog.begin(), prog.end())); for (auto &a : args) store.push_back(std::vector<char>(a.begin(), a.end()));
  for (auto &v : store) v.push_back(0); for (auto &v : store) argv.push_back(v.data()); argv.push_back(0);
  bool ok = p.parse((int)store.size(), argv.data());
  bool expect = true;
  for (auto &a : args) if (looksLikeOption(a)) { bool known = false; for (auto &x : o) if (same(a, x.name)) known = true; if (!known) expect = false; }
  vp_assert(ok == expect, "parsing fails exactly when an unregistered option is given");
  vp_cover(expect ? "accepted" : "refused");
  for (auto &x : o) {
    long at = -1, n = 0;
    if (expect) for (size_t a = 0; a < args.size(); ++a) if (same(args[a], x.name)) { n++; if (a + 1 < args.size()) at = (long)a + 1; }
    switch (x.kind) {
    case Double: { double v = at < 0 ? x.d : atof(store[(size_t)at + 1].data()); vp_eq(p.get<double>(x.name), v, "a double option has the value after its last occurrence"); break; }
    case Int: { long v = x.i; if (at < 0 || number(args[(size_t)at], v)) { vp_assert(p.get<int>(x.name) == (int)v, "an int option has the value after its last occurrence"); if (at >= 0) vp_cover("int value"); } break; }
    case String: case Literal: { std::string g = p.get<std::string>(x.name), w = at < 0 ? x.s : args[(size_t)at]; bool eq = g.size() == w.size(); vp_assert(eq, "a string option has the value after its last occurrence"); for (size_t i = 0; i < w.size(); ++i) vp_assert(g[i] == w[i], "a string option has the value after its last occurrence"); if (at >= 0) vp_cover("string value"); break; }
    case Flag: vp_assert(p.get<bool>(x.name) == (x.b != (n % 2 == 1)), "a flag is flipped once per occurrence"); if (n > 0) vp_cover("flag given"); break; }
  }
}
static std::vector<Opt> options(long which) {
  double d = vp_real("default d"); long i = vp_int("default i", -2147483648L, 2147483647L); bool b = vp_fork("default b", 0, 1) != 0; char t[2] = {0, 0}; vp_bytes(t, 1, "default s"); vp_assume(t[0] != 0);
  std::vector<Opt> o;
  if (which == 0) { o.push_back({"-d", Double, d, 0, false, ""}); o.push_back({"-i", Int, 0, i, false, ""}); o.push_back({"-s", String, 0, 0, false, std::string(t)}); o.push_back({"-b", Flag, 0, 0, b, ""}); }
  else if (which == 1) { o.push_back({"-l", Literal, 0, 0, false, ""}); o.push_back({"-ll", Int, 0, i, false, ""}); o.push_back({"--", Flag, 0, 0, b, ""}); o.push_back({"-n", Double, d, 0, false, ""}); }
  else { o.push_back({"-numCells", Int, 0, i, false, ""}); o.push_back({"-numSteps", Int, 0, i / 2, false, ""}); o.push_back({"-numCell", Double, d, 0, false, ""}); o.push_back({"-vtk", Flag, 0, 0, b, ""}); o.push_back({"-file", String, 0, 0, false, std::string(t)}); }
  return o;
}
// every argument is any text of bounded length
extern "C" void anytext() {
  std::vector<Opt> o = options(vp_fork("options", 0, 1)); std::vector<std::string> args;
  long n = vp_fork("arguments", 0, vp_param("maxargs", 2));
  for (long a = 0; a < n; ++a) { char t[16] = {0}; long l = vp_fork_i("length", a, 0, vp_param("maxlen", 2)); std::string nm = "arg" + std::to_string(a); vp_bytes(t, (size_t)l, nm.c_str()); for (long i = 0; i < l; ++i) vp_assume(t[i] != 0); args.push_back(std::string(t, t + l)); }
  vp_shard(); check(o, args);
}
// longer argument lists: option names, unknown names and values with symbolic text
extern "C" void lists() {
  std::vector<Opt> o = options(vp_fork("options", 0, 2)); std::vector<std::string> args;
  long n = vp_fork("arguments", vp_param("minargs", 3), vp_param("maxargs", 3)), k = (long)o.size();
  for (long a = 0; a < n; ++a) {
    long c = vp_fork_i("kind", a, 0, k + 3);
    if (c < k) args.push_back(o[(size_t)c].name); else if (c == k) args.push_back("-h"); else if (c == k + 1) args.push_back(vp_param("unknown", 1) ? "-numCellsX" : "value");
    else { char t[3] = {0, 0, 0}; std::string nm = "value" + std::to_string(a); vp_bytes(t, 1, nm.c_str()); vp_assume(t[0] >= '0' && t[0] <= '9'); if (c == k + 3) args.push_back(std::string("-") + t[0]); else args.push_back(std::string("4") + t[0]); } }
  vp_shard(); check(o, args);
}
