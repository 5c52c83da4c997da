// Files.
#include "pbt.h"
#include <fstream>
#include <memory>
#include <sstream>
#include <sys/stat.h>
#include <parlay/io.h>
#include <parlay/primitives.h>
using namespace pbt;
namespace {
std::string file(const char* tag) { return tmp_dir() + "/f" + std::to_string(getpid()) + "." + tag; }
std::string content(Gen& g, size_t lim) { size_t n = g.len(lim, {4096, 8191, 65536}); std::string s(n, 0); int sh = (int)g.below(5); u64 sd = g.seed(); for (size_t i = 0; i < n; i++) { u64 x = mix(sd + i); s[i] = (char)(sh == 0 ? x : sh == 1 ? (x % 2 ? '\n' : '\r') : sh == 2 ? 0 : sh == 3 ? "ab\0\n\x1a\xff"[x % 6] : 32 + x % 90); } return s; }
void put_file(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(s.data(), (std::streamsize)s.size()); }
std::string get_file(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream o; o << i.rdbuf(); return o.str(); }
parlay::chars C(const std::string& s) { return parlay::chars(s.begin(), s.end()); }
std::string S(const parlay::chars& c) { return std::string(c.begin(), c.end()); }
struct Rm { std::string f; ~Rm() { ::unlink(f.c_str()); } };
size_t maps_of(const std::string& f) { std::ifstream m("/proc/self/maps"); std::string l; size_t n = 0; while (std::getline(m, l)) n += l.find(f) != std::string::npos; return n; }
}
PBT_SUB(roundtrip, 5000, 40000, 20, F_NONE) {
  std::string s = content(g, g.thorough ? 3000000 : 200000), f = file("a"); Rm rm{f}; size_t n = s.size(); bool over = g.chance(30), nt = g.coin(); if (over) put_file(f, std::string(n + 1 + g.below(5000), 'Z')); int64_t a = 0, b = 0; if (g.chance(70)) { auto pos = [&]() -> int64_t { switch (g.below(5)) { case 0: return (int64_t)g.below(n + 1); case 1: return (int64_t)n + g.range(-2, 3); case 2: return g.range(0, 3); case 3: return (int64_t)1 << g.below(45); default: return 0; } }; a = pos(); b = pos(); if (a < 0) a = 0; if (b < 0) b = 0; }
  g.desc << "file of " << n << " bytes" << (over ? ", overwritten" : "") << ", read [" << a << "," << b << ")" << (nt ? " with terminator" : ""); g.ready(); g.mark(n > 0); const auto c = C(s); parlay::chars_to_file(c, f); CHECK(get_file(f) == s, "the file holds something else"); CHECK(S(c) == s);
  auto r = parlay::chars_from_file(f); CHECK(S(r) == s, "read back", r.size(), n); auto t = parlay::chars_from_file(f, true); CHECK(S(t) == s + std::string(1, 0), "with terminator", t.size());
  std::string want; int64_t e = b == 0 || b > (int64_t)n ? (int64_t)n : b; if (a < e) want = s.substr((size_t)a, (size_t)(e - a)); if (nt) want += '\0'; auto p = parlay::chars_from_file(f, nt, a, b); CHECK(S(p) == want, "part", p.size(), want.size());
  { parlay::file_map m(f); CHECK(m.size() == n, m.size(), n); CHECK(std::string(m.begin(), m.end()) == s, "mapped contents"); CHECK(m.empty() == (n == 0)); if (n) { size_t i = g.below(n); CHECK(m[i] == s[i]); size_t l = 0; auto q = parlay::to_sequence(m); CHECK(q.size() == n); for (size_t k = 0; k < n; k++) l += q[k] == s[k]; CHECK(l == n); CHECK(parlay::count(m, '\n') == (size_t)std::count(s.begin(), s.end(), '\n')); } }
  std::ostringstream o; parlay::chars_to_stream(c, o); CHECK(o.str() == s, "chars_to_stream"); std::ostringstream o2; o2 << c << c; CHECK(o2.str() == s + s, "operator<<"); CHECK(maps_of(f) == 0, "still mapped");
}
PBT_SUB(mappings, 4000, 30000, 20, F_NONE) {   // histories of moves, swaps, assignments, closings over three slots
  const char* tags[] = {"p", "q", "r"}; std::string s[3], f[3]; for (int i = 0; i < 3; i++) { s[i] = content(g, g.chance(10) ? 70000 : 300); f[i] = file(tags[i]); put_file(f[i], s[i]); } Rm r0{f[0]}, r1{f[1]}, r2{f[2]};
  std::unique_ptr<parlay::file_map> m[3]; int model[3] = {-2, -2, -2}; /* -2 none, -1 closed, else the file */ size_t k = 2 + g.below(12); g.desc << "mappings of files of " << s[0].size() << "," << s[1].size() << "," << s[2].size() << " bytes:"; g.mark();
  auto check = [&] { for (int i = 0; i < 3; i++) if (model[i] != -2) { std::string w = model[i] < 0 ? "" : s[model[i]]; CHECK(m[i]->size() == w.size(), "slot", i, m[i]->size(), w.size()); CHECK(m[i]->empty() == w.empty(), "slot", i); CHECK(w.empty() || memcmp(m[i]->begin(), w.data(), w.size()) == 0, "slot", i, "contents"); const auto& cm = *m[i]; CHECK((size_t)(cm.end() - cm.begin()) == w.size()); if (w.size()) CHECK(cm[w.size() - 1] == w.back()); }
    for (int q = 0; q < 3; q++) { size_t live = 0; for (int i = 0; i < 3; i++) live += model[i] == q && s[q].size(); CHECK((maps_of(f[q]) > 0) == (live > 0), "file", q, "mapped", maps_of(f[q]), "times, live", live); } };
  for (size_t o = 0; o < k; o++) { int op = (int)g.below(8), i = (int)g.below(3), j = (int)g.below(3);
    switch (op) {
      case 0: case 1: m[i].reset(); m[i] = std::make_unique<parlay::file_map>(f[j]); model[i] = j; g.desc << " map(" << i << "," << j << ")"; break;
      case 2: if (i == j || model[j] == -2) break; m[i] = std::make_unique<parlay::file_map>(std::move(*m[j])); model[i] = model[j]; model[j] = -1; g.desc << " move-construct(" << i << "," << j << ")"; break;
      case 3: if (i == j || model[j] == -2 || model[i] == -2) break; *m[i] = std::move(*m[j]); model[i] = model[j]; model[j] = -1; g.desc << " move-assign(" << i << "," << j << ")"; break;
      case 4: if (model[j] == -2 || model[i] == -2) break; m[i]->swap(*m[j]); std::swap(model[i], model[j]); g.desc << " swap(" << i << "," << j << ")"; break;
      case 5: if (model[i] == -2) break; m[i]->close(); model[i] = -1; g.desc << " close(" << i << ")"; break;
      case 6: m[i].reset(); model[i] = -2; g.desc << " destroy(" << i << ")"; break;
      case 7: if (i == j || model[j] == -2 || model[i] == -2) break; { using std::swap; swap(*m[i], *m[j]); } std::swap(model[i], model[j]); g.desc << " std::swap(" << i << "," << j << ")"; break;
    } g.ready(); check(); }
}
