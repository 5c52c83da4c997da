// elementwise builders against their definition, with every user call counted
#include "pbt.h"
#include "types.h"
using namespace pbt;
using V = std::vector<int64_t>;
static void perturb(Gen& g) { set_jitter(g.seed(), (unsigned)g.pick({0u, 0u, 5u, 30u})); }
template <typename A> static void same(const A& a, const V& want, const char* w) {
  CHECK(a.size() == want.size(), w, a.size(), want.size());
  auto it = a.begin(); for (size_t i = 0; i < want.size(); i++) CHECK((int64_t)it[i] == want[i], w, "at", i, "of", want.size(), "got", (int64_t)it[i], "want", want[i]);
}
static size_t gran(Gen& g, size_t n) { switch (g.below(6)) { case 0: case 1: return 0; case 2: return 1; case 3: return 1 + g.below(8); case 4: return n + g.below(3); default: return 1 + g.below(3000); } }

PBT_SUB(tabulate_map, 6000, 60000, 20, F_NONE) {
  size_t n = g.len(g.thorough ? 200000 : 30000, {1024, 2000, 1000, 512}), gr = gran(g, n); unsigned form = (unsigned)g.below(5), kind = (unsigned)g.below(5); perturb(g);
  g.desc << "form " << form << " kind " << kind << " n=" << n << " granularity=" << gr; g.ready(); g.mark(n > 1); g.label("form" + std::to_string(form));
  vt::Visits vis(n); V want(n); u64 s = g.seed(); for (size_t i = 0; i < n; i++) want[i] = (int64_t)(mix(s + i) >> 1);
  auto f = [&](size_t i) -> int64_t { vis.hit(i); jitter(i); return (int64_t)(mix(s + i) >> 1); };
  switch (form) {
    case 0: same(parlay::tabulate(n, f, gr), want, "tabulate"); break;
    case 1: same(parlay::tabulate<int64_t>(n, f, gr), want, "tabulate<T>"); break;
    case 2: case 3: { V in(n); for (size_t i = 0; i < n; i++) in[i] = (int64_t)i;
      auto h = [&](int64_t i) -> int64_t { return f((size_t)i); };
      if (kind < 4) same(parlay::map(vt::AnyRange<int64_t>(kind, in), h, gr), want, "map"); else same(parlay::map(parlay::iota<int64_t>((int64_t)n), h, gr), want, "map"); break; }
    case 4: same(parlay::sequence<int64_t>::from_function(n, f, gr), want, "from_function"); break;
  }
  vis.expect(1, "user function");
}
PBT_SUB(rearrange, 8000, 80000, 20, F_NONE) {
  size_t n = g.len(g.thorough ? 100000 : 20000, {1024, 2000, 1000, 512}), m = g.below(2) ? g.len(3000, {1000}) : 0; unsigned form = (unsigned)g.below(12), kind = (unsigned)g.below(4);
  static const char* nm[] = {"to_sequence", "to_short_sequence", "copy", "append", "reverse", "reverse_inplace", "rotate", "remove", "zip", "iota", "remove_if", "copy into larger"};
  auto v = ints(g, n, 0, 9), v2 = ints(g, m, 0, 9);
  size_t t = n ? g.below(n + 1) : 0; int64_t val = g.range(0, 9); perturb(g);
  g.desc << nm[form] << " " << vt::AnyRange<int>::name(kind) << " n=" << n << " m=" << m << " t=" << t << " v=" << val << " " << show(v); g.ready(); g.mark(n > 1); g.label(nm[form]);
  vt::AnyRange<int64_t> r(kind, v), r2(kind + 1, v2); V want;
  switch (form) {
    case 0: same(parlay::to_sequence(r), v, nm[form]); { V w = v; auto s = parlay::to_sequence<int64_t>(parlay::to_sequence(w)); same(s, v, nm[form]); } break;
    case 1: { V b; for (auto x : v) b.push_back(x % 10); std::vector<char> c(b.begin(), b.end()); same(parlay::to_short_sequence(c), b, nm[form]); break; }
    case 2: { V out(n, -1); parlay::copy(r, out); same(out, v, nm[form]); break; }
    case 3: want = v; want.insert(want.end(), v2.begin(), v2.end()); same(parlay::append(r, r2), want, nm[form]); break;
    case 4: want.assign(v.rbegin(), v.rend()); same(parlay::reverse(r), want, nm[form]); break;
    case 5: { want.assign(v.rbegin(), v.rend()); V w = v; parlay::reverse_inplace(w); same(w, want, nm[form]); parlay::sequence<int64_t> s(v.begin(), v.end()); parlay::reverse_inplace(s.cut(t / 2, t)); V x = v; std::reverse(x.begin() + (long)(t / 2), x.begin() + (long)t); same(s, x, "reverse_inplace of a slice"); break; }
    case 6: want = v; std::rotate(want.begin(), want.begin() + (long)t, want.end()); same(parlay::rotate(r, t), want, nm[form]); break;
    case 7: for (auto x : v) if (x != val) want.push_back(x); same(parlay::remove(parlay::make_slice(r), val), want, nm[form]); break;
    case 8: { auto z = parlay::zip(r, r2, v); size_t k = std::min(n, m); CHECK(z.size() == k, z.size(), k); for (size_t i = 0; i < k; i++) CHECK(std::get<0>(z[i]) == v[i] && std::get<1>(z[i]) == v2[i] && std::get<2>(z[i]) == v[i], i); break; }
    case 9: { auto io = parlay::iota(n); CHECK(io.size() == n); for (size_t i = 0; i < n; i++) want.push_back((int64_t)i); same(parlay::to_sequence(io), want, nm[form]); same(io, want, nm[form]); auto ii = parlay::iota<int>((int)n); same(parlay::to_sequence(ii), want, nm[form]); break; }
    case 10: for (auto x : v) if (x > val) want.push_back(x); same(parlay::remove_if(parlay::make_slice(r), [&](int64_t x) { return x <= val; }), want, nm[form]); break;
    case 11: { V out(n + 5, -7); parlay::copy(r, out); want = v; want.resize(n + 5, -7); same(out, want, nm[form]); break; }
  }
  if (form != 5) { vt::AnyRange<int64_t> r3(kind, v); for (size_t i = 0; i < n; i++) CHECK(r.at((long)i) == v[i], "input changed at", i); }
}
PBT_SUB(flatten, 3000, 30000, 20, F_NONE) {
  size_t k = g.len(600, {1, 2, 64}); unsigned form = (unsigned)g.below(5), shape = (unsigned)g.below(6);
  size_t mx = shape == 0 ? 0 : shape == 1 ? 1 : shape == 2 ? 8 : shape == 3 ? 100 : 3000; u64 s = g.seed(); Rng r(s); perturb(g);
  std::vector<size_t> len(k); for (auto& x : len) x = shape == 5 ? (r.below(20) ? 0 : r.below(3001)) : r.below(mx + 1);
  if (shape == 4 && k > 12) for (size_t i = 12; i < k; i++) len[i] = r.below(4);
  V want; std::vector<V> vv; int64_t c = 0; for (auto l : len) { V x(l); for (auto& y : x) y = c++; want.insert(want.end(), x.begin(), x.end()); vv.push_back(x); }
  g.desc << "form " << form << " outer " << k << " lengths " << show(len) << " total " << want.size(); g.ready(); g.mark(k > 1 && want.size() > 0); g.label("form" + std::to_string(form));
  switch (form) {
    case 0: same(parlay::flatten(vv), want, "flatten lvalue"); CHECK(vv.size() == k); for (size_t i = 0; i < k; i++) CHECK(vv[i].size() == len[i]); break;
    case 1: { auto ss = parlay::tabulate(k, [&](size_t i) { return parlay::sequence<int64_t>(vv[i].begin(), vv[i].end()); }); auto copy = ss; same(parlay::flatten(ss), want, "flatten lvalue sequence"); CHECK(ss == copy); same(parlay::flatten(std::move(ss)), want, "flatten rvalue"); CHECK(ss.size() == 0); break; }
    case 2: { auto d = parlay::delayed_tabulate(k, [&](size_t i) { return parlay::sequence<int64_t>(vv[i].begin(), vv[i].end()); }); same(parlay::flatten(d), want, "flatten of prvalues"); break; }
    case 3: { auto ss = parlay::tabulate(k, [&](size_t i) { return parlay::make_slice(vv[i]); }); same(parlay::flatten(ss), want, "flatten of slices"); break; }
    case 4: { std::vector<std::vector<std::string>> st; std::vector<std::string> ws; for (auto& x : vv) { st.emplace_back(); for (auto y : x) { st.back().push_back(std::to_string(y) + "...................."); ws.push_back(st.back().back()); } }
      auto ss = parlay::tabulate(k, [&](size_t i) { return parlay::sequence<std::string>(st[i].begin(), st[i].end()); });
      auto f1 = parlay::flatten(ss); auto f2 = parlay::flatten(std::move(ss)); CHECK(f1.size() == ws.size() && f2.size() == ws.size()); for (size_t i = 0; i < ws.size(); i++) CHECK(f1[i] == ws[i] && f2[i] == ws[i], i); break; }
  }
}
PBT_SUB(for_each, 3000, 30000, 20, F_NONE) {
  size_t n = g.len(30000, {1024, 2000}); unsigned kind = (unsigned)g.below(4); perturb(g);
  V in(n); for (size_t i = 0; i < n; i++) in[i] = (int64_t)i; vt::Visits vis(n);
  g.desc << "for_each " << n << " kind " << kind; g.ready(); g.mark(n > 1);
  parlay::for_each(vt::AnyRange<int64_t>(kind, in), [&](int64_t i) { vis.hit((size_t)i); jitter((u64)i); });
  vis.expect(1, "for_each");
  parlay::for_each(in, [&](int64_t& i) { vis.hit((size_t)i); i = -i; });
  vis.expect(2, "for_each"); for (size_t i = 0; i < n; i++) CHECK(in[i] == -(int64_t)i, "write through for_each lost at", i);
}
