#include "P18.h"
using namespace pbt;
#if PART == 1
PBT_SUB(tracked, 3000, 30000, 30, F_NONE) { gk::key_case<vt::Tracked, vt::Tracked>(g, g.thorough ? 60000 : 25000, false); }
#elif PART == 2
PBT_SUB(int64, 4000, 40000, 30, F_NONE) { gk::key_case<int64_t, uint64_t>(g, g.thorough ? 200000 : 40000, true); }
#elif PART == 3
PBT_SUB(uint32, 3000, 30000, 30, F_NONE) { gk::key_case<uint32_t, uint64_t>(g, g.thorough ? 200000 : 30000, true); }
#else
#include <unordered_map>
PBT_SUB(defaults, 2000, 20000, 30, F_NONE) {   // default hash and equality, string keys
  size_t n = g.len(g.thorough ? 60000 : 20000, {10000}); std::string sh; auto v = ints(g, n, 0, g.pick<int64_t>({0, 3, 100, 1000000}), &sh); bool rv = g.coin(); unsigned form = (unsigned)g.below(4);
  static const char* nm[] = {"group_by_key", "reduce_by_key", "histogram_by_key", "remove_duplicates"}; g.desc << nm[form] << " strings" << (rv ? "&&" : "") << " n=" << n << " " << sh << " " << show(v); g.ready(); g.mark(n > 1); g.label(nm[form]);
  auto key = [&](size_t i) { std::string s(v[i] % 3 == 0 ? 20 : 1, 'k'); return s + std::to_string(v[i]); }; std::unordered_map<std::string, std::vector<size_t>> ref; for (size_t i = 0; i < n; i++) ref[key(i)].push_back(i);
  auto chk = [&](auto const& r, auto getk, auto f) { CHECK(r.size() == ref.size(), r.size(), ref.size()); std::unordered_map<std::string, int> seen; for (auto const& x : r) { auto it = ref.find(getk(x)); CHECK(it != ref.end(), "unknown key", getk(x)); CHECK(seen[getk(x)]++ == 0, "twice", getk(x)); f(x, it->second); } };
  auto first = [](auto const& x) { return x.first; };
  if (form < 2) { auto s = parlay::tabulate(n, [&](size_t i) { return std::pair<std::string, std::string>(key(i), std::to_string(i) + "......................"); });
    if (form == 0) { auto f = [&](auto const& x, auto const& p) { std::vector<long> a; for (auto const& y : x.second) a.push_back(std::stol(y)); std::sort(a.begin(), a.end()); CHECK(a.size() == p.size(), a.size(), p.size()); for (size_t i = 0; i < a.size(); i++) CHECK(a[i] == (long)p[i]); }; if (rv) chk(parlay::group_by_key(std::move(s)), first, f); else chk(parlay::group_by_key(s), first, f); }
    else { auto m = parlay::make_monoid([](std::string const& a, std::string const& b) { return std::max(a, b); }, std::string()); auto f = [&](auto const& x, auto const& p) { std::string w; for (auto i : p) w = std::max(w, std::to_string(i) + "......................"); CHECK(x.second == w, x.second, w); }; if (rv) chk(parlay::reduce_by_key(std::move(s), m), first, f); else chk(parlay::reduce_by_key(s, m), first, f); } }
  else { auto s = parlay::tabulate(n, key); if (form == 2) { auto f = [&](auto const& x, auto const& p) { CHECK(x.second == p.size(), x.second, p.size()); }; if (rv) chk(parlay::histogram_by_key(std::move(s)), first, f); else chk(parlay::histogram_by_key(s), first, f); }
    else { auto f = [](auto const&, auto const&) {}; auto id = [](auto const& x) { return x; }; if (rv) chk(parlay::remove_duplicates(std::move(s)), id, f); else chk(parlay::remove_duplicates(s), id, f); } }
}
#endif
