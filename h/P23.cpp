// Random numbers and shuffles.
#include "pbt.h"
#include "types.h"
#include <random>
#include <set>
#include <map>
#include <parlay/random.h>
using namespace pbt;
#ifndef PART
#define PART 0
#endif
namespace {
template <typename T> void shuffle_case(Gen& g, const char* ty, size_t lim) {
  size_t n = g.len(lim, {8192, 16384, 20000}); u64 sd = g.any64(), sd2 = g.any64(); int w = g.chance(90) ? 1 + (int)g.below(8) : g.pick<int>({12, 17, 33, 70}); unsigned layout = (unsigned)g.below(3); bool dflt = g.chance(10); g.desc << "random_shuffle of " << n << " " << ty << " seed " << sd << " layout " << layout; g.ready(); g.label(ty); g.mark(n > 1);
  std::vector<T> v; for (size_t i = 0; i < n; i++) v.push_back(vt::El<T>::make((int64_t)(i * 7), (int64_t)i)); parlay::random r = dflt ? parlay::random() : parlay::random(sd);
  auto tags = [&](auto const& s) { std::vector<int64_t> t; for (auto const& x : s) { t.push_back(vt::El<T>::tag(x)); CHECK(vt::El<T>::key(x) == vt::El<T>::tag(x) * 7, "element damaged"); } return t; };
  auto run = [&](unsigned lay, parlay::random q) { if (lay == 0) return tags(parlay::random_shuffle(v, q)); if (lay == 1) { std::deque<T> d(v.begin(), v.end()); return tags(parlay::random_shuffle(d, q)); } auto dl = parlay::delayed_tabulate(n, [&](size_t i) -> T { return v[i]; }); return tags(parlay::random_shuffle(dl, q)); };
  auto a = run(layout, r); CHECK(a.size() == n, a.size(), n); { std::vector<char> seen(n, 0); for (auto t : a) { CHECK(t >= 0 && t < (int64_t)n && !seen[(size_t)t], "not a permutation at", t); seen[(size_t)t] = 1; } }
  auto b = run((layout + 1) % 3, r); CHECK(a == b, "same seed, other layout"); std::vector<int64_t> c; parlay::execute_with_scheduler((unsigned)w, [&] { c = run(0, r); }); CHECK(a == c, "same seed, other number of workers"); if (dflt) { CHECK(tags(parlay::random_shuffle(v)) == a, "default seed"); }
  { auto t = tags(v); for (size_t i = 0; i < n; i++) CHECK(t[i] == (int64_t)i, "input changed"); }
  if (n >= 25 && sd != sd2 && !dflt) { auto d = run(0, parlay::random(sd2)); CHECK(d != a, "different seeds", sd, sd2, "same permutation"); }
  if (n >= 4000) {   // no place favoured: 10 standard deviations and more
    size_t up = 0, fix = 0; for (size_t i = 0; i < n; i++) { if (i) up += a[i] > a[i - 1]; fix += a[i] == (int64_t)i; } double z = ((double)up - (double)(n - 1) / 2) / std::sqrt((double)n / 12.0); CHECK(std::fabs(z) < 12, "ascents", up, "of", n); CHECK(fix < 60, "fixed points", fix);
    double cell[16][16] = {}; for (size_t i = 0; i < n; i++) cell[i * 16 / n][(size_t)a[i] * 16 / n]++; double x2 = 0, ex = (double)n / 256; for (auto& row : cell) for (double q : row) x2 += (q - ex) * (q - ex) / ex; CHECK(x2 < 225 + 15 * std::sqrt(450.0), "places not uniform, chi2", x2); double par = 0; for (size_t i = 0; i < n; i++) par += ((size_t)a[i] & 1) == (i & 1); CHECK(std::fabs(par - (double)n / 2) < 12 * std::sqrt((double)n) / 2, "parity"); }
}
template <typename I> void perm_case(Gen& g) { size_t mx = std::min<size_t>((size_t)std::numeric_limits<I>::max(), 40000); size_t n = g.chance(10) ? mx : g.len(mx, {8192}); u64 sd = g.any64(); g.desc << "random_permutation<" << sizeof(I) << (std::is_signed_v<I> ? "s" : "u") << ">(" << n << ") seed " << sd; g.ready(); g.mark(n > 1); auto p = parlay::random_permutation<I>((I)n, parlay::random(sd)); static_assert(std::is_same_v<decltype(p), parlay::sequence<I>>); CHECK(p.size() == n, p.size()); std::vector<char> seen(n, 0); for (auto x : p) { CHECK((size_t)x < n && !seen[(size_t)x], +x); seen[(size_t)x] = 1; } CHECK(p == parlay::random_permutation<I>((I)n, parlay::random(sd))); }
}
#if PART == 0
PBT_SUB(shuffle_plain, 4000, 30000, 30, F_NONE) { switch (g.below(3)) { case 0: shuffle_case<vt::Small>(g, "8-byte", g.thorough ? 400000 : 40000); break; case 1: shuffle_case<vt::Big>(g, "64-byte", 30000); break; default: shuffle_case<vt::Tracked>(g, "lifetime-tracked", 20000); } }
PBT_SUB(permutation, 3000, 30000, 30, F_NONE) { switch (g.below(7)) { case 0: perm_case<int>(g); break; case 1: perm_case<unsigned>(g); break; case 2: perm_case<long>(g); break; case 3: perm_case<size_t>(g); break; case 4: perm_case<short>(g); break; case 5: perm_case<unsigned char>(g); break; case 6: perm_case<signed char>(g); break; } }
PBT_SUB(uniform, 400, 4000, 60, F_NONE) {   // every permutation of a few elements, every place of a larger range, over many seeds
  bool seqseeds = g.coin(); u64 sd = seqseeds ? g.below(1000000) : g.seed(); size_t n = g.coin() ? 2 + g.below(4) : 6 + g.below(60); size_t R = 6000; g.desc << "uniformity of shuffling " << n << " over " << R << (seqseeds ? " consecutive" : " random") << " seeds"; g.ready(); g.mark(); auto v = parlay::tabulate(n, [](size_t i) { return (int)i; });
  std::map<std::vector<int>, double> perms; std::vector<std::vector<double>> place(n, std::vector<double>(n, 0)); double f = 1; for (size_t i = 2; i <= n && i < 6; i++) f *= (double)i; bool gen = g.coin(); auto rg = parlay::random(sd);
  for (size_t k = 0; k < R; k++) { auto p = parlay::random_shuffle(v, gen ? rg.fork(k) : parlay::random(seqseeds ? sd + k : mix(sd + k))); for (size_t i = 0; i < n; i++) place[i][(size_t)p[i]]++; if (n < 6) perms[std::vector<int>(p.begin(), p.end())]++; }
  if (n < 6) { CHECK((double)perms.size() == f, "permutations that occur", perms.size(), "of", f); double ex = (double)R / f, x2 = 0; for (auto& x : perms) x2 += (x.second - ex) * (x.second - ex) / ex; CHECK(x2 < (f - 1) + 14 * std::sqrt(2 * (f - 1)) + 40, "chi2 of permutations", x2); }
  double ex = (double)R / (double)n, x2 = 0; for (auto& row : place) for (double q : row) x2 += (q - ex) * (q - ex) / ex; double dof = (double)((n - 1) * (n - 1)); CHECK(x2 < dof + 14 * std::sqrt(2 * dof) + 40, "chi2 of places", x2, "dof", dof);
}
#else
PBT_SUB(generator, 6000, 60000, 20, F_NONE) {
  u64 sd = g.any64(); size_t k = 1 + g.below(50); std::vector<u64> idx; for (int i = 0; i < 12; i++) idx.push_back(i < 4 ? (u64)i : g.any64()); std::sort(idx.begin(), idx.end()); idx.erase(std::unique(idx.begin(), idx.end()), idx.end()); g.desc << "random_generator and random, seed " << sd; g.ready(); g.mark();
  parlay::random_generator a(sd), b(sd), d; CHECK(d() == parlay::random_generator(0)()); std::vector<u64> s; for (size_t i = 0; i < k; i++) s.push_back(a()); auto cp = b; for (size_t i = 0; i < k; i++) { CHECK(b() == s[i], i); } for (size_t i = 0; i < k; i++) CHECK(cp() == s[i], "copy", i); a.seed(sd); for (size_t i = 0; i < k; i++) CHECK(a() == s[i], "after seed()"); a.seed(); CHECK(a() == parlay::random_generator()()); { std::set<u64> u(s.begin(), s.end()); CHECK(u.size() == s.size(), "the stream repeats within", k); }
  const parlay::random_generator c(sd); std::vector<std::vector<u64>> st(idx.size()); for (size_t i = 0; i < idx.size(); i++) { auto h = c[idx[i]]; for (int j = 0; j < 6; j++) st[i].push_back(h()); } std::vector<std::vector<u64>> pt(idx.size()); parlay::parallel_for(0, idx.size(), [&](size_t i) { auto h = c[idx[i]]; for (int j = 0; j < 6; j++) pt[i].push_back(h()); }, 1); CHECK(st == pt, "streams depend on who asks"); { std::set<std::vector<u64>> u(st.begin(), st.end()); CHECK(u.size() == st.size(), "two indices give one stream"); std::set<u64> f; for (auto& x : st) f.insert(x[0]); CHECK(f.size() == st.size(), "two indices start alike"); }
  const parlay::random r(sd); std::set<u64> outs, forks; for (u64 i : idx) { CHECK(r[i] == r.ith_rand(i)); CHECK(r[i] == parlay::random(sd)[i]); outs.insert(r[i]); CHECK(r.fork(i)[3] == parlay::random(sd).fork(i)[3]); forks.insert(r.fork(i)[0]); CHECK(r.fork(i)[0] != r[i] || r.fork(i)[1] != r[i + 1], "a fork repeats its parent", i); } CHECK(outs.size() == idx.size(), "ith_rand repeats"); CHECK(forks.size() == idx.size(), "forks repeat"); CHECK(r.next()[1] == r.fork(0)[1]); parlay::random q(sd); CHECK(q.rand() == r[0]);
}
PBT_SUB(distributions, 3000, 30000, 20, F_NONE) {
  u64 sd = g.any64(); int64_t lo = (int64_t)g.any64(), hi = (int64_t)g.any64(); if (lo > hi) std::swap(lo, hi); size_t k = 64; g.desc << "distributions over [" << lo << "," << hi << "] seed " << sd; g.ready(); g.mark(); parlay::random_generator gen(sd); static_assert(parlay::random_generator::min() == 0 && parlay::random_generator::max() == ~size_t(0));
  std::uniform_int_distribution<int64_t> d(lo, hi); std::uniform_int_distribution<int> coin(0, 1); std::uniform_real_distribution<double> u(0, 1), w(-5, 5); std::bernoulli_distribution be(0.3); std::uniform_int_distribution<unsigned short> sm(3, 9); auto a = parlay::tabulate(k, [&](size_t i) { auto r = gen[i]; return std::make_tuple(d(r), coin(r), u(r), w(r), be(r), sm(r)); }); for (auto& x : a) { CHECK(std::get<0>(x) >= lo && std::get<0>(x) <= hi); CHECK(std::get<1>(x) == 0 || std::get<1>(x) == 1); CHECK(std::get<2>(x) >= 0 && std::get<2>(x) < 1); CHECK(std::get<3>(x) >= -5 && std::get<3>(x) <= 5); CHECK(std::get<5>(x) >= 3 && std::get<5>(x) <= 9); }
  auto b = parlay::tabulate(k, [&](size_t i) { auto r = gen[i]; return std::make_tuple(d(r), coin(r), u(r), w(r), be(r), sm(r)); }); CHECK(a == b, "not reproducible");
}
PBT_SUB(bits, 600, 6000, 40, F_NONE) {   // each bit of the stream, of indexed streams and of forks is fair and independent of its neighbour
  u64 sd = g.any64(), stride = g.pick<u64>({1, 1, 2, 64, 1 << 20, 0x100000000ull}); int form = (int)g.below(4); size_t R = 20000; g.desc << "bit balance, form " << form << " seed " << sd << " stride " << stride; g.ready(); g.mark(); double one[64] = {}, same[64] = {}; u64 prev = 0; parlay::random_generator gen(sd); parlay::random r(sd);
  for (size_t i = 0; i < R; i++) { u64 x = 0; switch (form) { case 0: x = gen(); break; case 1: x = parlay::random_generator(sd)[i * stride](); break; case 2: x = r[i * stride]; break; case 3: x = r.fork(i * stride)[0]; break; } for (int b = 0; b < 64; b++) { one[b] += (x >> b) & 1; if (i) same[b] += ((x ^ prev) >> b) & 1; } prev = x; }
  double sdv = std::sqrt((double)R) / 2; for (int b = 0; b < 64; b++) { CHECK(std::fabs(one[b] - (double)R / 2) < 14 * sdv, "bit", b, "set", one[b], "of", R); CHECK(std::fabs(same[b] - (double)(R - 1) / 2) < 14 * sdv, "bit", b, "flips", same[b], "of", R); }
}
#endif
