// pack / filter family
#include "pbt.h"
#include "types.h"
#include <optional>
using namespace pbt;
using V = std::vector<int64_t>;
static void perturb(Gen& g) { set_jitter(g.seed(), (unsigned)g.pick({0u, 0u, 5u, 30u})); }
template <typename A> static void same(const A& a, const V& want, const char* w) {
  CHECK(a.size() == want.size(), w, a.size(), want.size());
  auto it = a.begin(); for (size_t i = 0; i < want.size(); i++) CHECK((int64_t)it[i] == want[i], w, "at", i, "of", want.size(), "got", (int64_t)it[i], "want", want[i]);
}
static const char* nm[] = {"pack", "pack_index", "filter", "remove_if", "map_maybe", "pack_into_uninitialized", "filter_into_uninitialized", "pack_index<int>", "pack vector<bool>", "unique", "pack_into", "filter_into"};
PBT_SUB(select, 14000, 140000, 20, F_NONE) {
  size_t n = g.len(g.thorough ? 300000 : 30000, {1024, 2048, 2000, 1000, 4096}); unsigned form = (unsigned)g.below(12), kind = (unsigned)g.below(5);
  auto fl = flags(g, n); perturb(g);
  V v(n), want, wi; for (size_t i = 0; i < n; i++) { v[i] = (int64_t)(i * 2 + 1); if (fl[i]) { want.push_back(v[i]); wi.push_back((int64_t)i); } }
  g.desc << nm[form] << " kind " << kind << " n=" << n << " kept " << want.size() << " " << show(fl); g.ready(); g.mark(n > 1 && !want.empty() && want.size() < n); g.label(nm[form]); g.label(n > 2048 ? "n>2048" : n > 1024 ? "n>1024" : "n<=1024");
  vt::AnyRange<int64_t> r(kind, v); vt::Visits vis(n);
  auto pred = [&](int64_t x) { size_t i = (size_t)(x / 2); vis.hit(i); jitter(i); return fl.at(i) != 0; };
  switch (form) {
    case 0: if (kind == 4) same(parlay::pack(parlay::delayed_tabulate(n, [&](size_t i) { return v[i]; }), parlay::delayed_tabulate(n, [&](size_t i) { return fl[i] != 0; })), want, nm[form]); else same(parlay::pack(r, vt::AnyRange<char>(kind + 1, fl)), want, nm[form]); break;
    case 1: same(parlay::pack_index(vt::AnyRange<char>(kind, fl)), wi, nm[form]); break;
    case 2: if (kind == 4) same(parlay::filter(parlay::delayed_tabulate(n, [&](size_t i) { return v[i]; }), pred), want, nm[form]); else same(parlay::filter(r, pred), want, nm[form]); for (size_t i = 0; i < n; i++) CHECK(vis.c[i] >= 1, "predicate not consulted at", i); break;
    case 3: same(parlay::remove_if(parlay::make_slice(v), [&](int64_t x) { return !pred(x); }), want, nm[form]); break;
    case 4: same(parlay::map_maybe(r, [&](int64_t x) -> std::optional<int64_t> { if (pred(x)) return std::make_optional(x); return std::nullopt; }), want, nm[form]); for (size_t i = 0; i < n; i++) CHECK(vis.c[i] >= 1, "function not consulted at", i); break;
    case 5: case 6: case 10: case 11: { V out(n + 3, -5); size_t k; 
      size_t room = g.coin() ? want.size() : n; 
      auto o = parlay::make_slice(out).cut(0, room);
      if (form == 5) k = parlay::pack_into_uninitialized(r, fl, o); else if (form == 10) k = parlay::pack_into(r, fl, o); else if (form == 6) k = parlay::filter_into_uninitialized(r, o, pred); else k = parlay::filter_into(r, o, pred);
      CHECK(k == want.size(), k, want.size()); for (size_t i = 0; i < k; i++) CHECK(out[i] == want[i], nm[form], i); for (size_t i = k; i < n + 3; i++) CHECK(out[i] == -5, nm[form], "wrote beyond its result at", i, "count", k); break; }
    case 7: same(parlay::pack_index<int>(fl), wi, nm[form]); break;
    case 8: { std::vector<bool> b(fl.begin(), fl.end()); same(parlay::pack(r, b), want, nm[form]); break; }
    case 9: { V w(n), uw; int64_t c = 0; for (size_t i = 0; i < n; i++) { if (i == 0 || fl[i]) c = (c + 1) % 7; w[i] = c; } for (size_t i = 0; i < n; i++) if (i == 0 || w[i] != w[i - 1]) uw.push_back(w[i]); same(parlay::unique(vt::AnyRange<int64_t>(kind, w)), uw, nm[form]); break; }
  }
  if (vis.outside) CHECK(false, "predicate called outside of the range");
}
// strings, whose copies the library must not lose
PBT_SUB(strings, 1500, 15000, 20, F_NONE) {
  size_t n = g.len(9000, {1024, 2048, 2000}); auto fl = flags(g, n); unsigned form = (unsigned)g.below(4);
  std::vector<std::string> v(n), want; for (size_t i = 0; i < n; i++) { v[i] = "item number " + std::to_string(i) + " of the list"; if (fl[i]) want.push_back(v[i]); }
  auto copy = v; g.desc << "strings form " << form << " n=" << n << " kept " << want.size(); g.ready(); g.mark(n > 1 && !want.empty()); perturb(g);
  auto idx = [&](const std::string& s) { jitter(s.size()); return fl[(size_t)atol(s.c_str() + 12)] != 0; };
  auto chk = [&](auto const& s) { CHECK(s.size() == want.size()); for (size_t i = 0; i < want.size(); i++) CHECK(s[i] == want[i], i); };
  switch (form) {
    case 0: chk(parlay::pack(v, fl)); break;
    case 1: chk(parlay::filter(v, idx)); break;
    case 2: { parlay::sequence<std::string> s(v.begin(), v.end()); chk(parlay::filter(s, idx)); for (size_t i = 0; i < n; i++) CHECK(s[i] == copy[i]); break; }
    case 3: chk(parlay::map_maybe(v, [&](const std::string& s) { return idx(s) ? std::make_optional(s) : std::optional<std::string>(); })); break;
  }
  CHECK(v == copy, "input changed");
}
// the partition routines used by the sorts
#ifndef VERIF_NO_INTERNAL
#include <parlay/internal/sequence_ops.h>
#endif
#ifndef VERIF_NO_INTERNAL
PBT_SUB(split, 3000, 30000, 20, F_NONE) {
  size_t n = g.len(20000, {1024, 2048, 4096}); bool three = g.coin(); Rng r(0); auto cls = ints(g, n, 0, three ? 2 : 1); perturb(g);
  V v(n), want; for (size_t i = 0; i < n; i++) v[i] = (int64_t)i; size_t cnt[3] = {0, 0, 0};
  for (int c = 0; c < 3; c++) for (size_t i = 0; i < n; i++) if (cls[i] == c) { want.push_back(v[i]); cnt[c]++; }
  g.desc << (three ? "split_three" : "split_two") << " n=" << n << " counts " << cnt[0] << "," << cnt[1] << "," << cnt[2]; g.ready(); g.mark(n > 1);
  parlay::sequence<int64_t> s(v.begin(), v.end());
  if (three) {
    parlay::sequence<unsigned char> f(n); for (size_t i = 0; i < n; i++) f[i] = (unsigned char)cls[i];
    parlay::sequence<int64_t> out(n, -1); auto [a, b] = parlay::internal::split_three<parlay::uninitialized_copy_tag>(parlay::make_slice(s), parlay::make_slice(out), f);
    CHECK(a == cnt[0] && b == cnt[1], a, b); same(out, want, "split_three");
  } else {
    parlay::sequence<bool> f(n); for (size_t i = 0; i < n; i++) f[i] = cls[i] == 1;
    auto [out, m] = parlay::internal::split_two(parlay::make_slice(s), f); CHECK(m == cnt[0], m, cnt[0]); same(out, want, "split_two");
  }
}
#endif
// flags and predicates of other types than bool: whatever converts to true keeps the element
struct Flag { short v; explicit Flag(short x = 0) : v(x) {} operator bool() const { return v != 0; } };
template <typename R> static R truthy(bool b, uint64_t s) { static const uint64_t t[] = {1, 2, 0xff, 3, 0x80, 1, 77, 0x7f}; if constexpr (std::is_same_v<R, double>) return b ? 0.25 * (double)t[s % 8] : 0.0; else return b ? R((std::conditional_t<std::is_same_v<R, Flag>, short, R>)(sizeof(R) > 2 && s % 3 == 0 ? t[s % 8] << 16 : t[s % 8])) : R(0); }
template <typename R> static void truth(Gen& g, const char* rn) {
  size_t n = g.len(30000, {1024, 2048, 2000, 1000, 4096}); unsigned form = (unsigned)g.below(5); auto fl = flags(g, n); uint64_t sd = g.seed(); perturb(g);
  V v(n), want, wi; for (size_t i = 0; i < n; i++) { v[i] = (int64_t)(i * 2 + 1); if (fl[i]) { want.push_back(v[i]); wi.push_back((int64_t)i); } }
  static const char* fn[] = {"pack", "pack_index", "pack_into_uninitialized", "filter", "pack_index<int>"};
  g.desc << fn[form] << " with flags of type " << rn << " n=" << n << " kept " << want.size() << " " << show(fl); g.ready(); g.mark(n > 1 && !want.empty() && want.size() < n); g.label(rn);
  std::vector<R> f(n); for (size_t i = 0; i < n; i++) f[i] = truthy<R>(fl[i], sd + i * 7);
  switch (form) {
    case 0: same(parlay::pack(v, f), want, fn[form]); break;
    case 1: same(parlay::pack_index(f), wi, fn[form]); break;
    case 2: { V out(n + 3, -5); size_t k = parlay::pack_into_uninitialized(v, f, parlay::make_slice(out).cut(0, n)); CHECK(k == want.size(), k, want.size()); for (size_t i = 0; i < n + 3; i++) CHECK(out[i] == (i < k ? want[i] : -5), i); break; }
    case 3: same(parlay::filter(v, [&](int64_t x) -> R { return f[(size_t)(x / 2)]; }), want, fn[form]); break;
    case 4: same(parlay::pack_index<int>(parlay::delayed_tabulate(n, [&](size_t i) -> R { return f[i]; })), wi, fn[form]); break;
  }
}
PBT_SUB(truth, 2500, 25000, 20, F_NONE) { switch (g.below(5)) { case 0: truth<int>(g, "int"); break; case 1: truth<unsigned char>(g, "unsigned char"); break; case 2: truth<uint64_t>(g, "uint64_t"); break; case 3: truth<double>(g, "double"); break; case 4: truth<Flag>(g, "a class with operator bool"); break; } }
