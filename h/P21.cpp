#include "dl.h"
using namespace dl;
namespace {
template <int Part> void pipe_case(Gen& g) {
  int which = Part + NPARTS * (int)g.below(NPIPES / NPARTS); Data x; fill(g, x, g.thorough ? 60000 : 12000); Data* xs[2] = {&x, &x}; unsigned term = (unsigned)g.below(7);
  static const char* tn[] = {"to_sequence", "to_sequence<double>", "reduce", "reduce plus", "for_each", "iterate", "apply to sum twice"};
  set_jitter(g.seed(), (unsigned)g.pick({0u, 0u, 1u}));
  pipes<Part>(which, xs, [&](const char* name, auto mk, auto model) {
    g.desc << tn[term] << " of " << name << " " << describe(x); g.ready();
    Vec want = model(0); g.mark(want.size() > 0); g.label(name); g.label(want.size() > 2000 ? "several blocks" : want.empty() ? "empty" : "one block");
    auto v = mk(0);
    CHECK(parlay::size(v) == want.size(), name, "size", parlay::size(v), want.size());
    switch (term) {
      case 0: SAME(vec(d::to_sequence(v)), want); break;
      case 1: { auto s = d::to_sequence<double>(v); CHECK(s.size() == want.size()); for (size_t i = 0; i < want.size(); i++) CHECK(s[i] == (double)want[i], name, "element", i); break; }
      case 2: { I r = d::reduce(d::map(v, Enc{}), AffOp{}, affid); I w = mtotal(mmap(want, Enc{})); CHECK(r == w, name, "reduce", r, w); break; }
      case 3: { u64 w = 0; for (auto y : want) w += (u64)y; u64 r = (u64)d::reduce(d::map(v, [](I y) { return (u64)y; })); CHECK(r == w, name, "sum", r, w); break; }
      case 4: { std::atomic<u64> h{0}, c{0}; d::for_each(v, [&](I y) { h += mix((u64)y); c++; }); u64 w = 0; for (auto y : want) w += mix((u64)y); CHECK(c == want.size(), name, "for_each visited", c.load(), "elements, expected", want.size()); CHECK(h == w, name, "for_each visited other elements"); break; }
      case 5: SAME(walk(v), want, "iterating"); break;
      case 6: { vt::Visits vis(want.size()); d::apply(d::zip(v, d::iota(want.size())), [&](auto&& t) { size_t i = (size_t)std::get<1>(t); vis.hit(i); if (i < want.size()) SOFT((I)std::get<0>(t) == want[i], name, "element", i); }); vis.expect(1, name); break; }
    }
    for (size_t i = 0; i < x.n; i++) CHECK(x.s[i] == x.a[i], name, "changed its input at", i);
  });
}
}
#define P_(K) PBT_SUB(pipes##K, 1500, 15000, 30, F_NONE) { pipe_case<K>(g); }
#if PART == 0
P_(0)
PBT_SUB(totals, 3000, 30000, 30, F_NONE) {    // the totals returned next to a scan
  Data x; fill(g, x, g.thorough ? 60000 : 12000); unsigned form = (unsigned)g.below(4); static const char* nm[] = {"scan(tab)", "scan(filter(seq&))", "scan(map_maybe(seq&))", "scan(seq&, monoid)"}; g.desc << "total of " << nm[form] << " " << describe(x); g.ready(); g.mark(x.n > 0); g.label(nm[form]);
  const char* name = nm[form];
  auto chk = [&](auto&& r, Vec w, auto add, I id) { Vec s; I a = id; for (auto y : w) { s.push_back(a); a = add(a, y); } CHECK(r.second == a, name, "total", r.second, a); SAME(vec(d::to_sequence(r.first)), s); };
  auto pl = [](I a, I b) { return a + b; };
  if (form == 0) chk(d::scan(tabenc(x), AffOp{}, affid), mmap(x.a, Enc{}), AffOp{}, affid); else if (form == 1) chk(d::scan(d::filter(x.s, x.p)), mfilter(x.a, x.p), pl, 0); else if (form == 2) chk(d::scan(d::map(d::map_maybe(x.s, x.mb), Enc{}), AffOp{}, affid), mmap(mmaybe(x.a, x.mb), Enc{}), AffOp{}, affid); else chk(d::scan(x.s, parlay::maximum<I>()), x.a, [](I a, I b) { return std::max(a, b); }, std::numeric_limits<I>::lowest());
}
#elif PART == 1
P_(1)
PBT_SUB(references, 2000, 20000, 30, F_NONE) {   // views of lvalues give references: writing through them changes exactly those elements
  Data x; fill(g, x, g.thorough ? 60000 : 12000); unsigned form = (unsigned)g.below(4); static const char* nm[] = {"for_each(filter(seq&))", "for_each(flatten(nest&))", "for_each(zip(seq&,iota))", "for_each(filter(flatten(nest&)))"}; g.desc << nm[form] << " writes " << describe(x); g.ready(); g.mark(x.n > 0); g.label(nm[form]);
  auto wr = [](I y) { return -y - 1; };
  if (form == 0) { auto v = d::filter(x.s, x.p); d::for_each(v, [&](I& y) { y = wr(y); }); for (size_t i = 0; i < x.n; i++) CHECK(x.s[i] == (x.p(x.a[i]) ? wr(x.a[i]) : x.a[i]), i, x.s[i], x.a[i]); }
  else if (form == 1) { auto v = d::flatten(x.nest); d::for_each(v, [&](I& y) { y = wr(y); }); size_t k = 0; for (auto& s : x.nest) for (auto y : s) { CHECK(y == wr(x.flat[k]), k); k++; } }
  else if (form == 2) { auto v = d::zip(x.s, d::iota(x.n)); d::for_each(v, [&](auto&& t) { std::get<0>(t) += (I)std::get<1>(t) + 1; }); for (size_t i = 0; i < x.n; i++) CHECK(x.s[i] == x.a[i] + (I)i + 1, i); }
  else { auto v = d::filter(d::flatten(x.nest), x.p); d::for_each(v, [&](I& y) { y = wr(y); }); size_t k = 0; for (auto& s : x.nest) for (auto y : s) { CHECK(y == (x.p(x.flat[k]) ? wr(x.flat[k]) : x.flat[k]), k); k++; } }
}
#elif PART == 2
P_(2)
#elif PART == 3
P_(3)
#elif PART == 4
P_(4)
#elif PART == 5
P_(5)
#elif PART == 6
P_(6)
#else
P_(7)
#endif
