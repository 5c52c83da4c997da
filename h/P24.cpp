// hashtable: a set under phases of concurrent operations, with a layout that depends only on the contents.
#include "pbt.h"
#include <map>
#include <set>
#include <parlay/hash_table.h>
#include <parlay/primitives.h>
#ifndef PART
#define PART 0
#endif
using namespace pbt;
namespace {
struct Mode { int hash; u64 mod, sd; bool jit; };
inline Mode M; std::atomic<long> casfail{0};
u64 hk(u64 k) { switch (M.hash) { case 0: return mix(k ^ M.sd); case 1: return 0; case 2: return k; case 3: return M.mod; case 4: return mix(k) % 3 * (M.mod / 2) + k % 2; case 5: return M.mod - 1 - k % 4; default: return ~u64(0) - k; } }
template <typename E> bool do_cas(E* p, E o, E n) { if (M.jit) jitter((u64)(uintptr_t)p ^ 77); bool r = reinterpret_cast<std::atomic<E>*>(p)->compare_exchange_strong(o, n); if (!r) casfail++; return r; }
// (a) integer keys, (b) key and value packed in 64 bits: larger values win, update adds, (c) pointers to records ordered by their key downwards
struct IntH { using eType = int64_t; using kType = int64_t; eType empty() { return INT64_MIN; } kType getKey(eType v) { return v; } size_t hash(kType k) { if (M.jit) jitter((u64)k); return hk((u64)k); } int cmp(kType a, kType b) { return a > b ? 1 : a == b ? 0 : -1; } bool replaceQ(eType, eType) { return false; } eType update(eType v, eType) { return v; } bool cas(eType* p, eType o, eType n) { return do_cas(p, o, n); } };
struct alignas(8) KV { uint32_t k, v; friend bool operator==(KV a, KV b) { return a.k == b.k && a.v == b.v; } friend bool operator!=(KV a, KV b) { return !(a == b); } };
template <bool Add> struct KVH { using eType = KV; using kType = uint32_t; eType empty() { return {0xffffffffu, 0}; } kType getKey(eType v) { return v.k; } size_t hash(kType k) { if (M.jit) jitter(k); return hk(k); } int cmp(kType a, kType b) { return a < b ? 1 : a == b ? 0 : -1; } bool replaceQ(eType n, eType o) { return Add ? true : n.v > o.v; } eType update(eType o, eType n) { return {o.k, o.v + n.v}; } bool cas(eType* p, eType o, eType n) { return do_cas(p, o, n); } };
struct Rec { uint64_t key; int64_t val; };
struct PtrH { using eType = const Rec*; using kType = uint64_t; eType empty() { return nullptr; } kType getKey(eType v) { return v->key; } size_t hash(kType k) { if (M.jit) jitter(k); return hk(k); } int cmp(kType a, kType b) { u64 x = mix(a), y = mix(b); return x > y ? 1 : x == y ? 0 : -1; } bool replaceQ(eType n, eType o) { return n->val < o->val; } eType update(eType v, eType) { return v; } bool cas(eType* p, eType o, eType n) { return do_cas(p, o, n); } };

struct Sizes { size_t cap; double load; size_t m; size_t maxkeys; };
Sizes sizes(Gen& g, size_t lim) { Sizes s; s.cap = 1 + g.len(lim, {100}); s.load = g.pick({1.5, 1.5, 1.05, 2.0, 4.0, 1.0}); s.m = 100 + (size_t)(s.load * (double)s.cap); s.maxkeys = s.cap; return s; }
size_t hash_mode(Gen& g, size_t m) { M.hash = (int)g.weighted({50, 8, 10, 6, 10, 10, 6}); M.mod = m; M.sd = g.seed() | 1; return (size_t)M.hash; }

// One table against a map from key to entry. Entries are compared with what the replacement rule promises.
template <typename H, typename Make, typename Ref> void phases(Gen& g, const char* nm, size_t lim, bool updates, Make make, Ref combine) {
  using E = typename H::eType; using K = typename H::kType; Sizes s = sizes(g, lim); hash_mode(g, s.m); bool slow = M.hash == 1 || M.hash == 3 || M.hash == 5 || M.hash == 4; size_t maxkeys = std::min(s.maxkeys, slow ? (size_t)400 : lim); size_t universe = 1 + g.below(g.coin() ? 30 : 2 * maxkeys + 2); unsigned jit = g.pick({0u, 0u, 2u, 20u}); M.jit = false; long gran = g.pick<long>({1, 0, 5}); int nph = 1 + (int)g.below(7); H h;
  g.desc << nm << " capacity=" << s.cap << " load=" << s.load << " keys<" << universe << " hash " << M.hash << " workers=" << g.workers << ":"; g.label(nm); parlay::hashtable<H> t(s.cap, h, s.load); std::map<K, E> ref; size_t maxlive = 0; E none = h.empty();
  auto all = [&](const char* when) {
    CHECK(t.count() == ref.size(), when, "count", t.count(), ref.size()); auto en = t.entries(); CHECK(en.size() == ref.size(), when, "entries", en.size(), ref.size()); std::set<K> seen; for (auto const& e : en) { K k = h.getKey(e); auto it = ref.find(k); CHECK(it != ref.end(), when, "an entry that is not in the set", k); CHECK(seen.insert(k).second, when, "listed twice", k); CHECK(it->second == e, when, "wrong entry for", k); }
    parlay::hashtable<H> u(s.cap, h, s.load); for (auto& x : ref) u.insert(x.second); auto eu = u.entries(); CHECK(eu.size() == en.size()); for (size_t i = 0; i < en.size(); i++) CHECK(eu[i] == en[i], when, "listing depends on the history, position", i);
    auto ix = t.get_index(), ux = u.get_index(); CHECK(ix == ux, when, "index depends on the history"); CHECK(ix.size() == s.m, ix.size(), s.m); for (size_t i = 0; i + 1 < s.m; i++) CHECK(ix[i] <= ix[i + 1] && ix[i + 1] - ix[i] <= 1 && ix[i] <= en.size());
    for (size_t i = 0; i < en.size(); i++) { size_t p = t.findIndex(h.getKey(en[i])); CHECK(p < s.m && ix[p] == i, when, "findIndex", p, "listing position", i); } };
  g.mark(false);
  for (int ph = 0; ph < nph; ph++) {
    int kind = ph == 0 ? 0 : (int)g.weighted({40, 35, 25}); bool upd = kind == 0 && updates && g.coin(); size_t n = g.len(std::min<size_t>(2 * lim, 4000)); auto ks = ints(g, n, 0, (int64_t)universe - 1); u64 sd = g.seed(); bool seq = g.chance(20); g.desc << (kind == 0 ? upd ? " update" : " insert" : kind == 1 ? " delete" : " find") << (seq ? "-seq " : " ") << n; g.ready(); M.jit = jit && !seq; set_jitter(sd, jit);
    if (n > 1 && !seq) g.mark();
    auto loop = [&](size_t cnt, auto f) { if (seq) for (size_t i = 0; i < cnt; i++) f(i); else parlay::parallel_for(0, cnt, f, gran); };
    if (kind == 0) { std::vector<E> es; for (size_t i = 0; i < n; i++) { E e = make((u64)ks[i], sd + i); K k = h.getKey(e); if (!ref.count(k) && ref.size() >= maxkeys) continue; auto it = ref.find(k); bool had = it != ref.end(); if (had) it->second = combine(it->second, e, upd); else ref.emplace(k, e); es.push_back(e); }
      std::vector<char> r(es.size()); std::map<K, E> before; loop(es.size(), [&](size_t i) { r[i] = upd ? t.update(es[i]) : t.insert(es[i]); }); }
    else if (kind == 1) { loop(n, [&](size_t i) { t.deleteVal(h.getKey(make((u64)ks[i], sd))); }); for (size_t i = 0; i < n; i++) ref.erase(h.getKey(make((u64)ks[i], sd))); }
    else { loop(n, [&](size_t i) { K k = h.getKey(make((u64)ks[i], sd)); E e = t.find(k); auto it = ref.find(k); if (it == ref.end()) { SOFT(e == none, "found a key that is not in the set", k); SOFT(t.findIndex(k) == (size_t)-1, "findIndex of an absent key", k); } else SOFT(e == it->second, "find of a present key", k); }); }
    maxlive = std::max(maxlive, ref.size()); M.jit = false; all(kind == 0 ? "after inserts:" : kind == 1 ? "after deletes:" : "after finds:");
    for (u64 k = 0; k < std::min<size_t>(universe, 300); k++) { K kk = h.getKey(make(k, sd)); auto it = ref.find(kk); E e = t.find(kk); CHECK(e == (it == ref.end() ? none : it->second), "find", kk); }
  }
}
}
#if PART == 0
PBT_SUB(integers, 3000, 30000, 30, F_MANY) { phases<IntH>(g, "integers", g.thorough ? 20000 : 2000, false, [](u64 k, u64) { return (int64_t)k - 50; }, [](int64_t o, int64_t, bool) { return o; }); }
PBT_SUB(numeric, 2000, 20000, 30, F_MANY) {   // the supplied hash_numeric, all integer types
  auto one = [&](auto tag) { using T = decltype(tag); parlay::hash_numeric<T> h; size_t cap = 1 + g.len(3000); size_t n = g.len(cap); std::vector<T> ks; u64 sd = g.seed(); u64 mask = g.coin() ? 0xff : ~u64(0); std::set<T> ref; for (size_t i = 0; i < n; i++) { T k = (T)(mix(sd + i) & mask); if (k != h.empty()) { ks.push_back(k); ref.insert(k); } } g.desc << "hash_numeric<" << sizeof(T) << (std::is_signed_v<T> ? " signed" : " unsigned") << "> capacity " << cap << " keys " << ref.size() << " workers=" << g.workers; g.ready(); g.mark(ref.size() > 1); g.label(std::to_string(sizeof(T)));
    if (ref.size() > cap) g.discard(); parlay::hashtable<parlay::hash_numeric<T>> t(cap, h); std::vector<char> r(ks.size()); parlay::parallel_for(0, ks.size(), [&](size_t i) { r[i] = t.insert(ks[i]); }, 1); auto chk = [&](const char* w) { auto e = t.entries(); CHECK(e.size() == ref.size() && t.count() == ref.size(), w, e.size(), t.count(), ref.size()); CHECK((std::set<T>(e.begin(), e.end()) == ref), w); for (auto k : ks) CHECK(t.find(k) == (ref.count(k) ? k : h.empty()), w, +k); }; chk("insert");
    std::vector<T> del; for (auto k : ks) if (mix(sd ^ (u64)k) % 2) { del.push_back(k); ref.erase(k); } parlay::parallel_for(0, del.size(), [&](size_t i) { t.deleteVal(del[i]); }, 1); chk("delete"); parlay::parallel_for(0, ks.size(), [&](size_t i) { t.insert(ks[i]); }, 1); ref.insert(ks.begin(), ks.end()); chk("reinsert"); };
  M.jit = false; switch (g.below(7)) { case 0: one(int{}); break; case 1: one((unsigned)0); break; case 2: one((long)0); break; case 3: one((unsigned long)0); break; case 4: one((short)0); break; case 5: one((unsigned char)0); break; case 6: one((long long)0); break; }
}
#elif PART == 1
PBT_SUB(priority, 3000, 30000, 30, F_MANY) { phases<KVH<false>>(g, "largest value wins", g.thorough ? 20000 : 2000, false, [](u64 k, u64 r) { return KV{(uint32_t)k, (uint32_t)(mix(r) >> (mix(r + 1) % 2 ? 58 : 34))}; }, [](KV o, KV n, bool) { return n.v > o.v ? n : o; }); }
PBT_SUB(adding, 3000, 30000, 30, F_MANY) {   // only updates: values add up
  Sizes s = sizes(g, 1500); hash_mode(g, s.m); M.jit = false; size_t maxkeys = std::min<size_t>(s.maxkeys, M.hash == 0 ? 1500 : 300), universe = 1 + g.below(g.coin() ? 12 : maxkeys), n = g.len(4000); if (universe > maxkeys) universe = maxkeys; auto ks = ints(g, n, 0, (int64_t)universe - 1); u64 sd = g.seed(); unsigned jit = g.pick({0u, 2u, 20u}); KVH<true> h; g.desc << "adding updates n=" << n << " keys<" << universe << " m=" << s.m << " hash " << M.hash << " workers=" << g.workers; g.ready(); g.mark(n > universe); set_jitter(sd, jit); M.jit = jit > 0;
  parlay::hashtable<KVH<true>> t(s.cap, h, s.load); std::map<uint32_t, uint32_t> ref; for (size_t i = 0; i < n; i++) ref[(uint32_t)ks[i]] += (uint32_t)mix(sd + i) & 0xffff; parlay::parallel_for(0, n, [&](size_t i) { t.update(KV{(uint32_t)ks[i], (uint32_t)mix(sd + i) & 0xffff}); }, g.pick<long>({1, 0, 7})); M.jit = false;
  auto e = t.entries(); CHECK(e.size() == ref.size(), e.size(), ref.size()); for (auto x : e) { CHECK(ref.count(x.k), x.k); CHECK(ref[x.k] == x.v, "sum for", x.k, x.v, ref[x.k]); }
}
#else
PBT_SUB(pointers, 3000, 30000, 30, F_MANY) {
  static std::vector<Rec>* recs; std::vector<Rec> store(20 * 100 + 1); recs = &store; for (size_t i = 0; i < store.size(); i++) store[i] = {i / 20, (int64_t)(i % 20)};
  phases<PtrH>(g, "records, smallest value wins", 100, false, [](u64 k, u64 r) -> const Rec* { return &(*recs)[(k % 100) * 20 + mix(r) % 20]; }, [](const Rec* o, const Rec* n, bool) { return n->val < o->val ? n : o; });
}
#endif
