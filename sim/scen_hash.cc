// C31: the hash table, with memory that runs out, storage that is limited and
// an owner that refuses growth or replacement.
#include "core.h"
#include <algorithm>
#include <set>
#include <memory>
#include <cstring>
extern "C" {
#include <stdbool.h>
#include "evfs/util/dhash.h"
}
using namespace sim;
namespace {
struct Bytes { char *p; size_t n; explicit Bytes(size_t n_) : p((char *)::operator new(n_ ? n_ : 1)), n(n_) {} ~Bytes() { ::operator delete(p); } Bytes(const Bytes &) = delete; };
using BytesP = std::shared_ptr<Bytes>; // exactly sized: any access beyond is caught
BytesP bytes(const std::string &s) { auto b = std::make_shared<Bytes>(s.size()); memcpy(b->p, s.data(), s.size()); return b; }
enum { K_STR, K_NOCASE, K_INT, K_CLASH };
struct Run;
Run *g_run;
struct Item { std::string val; dhKey key; BytesP mem; };
dhIKey few_hashes(dhKey k) { dhIKey h = 0; for(size_t i = 0; i < k.length; i++) h += ((const unsigned char *)k.data)[i]; return h % 3 == 2 ? 0xFFFFFFFFu : h % 3; }
bool equal_nocase(dhKey a, dhKey b, void *ctx);
bool equal_bytes(dhKey a, dhKey b, void *ctx);
void destroy(dhKey k, void *v, void *ctx); bool replace(dhKey k, void *o, void *n, void *ctx); bool grow(size_t max, void *ctx);
struct Run {
  dhash h; unsigned kind; size_t vs; std::map<std::string, Item> m; uint64_t serial = 0; bool refuse_grow = false, refuse_replace = false, hooks = false, limited = false, fixed = false;
  struct Gone { dhKey key; std::string val; }; std::vector<Gone> gone; unsigned grow_calls = 0; size_t grow_to = 0; bool refused = false; std::string new_seen; std::vector<BytesP> keep;
  std::string canon(const std::string &s) { if(kind != K_NOCASE) return s; std::string o = s; for(auto &c : o) c = (char)toupper((unsigned char)c); return o; }
  std::string name() { unsigned n = choose(3) ? 40 : 400; uint32_t i = choose(n);
    if(kind == K_INT) return strf("%u", choose(5) ? i : i * 65537u);
    std::string s = choose(4) ? strf("key%u", i) : strf("%u/a longer key of number %u/", i % 7, i); if(choose(50) == 0) s = ""; if(kind == K_NOCASE) for(auto &c : s) if(choose(2)) c = (char)toupper((unsigned char)c); return s; }
  dhKey key(const std::string &s, BytesP &mem) { dhKey k; if(kind == K_INT) { k.data = (const void *)(uintptr_t)strtoul(s.c_str(), nullptr, 10); k.length = 4; mem = nullptr; } else { mem = bytes(s); k.data = mem->p; k.length = s.size(); } return k; }
  std::string value() { std::string v(vs, 0); uint64_t x = ++serial * 0x9E3779B97F4A7C15ull; for(size_t i = 0; i < vs; i++) { v[i] = (char)(x >> (8 * (i % 8))); if(i % 8 == 7) x = x * 6364136223846793005ull + 1; } return v; }
  std::string show(const std::string &k) { return "'" + k.substr(0, 30) + "'"; }
  bool trouble() { return refused || limited || fixed; }
  void check_key(const std::string &s) {
    BytesP km; dhKey k = key(s, km); auto it = m.find(canon(s)); Bytes out(vs); memset(out.p, '#', vs); bool in_place = choose(2), got; void *v = nullptr;
    if(in_place) { bool null = choose(8) == 0; char odd; v = &odd; got = dh_lookup_in_place(&h, k, null ? nullptr : &v); if(null) v = nullptr; else CHECKV(v != &odd, "no-pointer", "a look-up of %s leaves the caller's pointer as it was", show(s).c_str()); } else got = dh_lookup(&h, k, choose(8) ? (v = out.p) : nullptr);
    CHECKV(got == (it != m.end()), got ? "ghost" : "lost", "the key %s is %s", show(s).c_str(), got ? "found, it was not stored or was removed" : "not found, it was stored");
    if(got && v) CHECKV(!memcmp(v, it->second.val.data(), vs), "wrong-value", "the key %s delivers another value than the one last stored", show(s).c_str());
    if(!got && in_place) CHECKV(!v, "ghost", "a missing key delivers a value"); }
  void check_all() {
    CHECKV(dh_num_items(&h) == m.size(), "count", "the table counts %zu entries, %zu are stored", dh_num_items(&h), m.size());
    for(auto &x : m) check_key(x.first);
    std::set<std::string> seen; auto visit = [&](dhKey k, void *v, const char *how) {
      std::string s = kind == K_INT ? strf("%lu", (unsigned long)(uintptr_t)k.data) : std::string((const char *)k.data, k.length); auto it = m.find(canon(s)); CHECKV(it != m.end(), "ghost", "%s delivers %s, which is not stored", how, show(s).c_str());
      CHECKV(seen.insert(canon(s)).second, "twice", "%s delivers %s twice", how, show(s).c_str()); CHECKV(!memcmp(v, it->second.val.data(), vs), "wrong-value", "%s delivers another value for %s", how, show(s).c_str()); };
    dhIter i; dhKey k; void *v; dh_iter_init(&h, &i); while(dh_iter_next(&i, &k, &v)) visit(k, v, "the iterator"); CHECKV(seen.size() == m.size(), "iteration", "the iterator delivers %zu of %zu entries", seen.size(), m.size());
    CHECKV(!dh_iter_next(&i, &k, &v), "iteration", "an iterator that ended goes on");
    struct V { decltype(visit) *f; size_t left; } c{&visit, choose(4) ? m.size() + 1 : range(1, (uint32_t)m.size() + 1)}; size_t want = std::min(c.left, m.size()); seen.clear();
    dh_foreach(&h, [](dhKey k, void *v, void *ctx) -> bool { V *c = (V *)ctx; (*c->f)(k, v, "the visitor"); return --c->left > 0; }, &c); CHECKV(seen.size() == want, "iteration", "the visitor is called for %zu entries, expected %zu", seen.size(), want);
    if(choose(60) == 0) { struct D { Run *r; size_t n; } d{this, 0}; dh_dump(&h, [](dhKey, void *, void *ctx) -> bool { ((D *)ctx)->n++; return true; }, &d); CHECKV(d.n == m.size(), "iteration", "a dump visits %zu of %zu entries", d.n, m.size()); }
    int lf = dh_load_factor(&h); CHECKV(lf >= 0 && lf <= 100 && (lf > 0 || m.size() * 100 < (size_t)h.num_buckets), "load", "the load factor is %d with %zu entries", lf, m.size());
    int mean = dh_mean_probe_count(&h), mx = dh_max_probe_count(&h); CHECKV(m.empty() ? mean == 0 : (mean >= 100 && mean <= mx * 100 + 50), "probes", "mean probe count %d, highest %d", mean, mx); }
  void expect_gone(const char *what, const Item *it) { // exactly this one, or none
    if(!it) { CHECKV(gone.empty(), "destroyed", "%s destroys %zu values that stay stored or are handed out", what, gone.size()); return; }
    CHECKV(gone.size() == 1, "destroyed", "%s destroys %zu values, expected one", what, gone.size());
    CHECKV(gone[0].val == it->val, "destroyed", "%s destroys a value that was not stored", what); CHECKV(gone[0].key.data == it->key.data && gone[0].key.length == it->key.length, "destroyed-key", "%s destroys a value under another key than it was stored with", what); gone.clear(); }
  bool arm() { refused = false; refuse_grow = hooks && choose(6) == 0; refuse_replace = hooks && choose(4) == 0; if(choose(3) == 0) alloc_fault_next(1, choose(3)); return true; }
  bool calm(uint64_t f0) { alloc_faults_off(); refuse_grow = false; return alloc_faults_fired() != f0; }
  void insert(const std::string &s, bool must = false) {
    BytesP km; dhKey k = key(s, km); std::string v = value(); BytesP vb = bytes(v); auto it = m.find(canon(s)); bool had = it != m.end(); size_t cap = dh_cur_capacity(&h), items = dh_num_items(&h); uint64_t f0 = alloc_faults_fired(); new_seen.clear();
    if(!must) arm();
    else { refused = refuse_grow = refuse_replace = false; alloc_fault_next(1, 1000); }
    bool ok = dh_insert(&h, k, vb->p); bool hit = calm(f0); bool rr = had && refuse_replace; refuse_replace = false; ev("insert %s %d of %zu/%zu", s.c_str(), ok, items, cap);
    CHECKV(!memcmp(vb->p, v.data(), vs), "argument-changed", "storing %s changes the value object of the caller", show(s).c_str());
    if(!ok) { CHECKV(rr || items >= cap, "needless-failure", "storing %s fails with %zu of %zu places taken", show(s).c_str(), items, cap); CHECKV(rr || hit || trouble(), "failure", "storing %s fails although memory is available", show(s).c_str()); CHECKV(!must, "reserved-failure", "storing fails in reserved space"); expect_gone("a failed insertion", nullptr); if(hit) { PROBE("insert_no_memory"); nontrivial(); } if(rr) PROBE("replace_refused"); if(fixed || limited) { PROBE("table_full"); nontrivial(); } return; }
    if(had) { CHECKV(!rr, "refusal-ignored", "a value is replaced although the owner refused"); if(hooks) CHECKV(new_seen == v, "replace-args", "the owner is asked about another new value"); expect_gone("a replacement", &it->second); PROBE("replaced"); } else expect_gone("an insertion", nullptr);
    m[canon(s)] = Item{v, k, km}; }
  void remove(const std::string &s) {
    BytesP km; dhKey k = key(s, km); auto it = m.find(canon(s)); Bytes out(vs); bool take = choose(2); bool ok = dh_remove(&h, k, take ? out.p : nullptr); ev("remove %s %d", s.c_str(), ok);
    CHECKV(ok == (it != m.end()), ok ? "ghost" : "lost", "removing %s %s", show(s).c_str(), ok ? "succeeds, it was not stored" : "fails, it is stored"); if(!ok) { expect_gone("a failed removal", nullptr); return; }
    if(take) { CHECKV(!memcmp(out.p, it->second.val.data(), vs), "wrong-value", "removing %s hands out another value", show(s).c_str()); expect_gone("a removal that hands out the value", nullptr); } else expect_gone("a removal", &it->second);
    m.erase(it); PROBE("removed"); check_key(s); }
  void reserve() {
    size_t n = choose(3) ? range(0, 60) : range(0, 1500); if(limited && choose(4) == 0) { n = oneof<size_t>({SIZE_MAX, SIZE_MAX / 128 + 1, (size_t)1 << 33, (size_t)1 << 32, (size_t)1 << 31, SIZE_MAX - 3}); PROBE("absurd_reservation"); }
    uint64_t f0 = alloc_faults_fired(); arm(); bool ok = dh_reserve_capacity(&h, n); bool hit = calm(f0); refuse_replace = false; ev("reserve %zu %d", n, ok);
    if(!ok) { CHECKV(hit || trouble(), "failure", "reserving %zu places fails although memory is available", n); if(hit) { PROBE("reserve_no_memory"); nontrivial(); } check_all(); return; }
    expect_gone("a reservation", nullptr); CHECKV(dh_cur_capacity(&h) >= m.size() && dh_cur_capacity(&h) - m.size() >= n, "reserved-short", "after reserving %zu places a table of %zu entries has room for %zu in all", n, m.size(), dh_cur_capacity(&h));
    if(n && n < 80 && choose(2)) { for(size_t i = 0; i < n; i++) insert(kind == K_INT ? strf("%u", 900000u + (unsigned)++serial) : strf("RES%u", (unsigned)++serial), true); PROBE("reservation_used"); } }
};
bool equal_nocase(dhKey a, dhKey b, void *ctx) { CHECKV(ctx == g_run, "context", "a callback gets another context"); return a.length == b.length && g_run->canon(std::string((const char *)a.data, a.length)) == g_run->canon(std::string((const char *)b.data, b.length)); }
bool equal_bytes(dhKey a, dhKey b, void *ctx) { CHECKV(ctx == g_run, "context", "a callback gets another context"); CHECKV(a.data && b.data, "no-key", "keys are compared with the key of a removed entry"); return a.length == b.length && !memcmp(a.data, b.data, a.length); }
void destroy(dhKey k, void *v, void *ctx) { CHECKV(ctx == g_run, "context", "a callback gets another context"); g_run->gone.push_back({k, std::string((char *)v, g_run->vs)}); }
bool replace(dhKey, void *, void *n, void *ctx) { CHECKV(ctx == g_run, "context", "a callback gets another context"); g_run->new_seen.assign((char *)n, g_run->vs); return !g_run->refuse_replace; }
bool grow(size_t max, void *ctx) { CHECKV(ctx == g_run, "context", "a callback gets another context"); g_run->grow_calls++; g_run->grow_to = max; if(g_run->refuse_grow) { g_run->refused = true; FAULT("refused_growth"); return false; } return true; }

void c31() {
  Run r; g_run = &r; r.kind = choose(4); r.vs = oneof<size_t>({8, 8, 16, 24, 40, 4, 1, 6, 12, 0}); r.hooks = choose(2);
  uint64_t a0 = allocs_live(); std::unique_ptr<Bytes> ext; dhConfig c; memset(&c, 0, sizeof c); c.init_buckets = oneof<size_t>({0, 1, range(1, 40), range(1, 600)}); c.value_size = r.vs;
  c.destroy_item = destroy; c.gen_hash = r.kind == K_STR ? dh_gen_hash_string : r.kind == K_NOCASE ? dh_gen_hash_string_no_case : r.kind == K_INT ? dh_gen_hash_int : few_hashes; c.is_equal = r.kind == K_STR ? dh_equal_hash_keys_string : r.kind == K_NOCASE ? equal_nocase : r.kind == K_INT ? dh_equal_hash_keys_int : equal_bytes;
  if(r.hooks) { c.replace_item = replace; c.grow_hash = grow; }
  switch(choose(4)) { case 0: r.limited = true; c.max_storage = choose(4) ? range(400, 12000) : range(1, 400); break; case 1: r.fixed = true; c.max_storage = choose(4) ? range(300, 9000) : range(1, 400); ext.reset(new Bytes(c.max_storage)); c.ext_storage = ext->p; break; default: break; }
  if(choose(12) == 0) { dhConfig x = c; switch(choose(3)) { case 0: x.destroy_item = nullptr; break; case 1: x.gen_hash = nullptr; break; default: x.is_equal = nullptr; } CHECKV(!dh_init(&r.h, &x, &r), "init", "a table without a needed callback is set up"); }
  memset(&r.h, 0xA5, sizeof r.h); uint64_t f0 = alloc_faults_fired(); if(choose(8) == 0) alloc_fault_next(1, 0); r.refuse_grow = r.hooks && choose(10) == 0;
  bool ok = dh_init(&r.h, &c, &r); bool hit = r.calm(f0); ev("init %d", ok);
  if(!ok) { CHECKV(hit || r.trouble(), "failure", "a table can't be set up although memory is available"); CHECKV(allocs_live() == a0, "leak", "setting up a table fails and leaves memory behind"); PROBE("init_failed"); return; }
  if(!r.fixed) CHECKV((size_t)r.h.num_buckets >= c.init_buckets, "init", "%zu places were asked for, there are %ld", c.init_buckets, (long)r.h.num_buckets);
  if(r.limited) CHECKV(alloc_bytes_live() <= c.max_storage, "limit", "a table limited to %zu bytes takes more", c.max_storage);
  unsigned n = range(10, g_cfg.thorough ? 1200 : 500); uint64_t steady = allocs_live();
  for(unsigned i = 0; i < n; i++) {
    switch(weighted({12, 6, 5, 1, 1})) { case 0: r.insert(r.name()); break; case 1: r.remove(r.m.size() && choose(3) ? [&] { auto it = r.m.begin(); std::advance(it, choose((uint32_t)r.m.size())); return it->first; }() : r.name()); break;
      case 2: r.check_key(r.name()); break; case 3: r.reserve(); break; default: r.check_all(); }
    tag((uint64_t)r.m.size() << 32 | (uint32_t)r.h.num_buckets);
    CHECKV(dh_num_items(&r.h) == r.m.size(), "count", "the table counts %zu entries, %zu are stored", dh_num_items(&r.h), r.m.size());
    CHECKV(allocs_live() == steady, "leak", "the table holds %llu blocks of memory", (unsigned long long)allocs_live());
    if(r.limited) CHECKV(alloc_bytes_live() <= c.max_storage, "limit", "a table limited to %zu bytes takes %llu", c.max_storage, (unsigned long long)alloc_bytes_live()); }
  r.check_all(); if(r.m.size() > 20) PROBE("many_entries");
  // an emptied table is as good as a new one
  if(choose(3) == 0) { while(r.m.size()) r.remove(std::string(r.m.begin()->first)); r.check_all(); for(unsigned i = 0; i < 12; i++) r.insert(r.name()); r.check_all(); PROBE("refilled"); }
  dh_free(&r.h); CHECKV(r.gone.size() == r.m.size(), "destroyed", "freeing a table of %zu entries destroys %zu values", r.m.size(), r.gone.size());
  std::set<const void *> ks; for(auto &g : r.gone) { bool found = false; for(auto &x : r.m) if(x.second.key.data == g.key.data && x.second.key.length == g.key.length && x.second.val == g.val) found = true; CHECKV(found && (r.vs == 0 || r.kind == K_INT || ks.insert(g.key.data).second), "destroyed", "freeing the table destroys a value that was not stored, or one of them twice"); }
  r.gone.clear(); dh_free(&r.h); CHECKV(r.gone.empty(), "destroyed", "freeing a table again destroys values"); CHECKV(allocs_live() == a0, "leak", "a freed table leaves memory behind");
}
SCENARIO("C31", c31, 400000000, "a run in which a hash table could not grow: no memory, storage limit or refusal by the owner; distinct = distinct event log");
} // namespace
