// C01-C05: the rotating log shim.
#include "api.h"
#include "errs.h"
extern "C" {
#include "evfs/shim/shim_rotate.h"
}
using namespace sim;
namespace {

const char *RV = "rot";

// Reference: one flat byte string with whole chunks dropped from the front.
struct Model {
  size_t C = 32, N = 2;
  std::string d;
  uint64_t dropped = 0;   // bytes dropped from the front so far
  size_t pos = 0;
  void append_byte_room() {
    if(d.size() == C * N) { d.erase(0, C); dropped += C; pos = pos > C ? pos - C : 0; }
  }
  void append(const std::string &s) { for(char c : s) { append_byte_room(); d += c; } }
  void write_at_pos(const std::string &s) {
    for(char c : s) {
      if(pos < d.size()) d[pos++] = c;
      else { bool full = d.size() == C * N; if(full) { d.erase(0, C); dropped += C; pos -= C; } d += c; pos++; }
    }
  }
};

struct Geo { unsigned C, N; };
Geo draw_geo() {
  static const unsigned cs[] = {32, 33, 48, 64, 100, 200};
  Geo g;
  g.C = cs[weighted({6, 2, 2, 3, 1, 1})];
  g.N = 2 + weighted({5, 4, 3, 2, 1, 1, 1});
  if(chance(1, 25)) { g.N = oneof<unsigned>({9, 10, 11, 16, 100, 256, 300}); g.C = cs[choose(2)]; PROBE("many-chunks"); }
  else if(chance(1, 40)) { g.C = oneof<unsigned>({4096, 65536, 70000}); g.N = 2 + choose(3); PROBE("large-chunks"); }
  return g;
}
size_t draw_len(size_t C, size_t N, size_t cur) {
  switch(weighted({6, 3, 3, 2, 2, 1, 1})) {
    case 0: return range(1, 40);
    case 1: { size_t r = C - cur % C; return r; }                 // exactly to the next boundary
    case 2: return C;
    case 3: { size_t cap = C * N; return cur < cap ? cap - cur : C * (1 + choose(2)); } // exactly full
    case 4: return range(1, (uint32_t)(2 * C));
    case 5: return range(1, (uint32_t)(C * N));
    default: return C * N + range(0, (uint32_t)(C * 2));
  }
}
void draw_base(SimFs &b) {
  b.sep_both = chance(1, 3); b.dots = chance(1, 2); b.lifo = chance(1, 2);
}
int reg_rotate(Geo g, const char *base) {
  RotateConfig cfg; memset(&cfg, 0, sizeof cfg);
  cfg.chunk_size = g.C; cfg.max_chunks = g.N;
  return api("register_rotate", [&] { return evfs_register_rotate(RV, base, &cfg, false); });
}
int unreg_rotate() { Evfs *v = evfs_find_vfs(RV); return api("unregister", [&] { return evfs_unregister(v); }); }

const std::vector<std::string> STRAY = {"notes.txt", "cnk", "c1.cnk", "c00001_2.cnk", "cabcde_0.cnk", "c00000_0.cnk.bak", "c99998_0.cnk", "c00000-0.cnk", "x00000_0.cnk", "c0000000_0.cnk"};
void check_store(SimFs &b, const std::string &path, const Model &m) {
  NodeP n = b.find(path);
  CHECKV(n && n->dir, "container-missing", "the container of %s is gone", path.c_str());
  size_t total = 0;
  for(auto &k : n->kids) if(k.first.size() > 4 && k.first.substr(k.first.size() - 4) == ".cnk" && std::find(STRAY.begin(), STRAY.end(), k.first) == STRAY.end()) {
    total += k.second->data.size();
    CHECKV(k.second->data.size() <= m.C, "chunk-oversize", "a chunk file holds %zu bytes, more than the chunk size %zu", k.second->data.size(), m.C);
  }
  CHECKV(total <= m.C * m.N, "capacity-exceeded", "the container stores %zu bytes, capacity is %zu", total, m.C * m.N);
  CHECKV(total == m.d.size(), "stored-size", "the container stores %zu bytes, expected %zu", total, m.d.size());
}
void compare(const std::string &got, const Model &m, const char *when) {
  if(got == m.d) return;
  size_t i = 0; while(i < got.size() && i < m.d.size() && got[i] == m.d[i]) i++;
  violate("content", "%s: log reads back %zu bytes, expected %zu; first difference at %zu (got %s, expected %s)", when, got.size(), m.d.size(), i,
          hexs(got.substr(i), 8).c_str(), hexs(m.d.substr(i), 8).c_str());
}
void verify_handle(EvfsFile *fh, Model &m, const char *when, bool keep_pos) {
  evfs_off_t sz = a_size(fh);
  CHECKV(sz == (evfs_off_t)m.d.size(), "size", "%s: reported size %ld, expected %zu", when, (long)sz, m.d.size());
  evfs_off_t old = a_tell(fh);
  CHECKV(a_seek(fh, 0, EVFS_SEEK_TO) == EVFS_OK, "seek", "%s: seek to the start failed", when);
  std::string got;
  ptrdiff_t r = a_read_all(fh, got, m.d.size() + 4 * m.C);
  CHECKV(r >= 0, "read-error", "%s: reading the log failed with %td on a healthy filesystem", when, r);
  compare(got, m, when);
  m.pos = m.d.size();
  if(keep_pos) { CHECKV(a_seek(fh, old, EVFS_SEEK_TO) == EVFS_OK, "seek", "seek back failed"); m.pos = (size_t)old; }
}

// ------------------------------------------------------------------ C01
void c01() {
  Geo g = draw_geo(), other = draw_geo();
  SimFs b("base"); draw_base(b);
  evfs_init();
  b.reg(true);
  CHECKV(reg_rotate(g, "base") == EVFS_OK, "register", "valid geometry %u x %u refused", g.C, g.N);
  std::string path = oneof<std::string>({"log", "/log", "/d/log.txt"});
  b.put_dir("/d");
  Model m; m.C = g.C; m.N = g.N;
  static const int fl[] = {EVFS_RDWR | EVFS_APPEND, EVFS_RDWR | EVFS_APPEND | EVFS_OPEN_OR_NEW, EVFS_WRITE | EVFS_READ | EVFS_APPEND};
  int flags = fl[choose(3)];
  EvfsFile *fh;
  CHECKV(a_open(path, &fh, flags, RV) == EVFS_OK, "open", "creating the log failed");
  uint64_t off = 0; int wraps = 0;
  unsigned nops = range(4, g_cfg.thorough ? 120 : 45);
  for(unsigned i = 0; i < nops; i++) {
    tag(m.d.size() % m.C == 0); tag(m.d.size() / m.C);
    switch(weighted({10, 3, 2, 2, 1, 1})) {
    case 0: {
      std::string s = content(1, off, draw_len(m.C, m.N, m.d.size()));
      uint64_t dr = m.dropped;
      ptrdiff_t r = a_write(fh, s);
      CHECKV(r == (ptrdiff_t)s.size(), "write-short", "append of %zu bytes reported %td on a healthy filesystem", s.size(), r);
      off += s.size(); m.append(s);
      if(m.dropped != dr) { wraps++; PROBE("rotated"); nontrivial(); }
      if(m.d.size() == m.C * m.N) PROBE("exactly_full");
      else if(m.d.size() % m.C == 0) PROBE("exact_chunk_boundary");
      evfs_off_t sz = a_size(fh);
      CHECKV(sz == (evfs_off_t)m.d.size(), "size", "after an append of %zu the size is %ld, expected %zu", s.size(), (long)sz, m.d.size());
      break; }
    case 1: verify_handle(fh, m, "while open", chance(1, 2)); break;
    case 2: { // partial read from the current read position
      evfs_off_t p = a_tell(fh);
      CHECKV(p == (evfs_off_t)m.pos, "tell", "read position %ld, expected %zu", (long)p, m.pos);
      std::string got; size_t n = range(1, (uint32_t)(2 * m.C));
      ptrdiff_t r = a_read(fh, got, n);
      size_t want = std::min(n, m.d.size() - m.pos);
      CHECKV(r == (ptrdiff_t)want, "read-count", "read of %zu at %zu of %zu returned %td, expected %zu", n, m.pos, m.d.size(), r, want);
      CHECKV(got == m.d.substr(m.pos, want), "content", "read at %zu returned wrong bytes", m.pos);
      m.pos += want;
      break; }
    case 3: { // reopen
      PROBE("reopen");
      CHECKV(a_close(fh) == EVFS_OK, "close", "close failed on a healthy filesystem");
      check_store(b, path, m);
      flags = fl[choose(3)];
      CHECKV(a_open(path, &fh, flags, RV) == EVFS_OK, "open", "reopening the log failed");
      m.pos = 0;
      if(chance(1, 2)) verify_handle(fh, m, "after reopening", false);
      break; }
    case 4: { // remount, possibly with other settings for new containers
      PROBE("remount");
      CHECKV(a_close(fh) == EVFS_OK, "close", "close failed on a healthy filesystem");
      CHECKV(unreg_rotate() == EVFS_OK, "unregister", "unregistering the shim failed");
      CHECKV(reg_rotate(chance(1, 2) ? other : g, "base") == EVFS_OK, "register", "registering the shim again failed");
      CHECKV(a_open(path, &fh, flags, RV) == EVFS_OK, "open", "opening the log after a remount failed");
      m.pos = 0;
      verify_handle(fh, m, "after a remount", false);
      break; }
    default: { // a second reader handle on a closed-and-idle writer is not documented; only sync here
      CHECKV(a_sync(fh) == EVFS_OK, "sync", "sync failed on a healthy filesystem");
      check_store(b, path, m);
      break; }
    }
  }
  verify_handle(fh, m, "at the end", false);
  CHECKV(a_close(fh) == EVFS_OK, "close", "close failed");
  CHECKV(a_open(path, &fh, EVFS_READ, RV) == EVFS_OK, "open", "opening the log read-only failed");
  verify_handle(fh, m, "read-only reopen", false);
  a_close(fh);
  check_store(b, path, m);
  tag(wraps);
}
SCENARIO("C01", c01, 50000000, "an append history that made the ring drop at least one chunk; distinct = distinct (event log, op/boundary trace) hash");

// ------------------------------------------------------------------ C04
void c04() {
  Geo g = draw_geo();
  SimFs b("base"); draw_base(b);
  evfs_init();
  b.reg(true);
  CHECKV(reg_rotate(g, "base") == EVFS_OK, "register", "valid geometry refused");
  std::string path = "log";
  Model m; m.C = g.C; m.N = g.N;
  bool app = chance(1, 3);
  auto fl = [&] { return EVFS_RDWR | (app ? EVFS_APPEND : 0) | (chance(1, 2) ? EVFS_OPEN_OR_NEW : 0); };
  EvfsFile *fh;
  CHECKV(a_open(path, &fh, fl(), RV) == EVFS_OK, "open", "creating the log failed");
  uint64_t off = 0;
  unsigned nops = range(6, g_cfg.thorough ? 150 : 60);
  for(unsigned i = 0; i < nops; i++) {
    tag(m.pos % m.C == 0); tag(m.pos / m.C); tag(m.d.size() / m.C);
    switch(weighted({8, 6, 6, 3, 2, 2, 1, 2})) {
    case 0: {
      size_t n = draw_len(m.C, m.N, app ? m.d.size() : m.pos);
      std::string s = content(2, off, n); off += n;
      size_t before = m.d.size(), p0 = m.pos; uint64_t dr = m.dropped;
      ptrdiff_t r = a_write(fh, s);
      CHECKV(r == (ptrdiff_t)n, "write-short", "write of %zu at %zu reported %td on a healthy filesystem", n, m.pos, r);
      if(app) m.append(s); else m.write_at_pos(s);
      if(!app && p0 < before) { PROBE("overwrite"); if(p0 / m.C != (p0 + n - 1) / m.C) { PROBE("overwrite_across_chunks"); nontrivial(); } if(p0 + n > before) PROBE("overwrite_past_end"); }
      if(m.dropped != dr) PROBE("rotated");
      evfs_off_t sz = a_size(fh);
      CHECKV(sz == (evfs_off_t)m.d.size(), "size", "after writing %zu bytes at %zu of %zu the size is %ld, expected %zu", n, p0, before, (long)sz, m.d.size());
      break; }
    case 1: { // seek
      int o = choose(3); evfs_off_t v; long long tgt;
      size_t L = m.d.size();
      if(o == 0) { v = chance(1, 3) && L ? (evfs_off_t)(choose((uint32_t)(L / m.C + 1)) * m.C) : (evfs_off_t)range(0, (uint32_t)L + 3); tgt = v; }
      else if(o == 1) { v = (evfs_off_t)range(0, (uint32_t)L + 5) - (evfs_off_t)range(0, (uint32_t)L + 5); tgt = (long long)m.pos + v; }
      else { v = range(0, (uint32_t)L + 5); tgt = (long long)L - v; }
      if(tgt < 0) tgt = 0;
      static const EvfsSeekDir od[] = {EVFS_SEEK_TO, EVFS_SEEK_REL, EVFS_SEEK_REV};
      int st = a_seek(fh, v, od[o]);
      if(tgt <= (long long)L) { CHECKV(st == EVFS_OK, "seek", "seek to %lld of %zu failed with %d", tgt, L, st); m.pos = (size_t)tgt; }
      else CHECKV(st != EVFS_OK, "seek-beyond", "seek to %lld beyond the end %zu succeeded", tgt, L);
      evfs_off_t p = a_tell(fh);
      CHECKV(p == (evfs_off_t)m.pos, "tell", "position is %ld after seeking, expected %zu", (long)p, m.pos);
      break; }
    case 2: { // read
      size_t n = range(1, (uint32_t)(3 * m.C));
      std::string got; ptrdiff_t r = a_read(fh, got, n);
      size_t want = std::min(n, m.d.size() - m.pos);
      CHECKV(r == (ptrdiff_t)want, "read-count", "read of %zu at %zu of %zu returned %td", n, m.pos, m.d.size(), r);
      CHECKV(got == m.d.substr(m.pos, want), "content", "read of %zu at %zu returned wrong bytes", n, m.pos);
      m.pos += want;
      bool e = a_eof(fh);
      CHECKV(e == (m.pos >= m.d.size()), "eof", "end-of-file reported %d at %zu of %zu", e, m.pos, m.d.size());
      break; }
    case 3: { // truncate
      size_t L = m.d.size(), n = chance(1, 3) ? choose((uint32_t)(L / m.C + 1)) * m.C : chance(1, 6) ? L + choose(40) : range(0, (uint32_t)L);
      int st = a_trunc(fh, (evfs_off_t)n);
      CHECKV(st == EVFS_OK, "truncate", "truncating %zu to %zu failed with %d", L, n, st);
      if(n < L) { PROBE("truncate"); nontrivial(); m.d.resize(n); if(m.pos > n) m.pos = n; }
      evfs_off_t sz = a_size(fh);
      CHECKV(sz == (evfs_off_t)m.d.size(), "size", "after truncating %zu to %zu the size is %ld", L, n, (long)sz);
      break; }
    case 4: { // trim
      size_t L = m.d.size(); evfs_off_t n = chance(1, 2) ? (evfs_off_t)(choose((uint32_t)m.N + 2) * m.C) : (evfs_off_t)range(0, (uint32_t)L + 40);
      int st = a_fctrl(fh, EVFS_CMD_SET_ROTATE_TRIM, &n);
      size_t k = (size_t)n / m.C, rem = std::min(k * m.C, L);
      if(L == 0 && k > 0) { CHECKV(st <= 0, "trim", "trimming an empty log reported %d bytes", st); break; }
      CHECKV(st == (int)rem, "trim", "trimming %ld bytes of %zu reported %d, expected %zu", (long)n, L, st, rem);
      if(rem) { PROBE("trim"); nontrivial(); }
      m.d.erase(0, rem); m.dropped += rem; m.pos = m.pos > rem ? m.pos - rem : 0;
      break; }
    case 5: { // reopen
      CHECKV(a_close(fh) == EVFS_OK, "close", "close failed");
      check_store(b, path, m);
      app = chance(1, 3);
      CHECKV(a_open(path, &fh, fl(), RV) == EVFS_OK, "open", "reopening failed");
      m.pos = 0;
      if(chance(1, 2)) verify_handle(fh, m, "after reopening", false);
      break; }
    case 6: verify_handle(fh, m, "while open", true); break;
    default: {
      evfs_off_t p = a_tell(fh);
      CHECKV(p == (evfs_off_t)m.pos, "tell", "position %ld, expected %zu", (long)p, m.pos);
      bool e = a_eof(fh);
      CHECKV(e == (m.pos >= m.d.size()), "eof", "end-of-file reported %d at %zu of %zu", e, m.pos, m.d.size());
      break; }
    }
  }
  verify_handle(fh, m, "at the end", false);
  CHECKV(a_close(fh) == EVFS_OK, "close", "close failed");
  CHECKV(a_open(path, &fh, EVFS_RDWR, RV) == EVFS_OK, "open", "reopening failed");
  verify_handle(fh, m, "final reopen", false);
  a_close(fh);
  check_store(b, path, m);
}
SCENARIO("C04", c04, 50000000, "a history with an overwrite across a chunk boundary, a truncation or a trim; distinct = distinct event log");

// ------------------------------------------------------------------ C02
// What is on the medium after a crash: stream bytes [a, b); chunk boundaries
// stay at multiples of the chunk size because only whole chunks are dropped.
uint64_t drop_for(uint64_t a, uint64_t end, uint64_t C, uint64_t N) {
  uint64_t need = (end + C - 1) / C; // chunks needed to hold up to end
  uint64_t x = need > N ? (need - N) * C : 0;
  return x > a ? x : a;
}
void reboot(SimFs &b) {
  b.faults_on = false; b.crash_in = 0;
  locks_forget();
  evfs_unregister_all();
  locks_forget(); allocs_forget(); b.forget_handles();
  b.registered = false;
  b.reg(true);
}
void c02() {
  Geo g = draw_geo(); const uint64_t C = g.C, N = g.N;
  SimFs b("base"); draw_base(b);
  b.ordered = chance(1, 2);
  b.crash_on_mut_only = !chance(1, 4);
  bool rand_sync = chance(2, 3);
  evfs_init();
  b.reg(true);
  std::string path = "/log";
  CHECKV(reg_rotate(g, "base") == EVFS_OK, "register", "valid geometry refused");
  bool created = false;
  uint64_t a = 0, acked = 0, floor_ = 0, inflight = 0;  // stream offsets
  unsigned crashes = range(1, g_cfg.thorough ? 8 : 4);
  static const int fl[] = {EVFS_RDWR | EVFS_APPEND, EVFS_RDWR | EVFS_APPEND | EVFS_OPEN_OR_NEW};
  for(unsigned c = 0; c <= crashes; c++) {
    bool want_crash = c < crashes;
    if(!created && !chance(1, 6)) { // usually create the log outside the crash window
      EvfsFile *fh;
      CHECKV(a_open(path, &fh, fl[0], RV) == EVFS_OK, "open", "creating the log failed");
      CHECKV(a_close(fh) == EVFS_OK, "close", "close failed");
      created = true;
    }
    clear_crash();
    if(want_crash) b.crash_after(b.crash_on_mut_only ? range(1, 40) : range(1, 120));
    unsigned nops = range(2, 30);
    spawn([&] {
      EvfsFile *fh;
      int st = a_open(path, &fh, fl[choose(2)], RV);
      CHECKV(st == EVFS_OK, "open", "opening the log failed with %d on a healthy filesystem", st);
      created = true;
      for(unsigned i = 0; i < nops; i++) {
        switch(weighted({10, rand_sync ? 3u : 0u, 2, 1})) {
        case 0: {
          size_t n = draw_len(C, N, (size_t)(acked - a));
          std::string s = content(1, acked, n);
          inflight = acked + n;
          ptrdiff_t r = a_write(fh, s);
          CHECKV(r == (ptrdiff_t)n, "write-short", "append of %zu reported %td on a healthy filesystem", n, r);
          acked += n; a = drop_for(a, acked, C, N);
          break; }
        case 1:
          CHECKV(a_sync(fh) == EVFS_OK, "sync", "sync failed on a healthy filesystem");
          floor_ = acked; PROBE("synced");
          break;
        case 2:
          CHECKV(a_close(fh) == EVFS_OK, "close", "close failed on a healthy filesystem");
          floor_ = acked;
          CHECKV(a_open(path, &fh, fl[choose(2)], RV) == EVFS_OK, "open", "reopening failed on a healthy filesystem");
          break;
        default: {
          CHECKV(a_seek(fh, 0, EVFS_SEEK_TO) == EVFS_OK, "seek", "seek failed");
          std::string got; a_read_all(fh, got, C * (N + 4));
          CHECKV(got == content(1, a, (size_t)(acked - a)), "content", "log reads back %zu bytes that are not stream bytes %llu..%llu", got.size(), (unsigned long long)a, (unsigned long long)acked);
          break; }
        }
      }
      CHECKV(a_close(fh) == EVFS_OK, "close", "close failed on a healthy filesystem");
      floor_ = acked;
    }, "writer");
    join_all();
    bool hit = crashed();
    clear_crash();
    if(hit) { PROBE("crashed"); nontrivial(); if(inflight > acked) PROBE("crash_in_append"); }
    else if(b.crash_in) { b.crash_in = 0; if(chance(1, 3)) b.power_cut(); }
    ev("reboot hit=%d acked=%llu floor=%llu inflight=%llu", hit, (unsigned long long)acked, (unsigned long long)floor_, (unsigned long long)inflight);
    // restart, possibly crashing again while recovering
    for(int again = 0; again < 3; again++) {
      reboot(b);
      CHECKV(reg_rotate(g, "base") == EVFS_OK, "register", "registering after the crash failed");
      if(!(hit && again < 2 && chance(1, 4))) break;
      PROBE("crash_in_recovery");
      b.crash_after(range(1, 12));
      spawn([&] { EvfsFile *fh; if(a_open(path, &fh, fl[0], RV) == EVFS_OK) { created = true; a_close(fh); } }, "recovery");
      join_all(); clear_crash(); b.crash_in = 0;
    }
    EvfsFile *fh;
    int st = a_open(path, &fh, fl[choose(2)], RV);
    if(st != EVFS_OK && !created) {
      NodeP n = b.find(path), gm = b.find(path + "/geom.dat");
      if(n && n->dir && (!gm || gm->data.size() < 16)) violate("create-crash-stuck", "a crash while the log was being created leaves a container without its geometry file; opening it fails with %d from then on", st);
    }
    CHECKV(st == EVFS_OK, "reopen", "opening the log after the crash failed with %d", st);
    created = true;
    evfs_off_t sz = a_size(fh);
    std::string got;
    ptrdiff_t r = a_read_all(fh, got, C * (N + 4));
    CHECKV(r >= 0, "read-error", "reading the log after the crash failed with %td", r);
    CHECKV((size_t)sz == got.size(), "size", "after the crash the size is %ld but %zu bytes read back", (long)sz, got.size());
    // find the stream range it is
    uint64_t end = std::max(inflight, acked);
    uint64_t amax = drop_for(a, end, C, N);
    bool ok = false; uint64_t fa = 0, fb = 0;
    for(uint64_t x = a; x <= amax && !ok; x += C) {
      if(x + got.size() < floor_ || x + got.size() > end) continue;
      if(got != content(1, x, got.size())) continue;
      // rotation may have dropped chunks only as far as the bytes present or being written need
      fa = x; fb = x + got.size(); ok = true;
    }
    CHECKV(ok, "lost-or-damaged", "after the crash the log holds %zu bytes that are not stream bytes x..y with x in [%llu,%llu], y in [%llu,%llu]",
           got.size(), (unsigned long long)a, (unsigned long long)amax, (unsigned long long)floor_, (unsigned long long)end);
    if(fb < acked) PROBE("unsynced_tail_lost");
    if(fb > acked) PROBE("torn_record_kept");
    a = fa; acked = fb; floor_ = fb; inflight = fb;
    if(a == acked && got.empty()) { /* empty log: restarts at a boundary */ if(acked % C) violate("lost-or-damaged", "the log is empty after the crash"); }
    // and goes on working
    size_t n = draw_len(C, N, (size_t)(acked - a));
    ptrdiff_t w = a_write(fh, content(1, acked, n));
    CHECKV(w == (ptrdiff_t)n, "write-short", "append after the crash reported %td of %zu", w, n);
    acked += n; inflight = acked; a = drop_for(a, acked, C, N);
    CHECKV(a_seek(fh, 0, EVFS_SEEK_TO) == EVFS_OK, "seek", "seek failed");
    r = a_read_all(fh, got, C * (N + 4));
    CHECKV(r >= 0 && got == content(1, a, (size_t)(acked - a)), "content", "after recovery and an append the log does not read back as stream bytes %llu..%llu", (unsigned long long)a, (unsigned long long)acked);
    CHECKV(a_close(fh) == EVFS_OK, "close", "close after recovery failed");
    floor_ = acked;
  }
}
SCENARIO("C02", c02, 50000000, "a run in which a power loss hit an append history; distinct = distinct event log (operations, crash point, torn length, losses)");

// ------------------------------------------------------------------ C03
// got is d with the first k bytes of s put at p, less x bytes at its front, for an x of lo, lo+C, .. hi
bool spliced(const std::string &got, const std::string &d, size_t p, const std::string &s, size_t k, size_t lo, size_t hi, size_t C, size_t *at = nullptr) {
  size_t fs = std::max(d.size(), p + k);
  for(size_t x = lo; x <= hi; x += C) {
    size_t want = x < fs ? fs - x : 0;
    if(got.size() != want) continue;
    auto same = [&](size_t from, size_t to, const char *src) { // bytes from..to of the result come from src
      size_t f = std::max(from, x);
      return f >= to || !memcmp(got.data() + (f - x), src + (f - from), to - f);
    };
    if(!want || (same(p, p + k, s.data()) && same(0, p, d.data()) && same(p + k, fs, d.data() + std::min(p + k, d.size())))) { if(at) *at = x; return true; }
  }
  return false;
}
void c03() {
  Geo g = draw_geo(); const size_t C = g.C, N = g.N;
  SimFs b("base"); draw_base(b);
  evfs_init();
  b.reg(true);
  CHECKV(reg_rotate(g, "base") == EVFS_OK, "register", "valid geometry refused");
  std::string path = "/log";
  bool only_append = chance(1, 2);
  // swarm: a subset of fault kinds, at a rate that lets most operations succeed
  static const OpKind kinds[] = {OP_OPEN, OP_STAT, OP_DELETE, OP_MKDIR, OP_OPENDIR, OP_READ, OP_WRITE, OP_TRUNC, OP_SYNC, OP_SEEK, OP_CLOSE, OP_SIZE, OP_DIRREAD, OP_DIRCLOSE, OP_GETCWD};
  uint32_t rate = oneof<uint32_t>({40, 15, 6, 100});
  for(OpKind k : kinds) if(chance(1, 2)) b.faults.mean[k] = rate;
  b.faults.shorts = chance(2, 3);
  bool fill = chance(1, 4);
  std::string d;            // logical content
  std::vector<std::string> tails; // possible torn tails that may surface on reopening
  size_t pos = 0; uint64_t stream = 10; uint64_t cf0 = 0; // failed closes of base files before this handle was opened
  // success of a sync or close covers all that was written through the handle
  auto gone = [&] { for(auto &n : b.unsaved) if(n->linked) return true; return false; };
  EvfsFile *fh = nullptr; int flags = 0;
  auto drop = [&](size_t end) { size_t need = (end + C - 1) / C; return need > N ? (need - N) * C : 0; };
  auto peek = [&](EvfsFile *f) { // read everything with faults off; position restored
    bool on = b.faults_on; uint64_t cap = b.capacity; b.faults_on = false; b.capacity = ~0ull;
    evfs_off_t p = a_tell(f); std::string got;
    CHECKV(a_seek(f, 0, EVFS_SEEK_TO) == EVFS_OK, "seek", "seek to the start failed");
    ptrdiff_t r = a_read_all(f, got, C * (N + 4));
    CHECKV(r >= 0, "read-error", "reading the log failed with %td after the faults stopped", r);
    evfs_off_t sz = a_size(f);
    if(sz < 0) { int st = a_sync(f); CHECKV(sz == st, "size", "size %ld although the log can be synced (%d)", (long)sz, st); PROBE("size_reports_loss"); } // a loss that sync goes on reporting
    else CHECKV((size_t)sz == got.size(), "size", "size %ld but %zu bytes read back", (long)sz, got.size());
    CHECKV(a_seek(f, p, EVFS_SEEK_TO) == EVFS_OK, "seek", "seek back to %ld failed", (long)p);
    b.faults_on = on; b.capacity = cap;
    return got;
  };
  auto open_ = [&]() -> bool {
    for(int i = 0; i < 4; i++) {
      uint64_t f0 = b.faults_fired; int of = b.open_files, od = b.open_dirs;
      flags = EVFS_RDWR | (only_append || chance(1, 2) ? EVFS_APPEND : 0) | (chance(1, 2) ? EVFS_OPEN_OR_NEW : 0);
      b.unsaved.clear(); int st = a_open(path, &fh, flags, RV); cf0 = b.closes_failed; b.unsaved.clear();
      if(st == EVFS_OK) {
        std::string got = peek(fh);
        bool ok = got == d;
        for(auto &t : tails) for(size_t k = 1; k <= t.size() && !ok; k++) if(spliced(got, d, d.size(), t, k, 0, drop(d.size() + k), C)) { ok = true; PROBE("torn_tail_after_reopen"); }
        CHECKV(ok, "content", "after reopening the log holds %zu bytes, expected the %zu bytes reported as written (or those plus part of a failed write)", got.size(), d.size());
        d = got; tails.clear(); pos = 0;
        return true;
      }
      PROBE("open_failed");
      CHECKV(b.faults_fired != f0, "spurious-error", "opening failed with %d although nothing failed underneath", st);
      CHECKV(b.open_files == of && b.open_dirs == od, "handle-leak", "a failed open left %d base file(s) and %d listing(s) open", b.open_files - of, b.open_dirs - od);
      if(!b.exists(path) || b.find(path)->kids.empty() || !b.find(path + "/geom.dat")) {
        // a container whose creation failed half way may need its leftovers removed by hand
        if(b.find(path)) { b.remove(path + "/geom.dat"); b.remove(path); PROBE("create_failed_leftover"); }
      } else if(b.find(path + "/geom.dat")->data.size() < 16) { b.remove(path + "/geom.dat"); b.remove(path); PROBE("create_failed_leftover"); }
    }
    return false;
  };
  if(chance(3, 4)) { CHECKV(open_(), "open", "creating the log failed"); } // created before faults start
  b.lossy_close = choose(4) == 0; b.arm();
  // a part of the log was dropped by a failed close: neither sync nor close may hide it
  auto after_loss = [&] { PROBE("part_of_log_dropped"); nontrivial(); for(unsigned k = range(0, 4); k-- > 0;) { std::string g; switch(choose(3)) { case 0: a_write(fh, content(stream++, 0, range(1, (uint32_t)C))); break; case 1: a_read(fh, g, range(1, (uint32_t)C)); break; default: { int st = a_sync(fh); CHECKV(st != EVFS_OK || !gone(), "unstored", "sync reports success although a part of the log that was reported as written was dropped when it could not be closed"); } } }
    bool g = gone(); int st = a_close(fh); fh = nullptr; CHECKV(st != EVFS_OK || !g, "unstored", "close reports success although a part of the log that was reported as written was dropped when it could not be closed");
    b.faults_stop(); b.capacity = ~0ull; b.lossy_close = false; CHECKV(a_open(path, &fh, EVFS_RDWR | EVFS_APPEND, RV) == EVFS_OK, "reopen", "the log can't be opened again after a part was dropped"); a_close(fh); b.check_handles("at the end"); };
  if(fill) b.capacity = b.used() + range(0, (uint32_t)(C * N + 40));
  unsigned nops = range(4, g_cfg.thorough ? 100 : 40);
  // trouble on trouble: a failed write, a failing attempt to shorten what it left, a short append, a reopening
  int stage = 0; bool chained = chance(1, 3);
  for(unsigned i = 0; i < nops; i++) {
    if(!fh && !open_()) { b.faults_stop(); b.capacity = ~0ull; CHECKV(open_(), "reopen", "the log cannot be opened after the faults stopped"); if(chance(1, 2)) b.arm(); }
    bool app = flags & EVFS_APPEND;
    uint64_t f0 = b.faults_fired;
    unsigned op = weighted({10, 4, only_append ? 0u : 3u, 2, 3, only_append ? 0u : 2u, only_append ? 0u : 1u}), now = stage; stage = 0;
    if(now == 1) { op = choose(3) ? 5 : 6; for(OpKind k : {OP_TRUNC, OP_DELETE, OP_OPEN}) if(choose(2)) b.next_fault[k] = 1; PROBE("failure_after_failure"); stage = 2; }
    else if(now == 2) { op = 0; b.faults_on = false; stage = 3; }
    else if(now == 3) op = 4;
    switch(op) {
    case 0: { // write
      size_t n = now == 2 ? 1 + choose(2) : draw_len(C, N, d.size());
      if(now == 2 && !app) { CHECKV(a_seek(fh, 0, EVFS_SEEK_REV) == EVFS_OK, "seek", "seek to the end failed"); pos = d.size(); }
      std::string s = content(stream++, 0, n);
      size_t p = app ? d.size() : pos;
      ptrdiff_t r = a_write(fh, s); if(gone()) { after_loss(); return; }
      bool failed = r != (ptrdiff_t)n;
      if(failed) { nontrivial(); PROBE("write_failed_or_short"); CHECKV(b.faults_fired != f0, "spurious-error", "write of %zu reported %td although nothing failed underneath", n, r); }
      std::string got = peek(fh);
      bool ok = false; size_t usek = 0, usex = 0;
      size_t klo = r >= 0 ? (size_t)r : 0, khi = r >= 0 ? (size_t)r : n;
      // a torn base write may have changed existing bytes beyond the reported count
      if(failed && p < d.size()) khi = std::max(khi, std::min(n, d.size() - p));
      for(size_t k = klo; k <= khi && !ok; k++) {
        size_t fs = std::max(d.size(), p + k), dlo = drop(fs), dhi = k < n && p + k >= d.size() ? drop(p + k + 1) : dlo, x = 0;
        if(spliced(got, d, p, s, k, dlo, dhi, C, &x)) { ok = true; usek = k; usex = x; }
      }
      CHECKV(ok, "write-count", "a write of %zu bytes at %zu of %zu reported %td; afterwards the log holds %zu bytes that do not match that", n, p, d.size(), r, got.size());
      size_t end = p + usek;
      bool grew = p + n > d.size();
      d = got;
      if(!failed && grew) tails.clear();
      if(failed && end >= d.size() + usex) { tails.push_back(s.substr(usek)); if(chained && b.faults_on && choose(2)) stage = 1; }
      if(now == 2) b.arm();
      // where the position is after an error is not specified; take it from the log
      evfs_off_t t = a_tell(fh);
      if(!app && r >= 0) { size_t want = end > usex ? end - usex : 0; CHECKV((size_t)t == want || b.faults_fired != f0, "tell", "position %ld after a write, expected %zu", (long)t, want); }
      CHECKV(t >= 0 && (size_t)t <= d.size(), "tell", "position %ld outside the log of %zu bytes", (long)t, d.size());
      pos = (size_t)t;
      break; }
    case 1: { // read
      if(chance(1, 2)) { size_t t = range(0, (uint32_t)d.size()); if(a_seek(fh, (evfs_off_t)t, EVFS_SEEK_TO) == EVFS_OK) pos = t; else CHECKV(false, "seek", "seek within the log failed"); }
      size_t n = range(1, (uint32_t)(3 * C)); std::string got;
      f0 = b.faults_fired;
      ptrdiff_t r = a_read(fh, got, n); if(gone()) { after_loss(); return; }
      size_t want = std::min(n, d.size() - pos);
      if(r < 0 || (size_t)r != want) { nontrivial(); PROBE("read_failed_or_short"); CHECKV(b.faults_fired != f0, "spurious-error", "read of %zu at %zu of %zu reported %td although nothing failed underneath", n, pos, d.size(), r); }
      if(r == 0 && want) violate("false-eof", "a read at %zu of %zu that failed underneath reported 0 bytes, as at the end of the file", pos, d.size());
      if(r >= 0) { CHECKV(got == d.substr(pos, (size_t)r), "content", "read at %zu returned wrong bytes", pos); pos += (size_t)r; CHECKV((size_t)a_tell(fh) == pos, "tell", "position does not match the bytes delivered"); }
      else pos = (size_t)a_tell(fh);
      CHECKV(pos <= d.size(), "tell", "position outside the log");
      break; }
    case 2: { size_t t = range(0, (uint32_t)d.size()); CHECKV(a_seek(fh, (evfs_off_t)t, EVFS_SEEK_TO) == EVFS_OK, "seek", "seek within the log failed"); pos = t; break; }
    case 3: { int st = a_sync(fh); if(st != EVFS_OK) CHECKV(b.faults_fired != f0 || b.closes_failed != cf0, "spurious-error", "sync failed with %d although nothing failed underneath", st);
              else { CHECKV(b.faults_fired == f0, "hidden-error", "sync reported success although the base sync failed"); } break; }
    case 4: { // close and reopen
      int st = a_close(fh); fh = nullptr;
      if(st != EVFS_OK) CHECKV(b.faults_fired != f0 || b.closes_failed != cf0, "spurious-error", "close failed with %d although nothing failed underneath", st);
      else { CHECKV(b.faults_fired == f0, "hidden-error", "close reported success although the base close failed"); }
      if(gone()) { CHECKV(st != EVFS_OK, "unstored", "close reports success although a part of the log was dropped"); PROBE("part_of_log_dropped"); nontrivial(); return; }
      CHECKV(b.open_files == 0, "handle-leak", "closing the log left %d base file(s) open", b.open_files);
      break; }
    case 5: { // truncate
      size_t t = range(0, (uint32_t)d.size());
      int st = a_trunc(fh, (evfs_off_t)t); if(gone()) { after_loss(); return; }
      std::string got = peek(fh);
      if(st == EVFS_OK) CHECKV(got == d.substr(0, t), "truncate", "truncation to %zu succeeded but %zu bytes remain", t, got.size());
      else { nontrivial(); CHECKV(b.faults_fired != f0, "spurious-error", "truncate failed with %d although nothing failed underneath", st);
             CHECKV(got.size() >= t && got.size() <= d.size() && got == d.substr(0, got.size()), "truncate", "a failed truncation left content that is not a prefix of the log"); }
      if(st == EVFS_OK && t < d.size()) tails.clear();
      if(got.size() < d.size()) tails.clear();
      d = got; pos = (size_t)a_tell(fh);
      break; }
    default: { // trim
      evfs_off_t t = (evfs_off_t)range(0, (uint32_t)(d.size() + C));
      int st = a_fctrl(fh, EVFS_CMD_SET_ROTATE_TRIM, &t); if(gone()) { after_loss(); return; }
      std::string got = peek(fh);
      size_t want = std::min(d.size(), (size_t)t / C * C);
      if(st >= 0) CHECKV((size_t)st == want && got == d.substr(want), "trim", "trim of %ld of %zu bytes reported %d, %zu bytes remain", (long)t, d.size(), st, got.size());
      else { nontrivial(); CHECKV(b.faults_fired != f0, "spurious-error", "trim failed with %d although nothing failed underneath", st);
             size_t x = d.size() - got.size(); CHECKV(got.size() <= d.size() && x <= want && (x % C == 0 || x == d.size()) && got == d.substr(x), "trim", "a failed trim left content that is not a chunk-aligned tail of the log"); }
      d = got; pos = (size_t)a_tell(fh);
      break; }
    }
    if(fill && chance(1, 12)) b.capacity = chance(1, 2) ? ~0ull : b.used() + range(0, (uint32_t)C);
  }
  // faults stop: the log must work again
  b.faults_stop(); b.capacity = ~0ull;
  if(!fh) CHECKV(open_(), "reopen", "the log cannot be opened after the faults stopped");
  std::string got = peek(fh);
  CHECKV(got == d, "content", "after the faults stopped the log holds %zu bytes, expected %zu", got.size(), d.size());
  std::string s = content(stream++, 0, draw_len(C, N, d.size()));
  CHECKV(a_seek(fh, 0, EVFS_SEEK_REV) == EVFS_OK, "seek", "seek to the end failed");
  ptrdiff_t r = a_write(fh, s);
  CHECKV(r == (ptrdiff_t)s.size(), "write-short", "append after the faults stopped reported %td of %zu", r, s.size());
  d += s; d.erase(0, drop(d.size()));
  CHECKV(peek(fh) == d, "content", "appending after the faults stopped gives wrong content");
  CHECKV(a_close(fh) == EVFS_OK || b.closes_failed != cf0, "close", "close failed after the faults stopped");
  CHECKV(a_open(path, &fh, EVFS_RDWR | EVFS_APPEND, RV) == EVFS_OK, "reopen", "reopening failed after the faults stopped");
  CHECKV(peek(fh) == d, "content", "reopening after the faults stopped gives other content");
  a_close(fh);
  b.check_handles("at the end");
}
SCENARIO("C03", c03, 80000000, "a run in which an injected base failure hit a write, read, truncate or trim; distinct = distinct event log");

// ------------------------------------------------------------------ C05
void c05() {
  SimFs b("base"), ref("ref"); draw_base(b); ref.sep_both = b.sep_both; ref.dots = b.dots; ref.lifo = b.lifo;
  evfs_init();
  b.reg(true); ref.reg(false);
  Geo cfg = draw_geo();
  CHECKV(reg_rotate(cfg, "base") == EVFS_OK, "register", "valid geometry refused");
  for(SimFs *f : {&b, &ref}) { f->put_dir("/logs"); f->put_dir("/d1/sub"); f->put_file("/f0", content(90, 0, 70)); f->put_file("/d1/f1", content(91, 0, 300)); f->put_file("/d1/geom.txt", content(92, 0, 16)); }
  struct Log { std::string path; Geo g; Model m; EvfsFile *fh = nullptr; bool exists = false; };
  std::vector<Log> logs(range(1, 4));
  std::string longname(range(3, 240), 'x');
  for(size_t i = 0; i < logs.size(); i++) logs[i].path = strf("/logs/log%zu", i);
  if(chance(1, 3)) logs[0].path = "/logs/" + longname;
  uint64_t off = 0;
  struct Ord { EvfsFile *a, *r; }; std::vector<Ord> ords;
  auto ordname = [&] { return oneof<std::string>({"/f0", "/d1/f1", "/d1", "/d1/sub", "/d1/f2", "f0", "/nope/x", "/d1/sub/g", "/d1/./f1", "/d1/geom.txt"}); };
  auto both = [&](const char *what, int x, int y) { CHECKV(x == y, "ordinary-differs", "%s through the rotate shim returned %d, the plain filesystem returns %d", what, x, y); };
  auto log_open = [&](Log &l) {
    int flags = EVFS_RDWR | EVFS_APPEND;
    int st;
    if(!l.exists) {
      std::string before = b.dump();
      st = a_open(l.path, &l.fh, flags, RV);
      if(st != EVFS_OK) {
        CHECKV(l.path.size() > 200, "open", "creating the log %s failed with %d", l.path.c_str(), st);
        CHECKV(b.dump() == before, "create-leftover", "a refused container left something behind");
        PROBE("long_path_refused");
        l.path = "/logs/shorter"; 
        return false;
      }
      if(l.path.size() > 200) PROBE("long_path_container");
      l.g = cfg; l.m = Model(); l.m.C = cfg.C; l.m.N = cfg.N; l.exists = true;
    } else {
      st = a_open(l.path, &l.fh, flags, RV);
      CHECKV(st == EVFS_OK, "open", "opening the log %s failed with %d", l.path.c_str(), st);
      l.m.pos = 0;
    }
    return true;
  };
  unsigned nops = range(8, g_cfg.thorough ? 160 : 70);
  for(unsigned i = 0; i < nops; i++) {
    Log &l = logs[choose((uint32_t)logs.size())];
    switch(weighted({14, 3, 3, 2, 2, 2, 2, 2, 4, 2, 2, 2, 2, 3, 2, 1})) {
    case 0: { // append
      if(!l.fh && !log_open(l)) break;
      std::string s = content(5, off, draw_len(l.m.C, l.m.N, l.m.d.size())); off += s.size();
      ptrdiff_t r = a_write(l.fh, s);
      CHECKV(r == (ptrdiff_t)s.size(), "write-short", "append reported %td of %zu", r, s.size());
      l.m.append(s);
      break; }
    case 1: if(l.fh) verify_handle(l.fh, l.m, l.path.substr(0, 20).c_str(), false); break;
    case 2: if(l.fh) { CHECKV(a_close(l.fh) == EVFS_OK, "close", "close failed"); l.fh = nullptr; if(l.exists) check_store(b, l.path, l.m); } break;
    case 3: { // change settings
      Geo n = draw_geo(); RotateConfig c; memset(&c, 0, sizeof c);
      bool bad = chance(1, 2);
      c.chunk_size = n.C; c.max_chunks = n.N;
      if(bad) switch(choose(5)) { case 0: c.chunk_size = choose(32); break; case 1: c.max_chunks = choose(2); break; case 2: c.max_chunks = 100000 + choose(9); break; case 3: c.max_chunks = 0xFFFFFFFFu; break; default: c.chunk_size = 31; }
      int st = a_ctrl(EVFS_CMD_SET_ROTATE_CFG, &c, RV);
      if(bad) { CHECKV(st != EVFS_OK, "geometry-accepted", "invalid geometry %u x %u accepted", c.chunk_size, c.max_chunks); PROBE("invalid_geometry"); }
      else { CHECKV(st == EVFS_OK, "geometry-refused", "valid geometry refused with %d", st); cfg = n; PROBE("settings_changed"); nontrivial(); }
      break; }
    case 4: { // remount
      for(auto &x : logs) if(x.fh) { CHECKV(a_close(x.fh) == EVFS_OK, "close", "close failed"); x.fh = nullptr; }
      for(auto &o : ords) { a_close(o.a); a_close(o.r); } ords.clear();
      CHECKV(unreg_rotate() == EVFS_OK, "unregister", "unregister failed");
      if(chance(1, 3)) { Geo bad = cfg; uint64_t a0 = allocs_live(); switch(choose(3)) { case 0: bad.C = choose(32); break; case 1: bad.N = choose(2); break; default: bad.N = 100000 + choose(9); } int lk = locks_live(); CHECKV(reg_rotate(bad, "base") != EVFS_OK, "geometry-accepted", "registering with an invalid geometry succeeded"); CHECKV(!evfs_find_vfs(RV), "geometry-accepted", "a refused shim is registered"); CHECKV(allocs_live() == a0 && locks_live() == lk, "leak", "a refused registration leaves memory or a lock behind: %s", allocs_describe().c_str()); }
      cfg = draw_geo();
      CHECKV(reg_rotate(cfg, "base") == EVFS_OK, "register", "register failed");
      PROBE("remount");
      break; }
    case 5: { // containers are not directories
      if(!l.exists) break;
      bool hurt = chance(1, 2); if(hurt) { b.faults.mean[OP_STAT] = 1 + choose(3); b.fault_code = oneof<int>({EVFS_ERR_IO, EVFS_ERR_IO, EVFS_ERR}); b.arm(); } uint64_t f0 = b.faults_fired;
      EvfsDir *dh; int st = a_opendir(l.path, &dh, RV); if(b.faults_fired != f0) PROBE("container_lookup_failed"); if(hurt) { b.faults_stop(); b.faults.mean[OP_STAT] = 0; b.fault_code = 0; }
      CHECKV(st != EVFS_OK, "container-listed", "a container can be listed as a directory");
      break; }
    case 14: { // somebody else's file among the chunks; or a question for the filesystem below
      if(choose(2)) { unsigned x = 0, y = 0; int cmd = oneof<int>({EVFS_CMD_GET_STAT_FIELDS, EVFS_CMD_GET_DIR_FIELDS, EVFS_CMD_SET_READONLY, EVFS_CMD_USER_DEFINED + 3}); both("vfs_ctrl", a_ctrl(cmd, &x, RV), a_ctrl(cmd, &y, "ref")); CHECKV(x == y, "ordinary-differs", "control command %d answers %x through the shim, %x without it", cmd, x, y); break; }
      if(!l.exists) break;
      std::string sp = l.path + "/" + oneof(STRAY); if(sp.size() >= EVFS_MAX_PATH) break; b.put_file(sp, content(77, 0, range(0, 90))); PROBE("stray_file_in_container"); break; }
    case 15: { // a damaged geometry is noticed
      if(!l.exists || l.fh) break;
      NodeP gn; for(auto &k : b.find(l.path)->kids) if(k.first.find("cnk") == std::string::npos && k.first != "notes.txt") gn = k.second; CHECKV(gn, "container-missing", "the container of %s has no geometry", l.path.c_str());
      std::string good = gn->data; unsigned how = choose(4); if(how == 0) gn->data.resize(choose((uint32_t)good.size())); else if(how == 3) { for(size_t i = 8; i < gn->data.size(); i++) gn->data[i] = 0; } else gn->data[choose(5)] ^= 1 << choose(8);
      std::string before = b.dump(); EvfsFile *f; int st = a_open(l.path, &f, oneof<int>({EVFS_READ, EVFS_RDWR | EVFS_APPEND}), RV); CHECKV(st != EVFS_OK, "damage-accepted", "a container whose geometry is damaged opens"); CHECKV(b.dump() == before, "damage-changed", "a refused container was changed"); gn->data = good; PROBE("damaged_geometry"); break; }
    case 6: { // delete
      if(!l.exists) break;
      if(l.fh) { a_close(l.fh); l.fh = nullptr; }
      if(chance(1, 3)) { // the filesystem below fails
        static const OpKind kinds[] = {OP_STAT, OP_OPENDIR, OP_DIRREAD, OP_DIRCLOSE, OP_DELETE}; uint32_t mean = oneof<uint32_t>({1, 3, 8}); for(OpKind k : kinds) if(chance(1, 2)) b.faults.mean[k] = mean;
        b.arm(); uint64_t f0 = b.faults_fired; int st = a_delete(l.path, RV); bool hurt = b.faults_fired != f0; b.faults_stop(); for(OpKind k : kinds) b.faults.mean[k] = 0;
        CHECKV(hurt || st == EVFS_OK, "delete", "deleting the log failed with %d", st); CHECKV(!b.open_dirs, "handle-leak", "deleting a log (%d) leaves %d listing(s) open", st, b.open_dirs);
        if(st != EVFS_OK) { PROBE("delete_failed"); CHECKV((bool)b.find(l.path), "delete", "deleting a log failed with %d and it is gone", st); }
        else { CHECKV(!b.find(l.path), "delete", "the deleted log is still there"); b.put_dir(l.path); } }
      CHECKV(a_delete(l.path, RV) == EVFS_OK, "delete", "deleting the log failed");
      CHECKV(!b.find(l.path), "delete", "the deleted log is still there");
      EvfsInfo inf; CHECKV(a_stat(l.path, &inf, RV) != EVFS_OK, "delete", "the deleted log can still be seen");
      l.exists = false; PROBE("deleted"); nontrivial();
      break; }
    case 7: { // rename
      if(!l.exists) break;
      if(l.fh) { a_close(l.fh); l.fh = nullptr; }
      std::string np = strf("/logs/r%u", i);
      CHECKV(a_rename(l.path, np, RV) == EVFS_OK, "rename", "renaming the log failed");
      CHECKV(!b.find(l.path), "rename", "the old name is still there");
      l.path = np; PROBE("renamed"); nontrivial();
      break; }
    case 8: { // ordinary file open (existing ones only: others would become containers)
      std::string n = ordname();
      if(!ref.find(n) || ords.size() > 3) break;
      static const int fs[] = {EVFS_READ, EVFS_RDWR, EVFS_WRITE, EVFS_RDWR | EVFS_APPEND, EVFS_RDWR | EVFS_OVERWRITE, EVFS_RDWR | EVFS_NO_EXIST, EVFS_RDWR | EVFS_OPEN_OR_NEW};
      int fl = fs[choose(7)]; Ord o;
      int x = a_open(n, &o.a, fl, RV), y = a_open(n, &o.r, fl, "ref");
      both("open", x, y);
      if(x == EVFS_OK) ords.push_back(o);
      break; }
    case 9: case 13: { // ordinary file use
      if(ords.empty()) break;
      size_t k = choose((uint32_t)ords.size()); Ord o = ords[k];
      switch(choose(7)) {
      case 0: { std::string g1, g2; size_t n = range(0, 400); ptrdiff_t x = a_read(o.a, g1, n), y = a_read(o.r, g2, n); both("read", (int)x, (int)y); CHECKV(g1 == g2, "ordinary-differs", "read through the shim returned other bytes"); break; }
      case 1: { std::string s = content(6, off, range(0, 90)); off += s.size(); both("write", (int)a_write(o.a, s), (int)a_write(o.r, s)); break; }
      case 2: { evfs_off_t p = range(0, 400); EvfsSeekDir d = (EvfsSeekDir)(1 + choose(3)); both("seek", a_seek(o.a, p, d), a_seek(o.r, p, d)); both("tell", (int)a_tell(o.a), (int)a_tell(o.r)); both("eof", a_eof(o.a), a_eof(o.r)); break; }
      case 3: { evfs_off_t p = range(0, 400); both("truncate", a_trunc(o.a, p), a_trunc(o.r, p)); break; }
      case 4: both("size", (int)a_size(o.a), (int)a_size(o.r)); both("sync", a_sync(o.a), a_sync(o.r)); break;
      case 5: both("ctrl", a_fctrl(o.a, EVFS_CMD_USER_DEFINED + 1, nullptr), a_fctrl(o.r, EVFS_CMD_USER_DEFINED + 1, nullptr)); break;
      default: both("close", a_close(o.a), a_close(o.r)); ords.erase(ords.begin() + k);
      }
      break; }
    case 10: { std::string n = ordname(); EvfsInfo x, y; int s1 = a_stat(n, &x, RV), s2 = a_stat(n, &y, "ref"); both("stat", s1, s2); if(s1 == EVFS_OK) CHECKV(x.size == y.size && x.type == y.type, "ordinary-differs", "stat differs through the shim"); break; }
    case 11: {
      std::string n = ordname(), n2 = ordname();
      if(ords.size()) break;
      switch(choose(3)) { case 0: both("delete", a_delete(n, RV), a_delete(n, "ref")); break; case 1: both("rename", a_rename(n, n2, RV), a_rename(n, n2, "ref")); break; default: both("mkdir", a_mkdir(n, RV), a_mkdir(n, "ref")); }
      break; }
    case 12: { // listing
      std::string n = oneof<std::string>({"/d1", "/d1/sub", "/f0", "/nope", "/", "."}); EvfsDir *x, *y;
      int s1 = a_opendir(n, &x, RV), s2 = a_opendir(n, &y, "ref"); both("open_dir", s1, s2);
      if(s1 != EVFS_OK) break;
      for(;;) { DirEnt e1, e2; s1 = a_dirread(x, e1); s2 = a_dirread(y, e2); both("dir_read", s1, s2); if(s1 != EVFS_OK) break; CHECKV(e1.name == e2.name && e1.dir == e2.dir && e1.size == e2.size, "ordinary-differs", "listing entry %s differs", e1.name.c_str()); }
      a_dirclose(x); a_dirclose(y);
      // changing directory while containers are open
      std::string cd = oneof<std::string>({"/", "/d1", "/d1/sub", "/nope"});
      both("set_cur_dir", a_chdir(cd, RV), a_chdir(cd, "ref"));
      std::string c1, c2; a_getcwd(c1, RV); a_getcwd(c2, "ref"); CHECKV(c1 == c2, "ordinary-differs", "current directory differs");
      break; }
    }
  }
  for(auto &o : ords) { a_close(o.a); a_close(o.r); }
  for(auto &l : logs) { if(l.fh) a_close(l.fh); if(!l.exists) continue; CHECKV(a_open(l.path, &l.fh, EVFS_READ, RV) == EVFS_OK, "open", "final open failed"); verify_handle(l.fh, l.m, "at the end", false); a_close(l.fh); check_store(b, l.path, l.m); CHECKV(a_delete(l.path, RV) == EVFS_OK, "delete", "final delete failed"); }
  std::string x = b.dump(), y = ref.dump();
  CHECKV(x == y, "ordinary-differs", "after removing the logs the base differs from a plain filesystem with the same history:\n%s--\n%s", x.substr(0, 400).c_str(), y.substr(0, 400).c_str());
  if(choose(3) == 0) { // failures below are not hidden from users of ordinary files
    b.put_file("/errs.f", content(1, 0, 100)); b.put_dir("/errs"); a_chdir("/", RV); errors_reported(b, RV, "/errs.f", choose(2) ? "/errs" : "errs", range(2, 12)); }
  b.check_handles("at the end");
}
SCENARIO("C05", c05, 80000000, "a run that changed settings, deleted or renamed a container beside ordinary file activity; distinct = distinct event log");
} // namespace
