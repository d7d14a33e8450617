// C15: the registry of filesystems.  Threads register, unregister, look up and
// use filesystems under the seeded scheduler; the recorded history has to be
// one that some order of the operations, each taking effect between its call
// and its return, explains.
#include "ro.h"
#include "lfs_sim.h"
extern "C" {
#include "evfs/littlefs_fs.h"
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_jail.h"
}
using namespace sim;
namespace {
// objects 0..4 are base filesystems, two of them carry the name of another
const int NOBJ = 7, SHIM = 5;                       // 5, 6: shims, which are heap objects
const char *const NAMES[] = {"alpha", "beta", "gamma", "tr", "jl"};
const int NAME_OF[NOBJ] = {0, 1, 2, 0, 1, 3, 4};
int quiet(const char *, void *) { return 0; }

enum Kind { REG, UNREG, ALL, FIND, DEF, USE, SHREG };
struct Op { Kind k; int obj, name; bool dflt; uint64_t t0, t1; int res; long st; };
// res: FIND/USE/DEF: object or -1 none.  DEF gives a name index.
struct State { int8_t at[5]; int8_t def; bool operator<(const State &o) const { int c = memcmp(at, o.at, 5); return c ? c < 0 : def < o.def; } };
// per operation: 0 not taken effect, 1 half done (two-step operations), 2 complete
struct Search {
  const std::vector<Op> &ops; std::set<std::string> dead; uint64_t nodes = 0;
  Search(const std::vector<Op> &o) : ops(o) {}
  static void removed(State &s, int obj, std::vector<State> &out) {
    s.at[NAME_OF[obj]] = -1; if(s.def != obj) { out.push_back(s); return; }
    bool any = false; for(int n = 0; n < 5; n++) if(s.at[n] >= 0) { State c = s; c.def = s.at[n]; out.push_back(c); any = true; }
    if(!any) { s.def = -1; out.push_back(s); }
  }
  // the states after operation o takes effect (or its next step)
  void apply(const Op &o, int8_t ph, State s, std::vector<std::pair<int8_t, State>> &out) {
    switch(o.k) {
    case SHREG: // the base is looked up first, the shim is registered later
      if(ph == 0) { if(o.st == EVFS_ERR_NO_VFS) { if(s.at[0] < 0) out.push_back({2, s}); } else if(s.at[0] >= 0) out.push_back({1, s}); return; }
      // fall through
    case REG: {
      if(o.st != EVFS_OK) return;
      bool empty = true; for(int n = 0; n < 5; n++) if(s.at[n] >= 0) empty = false;
      int n = NAME_OF[o.obj]; if(s.at[n] < 0) s.at[n] = o.obj; int obj = s.at[n];
      if(o.dflt || empty) { s.def = obj; out.push_back({2, s}); return; }
      if(s.def != obj) { out.push_back({2, s}); return; }
      bool other = false; for(int m = 0; m < 5; m++) if(s.at[m] >= 0 && s.at[m] != obj) { other = true; State c = s; c.def = s.at[m]; out.push_back({2, c}); }
      if(!other) out.push_back({2, s});
      return; }
    case UNREG: {
      bool in = s.at[NAME_OF[o.obj]] == o.obj;
      if(!in) { if(o.st == EVFS_ERR_NO_VFS) out.push_back({2, s}); return; }
      if(o.st != EVFS_OK) return;
      std::vector<State> v; removed(s, o.obj, v); for(auto &x : v) out.push_back({2, x}); return; }
    case ALL: { // one after the other is as good as all at once, as long as none is left
      bool empty = true; for(int n = 0; n < 5; n++) if(s.at[n] >= 0) { empty = false; std::vector<State> v; removed(s, s.at[n], v); for(auto &x : v) out.push_back({1, x}); }
      if(empty) out.push_back({2, s});
      return; }
    case FIND: { int r = s.at[o.name]; if(o.res == -2 ? r >= SHIM : r == o.res) out.push_back({2, s}); return; }
    case DEF: if((s.def < 0 ? -1 : NAME_OF[s.def]) == o.res) out.push_back({2, s}); return;
    case USE: // by name, else the default
      if(ph == 0 && o.name >= 0 && s.at[o.name] >= 0) { if(s.at[o.name] == o.res) out.push_back({2, s}); return; }
      if(ph == 0) { out.push_back({1, s}); return; }
      if(s.def >= SHIM ? o.res == 0 || o.res == 3 : s.def == o.res) out.push_back({2, s}); // a shim shows what was called "alpha"
      return; }
  }
  bool go(std::string ph, const State &s) {
    bool all = true; for(char c : ph) if(c != 2) all = false; if(all) { last = s; return true; }
    std::string key = ph + std::string((char *)&s, sizeof s); if(!dead.insert(key).second) return false;
    if(++nodes > 400000) return true;               // give up: counted, never an alarm
    uint64_t lim = ~0ull; for(size_t i = 0; i < ops.size(); i++) if(ph[i] != 2) lim = std::min(lim, ops[i].t1);
    for(size_t i = 0; i < ops.size(); i++) if(ph[i] != 2 && ops[i].t0 < lim) {
      std::vector<std::pair<int8_t, State>> v; apply(ops[i], ph[i], s, v);
      for(auto &x : v) { std::string p = ph; p[i] = x.first; if(go(p, x.second)) return true; } }
    return false;
  }
  State last;
};

struct World { std::vector<SimFs *> o; std::vector<Op> h; uint64_t clock = 1; bool shims = false, all = false; unsigned fibers = 1, uniq = 0; };
std::string text(const Op &o) {
  static const char *n[] = {"register", "unregister", "unregister_all", "find", "default", "open by name", "register shim"};
  return strf("[%llu-%llu] %s %s%s -> %ld/%d", (unsigned long long)o.t0, (unsigned long long)o.t1, n[o.k], o.obj >= 0 ? strf("#%d '%s'", o.obj, NAMES[NAME_OF[o.obj]]).c_str() : o.name >= 0 ? NAMES[o.name] : "", o.dflt ? " as default" : "", o.st, o.res);
}
int object_of(World &w, Evfs *v) { if(!v) return -1; for(int i = 0; i < SHIM; i++) if(v == &w.o[i]->vfs) return i; return -2; }

// some other operation than opening a file: which filesystem took it?
void use(World &w, Op &o) {
  const char *v = o.name < 0 ? nullptr : NAMES[o.name]; bool plain = !v && choose(2), alone = w.fibers == 1; unsigned u = w.uniq++, k = choose(alone ? 14 : 8);
  auto num = [](const std::string &s) { size_t p = s.find("home"); return p == std::string::npos ? -3 : s[p + 4] - '0'; };
  auto which = [&](const std::string &p, bool there) { int r = -1, n = 0; for(int i = 0; i < SHIM; i++) if(w.o[i]->exists(p) == there) { r = i; n++; } CHECKV(n == 1, "use", "%d filesystems took one operation", n); return r; };
  auto all = [&](const std::string &p) { for(auto f : w.o) f->put_file(p, "x"); };
  std::string a = strf("/u%u", u), b = strf("/v%u", u); o.res = -3;
  ev("use %u %s %s", k, v ? v : plain ? "(plain)" : "(default)", a.c_str());
  switch(k) {
  case 0: case 1: { EvfsInfo i; memset(&i, 0, sizeof i); o.st = api("stat", [&] { return plain ? evfs_stat("/who", &i) : evfs_stat_ex("/who", &i, v); }); if(o.st == EVFS_OK) o.res = (int)i.size - 1; break; }
  case 2: o.st = api("make_dir", [&] { return plain ? evfs_make_dir(a.c_str()) : evfs_make_dir_ex(a.c_str(), v); }); if(o.st == EVFS_OK) o.res = which(a, true); break;
  case 3: all(a); o.st = api("delete", [&] { return plain ? evfs_delete(a.c_str()) : evfs_delete_ex(a.c_str(), v); }); if(o.st == EVFS_OK) o.res = which(a, false); break;
  case 4: all(a); o.st = api("rename", [&] { return plain ? evfs_rename(a.c_str(), b.c_str()) : evfs_rename_ex(a.c_str(), b.c_str(), v); }); if(o.st == EVFS_OK) { o.res = which(a, false); CHECKV(which(b, true) == o.res, "use", "a rename moves a file to another filesystem"); } break;
  case 5: { EvfsDir *d = nullptr; EvfsInfo i; o.st = api("open_dir", [&] { return plain ? evfs_open_dir("/", &d) : evfs_open_dir_ex("/", &d, v); }); if(o.st != EVFS_OK) break;
    for(;;) { memset(&i, 0, sizeof i); int st = api("dir_read", [&] { return evfs_dir_read(d, &i); }); if(st == EVFS_DONE) break; CHECKV(st == EVFS_OK, "use", "reading a directory reports %d", st); int n = num(i.name ? i.name : ""); if(n >= 0) { CHECKV(o.res == -3 || o.res == n, "use", "a listing of two filesystems"); o.res = n; } }
    api("dir_close", [&] { return evfs_dir_close(d); }); break; }
  case 6: case 7: { char t[80]; memset(t, 0, sizeof t); AppendRange ar; range_init(&ar, t, sizeof t); StringRange sr = *(StringRange *)&ar; bool abs = alone && k == 7;
    if(abs) o.st = api("path_absolute", [&] { return plain ? evfs_path_absolute("z", &sr) : evfs_path_absolute_ex("z", &sr, v); }); else o.st = api("get_cur_dir", [&] { return plain ? evfs_get_cur_dir(&sr) : evfs_get_cur_dir_ex(&sr, v); });
    if(o.st == EVFS_OK) { o.res = num(t); if(!strcmp(t, abs ? "/z" : "/") && w.shims) o.res = 0; } break; } // a jail has a current directory of its own
  // the rest asks for the filesystem more than once, or changes what other uses look at
  case 8: { std::string p = a + "/s/t"; o.st = api("make_path", [&] { return plain ? evfs_make_path(p.c_str()) : evfs_make_path_ex(p.c_str(), v); }); if(o.st == EVFS_OK) o.res = which(p, true); break; }
  case 9: { std::string p = a + "/s"; StringRange sr{&p[0], &p[0] + p.size()}; o.st = api("make_path_range", [&] { return plain ? evfs_make_path_range(&sr) : evfs_make_path_range_ex(&sr, v); }); if(o.st == EVFS_OK) o.res = which(p, true); break; }
  case 10: case 11: { all(a); for(auto f : w.o) f->put_dir(b); bool ff, fd, df, dd;
    api("existing", [&] { ff = plain ? evfs_existing_file(a.c_str()) : evfs_existing_file_ex(a.c_str(), v); fd = plain ? evfs_existing_file(b.c_str()) : evfs_existing_file_ex(b.c_str(), v); df = plain ? evfs_existing_dir(a.c_str()) : evfs_existing_dir_ex(a.c_str(), v); dd = plain ? evfs_existing_dir(b.c_str()) : evfs_existing_dir_ex(b.c_str(), v); return 0; });
    bool any = *evfs_default_vfs_name(); CHECKV(ff == any && dd == any && !fd && !df, "use", "an existing file is reported as %d/%d, an existing directory as %d/%d, a filesystem is registered: %d", ff, df, fd, dd, any); o.k = DEF; o.res = -9; return; }
  case 12: { if(w.shims) { o.k = DEF; o.res = -9; return; } for(auto f : w.o) f->put_dir(a); o.st = api("set_cur_dir", [&] { return plain ? evfs_set_cur_dir(a.c_str()) : evfs_set_cur_dir_ex(a.c_str(), v); });
    int n = 0; for(int i = 0; i < SHIM; i++) if(w.o[i]->cwd == a) { o.res = i; n++; w.o[i]->cwd = strf("/home%d", i); } CHECKV(n == (o.st == EVFS_OK), "use", "%d filesystems changed their directory", n); break; }
  default: { EvfsFile *src = nullptr; char buf[16]; SimFs *s = w.o[4]; s->put_file("/src", "source"); o.st = evfs_vfs_open(&s->vfs, "/src", &src, EVFS_READ); CHECKV(o.st == EVFS_OK && src, "use", "a filesystem object can't be used directly: %ld", o.st);
    o.st = api("copy_to_file", [&] { return plain ? evfs_copy_to_file(a.c_str(), src, buf, sizeof buf) : evfs_copy_to_file_ex(a.c_str(), src, buf, sizeof buf, v); }); if(o.st == EVFS_OK) o.res = which(a, true); a_close(src); }
  }
  PROBE("use-by-other-operation"); if(plain) PROBE("plain-form");
  if(o.st != EVFS_OK) { CHECKV(o.st == EVFS_ERR_NO_VFS, "use", "operation %u on what exists on every filesystem reports %d", k, (int)o.st); o.res = -1; }
  else CHECKV(o.res >= 0 && o.res < SHIM, "use", "operation %u was taken by no filesystem", k);
  o.st = o.res < 0 ? (int)EVFS_ERR_NO_VFS : 0;
}

void one(World &w) {
  Op o{REG, -1, -1, false, 0, 0, 0, 0};
  o.k = (Kind)weighted({8, 6, w.all ? 1u : 0u, 6, w.shims ? 0u : 3u, 4, w.shims ? 3u : 0u});
  // a default name that points into a shim may go away with it: not asked for then
  o.t0 = w.clock++;
  switch(o.k) {
  case REG: o.obj = choose(SHIM); o.dflt = choose(2); o.st = api("register", [&] { return evfs_register(&w.o[o.obj]->vfs, o.dflt); }); break;
  case UNREG: o.obj = choose(SHIM); o.st = api("unregister", [&] { return evfs_unregister(&w.o[o.obj]->vfs); }); break;
  case ALL: api("unregister_all", [&] { evfs_unregister_all(); return 0; }); break;
  case FIND: { o.name = choose(w.shims ? 5 : 3); Evfs *v = nullptr; api("find", [&] { v = evfs_find_vfs(NAMES[o.name]); return 0; }); o.res = object_of(w, v); break; }
  case DEF: { const char *n = nullptr; api("default_vfs_name", [&] { n = evfs_default_vfs_name(); return 0; }); o.res = -1; CHECKV(n, "default", "the name of the default filesystem is a null pointer"); for(int i = 0; i < 3; i++) if(!strcmp(n, NAMES[i])) o.res = i; CHECKV(o.res >= 0 || !*n, "default", "the default filesystem is called '%s'", n); break; }
  case USE: { o.name = (int)choose(4) - 1; if(choose(2)) { use(w, o); break; } EvfsFile *f; o.st = a_open("/who", &f, EVFS_READ, o.name < 0 ? nullptr : NAMES[o.name]);
    if(o.st != EVFS_OK) { CHECKV(o.st == EVFS_ERR_NO_VFS, "use", "opening a file that exists on every filesystem reports %d", (int)o.st); o.res = -1; break; }
    std::string d; CHECKV(a_read(f, d, 9) >= 1 && d[0] >= '0' && d[0] <= '9', "use", "the wrong file was read"); a_close(f); o.res = d[0] - '0'; o.st = 0; break; }
  default: o.obj = SHIM + choose(2); o.dflt = choose(4) == 0;
    o.st = api("register shim", [&] { return o.obj == SHIM ? evfs_register_trace("tr", "alpha", quiet, nullptr, o.dflt) : evfs_register_jail("jl", "alpha", "/", o.dflt); });
    CHECKV(o.st == EVFS_OK || o.st == EVFS_ERR_NO_VFS, "register", "registering a shim reports %d", (int)o.st); }
  o.t1 = w.clock++;
  if(o.res == -9) return;
  CHECKV(o.k == UNREG || o.k == USE || o.st == EVFS_OK || o.k == SHREG, "register", "registering '%s' reports %ld", NAMES[NAME_OF[o.obj < 0 ? 0 : o.obj]], o.st);
  CHECKV(o.k != UNREG || o.st == EVFS_OK || o.st == EVFS_ERR_NO_VFS, "unregister", "unregistering reports %ld", o.st);
  w.h.push_back(o);
}

void registry() {
  World w; std::vector<std::unique_ptr<SimFs>> own;
  for(int i = 0; i < SHIM; i++) { own.emplace_back(new SimFs(NAMES[NAME_OF[i]])); SimFs *f = own.back().get(); f->put_file("/who", strf("%d", i) + std::string(i, '.')); f->put_dir(strf("/home%d", i)); f->cwd = strf("/home%d", i); f->fill(); w.o.push_back(f); }
  if(chance(1, 3)) { // before initialisation
    int n = range(1, 3);
    for(int i = 0; i < n; i++) { int k = choose(SHIM); bool d = choose(2); int st = api("register before init", [&] { return evfs_register(&w.o[k]->vfs, d); }); CHECKV(st < 0, "before-init", "registering before evfs_init() reports %d", st); }
    CHECKV(!*evfs_default_vfs_name(), "before-init", "there is a default filesystem before evfs_init()");
    for(auto nm : NAMES) CHECKV(!evfs_find_vfs(nm), "before-init", "'%s' is found before evfs_init()", nm);
    if(choose(2)) { // nor the filesystems that are made by registering them
      Tree t; std::string rom = make_rom(t), tar = make_tar(t); lfs_t lfs; memset(&lfs, 0, sizeof lfs); int st;
      switch(choose(3)) { case 0: st = api("register romfs", [&] { return evfs_register_rsrc_romfs("rom", (const uint8_t *)rom.data(), rom.size(), false); }); break;
        case 1: st = api("register tar", [&] { return evfs_register_tar_rsrc_fs("tar", (uint8_t *)&tar[0], tar.size(), false); }); break;
        default: st = api("register littlefs", [&] { return evfs_register_littlefs("lfs", &lfs, false); }); }
      CHECKV(st < 0, "before-init", "registering before evfs_init() reports %d", st);
      CHECKV(allocs_live() == 0 && locks_live() == 0, "leak", "a registration refused before evfs_init() leaves memory or a lock: %s", allocs_describe().c_str()); }
    PROBE("before-init");
  }
  evfs_init(); if(choose(2)) evfs_init();
  if(threaded_build()) CHECKV(locks_live_any() >= 1, "lock-not-made", "evfs_init() makes no lock for the registry");
  w.shims = chance(1, 3); w.all = !w.shims && choose(2);
  unsigned fib = threaded_build() ? weighted({1, 4, 4}) + 1 : 1, steps = range(2, fib == 1 ? 14 : fib == 2 ? 7 : 5);
  unsigned pre = choose(4); for(unsigned i = 0; i < pre; i++) { Op o{REG, (int)choose(SHIM), -1, choose(2) == 1, w.clock++, 0, 0, 0}; o.st = api("register", [&] { return evfs_register(&w.o[o.obj]->vfs, o.dflt); }); CHECKV(o.st == EVFS_OK, "register", "registering reports %ld", o.st); o.t1 = w.clock++; w.h.push_back(o); }
  w.fibers = fib; for(auto f : w.o) f->yields = true;
  if(fib == 1) for(unsigned i = 0; i < steps; i++) one(w);
  else {
    set_preempt(true, oneof<uint32_t>({4, 15, 60}), choose(3));
    step_budget(4000000);
    for(unsigned k = 0; k < fib; k++) spawn([&] { for(unsigned i = 0; i < steps; i++) one(w); }, "client");
    join_all(); set_preempt(false, 0, 0);
  }
  // what is there now, asked for in a quiet moment, belongs to the history
  for(int n = 0; n < 5; n++) { Op o{FIND, -1, n, false, w.clock++, 0, 0, 0}; step_budget(CALL_STEPS); o.res = object_of(w, evfs_find_vfs(NAMES[n])); o.t1 = w.clock++; w.h.push_back(o); }
  const char *dn = evfs_default_vfs_name(); { Op o{DEF, -1, -1, false, w.clock++, 0, -1, 0}; CHECKV(dn, "default", "the default's name is a null pointer"); for(int i = 0; i < 5; i++) if(!strcmp(dn, NAMES[i])) o.res = i; CHECKV(o.res >= 0 || !*dn, "default", "the default filesystem is called '%s'", dn); o.t1 = w.clock++; w.h.push_back(o); }
  bool overlap = false; for(auto &a : w.h) for(auto &b : w.h) if(&a < &b && a.t0 < b.t1 && b.t0 < a.t1) overlap = true;
  if(overlap) PROBE("overlapping-operations");
  for(auto &a : w.h) tag(fnv(text(a).data(), text(a).size()));
  State s; memset(s.at, -1, 5); s.def = -1; Search q(w.h); q.last = s;
  if(!q.go(std::string(w.h.size(), 0), s)) { for(auto &o : w.h) ev("history %s", text(o).c_str()); violate("registry-history", "no order of the %zu operations explains their results; the last of them: %s", w.h.size(), text(w.h.back()).c_str()); }
  if(q.nodes > 400000) { PROBE("history-search-cut-short"); }
  if(w.h.size() > 8) nontrivial();
  // the program ends: the library shuts itself down
  if(chance(1, 4)) {
    step_budget(CALL_STEPS); run_atexit_hooks(); PROBE("shutdown-at-exit");
    CHECKV(allocs_live() == 0, "leak", "memory stays allocated after the library shut down: %s", allocs_describe().c_str());
    CHECKV(locks_live_any() == 0, "lock-left", "%d locks are left undestroyed after the library shut down", locks_live_any());
    return;
  }
  // and now everything goes
  for(unsigned rounds = 0; rounds < 3; rounds++) {
    if(choose(2)) { step_budget(CALL_STEPS); evfs_unregister_all(); PROBE("unregister-all"); }
    else for(int n = 0; n < 5; n++) { step_budget(CALL_STEPS); Evfs *v = evfs_find_vfs(NAMES[n]); if(v) { CHECKV(api("unregister", [&] { return evfs_unregister(v); }) == EVFS_OK, "unregister", "unregistering '%s' failed", NAMES[n]); CHECKV(!evfs_find_vfs(NAMES[n]), "still-found", "'%s' is still found after it was unregistered", NAMES[n]); } }
    for(auto nm : NAMES) CHECKV(!evfs_find_vfs(nm), "still-found", "'%s' is still found after everything was unregistered", nm);
    CHECKV(!*evfs_default_vfs_name(), "default", "a default remains although nothing is registered");
    EvfsFile *f; int st = a_open("/who", &f, EVFS_READ, choose(2) ? "alpha" : nullptr); CHECKV(st == EVFS_ERR_NO_VFS, "use", "opening a file with nothing registered reports %d", st);
    if(rounds == 2 || !choose(2)) break;
    // and can come back
    int k = choose(SHIM); bool d = choose(2); CHECKV(api("register", [&] { return evfs_register(&w.o[k]->vfs, d); }) == EVFS_OK, "register", "registering again failed");
    CHECKV(evfs_find_vfs(NAMES[NAME_OF[k]]) == &w.o[k]->vfs && !strcmp(evfs_default_vfs_name(), NAMES[NAME_OF[k]]), "default", "the only registered filesystem is not found or not the default");
  }
  CHECKV(allocs_live() == 0, "leak", "memory stays allocated after everything was unregistered: %s", allocs_describe().c_str());
  CHECKV(locks_live() == 0, "lock-left", "%d locks are left undestroyed", locks_live());
}
} // namespace
SCENARIO("C15", registry, 4000000, "a run counts when its history has more than 8 operations");
