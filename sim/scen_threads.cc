// C13, C14: threads on one shared stack of filesystems.
#include "env.h"
#include "chaos.h"
namespace sim { int env_quiet(const char *, void *) { return 0; } }
using namespace sim;
namespace {

// a tree several clients only read
void fill_common(const std::string &V, std::map<std::string, std::string> &files, std::set<std::string> &dirs) {
  auto mk = [&](const std::string &d) { CHECKV(a_mkdir(d, V.c_str()) == EVFS_OK, "setup", "mkdir %s failed", d.c_str()); dirs.insert(d); };
  mk("/common"); mk("/common/s");
  unsigned n = range(1, 5); uint64_t k = 50;
  for(auto p : {"/common/f0", "/common/s/g0", "/common/f1", "/common/s/g1", "/common/long name.txt"}) { if(!n--) break; EvfsFile *f; CHECKV(a_open(p, &f, EVFS_RDWR | EVFS_OPEN_OR_NEW, V.c_str()) == EVFS_OK, "setup", "creating %s failed", p); std::string d = content(k++, 0, range(0, 1500)); a_write(f, d); CHECKV(a_close(f) == EVFS_OK, "setup", "close failed"); files[p] = d; }
}

void c13() {
  Env e; evfs_init();
  e.prepare(oneof<int>({E_BASE, E_BASE, E_STDIO, E_LFS, E_TAR, E_TARM, E_ROM, E_ROMM}));
  e.rot_chunk = oneof<unsigned>({200, 64, 1000}); e.rot_chunks = 12000 / e.rot_chunk + 2;
  e.b.dots = choose(2); e.b.lifo = choose(2);
  e.mount(); e.shims(2, true);
  unsigned fib = range(2, e.bot == E_STDIO ? 2 : 3), steps = range(6, g_cfg.thorough ? 60 : 30);
  std::vector<Worker> ws; std::vector<RoClient> rs; std::string V = e.top, cwd = "/";
  ws.reserve(fib); rs.reserve(fib);
  if(!e.ro) {
    std::map<std::string, std::string> cf; std::set<std::string> cd; bool common = choose(2); if(common) fill_common(V, cf, cd);
    unsigned fields = 0; bool sizes = a_ctrl(EVFS_CMD_GET_DIR_FIELDS, &fields, V.c_str()) == EVFS_OK && (fields & EVFS_INFO_SIZE);
    unsigned rel_of = choose(fib + 1);
    for(unsigned i = 0; i < fib; i++) {
      bool shared = common && i && choose(2); std::string home = shared ? "/common" : strf("/w%u", i);
      if(!shared) CHECKV(a_mkdir(home, V.c_str()) == EVFS_OK, "setup", "mkdir failed");
      Worker w(V, home, 1000 + i); w.plain = !e.rotate; w.max_open = 3; w.dir_sizes = sizes;
      if(shared) { w.writes = false; for(auto &f : cf) w.files[f.first] = f.second; for(auto &d : cd) w.dirs.insert(d); }
      if(i == rel_of) { CHECKV(a_chdir(home, V.c_str()) == EVFS_OK, "setup", "chdir failed"); cwd = home; }
      ws.push_back(w);
    }
    for(auto &w : ws) w.rel = w.home == cwd;
  } else {
    std::vector<std::string> ds; for(auto &x : e.t) if(x.second.dir && x.first.size() < 100) ds.push_back(x.first);
    if(choose(2)) { cwd = oneof(ds); CHECKV(a_chdir(cwd, V.c_str()) == EVFS_OK, "setup", "chdir failed"); }
    for(unsigned i = 0; i < fib; i++) { RoClient c; c.mounts = {V}; c.t = &e.t; c.listing = e.listing; c.cwd_ops = false; c.cwd = cwd; c.image = e.mem; rs.push_back(c); }
  }
  set_preempt(true, oneof<uint32_t>({6, 20, 80, 300}), choose(3)); step_budget(60000000);
  for(unsigned i = 0; i < fib; i++) spawn([&, i] { for(unsigned k = 0; k < steps; k++) if(e.ro) rs[i].step(); else ws[i].step(); if(e.ro) rs[i].close_all(); else ws[i].close_all(); }, "client");
  join_all(); set_preempt(false, 0, 0);
  unsigned done = 0;
  if(e.ro) { rs[0].sweep(); for(auto &r : rs) done += r.delivered > 0; } else for(auto &w : ws) { if(w.writes || &w == &ws.back()) w.verify(); done += w.done > 3; }
  if(done >= 2) nontrivial();
  count_probe(strf("on_%s", bottom_name(e.bot)).c_str()); if(e.names.size() > 1) PROBE("shims");
  if(e.rotate) PROBE("rotate-shim");
  e.finish();
}

// ---- C14
void c14() {
  Env e; evfs_init(); bool rf = choose(2);
  e.reg = [&](const char *what, const std::function<int()> &f) { for(unsigned n = 0;; n++) { bool faulty = rf && n < 6 && choose(3); if(faulty) { e.arm(oneof<uint32_t>({4, 15})); alloc_fault_next(geom(3), choose(2)); lock_init_fault(geom(2)); } int st = api(what, f); e.calm(); if(st == EVFS_OK || !faulty) return st; PROBE("registration_failed"); } };
  e.prepare(oneof<int>({E_BASE, E_BASE, E_STDIO, E_FAT, E_LFS, E_TAR, E_TARM, E_ROM, E_ROMM}));
  e.rot_chunk = oneof<unsigned>({40, 200}); e.rot_chunks = oneof<unsigned>({2, 4});
  if(e.bot == E_BASE) for(auto p : {"/d/a", "/file.txt"}) e.b.put_file(p, content(9, 0, 300));
  e.mount(); e.shims(2, true);
  unsigned fib = e.bot == E_FAT || choose(3) == 0 ? 1 : range(2, 3), steps = range(10, g_cfg.thorough ? 120 : 50);
  std::vector<Chaos> cs(fib); for(unsigned i = 0; i < fib; i++) { cs[i].V = !e.rotate && choose(3) == 0 ? oneof(e.names.empty() ? std::vector<std::string>{"base"} : e.names) : e.top; cs[i].chd = fib == 1; cs[i].extra = i == 0; cs[i].careful = e.bot == E_FAT; cs[i].x = strf("x%u", i); }
  uint32_t mean = oneof<uint32_t>({0, 3, 8, 30}), am = oneof<uint32_t>({0, 2, 8}); if(mean) e.arm(mean);
  set_preempt(true, oneof<uint32_t>({6, 20, 80, 300}), choose(3)); step_budget(60000000);
  for(unsigned i = 0; i < fib; i++) spawn([&, i] { for(unsigned k = 0; k < steps; k++) { if(am && !choose(3)) { alloc_fault_next(geom(am), choose(3)); lock_init_fault(geom(2)); } cs[i].step(); } cs[i].close_all(); }, "client");
  join_all(); e.calm(); unsigned calls = 0, good = 0; for(auto &c : cs) calls += c.calls, good += c.good;
  // the faults are over: everybody gets on
  step_budget(60000000);
  for(unsigned i = 0; i < fib; i++) spawn([&, i] { Chaos c; c.V = e.top; c.careful = e.bot == E_FAT; std::vector<std::string> all = e.names; if(all.empty()) all = {"base"};
    for(auto &v : all) { EvfsInfo in; EvfsDir *d; EvfsFile *f; DirEnt en; std::string s; a_stat("/", &in, v.c_str()); a_getcwd(s, v.c_str()); if(a_opendir("/", &d, v.c_str()) == EVFS_OK) { unsigned n = 0; while(a_dirread(d, en) == EVFS_OK && n < 4000) n++; a_dirclose(d); } if(a_open(strf("/p%u", i), &f, e.ro ? EVFS_READ : EVFS_RDWR | EVFS_OPEN_OR_NEW, v.c_str()) == EVFS_OK) { a_write(f, "x"); a_close(f); } }
    for(unsigned k = 0; k < 12; k++) c.step(); c.close_all(); PROBE("progress_phases"); }, "after");
  join_all(); set_preempt(false, 0, 0);
  if(calls > good && good > 3) nontrivial();
  count_probe(strf("on_%s", bottom_name(e.bot)).c_str()); if(fib > 1) PROBE("several-threads"); if(calls > good) PROBE("failed-calls");
  e.finish();
}
} // namespace
SCENARIO("C13", c13, 60000000, "a run counts when at least two threads got something done on the shared filesystem");
SCENARIO("C14", c14, 60000000, "a run counts when some calls failed and others succeeded");
