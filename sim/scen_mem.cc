// C17: memory runs out.  C18: everything is released exactly once.
#include "env.h"
#include "chaos.h"
using namespace sim;
namespace {
const std::vector<int> ALLB = {E_BASE, E_BASE, E_STDIO, E_FAT, E_LFS, E_TAR, E_TARM, E_ROM, E_ROMM};

void c17() {
  Env e; evfs_init();
  // registering: fail at every allocation in turn, or only now and then
  bool sweep = choose(2);
  auto fail_reg = [&](const char *what, const std::function<int()> &f) { std::set<std::string> had;
    for(uint32_t n = 1;; n++) { uint64_t a0 = allocs_live(), f0 = alloc_faults_fired(), l0 = lock_init_faults_fired(); int h0 = e.b.open_files + e.b.open_dirs, k0 = locks_live(); bool lk = sweep && choose(8) == 0;
      if(sweep && n < 60) { if(lk) lock_init_fault(1); else alloc_fault_next(n, choose(4) ? 0 : 3); } else if(!sweep && n < 4 && choose(2)) alloc_fault_next(range(1, 30), choose(3));
      int st = api(what, f); bool hit = alloc_faults_fired() != f0 || lock_init_faults_fired() != l0; alloc_faults_off(); lock_init_fault(0);
      if(st == EVFS_OK) { if(hit) PROBE("registered_despite_fault"); return st; }
      CHECKV(hit, "setup", "%s fails (%d) although memory is available", what, st); PROBE("registration_failed");
      CHECKV(allocs_live() == a0, "reg-leak", "a failed %s (%d) leaves memory behind: %s", what, st, allocs_describe().c_str());
      CHECKV(e.b.open_files + e.b.open_dirs == h0, "reg-leak", "a failed %s (%d) leaves %d files of the base open", what, st, e.b.open_files + e.b.open_dirs - h0);
      CHECKV(locks_live() == k0, "reg-leak", "a failed %s (%d) leaves a lock behind", what, st);
      for(auto nm : {"stdio", "fat", "lfs", "arc", "s0", "s1", "s2", "s3"}) if(evfs_find_vfs(nm)) { bool known = false; for(auto &x : e.names) if(x == nm) known = true; CHECKV(known, "half-registered", "%s stays registered although registering it reported %d", nm, st); } } };
  e.reg = fail_reg;
  e.prepare(oneof(ALLB)); e.b.yields = false;
  e.rot_chunk = oneof<unsigned>({64, 200, 1000}); e.rot_chunks = 12000 / e.rot_chunk + 2;
  e.mount(); e.shims(2, true);
  std::string V = e.top; uint32_t mean = oneof<uint32_t>({3, 1, 6}); unsigned steps = range(8, g_cfg.thorough ? 140 : 70); uint64_t seen = alloc_faults_fired();
  auto arm = [&] { if(choose(3)) alloc_fault_next(geom(mean), oneof<uint32_t>({0, 0, 1, 50})); };
  unsigned hits = 0; {
  Ledger led(e);
  unsigned kind = e.ro ? choose(3) : weighted({4, 1});
  if((e.ro && kind == 2) || (!e.ro && kind == 1)) { // anything at all
    Chaos c; c.V = V; c.chd = true; c.careful = e.bot == E_FAT; c.extra = true; c.x = "xx";
    for(unsigned k = 0; k < steps; k++) { arm(); c.step(); alloc_faults_off(); } c.close_all(); PROBE("chaos");
  } else if(e.ro) {
    RoClient c; c.mounts = {V}; c.t = &e.t; c.listing = e.listing; c.image = e.mem; c.faults = true; c.pre = arm; c.other = [] { return alloc_faults_fired(); };
    for(unsigned k = 0; k < steps; k++) { c.step(); alloc_faults_off(); } c.close_all(); c.sweep(); c.close_all();
  } else {
    std::string home = "/h"; CHECKV(a_mkdir(home, V.c_str()) == EVFS_OK, "setup", "mkdir failed");
    Worker w(V, home, 500); w.plain = !e.rotate; w.keep = true; uint64_t at = 0; w.before = [&] { at = alloc_faults_fired(); arm(); }; w.hurt = [&] { return alloc_faults_fired() != at; }; w.hits = [&] { return (unsigned)(alloc_faults_fired() - at); };
    unsigned fields = 0; w.dir_sizes = a_ctrl(EVFS_CMD_GET_DIR_FIELDS, &fields, V.c_str()) == EVFS_OK && (fields & EVFS_INFO_SIZE);
    if(choose(3) == 0) { w.rel = a_chdir(home, V.c_str()) == EVFS_OK; }
    for(unsigned k = 0; k < steps; k++) w.step();
    w.close_all(); alloc_faults_off(); w.before = [] {}; w.hurt = [] { return false; }; w.settle(); w.verify();
    for(unsigned k = 0; k < 10; k++) w.step(); w.close_all(); w.verify();
  }
  hits = (unsigned)(alloc_faults_fired() - seen); if(hits > 0 && led.failed_hit) nontrivial(); }
  count_probe(strf("on_%s", bottom_name(e.bot)).c_str()); if(e.rotate) PROBE("rotate-shim");
  e.finish();
}

void c18() {
  Env e; evfs_init(); bool rf = choose(2);
  e.reg = [&](const char *what, const std::function<int()> &f) { for(unsigned n = 0;; n++) { bool faulty = rf && n < 6 && choose(3); if(faulty) { e.arm(oneof<uint32_t>({4, 15})); if(choose(2)) alloc_fault_next(geom(4), choose(2)); lock_init_fault(geom(2)); }
    uint64_t a0 = allocs_live(), f0 = e.fired(); int h0 = e.b.open_files + e.b.open_dirs, st = api(what, f); bool hit = e.fired() != f0; e.calm(); if(st == EVFS_OK) return st;
    CHECKV(hit, "setup", "%s fails (%d) although nothing else failed", what, st); PROBE("registration_failed");
    CHECKV(allocs_live() == a0, "reg-leak", "a failed %s (%d) leaves memory behind: %s", what, st, allocs_describe().c_str()); CHECKV(e.b.open_files + e.b.open_dirs == h0, "reg-leak", "a failed %s (%d) leaves base files open", what, st); if(!faulty) return st; } };
  e.prepare(oneof(ALLB)); e.b.yields = false; e.b.lifo = choose(2); e.b.dots = choose(2);
  e.rot_chunk = oneof<unsigned>({40, 200}); e.rot_chunks = oneof<unsigned>({2, 4, 9});
  if(e.bot == E_BASE) for(auto p : {"/d/a", "/file.txt"}) e.b.put_file(p, content(9, 0, 300));
  unsigned epochs = range(1, 3), calls = 0, good = 0;
  for(unsigned ep = 0; ep < epochs; ep++) {
    e.mount(); e.shims(3, true);
    unsigned nc = range(1, 3), steps = range(6, g_cfg.thorough ? 120 : 60); std::vector<Chaos> cs(nc);
    for(unsigned i = 0; i < nc; i++) { cs[i].V = !e.rotate && choose(3) == 0 ? oneof(e.names.empty() ? std::vector<std::string>{"base"} : e.names) : e.top; cs[i].chd = true; cs[i].extra = i == 0; cs[i].careful = e.bot == E_FAT; cs[i].x = strf("x%u", i); }
    uint32_t mean = oneof<uint32_t>({0, 4, 15, 60}), am = oneof<uint32_t>({0, 3, 10});
    { Ledger led(e); if(mean) e.arm(mean);
      for(unsigned k = 0; k < steps; k++) { if(am && choose(2)) alloc_fault_next(geom(am), choose(3)); Chaos &c = cs[choose(nc)]; c.step();
        if(choose(30) == 0 && e.names.size()) { // a name in use: nothing changes, whatever was passed
          led.active = false; std::string n = oneof(e.names), under = oneof(e.names); uint64_t a0 = allocs_live(); int st = api("register jail", [&] { return evfs_register_jail(n.c_str(), under.c_str(), "/", false); }); (void)st; led.active = true;
          CHECKV(allocs_live() == a0, "reg-leak", "registering the name %s again leaves memory behind (%d)", n.c_str(), st); PROBE("duplicate_name"); } }
      for(auto &c : cs) { if(choose(2)) e.b.faults_on = e.b.faults_on; c.close_all(); calls += c.calls; good += c.good; } }
    e.calm();
    if(ep + 1 < epochs) { e.unmount_all(); e.b.check_handles("after everything was unregistered"); CHECKV(allocs_live() == 0, "leak", "memory stays allocated: %s", allocs_describe().c_str()); e.rotate = false; e.worn = true; e.top = "base"; if(e.bot == E_LFS) { int le = lfs_mount(&e.ram.lfs, &e.ram.cfg); CHECKV(!le, "setup", "mounting the littlefs stand-in again failed (%d)", le); }; }
  }
  if(calls > good && good > 3) nontrivial();
  count_probe(strf("on_%s", bottom_name(e.bot)).c_str()); if(e.rotate) PROBE("rotate-shim"); if(calls > good) PROBE("failed-calls");
  e.finish();
}
} // namespace
SCENARIO("C17", c17, 100000000, "a run counts when memory ran out during calls on a mounted filesystem and a call failed");
SCENARIO("C18", c18, 100000000, "a run counts when some calls failed and others succeeded before everything was released");
