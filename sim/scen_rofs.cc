// C12: read-only filesystems refuse every change.
#include "ro.h"
#include "fat.h"
#include "hostio.h"
#include "lfs_sim.h"
extern "C" {
#include "evfs/stdio_fs.h"
#include "evfs/littlefs_fs.h"
#include "evfs/shim/shim_rotate.h"
}
using namespace sim;
namespace {
int quiet(const char *, void *) { return 0; }
char *copy_of(const std::string &s) { char *p = (char *)::operator new(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); return p; }

// One refused operation on vfs; `exists` tells whether the path names something, `src` is an open readable file.
void refuse_one(const char *V, const std::string &p, const std::string &q, bool exists, EvfsFile *src) {
  switch(weighted({8, 3, 3, 3, 2, src ? 2u : 0u})) {
  case 0: {
    int fl = (int)range(1, 63); EvfsFile *f; int st = a_open(p, &f, fl, V);
    if(st != EVFS_OK) { CHECKV(st < 0, "open-status", "a refused open reports %d", st); break; }
    CHECKV(!(fl & (EVFS_WRITE | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)), "write-open-accepted", "opening %s with flags %x succeeded on a read-only filesystem", p.c_str(), fl);
    CHECKV(exists, "created", "opening the missing %s with flags %x succeeded on a read-only filesystem", p.c_str(), fl);
    CHECKV(a_write(f, content(5, 0, range(1, 50))) < 0 && a_trunc(f, range(0, 9)) < 0, "write-accepted", "a file on a read-only filesystem accepts a change"); CHECKV(a_close(f) == EVFS_OK, "close", "closing an unchanged file failed"); break; }
  case 1: CHECKV(a_delete(p, V) < 0, "delete-accepted", "deleting %s succeeded on a read-only filesystem", p.c_str()); break;
  case 2: CHECKV(a_rename(p, q, V) < 0, "rename-accepted", "renaming %s to %s succeeded on a read-only filesystem", p.c_str(), q.c_str()); break;
  case 3: CHECKV(a_mkdir(q, V) < 0, "mkdir-accepted", "creating directory %s succeeded on a read-only filesystem", q.c_str()); break;
  case 4: { std::string n = "/new" + p + "/x"; ev("make_path %s", n.c_str()); int st = api("make_path", [&] { return evfs_make_path_ex(n.c_str(), V); }); CHECKV(st < 0, "mkdir-accepted", "making the path %s reports %d on a read-only filesystem", n.c_str(), st); break; }
  default: { char buf[64]; int st = api("copy", [&] { return evfs_copy_to_file_ex(q.c_str(), src, buf, sizeof buf, V); }); CHECKV(st < 0, "copy-accepted", "copying to %s reports %d on a read-only filesystem", q.c_str(), st); }
  }
}

// ------------------------------------------------------------- archives
void archives() {
  SimFs b("base"); b.yields = false; evfs_init(); b.reg(true);
  bool tar = choose(2), mem = choose(2), faults = choose(4) == 0; Tree t; std::vector<size_t> heads; std::string img = tar ? make_tar(t, &heads) : make_rom(t, &heads);
  b.put_file("/img", img); b.put_file("/src", content(7, 0, range(0, 600))); char *m = copy_of(img); EvfsFile *f, *src; int st;
  if(mem) st = tar ? evfs_register_tar_rsrc_fs("arc", (uint8_t *)m, img.size(), false) : evfs_register_rsrc_romfs("arc", (const uint8_t *)m, img.size(), false);
  else { // the medium itself may be open for writing
    CHECKV(a_open("/img", &f, choose(2) ? EVFS_RDWR : EVFS_READ, "base") == EVFS_OK, "setup", "the medium can't be opened");
    st = tar ? evfs_register_tar_fs("arc", f, false) : evfs_register_romfs("arc", f, false); }
  CHECKV(st == EVFS_OK, "mount-refused", "mounting a well-formed archive fails (%d)", st);
  CHECKV(a_open("/src", &src, EVFS_READ, "base") == EVFS_OK, "setup", "open failed");
  RoClient c; c.t = &t; c.medium = &b; c.faults = faults; c.listing = !tar; c.addr_check = !mem; c.mounts = {"arc"}; std::vector<std::string> tops = {"arc"};
  if(choose(2)) { CHECKV(evfs_register_trace("tr", "arc", quiet, nullptr, choose(2)) == EVFS_OK, "setup", "trace"); c.mounts.push_back("tr"); c.cwd_ops = false; tops.push_back("tr"); } // the two share one current directory
  if(choose(2)) { if(evfs_register_jail("jl", tops.back().c_str(), "/", false) == EVFS_OK) tops.push_back("jl"); }
  if(choose(2)) { RotateConfig rc = {64, 4}; if(evfs_register_rotate("rot", tops[choose((uint32_t)tops.size())].c_str(), &rc, false) == EVFS_OK) tops.push_back("rot"); }
  b.readonly_medium = true; std::string before = b.dump();
  if(faults) { b.faults.mean[OP_READ] = b.faults.mean[OP_SEEK] = oneof<uint32_t>({10, 40}); b.faults_on = true; b.arm(); }
  unsigned n = range(10, g_cfg.thorough ? 160 : 80);
  for(unsigned i = 0; i < n; i++) {
    if(choose(3) == 0) { c.step(); continue; }
    std::string p = c.pick(), q = choose(2) ? c.pick() : "/n" + some_name(8, 3); const Stored *s = c.find(p); bool ex = s || c.implicit(p);
    const std::string &V = oneof(tops);
    if(V == "rot" && p.size() > 200) continue;
    refuse_one(V.c_str(), p, q, ex, faults ? nullptr : src); nontrivial();
    if(c.hs.size() && choose(3) == 0) { auto &h = c.hs[choose((uint32_t)c.hs.size())]; for(auto x : h.f) { CHECKV(a_write(x, "zz") < 0 && a_trunc(x, range(0, 40)) < 0, "write-accepted", "an open file of an archive accepts a change"); CHECKV(evfs_file_puts(x, "text") < 0 && evfs_file_printf(x, "%d", 12) < 0, "write-accepted", "an open file of an archive accepts printed text"); a_sync(x); } }
    CHECKV(b.write_attempts.empty(), "medium-written", "a read-only mount tried to change its medium: %s", b.write_attempts[0].c_str());
  }
  b.faults_stop(); c.faults = false; c.close_all(); c.sweep();
  CHECKV(b.write_attempts.empty(), "medium-written", "a read-only mount tried to change its medium: %s", b.write_attempts[0].c_str());
  CHECKV(b.dump() == before, "medium-changed", "the medium of a read-only mount changed");
  CHECKV(!memcmp(m, img.data(), img.size()), "medium-changed", "the memory image changed");
  a_close(src); for(size_t i = tops.size(); i-- > 0;) CHECKV(evfs_unregister(evfs_find_vfs(tops[i].c_str())) == EVFS_OK, "unregister", "unregistering failed");
  ::operator delete(m); b.unreg(); CHECKV(b.write_attempts.empty() && b.dump() == before, "medium-changed", "the medium changed while unmounting");
}

// ------------------------------------------------------------- switched to read-only
struct Backend { std::string vfs; std::function<std::string()> state; std::function<std::vector<std::string>()> attempts; std::function<void(bool)> watch; };
void toggled(unsigned kind) {
  SimFs b("base"); b.yields = false; b.quiet = true; evfs_init(); b.reg(true); b.put_file("/src", content(7, 0, range(1, 600)));
  HostFs h; g_lfs = LfsCtl(); RamDev ram(512); FatVol fv{"/vol.img", "fat", (uint8_t)choose(2), oneof<uint32_t>({300000, 1000000})}; Backend k;
  if(kind == 0) {
    h.start(scratch_dir() + "/h"); CHECKV(evfs_register_stdio(false) == EVFS_OK, "setup", "stdio");
    k = {"stdio", [&] { return h.dump(); }, [&] { return h.changing; }, [&](bool on) { h.record = on; h.changing.clear(); }};
  } else if(kind == 1) {
    CHECKV(fat_make(fv) == EVFS_OK && fat_mount(fv) == EVFS_OK && fat_reg(fv) == EVFS_OK, "setup", "fat");
    k = {"fat", [&] { return b.dump(); }, [&] { return b.write_attempts; }, [&](bool on) { b.readonly_medium = on; b.write_attempts.clear(); }};
  } else {
    CHECKV(!lfs_format(&ram.lfs, &ram.cfg) && !lfs_mount(&ram.lfs, &ram.cfg) && evfs_register_littlefs("lfs", &ram.lfs, false) == EVFS_OK, "setup", "lfs");
    k = {"lfs", [&] { return ram.mem; }, [&] { return g_lfs.changing; }, [&](bool on) { g_lfs.dirty_calls = on; g_lfs.changing.clear(); }};
  }
  std::vector<std::string> tops = {k.vfs};
  if(choose(2)) { CHECKV(evfs_register_trace("tr", k.vfs.c_str(), quiet, nullptr, false) == EVFS_OK, "setup", "trace"); tops.push_back("tr"); }
  if(choose(3) == 0) { CHECKV(evfs_register_jail("jl", tops.back().c_str(), "/", false) == EVFS_OK, "setup", "jail"); tops.push_back("jl"); }
  auto top = [&] { return tops[choose((uint32_t)tops.size())]; };
  EvfsFile *src; CHECKV(a_open("/src", &src, EVFS_READ, "base") == EVFS_OK, "setup", "open failed");
  std::map<std::string, std::string> files; std::set<std::string> dirs = {"/"};
  CHECKV(a_mkdir("/d", k.vfs.c_str()) == EVFS_OK, "setup", "mkdir"); dirs.insert("/d");
  static const std::vector<std::string> P = {"/f0", "/f1", "/d/f0", "/d/g", "/e", "/d", "/none/x"};
  struct O { EvfsFile *f; std::string p, data; size_t pos; bool wr; }; std::vector<O> os; uint64_t off = 0;
  auto busy = [&](const std::string &p, bool wr) { for(auto &o : os) if(o.p == p && (wr || o.wr)) return true; return false; };
  auto read = [&](O &o) { std::string g; size_t n = range(1, 500); ptrdiff_t r = a_read(o.f, g, n); size_t want = std::min(n, o.data.size() - o.pos); CHECKV((size_t)r == want && !o.data.compare(o.pos, want, g), "read", "a read of %s delivers %td bytes, expected %zu", o.p.c_str(), r, want); o.pos += want; };
  auto open_rd = [&](const std::string &p) { if(os.size() > 3 || dirs.count(p) || busy(p, false)) return; O o{nullptr, p, "", 0, false}; int st = a_open(p, &o.f, EVFS_READ, top().c_str());
    bool have = files.count(p); CHECKV((st == EVFS_OK) == have, "read-open", "opening %s for reading reports %d", p.c_str(), st); if(have) { o.data = files[p]; os.push_back(o); } };
  auto close = [&](size_t i) { O o = os[i]; os.erase(os.begin() + i); CHECKV(a_close(o.f) == EVFS_OK, "close", "closing %s failed", o.p.c_str()); if(o.wr) files[o.p] = o.data; };
  auto stat_all = [&] { for(auto &p : P) { EvfsInfo i; int st = a_stat(p, &i, top().c_str()); CHECKV((st == EVFS_OK) == (files.count(p) || dirs.count(p)), "stat", "stat of %s reports %d", p.c_str(), st); if(st == EVFS_OK) CHECKV(!!(i.type & EVFS_FILE_DIR) == !!dirs.count(p) && (dirs.count(p) || busy(p, false) || (size_t)i.size == files[p].size()), "stat", "stat of %s delivers wrong values", p.c_str()); } };
  auto list = [&] { std::string d = choose(2) ? "/" : "/d"; EvfsDir *x; DirEnt e; std::set<std::string> s; int st; CHECKV(a_opendir(d, &x, top().c_str()) == EVFS_OK, "list", "listing %s failed", d.c_str()); while((st = a_dirread(x, e)) == EVFS_OK) if(e.name != "." && e.name != "..") s.insert((d == "/" ? "/" : d + "/") + e.name); a_dirclose(x);
    for(auto &f : files) if(f.first.substr(0, f.first.rfind('/') ? f.first.rfind('/') : 1) == d) CHECKV(s.count(f.first), "list", "a listing misses %s", f.first.c_str()); };
  unsigned phases = range(2, g_cfg.thorough ? 8 : 5);
  for(unsigned ph = 0; ph < phases; ph++) {
    // writable
    unsigned n = range(3, 30);
    for(unsigned i = 0; i < n; i++) { std::string p = oneof(P); std::string V = top();
      switch(weighted({4, 6, 3, 2, 2, 2, 2, 2})) {
      case 0: { if(os.size() > 3 || dirs.count(p) || busy(p, true) || p == "/none/x") break; O o{nullptr, p, "", 0, true}; bool have = files.count(p); int fl = EVFS_RDWR | (have ? oneof<int>({0, EVFS_OPEN_OR_NEW, EVFS_OVERWRITE}) : oneof<int>({EVFS_OPEN_OR_NEW, EVFS_OVERWRITE, EVFS_NO_EXIST}));
        int st = a_open(p, &o.f, fl, V.c_str()); CHECKV(st == EVFS_OK, "write-open", "opening %s with flags %x reports %d although the filesystem is writable", p.c_str(), fl, st); if(have && !(fl & EVFS_OVERWRITE)) o.data = files[p]; files[p] = o.data; os.push_back(o); break; }
      case 1: { if(os.empty()) break; O &o = os[choose((uint32_t)os.size())]; if(!o.wr) break; std::string s = content(9, off, range(1, 400)); off += s.size(); CHECKV(a_write(o.f, s) == (ptrdiff_t)s.size(), "write", "a write fails although the filesystem is writable"); if(o.data.size() < o.pos + s.size()) o.data.resize(o.pos + s.size()); o.data.replace(o.pos, s.size(), s); o.pos += s.size(); break; }
      case 2: if(os.size()) { O &o = os[choose((uint32_t)os.size())]; size_t p2 = range(0, (uint32_t)o.data.size()); CHECKV(a_seek(o.f, p2, EVFS_SEEK_TO) == EVFS_OK, "seek", "seek failed"); o.pos = p2; read(o); } break;
      case 3: if(os.size()) close(choose((uint32_t)os.size())); break;
      case 4: if(files.count(p) && !busy(p, true)) { CHECKV(a_delete(p, V.c_str()) == EVFS_OK, "delete", "delete fails although the filesystem is writable"); files.erase(p); } break;
      case 5: { std::string q = oneof(P); if(!files.count(p) || files.count(q) || dirs.count(q) || q == "/none/x" || busy(p, true) || busy(q, true)) break; CHECKV(a_rename(p, q, V.c_str()) == EVFS_OK, "rename", "rename fails although the filesystem is writable"); files[q] = files[p]; files.erase(p); break; }
      case 6: if(p == "/e" && !files.count(p) && !dirs.count(p)) { CHECKV(a_mkdir(p, V.c_str()) == EVFS_OK, "mkdir", "mkdir fails although the filesystem is writable"); dirs.insert(p); } break;
      default: open_rd(p); } }
    for(auto &o : os) if(o.wr) { CHECKV(a_sync(o.f) == EVFS_OK, "sync", "sync failed"); files[o.p] = o.data; }
    // read-only
    std::string state = k.state(); unsigned one = 1 + choose(2), zero = 0; CHECKV(a_ctrl(EVFS_CMD_SET_READONLY, &one, top().c_str()) == EVFS_OK, "switch", "switching to read-only failed"); k.watch(true);
    n = range(5, 60);
    auto check = [&] { auto a = k.attempts(); CHECKV(a.empty(), "medium-written", "while read-only a change reached the medium: %s", a[0].c_str()); };
    for(unsigned i = 0; i < n; i++) {
      std::string p = oneof(P), q = oneof(P);
      switch(weighted({9, 3, 3, 2, 1, 1, 2})) {
      case 0: refuse_one(top().c_str(), p, q, files.count(p) || dirs.count(p), src); break;
      case 1: { if(os.empty()) break; O &o = os[choose((uint32_t)os.size())]; // also through handles opened for writing before
        switch(choose(4)) { case 0: CHECKV(a_write(o.f, content(5, 0, range(1, 50))) < 0, "write-accepted", "a write to %s succeeds while read-only is set", o.p.c_str()); break;
          case 1: CHECKV(a_trunc(o.f, range(0, 20)) < 0, "truncate-accepted", "truncating %s succeeds while read-only is set", o.p.c_str()); break;
          case 2: CHECKV(evfs_file_puts(o.f, "text") < 0, "write-accepted", "printing to %s succeeds while read-only is set", o.p.c_str()); break;
          default: CHECKV(evfs_file_printf(o.f, "%s", "text") < 0, "write-accepted", "printing to %s succeeds while read-only is set", o.p.c_str()); }
        CHECKV((size_t)a_tell(o.f) == o.pos && (size_t)a_size(o.f) == o.data.size(), "position", "a refused operation moved the position or size of %s", o.p.c_str()); PROBE("refused_on_open_handle"); break; }
      case 2: if(os.size()) { O &o = os[choose((uint32_t)os.size())]; size_t p2 = range(0, (uint32_t)o.data.size()); CHECKV(a_seek(o.f, p2, EVFS_SEEK_TO) == EVFS_OK, "seek", "seek failed while read-only"); o.pos = p2; read(o); } break;
      case 3: open_rd(p); break;
      case 4: stat_all(); break;
      case 5: list(); break;
      default: if(os.size()) { size_t j = choose((uint32_t)os.size()); if(choose(2)) { CHECKV(a_sync(os[j].f) == EVFS_OK, "sync", "syncing an unchanged file fails while read-only"); } else close(j); } }
      if(kind != 1) check();
    }
    if(choose(3) == 0) while(os.size()) close(os.size() - 1);
    check(); CHECKV(k.state() == state, "medium-changed", "the medium changed while read-only was set"); nontrivial();
    k.watch(false); CHECKV(a_ctrl(EVFS_CMD_SET_READONLY, &zero, top().c_str()) == EVFS_OK, "switch", "switching read-only off failed");
  }
  // writing works again
  while(os.size()) close(os.size() - 1);
  { EvfsFile *f; CHECKV(a_open("/f9", &f, EVFS_RDWR | EVFS_OVERWRITE, top().c_str()) == EVFS_OK && a_write(f, "again") == 5 && a_close(f) == EVFS_OK && a_delete("/f9", top().c_str()) == EVFS_OK, "write-again", "writing does not work after read-only was switched off"); }
  for(auto &x : files) { EvfsFile *f; CHECKV(a_open(x.first, &f, EVFS_READ, k.vfs.c_str()) == EVFS_OK, "lost", "%s can't be opened", x.first.c_str()); std::string g, part; while(a_read(f, part, 900) > 0) g += part; a_close(f); CHECKV(g == x.second, "content", "%s holds other bytes than were written", x.first.c_str()); }
  a_close(src); for(size_t i = tops.size(); i-- > 0;) evfs_unregister(evfs_find_vfs(tops[i].c_str()));
  if(kind == 1) fat_unmount(fv);
  if(kind == 2) lfs_unmount(&ram.lfs);
}
void c12() { switch(weighted({5, 3, 2, 3})) { case 0: archives(); break; case 1: toggled(0); break; case 2: toggled(1); break; default: toggled(2); } }
SCENARIO("C12", c12, 100000000, "a change was attempted on a read-only mount or on a filesystem switched to read-only");
} // namespace
