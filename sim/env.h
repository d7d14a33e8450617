// Any bottom filesystem under any stack of shims, and self-checking clients
// for it: used by the properties that hold "on every filesystem and shim".
#pragma once
#include "ro.h"
#include "fat.h"
#include "hostio.h"
#include "lfs_sim.h"
extern "C" {
#include "evfs/stdio_fs.h"
#include "evfs/littlefs_fs.h"
#include "evfs/shim/shim_rotate.h"
}
namespace sim {
enum Bottom { E_BASE, E_STDIO, E_FAT, E_LFS, E_TAR, E_TARM, E_ROM, E_ROMM };
inline const char *bottom_name(int b) { static const char *n[] = {"simfs", "stdio", "fat", "lfs", "tar", "tarmem", "rom", "rommem"}; return n[b]; }
int env_quiet(const char *, void *);

struct Env {
  SimFs b{"base"}; HostFs h; RamDev ram{512}; FatVol fv{"/vol.img", "fat", 0, 300000};
  int bot = E_BASE; bool worn = false /* the medium has seen faults */, ro = false, listing = true, rotate = false; Tree t; std::string img; char *mem = nullptr;
  std::vector<std::string> names;                 // registered, bottom first
  std::string top;                                // the filesystem to use
  std::map<std::string, std::string> jails;       // jail -> its root
  std::string below_rotate, rotate_prefix;        // what a rotate shim covers, and where the top's / is in it
  unsigned rot_chunk = 4096, rot_chunks = 64;
  // registering: how it is called is left to the property
  std::function<int(const char *, const std::function<int()> &)> reg = [](const char *what, const std::function<int()> &f) { return api(what, f); };
  void must(const char *what, const std::function<int()> &f, const std::string &name) {
    int st = reg(what, f); CHECKV(st == EVFS_OK, "setup", "%s failed (%d)", what, st); names.push_back(name); top = name; }
  // make the medium; nothing is registered yet but the base
  void prepare(int bottom) {
    bot = bottom; b.yields = true; b.reg(true); fv.pdrv = 0;
    switch(bot) {
    case E_STDIO: h.start(scratch_dir() + "/h"); h.no_dtype = choose(4) == 0; break;
    case E_FAT: { bool y = b.yields; b.yields = false; b.quiet = true; CHECKV(fat_make(fv) == EVFS_OK, "setup", "making a FAT image failed"); b.yields = y; break; }
    case E_LFS: g_lfs = LfsCtl(); CHECKV(!lfs_format(&ram.lfs, &ram.cfg) && !lfs_mount(&ram.lfs, &ram.cfg), "setup", "the littlefs stand-in failed"); break;
    case E_TAR: case E_TARM: img = make_tar(t, nullptr); break;
    case E_ROM: case E_ROMM: img = make_rom(t, nullptr); break; }
    if(bot >= E_TAR) { ro = true; listing = bot >= E_ROM; b.put_file("/img", img); if(bot == E_TARM || bot == E_ROMM) { mem = (char *)::operator new(img.size()); memcpy(mem, img.data(), img.size()); } }
    top = "base";
  }
  void mount() {
    switch(bot) {
    case E_STDIO: must("register stdio", [] { return evfs_register_stdio(false); }, "stdio"); break;
    case E_FAT: { int st = reg("mount FAT", [&] { return fatfs_mount_image(fv.img.c_str(), fv.pdrv); }); CHECKV(st == EVFS_OK, "setup", "mounting failed (%d)", st); must("register FAT", [&] { return evfs_register_fatfs("fat", fv.pdrv, false); }, "fat"); break; }
    case E_LFS: must("register littlefs", [&] { return evfs_register_littlefs("lfs", &ram.lfs, false); }, "lfs"); break;
    case E_TAR: case E_ROM: must("mount image", [&] { EvfsFile *f; int st = evfs_open_ex("/img", &f, EVFS_READ, "base"); if(st != EVFS_OK) return st; st = bot == E_TAR ? evfs_register_tar_fs("arc", f, false) : evfs_register_romfs("arc", f, false); if(st != EVFS_OK) evfs_file_close(f); return st; }, "arc"); break;
    case E_TARM: case E_ROMM: must("mount memory image", [&] { return bot == E_TARM ? evfs_register_tar_rsrc_fs("arc", (uint8_t *)mem, img.size(), false) : evfs_register_rsrc_romfs("arc", (const uint8_t *)mem, img.size(), false); }, "arc"); break; }
  }
  // 0 jail, 1 trace, 2 rotate
  void shim(unsigned kind) {
    std::string under = top, n = strf("s%zu", names.size());
    if(kind == 0) {
      std::string root = ro || choose(2) ? "/" : "/jr";
      if(root != "/") { EvfsInfo i; if(a_stat(root, &i, under.c_str()) != EVFS_OK) { int st = a_mkdir(root, under.c_str()); if(worn && st != EVFS_OK) root = "/"; else CHECKV(st == EVFS_OK, "setup", "mkdir failed (%d)", st); } }
      if(rotate && root != "/") rotate_prefix += root;
      jails[n] = root;
      must("register jail", [=] { return evfs_register_jail(n.c_str(), under.c_str(), root.c_str(), false); }, n);
    } else if(kind == 1) must("register trace", [=] { return evfs_register_trace(n.c_str(), under.c_str(), env_quiet, nullptr, false); }, n);
    else { if(rotate) return; rotate = true; below_rotate = under; RotateConfig rc; memset(&rc, 0, sizeof rc); rc.chunk_size = rot_chunk; rc.max_chunks = rot_chunks; must("register rotate", [=] { RotateConfig c = rc; return evfs_register_rotate(n.c_str(), under.c_str(), &c, false); }, n); }
  }
  void shims(unsigned max, bool allow_rotate) { unsigned n = choose(max + 1); for(unsigned i = 0; i < n; i++) shim(choose(allow_rotate && !ro ? 3 : 2)); }
  // the medium below fails now and then
  void arm(uint32_t mean) {
    for(int k = 0; k < OP_NKINDS; k++) b.faults.mean[k] = choose(4) ? mean : 0; b.arm();
    if(bot == E_STDIO) { for(int k = 0; k < H_N; k++) h.mean[k] = choose(4) ? mean : 0; h.arm(); }
    if(bot == E_LFS) { for(int k = 0; k < L_N; k++) g_lfs.mean[k] = choose(4) ? mean : 0; g_lfs.arm(); }
  }
  void calm() { b.faults_stop(); h.stop(); g_lfs.on = false; alloc_faults_off(); lock_init_fault(0); }
  uint64_t fired() { return b.faults_fired + h.fired + g_lfs.fired + alloc_faults_fired() + lock_init_faults_fired(); }
  void unmount_all() {
    for(size_t i = names.size(); i-- > 0;) { Evfs *v = evfs_find_vfs(names[i].c_str()); CHECKV(v, "lost", "the registered %s is not found", names[i].c_str()); int st = api("unregister", [&] { return evfs_unregister(v); }); CHECKV(st == EVFS_OK, "unregister", "unregistering %s failed (%d)", names[i].c_str(), st); }
    names.clear(); if(bot == E_FAT) fat_unmount(fv); if(bot == E_LFS) { if(g_lfs.files || g_lfs.dirs) violate("handle-left", "%d files and %d directories stay open in littlefs after everything was closed", g_lfs.files, g_lfs.dirs); lfs_unmount(&ram.lfs); }
    if(bot == E_STDIO) CHECKV(h.files.empty() && h.dirs.empty(), "handle-left", "%zu host files and %zu host directories stay open after everything was closed", h.files.size(), h.dirs.size());
  }
  void finish() { // everything closed and unregistered: nothing may be left
    unmount_all(); b.check_handles("at the end"); b.unreg();
    CHECKV(allocs_live() == 0, "leak", "memory stays allocated: %s", allocs_describe().c_str());
    CHECKV(locks_live() == 0, "lock-left", "%d locks are left undestroyed", locks_live());
    ::operator delete(mem); mem = nullptr;
  }
};

// A client of a writable filesystem with its own directory: every result is
// checked against a model.  Used by one thread each.
struct Worker {
  std::string V, home;                             // home "" = root
  bool plain = true;                               // files are shown as files with their size (a log container is a directory below)
  bool rel = false;                                // the current directory is home: use relative names too
  bool renames = true, lists = true, writes = true; uint32_t max_len = 400, max_size = 6000; unsigned max_open = 3;
  std::function<void()> before = [] {};            // called before each call that may fail
  std::function<bool()> hurt = [] { return false; };    // a fault hit since `before`
  std::function<void(const char *, bool)> failed = [](const char *, bool) {};  // (operation, keeps nothing) after a call that failed under a fault
  std::function<unsigned()> hits = [] { return 0u; }; std::set<std::string> half_deleted, twice; // logs whose creation, and then its undoing, failed
  bool keep = false;                               // handles stay usable after a failed call; the call made no more than part of its change
  uint64_t stream = 0, off = 0; unsigned done = 0, mutations = 0;
  std::map<std::string, std::string> files; std::set<std::string> dirs, unsure;
  struct O { EvfsFile *f; std::string p, data; size_t pos; bool wr, bad; }; std::vector<O> os;
  struct Ls { EvfsDir *d; std::string p; std::set<std::string> must, seen; bool loose, end; }; std::vector<Ls> ls;
  std::vector<std::string> leaf = {"f0", "f1", "long name.txt", "s/g0", "s/g1", "s", "t", "none/x"};
  Worker(const std::string &v, const std::string &h_, uint64_t s) : V(v), home(h_), stream(s) { dirs.insert(home.empty() ? "/" : home); }
  std::string root() { return home.empty() ? "/" : home; }
  std::string path() { for(;;) { std::string p = home + "/" + oneof(leaf); if(inside_log(p)) continue; return p; } }
  bool inside_log(const std::string &p) { if(plain) return false; for(std::string q = parent(p); q.size() > 1; q = parent(q)) if(files.count(q) || unsure.count(q)) return true; return false; }
  std::string spell(const std::string &p) { if(rel && choose(2) && p.size() > home.size() + 1) return p.substr(home.size() + 1); return p; }
  std::string parent(const std::string &p) { size_t i = p.rfind('/'); return i ? p.substr(0, i) : "/"; }
  std::set<std::string> pending_dirs;
  bool murky(const std::string &p) { if(unsure.count(p)) return true; for(std::string q = p; q.size() > 1; q = parent(q)) if(pending_dirs.count(q)) return true; return false; }
  bool busy(const std::string &p, bool wr) { for(auto &o : os) if(o.p == p && (wr || o.wr)) return true; return false; }
  bool bad(const char *what, long st, bool nothing = false) { if(st >= 0 || !hurt()) return false; failed(what, nothing); return true; }
  void changed(const std::string &p) { for(auto &l : ls) if(l.p == parent(p)) l.loose = true; mutations++; }
  bool missing_ok(long st) { return missing(st); }
  void open(const std::string &p, bool wr) {
    if(os.size() >= max_open || dirs.count(p) || murky(p) || busy(p, wr)) return;
    if(!dirs.count(parent(p))) { EvfsFile *f; before(); int st = a_open(spell(p), &f, EVFS_READ, V.c_str()); if(bad("open", st, true)) return; CHECKV(missing(st), "thread-result", "opening %s, whose directory is missing, reports %d", p.c_str(), st); return; }
    O o{nullptr, p, "", 0, wr, false}; bool have = files.count(p); int fl = EVFS_READ; if(!plain && !have) { if(!writes) return; wr = o.wr = true; }
    if(wr) fl = EVFS_RDWR | (have ? oneof<int>({0, EVFS_OPEN_OR_NEW, EVFS_OVERWRITE, EVFS_NO_EXIST}) : oneof<int>({EVFS_OPEN_OR_NEW, EVFS_OVERWRITE, EVFS_NO_EXIST, 0}));
    if(wr && !plain) fl = EVFS_RDWR | EVFS_OPEN_OR_NEW; // a log is always created and never emptied
    before(); int st = a_open(spell(p), &o.f, fl, V.c_str());
    if(bad("open", st, true)) { if(!plain && !have && hits() > 1) twice.insert(p); if(wr && !(have && (fl & EVFS_NO_EXIST)) && (!have || (fl & EVFS_OVERWRITE))) { unsure.insert(p); changed(p); } return; }
    long want = have ? ((fl & EVFS_NO_EXIST) ? EVFS_ERR_EXISTS : EVFS_OK) : (wr && fl != EVFS_RDWR ? EVFS_OK : EVFS_ERR_NO_FILE);
    CHECKV(st == want || (missing(st) && missing(want)), "thread-result", "opening %s with flags %x reports %d, expected %ld", p.c_str(), fl, st, want);
    if(st != EVFS_OK) return;
    if(have && !(fl & EVFS_OVERWRITE)) o.data = files[p];
    if(!have || (fl & EVFS_OVERWRITE)) { files[p] = ""; changed(p); }
    os.push_back(o); done++;
  }
  void place(O &o, const char *what) { int st = a_seek(o.f, (evfs_off_t)o.pos, EVFS_SEEK_TO); CHECKV(st == EVFS_OK, "stuck", "after a failed %s of %s the file can't be positioned any more (%d)", what, o.p.c_str(), st); }
  void reload(O &o, const char *what, const std::function<bool(const std::string &)> &possible) {
    size_t keep_pos = o.pos; o.pos = 0; place(o, what); std::string g, part; ptrdiff_t r; while((r = a_read(o.f, part, 900)) > 0) g += part;
    CHECKV(r == 0, "stuck", "after a failed %s of %s reading it reports %td", what, o.p.c_str(), r); CHECKV((o.pos = keep_pos, possible(g)), "half-done", "after a failed %s, %s holds %zu bytes that are neither the old nor the new content nor in between", what, o.p.c_str(), g.size());
    o.data = g; o.pos = std::min(keep_pos, g.size()); place(o, what); }
  void read(O &o) {
    if(o.bad) return;
    std::string g; size_t n = range(1, max_len); before(); ptrdiff_t r = a_read(o.f, g, n); if(bad("read", r)) { if(keep) { place(o, "read"); return; } o.bad = true; return; }
    size_t want = std::min(n, o.data.size() - o.pos);
    if(hurt() && r < (ptrdiff_t)want) want = r;
    CHECKV((size_t)r == want && !o.data.compare(o.pos, want, g), "thread-data", "a read of %zu at %zu of %s (%zu bytes) delivers %td bytes%s", n, o.pos, o.p.c_str(), o.data.size(), r, (size_t)r == want ? " that are not its content" : ""); o.pos += want; done++;
  }
  void write(O &o) {
    if(!o.wr || o.bad || o.data.size() >= max_size) return;
    std::string s = content(stream, off, range(1, max_len)); off += s.size(); before(); ptrdiff_t r = a_write(o.f, s); if(bad("write", r)) { if(keep) { reload(o, "write", [&](const std::string &n) { for(size_t k = 0; k <= s.size(); k++) { std::string w = o.data; if(k) { if(w.size() < o.pos + k) w.resize(o.pos + k); w.replace(o.pos, k, s, 0, k); } if(w == n) return true; } return false; }); mutations++; for(auto &l : ls) if(l.p == parent(o.p)) l.loose = true; return; } o.bad = true; return; }
    if(hurt() && r < (ptrdiff_t)s.size()) { s.resize(r); } else CHECKV(r == (ptrdiff_t)s.size(), "thread-result", "a write of %zu to %s reports %td", s.size(), o.p.c_str(), r);
    if(o.data.size() < o.pos + s.size()) o.data.resize(o.pos + s.size()); o.data.replace(o.pos, s.size(), s); o.pos += s.size(); done++; mutations++;
    for(auto &l : ls) if(l.p == parent(o.p)) l.loose = true;
  }
  void seek(O &o) {
    if(o.bad) return; size_t p = range(0, (uint32_t)o.data.size()); before(); int st;
    switch(choose(3)) { case 0: st = a_seek(o.f, (evfs_off_t)p, EVFS_SEEK_TO); break; case 1: st = a_seek(o.f, (evfs_off_t)p - (evfs_off_t)o.pos, EVFS_SEEK_REL); break; default: st = a_seek(o.f, (evfs_off_t)(o.data.size() - p), EVFS_SEEK_REV); }
    if(bad("seek", st)) { if(keep) { place(o, "seek"); return; } o.bad = true; return; } CHECKV(st == EVFS_OK, "thread-result", "a seek reports %d", st); o.pos = p;
  }
  void where(O &o) {
    if(o.bad) return; before(); evfs_off_t t = a_tell(o.f), n = a_size(o.f);
    if(hurt()) { if(t < 0 || n < 0) { failed("tell", false); if(keep) { place(o, "size"); return; } o.bad = true; return; } }
    CHECKV((size_t)t == o.pos && (size_t)n == o.data.size(), "thread-data", "%s reports position %ld and size %ld, expected %zu and %zu", o.p.c_str(), (long)t, (long)n, o.pos, o.data.size());
  }
  void trunc(O &o) {
    if(!o.wr || o.bad) return; size_t p = range(0, (uint32_t)o.data.size()); before(); int st = a_trunc(o.f, (evfs_off_t)p); if(bad("truncate", st)) { if(keep) { reload(o, "truncate", [&](const std::string &n) { return n.size() >= p && n.size() <= o.data.size() && !o.data.compare(0, n.size(), n); }); mutations++; for(auto &l : ls) if(l.p == parent(o.p)) l.loose = true; return; } o.bad = true; return; }
    CHECKV(st == EVFS_OK, "thread-result", "truncating %s to %zu of %zu reports %d", o.p.c_str(), p, o.data.size(), st); o.data.resize(p); mutations++;
    o.pos = p; before(); st = a_seek(o.f, (evfs_off_t)p, EVFS_SEEK_TO); if(bad("seek", st)) { if(keep) { place(o, "seek"); return; } o.bad = true; return; } CHECKV(st == EVFS_OK, "thread-result", "a seek reports %d", st); o.pos = p;
  }
  void sync(O &o) { if(o.bad) return; before(); int st = a_sync(o.f); if(bad("sync", st)) { if(keep) { place(o, "sync"); return; } o.bad = true; return; } CHECKV(st == EVFS_OK, "thread-result", "sync of %s reports %d", o.p.c_str(), st); }
  void close(size_t i) {
    O o = os[i]; os.erase(os.begin() + i); before(); int st = a_close(o.f); bool b_ = bad("close", st);
    if(!b_ ) CHECKV(st == EVFS_OK, "thread-result", "closing %s reports %d", o.p.c_str(), st);
    if(o.wr) { if(b_ || o.bad) { unsure.insert(o.p); } else files[o.p] = o.data; for(auto &l : ls) if(l.p == parent(o.p)) l.loose = true; }
  }
  void stat(const std::string &p) {
    if(murky(p)) return; EvfsInfo i; before(); int st = a_stat(spell(p), &i, V.c_str()); if(bad("stat", st, true)) return;
    bool f = files.count(p), d = dirs.count(p);
    if(!f && !d) { CHECKV(!api("existing_file", [&] { return evfs_existing_file_ex(spell(p).c_str(), V.c_str()); }) && !api("existing_dir", [&] { return evfs_existing_dir_ex(spell(p).c_str(), V.c_str()); }), "thread-result", "the missing %s is reported as existing", p.c_str()); CHECKV(missing(st), "thread-result", "stat of the missing %s reports %d", p.c_str(), st); return; }
    { bool ef = false, ed = false; before(); ef = api("existing_file", [&] { return evfs_existing_file_ex(spell(p).c_str(), V.c_str()); }); ed = api("existing_dir", [&] { return evfs_existing_dir_ex(spell(p).c_str(), V.c_str()); }); if(!hurt()) { CHECKV(ef == (f && plain) || !plain, "thread-result", "%s is %sreported as an existing file", p.c_str(), ef ? "" : "not "); CHECKV(ed == d || !plain, "thread-result", "%s is %sreported as an existing directory", p.c_str(), ed ? "" : "not "); } }
    CHECKV(st == EVFS_OK, "thread-result", "stat of the existing %s reports %d", p.c_str(), st);
    CHECKV(!!(i.type & EVFS_FILE_DIR) == d || (f && !plain), "thread-data", "stat of %s reports the wrong type", p.c_str());
    if(f && plain && !busy(p, false)) CHECKV((size_t)i.size == files[p].size(), "thread-data", "stat of %s reports size %ld, it has %zu bytes", p.c_str(), (long)i.size, files[p].size()); done++;
  }
  void del(const std::string &p) {
    if(murky(p) || busy(p, true) || p == root()) return; bool f = files.count(p), d = dirs.count(p); bool full = false; if(d) { for(auto &x : files) if(parent(x.first) == p) full = true; for(auto &x : dirs) if(x != "/" && parent(x) == p) full = true; for(auto &x : unsure) if(parent(x) == p) return; for(auto &x : pending_dirs) if(parent(x) == p) return; for(auto &l : ls) if(l.p == p) return; }
    before(); int st = a_delete(spell(p), V.c_str()); if(bad("delete", st, true)) { if(f || (d && !full)) { if(d) { dirs.erase(p); pending_dirs.insert(p); } else { unsure.insert(p); if(!plain) half_deleted.insert(p); } changed(p); } return; }
    if(f || (d && !full)) { CHECKV(st == EVFS_OK, "thread-result", "deleting %s reports %d", p.c_str(), st); files.erase(p); dirs.erase(p); changed(p); }
    else CHECKV(st < 0, "thread-result", "deleting the %s %s succeeds", d ? "non-empty directory" : "missing", p.c_str());
  }
  void rename(const std::string &p, const std::string &q) {
    if(murky(p) || murky(q) || busy(p, true) || busy(q, true) || dirs.count(p) || dirs.count(q) || files.count(q) || !dirs.count(parent(q))) return;
    bool f = files.count(p); before(); int st = a_rename(spell(p), spell(q), V.c_str()); if(bad("rename", st, true)) { if(f) { unsure.insert(p); unsure.insert(q); changed(p); changed(q); } return; }
    if(!f) { CHECKV(st < 0, "thread-result", "renaming the missing %s succeeds", p.c_str()); return; }
    CHECKV(st == EVFS_OK, "thread-result", "renaming %s to %s reports %d", p.c_str(), q.c_str(), st); files[q] = files[p]; files.erase(p); changed(p); changed(q);
  }
  void mkdir(const std::string &p) {
    if(inside_log(p) || files.count(p) || murky(p) || (p.find('.') != std::string::npos)) return; bool d = dirs.count(p), par = dirs.count(parent(p)); before(); int st = a_mkdir(spell(p), V.c_str());
    if(bad("mkdir", st, true)) { if(!d && par) { pending_dirs.insert(p); changed(p); } return; }
    if(d || !par) CHECKV(st < 0, "thread-result", "creating the directory %s succeeds", p.c_str()); else { CHECKV(st == EVFS_OK, "thread-result", "creating the directory %s reports %d", p.c_str(), st); dirs.insert(p); changed(p); }
  }
  void open_dir(const std::string &p) {
    if(ls.size() >= 2 || murky(p)) return; Ls l; l.p = p; l.loose = l.end = false; bool d = dirs.count(p); if(files.count(p)) return; before(); int st = a_opendir(p == root() && rel && choose(2) ? "." : spell(p), &l.d, V.c_str()); if(bad("open_dir", st, true)) return;
    CHECKV((st == EVFS_OK) == d, "thread-result", "listing %s reports %d", p.c_str(), st); if(!d) return;
    for(auto &x : files) if(parent(x.first) == p) { l.must.insert(x.first); if(busy(x.first, true)) l.loose = true; } for(auto &x : dirs) if(x != "/" && parent(x) == p) l.must.insert(x);
    for(auto &x : unsure) if(parent(x) == p) l.loose = true; for(auto &x : pending_dirs) if(parent(x) == p) l.loose = true;
    ls.push_back(l);
  }
  bool ignore_extra = false;
  void dir_step(size_t i) {
    Ls &l = ls[i]; unsigned k = weighted({8, 1, 2, 3}); DirEnt e;
    if(k == 1) { before(); int st = a_rewind(l.d); if(bad("dir_rewind", st)) return; CHECKV(st == EVFS_OK, "thread-result", "rewinding a listing reports %d", st); l.seen.clear(); l.end = false; l.must.clear(); for(auto &x : files) if(parent(x.first) == l.p) l.must.insert(x.first); for(auto &x : dirs) if(x != "/" && parent(x) == l.p) l.must.insert(x); return; }
    if(k == 2) { before(); int st = a_dirclose(l.d); if(!bad("dir_close", st)) CHECKV(st == EVFS_OK, "thread-result", "closing a listing reports %d", st); ls.erase(ls.begin() + i); return; }
    unsigned n = k == 3 ? 40 : 1;
    for(unsigned j = 0; j < n; j++) { before(); int st = a_dirread(l.d, e); if(bad("dir_read", st)) return;
      if(st == EVFS_OK) { if(e.name == "." || e.name == "..") continue; std::string p = (l.p == "/" ? "" : l.p) + "/" + e.name; CHECKV(l.loose || !l.end, "thread-data", "a listing of %s goes on after its end", l.p.c_str());
        bool known = files.count(p) || dirs.count(p) || unsure.count(p) || pending_dirs.count(p); CHECKV(known || l.loose || ignore_extra, "thread-data", "a listing of %s shows %s, which is not there", l.p.c_str(), e.name.c_str());
        if(known) { CHECKV(l.seen.insert(p).second || l.loose, "thread-data", "a listing of %s shows %s twice", l.p.c_str(), e.name.c_str());
          if(!l.loose && !unsure.count(p) && !pending_dirs.count(p)) { CHECKV(e.dir == !!dirs.count(p) || !plain, "thread-data", "a listing of %s shows %s with the wrong type", l.p.c_str(), e.name.c_str()); if(dir_sizes && plain && !e.dir && !l.loose && !busy(p, false)) CHECKV((size_t)e.size == files[p].size(), "thread-data", "a listing of %s shows %s with %ld bytes, it has %zu", l.p.c_str(), e.name.c_str(), (long)e.size, files[p].size()); } } done++; continue; }
      CHECKV(st == EVFS_DONE, "thread-result", "a listing of %s reports %d", l.p.c_str(), st);
      if(!l.loose) for(auto &x : l.must) CHECKV(l.seen.count(x), "thread-data", "a listing of %s ends without %s", l.p.c_str(), x.c_str()); l.end = true; break; }
  }
  bool dir_sizes = true;
  void step() {
    std::string p = path();
    switch(weighted({5, 10, 2, 2, 1, writes ? 1u : 0u, writes && renames ? 2u : 0u, lists ? 4u : 0u})) {
    case 0: open(p, writes && choose(3)); break;
    case 1: { if(os.empty()) { open(p, writes); break; } size_t i = choose((uint32_t)os.size()); O &o = os[i]; switch(weighted({5, 5, 3, 2, 1, 1, 3})) { case 0: read(o); break; case 1: write(o); break; case 2: seek(o); break; case 3: where(o); break; case 4: trunc(o); break; case 5: sync(o); break; default: close(i); } break; }
    case 2: stat(p); break;
    case 3: if(writes) mkdir(home + "/" + oneof<std::string>({"s", "t", "s/u"})); else stat(p); break;
    case 4: stat(oneof<std::string>({root(), p})); break;
    case 5: del(p); break;
    case 6: rename(p, path()); break;
    default: if(ls.size() && writes && !choose(6)) { Ls &l = ls[choose((uint32_t)ls.size())]; std::vector<std::string> c; for(auto &x : files) if(parent(x.first) == l.p && !l.seen.count(x.first)) c.push_back(x.first); if(c.size()) { del(oneof(c)); break; } }
      if(ls.size() && choose(4)) dir_step(choose((uint32_t)ls.size())); else open_dir(choose(2) ? root() : home + "/s"); }
  }
  void close_all() { while(os.size()) close(os.size() - 1); while(ls.size()) { before(); int st = a_dirclose(ls.back().d); if(!bad("dir_close", st)) CHECKV(st == EVFS_OK, "thread-result", "closing a listing reports %d", st); ls.pop_back(); } }
  // with no faults: find out what became of the objects whose state is open
  void settle() {
    for(auto &p : half_deleted) { int st = a_delete(p, V.c_str()); CHECKV(st == EVFS_OK || missing(st), "stuck", "deleting %s again reports %d after the faults stopped", p.c_str(), st); files.erase(p); unsure.erase(p); }
    half_deleted.clear();
    for(auto &p : unsure) { EvfsInfo i; int st = a_stat(p, &i, V.c_str()); if(missing(st)) { files.erase(p); continue; } CHECKV(st == EVFS_OK, "stuck", "stat of %s reports %d after the faults stopped", p.c_str(), st);
      EvfsFile *f; st = a_open(p, &f, plain ? EVFS_READ : EVFS_RDWR | EVFS_OPEN_OR_NEW, V.c_str()); CHECKV(st == EVFS_OK, twice.count(p) ? "create-undo-stuck" : "stuck", "%s can't be opened (%d) after the faults stopped", p.c_str(), st); std::string g, part; ptrdiff_t r; while((r = a_read(f, part, 900)) > 0) g += part; CHECKV(r == 0, "stuck", "reading %s reports %td after the faults stopped", p.c_str(), r); a_close(f); files[p] = g; }
    unsure.clear();
    for(auto &p : pending_dirs) { EvfsInfo i; int st = a_stat(p, &i, V.c_str()); if(st == EVFS_OK) dirs.insert(p); else CHECKV(missing(st), "stuck", "stat of %s reports %d after the faults stopped", p.c_str(), st); }
    pending_dirs.clear();
  }
  void verify() {
    for(auto &x : files) { if(unsure.count(x.first) || busy(x.first, true)) continue; EvfsFile *f; int st = a_open(x.first, &f, EVFS_READ, V.c_str()); CHECKV(st == EVFS_OK, "thread-data", "%s can't be opened (%d)", x.first.c_str(), st); std::string g, part; while(a_read(f, part, 900) > 0) g += part; a_close(f); CHECKV(g == x.second, "thread-data", "%s holds %zu bytes, expected %zu%s", x.first.c_str(), g.size(), x.second.size(), g.size() == x.second.size() ? " of other content" : ""); }
    for(auto &d : dirs) { EvfsDir *x; DirEnt e; int st = a_opendir(d, &x, V.c_str()); CHECKV(st == EVFS_OK, "thread-data", "directory %s can't be listed (%d)", d.c_str(), st); std::set<std::string> s; while((st = a_dirread(x, e)) == EVFS_OK) s.insert((d == "/" ? "" : d) + "/" + e.name); a_dirclose(x); CHECKV(st == EVFS_DONE, "thread-data", "listing %s ends with %d", d.c_str(), st);
      for(auto &f : files) if(parent(f.first) == d) CHECKV(s.count(f.first), "thread-data", "the listing of %s misses %s", d.c_str(), f.first.c_str()); }
  }
};
} // namespace sim
