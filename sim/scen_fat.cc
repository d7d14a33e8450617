// C19, C20, C21: FAT images.
#include "fat.h"
using namespace sim;
namespace {

std::string fat_name() {
  return oneof<std::string>({"f0", "f1", "a", "b", "sub", "deep", "log.txt", "..x", "a longer name with spaces.text", "a longer name with spaces.texts", ".hidden", "n.m.o", "f0~1", "averyveryverylongname-0123456789-0123456789-0123456789.dat"});
}
std::string fat_path(const FatVol &v, bool fancy) {
  std::string p;
  if(fancy && chance(1, 12)) return oneof<std::string>({"/", ".", "..", "a/.", "sub/..", "/a/..", "//"});
  switch(weighted({6, 6, fancy ? 1u : 0u, fancy ? 1u : 0u, fancy ? 1u : 0u})) { case 0: break; case 1: p = "/"; break; case 2: p = strf("%d:/", v.pdrv); break; case 3: p = "\\"; break; default: p = strf("%d:", v.pdrv); }
  unsigned n = range(1, 3);
  for(unsigned i = 0; i < n; i++) {
    std::string s = chance(2, 3) ? oneof<std::string>({"f0", "f1", "a", "b", "sub"}) : fat_name();
    if(fancy && i + 1 < n) { if(chance(1, 10)) s = ".."; else if(chance(1, 12)) s = "."; }
    p += s; if(i + 1 < n) p += fancy && chance(1, 8) ? oneof<std::string>({"//", "\\", "/./"}) : "/";
  }
  return p;
}
std::string ref_tree(SimFs &r) { // in the format of tree_of, which sorts each directory
  std::string o; std::function<void(Node &, const std::string &)> go = [&](Node &n, const std::string &p) {
    for(auto &k : n.kids) { std::string q = p + "/" + k.first; if(k.second->dir) { o += "D " + q + "\n"; go(*k.second, q); } else o += strf("F %s %zu %llx\n", q.c_str(), k.second->data.size(), (unsigned long long)fnv(k.second->data.data(), k.second->data.size())); } };
  go(*r.root, ""); return o;
}

// ------------------------------------------------------------------ C19
void full_disk(const FatVol &v, SimFs &ref) {
  // Filling the volume: what is reported as written is what is stored, nothing
  // else is harmed, and freed space can be used again.
  const char *V = v.vfs.c_str(); EvfsFile *f; unsigned round = 0; uint64_t first = 0;
  std::string before = tree_of(V);
  for(round = 0; round < (v.size > 9000000 ? 1 : 2); round++) {
    std::string dirn = choose(2) ? "/filler.bin" : "/f9"; std::string body; int st = a_open(dirn, &f, EVFS_RDWR | EVFS_OVERWRITE, V);
    if(st != EVFS_OK) { CHECKV(round == 0, "full-lost", "a file can't be created again after deleting the one that filled the volume (%d)", st); return; }
    uint32_t chunk = v.size > 9000000 ? range(20000, 70000) : range(700, 9000); bool full = false;
    for(unsigned i = 0; i < 4000 && !full; i++) { std::string s = content(30 + round, body.size(), chunk); ptrdiff_t r = a_write(f, s); if(r > 0) body += s.substr(0, r); if(r < (ptrdiff_t)chunk) full = true; }
    CHECKV(full, "endless-volume", "a volume of %u bytes accepts %zu bytes", v.size, body.size());
    if(v.size > 9000000) CHECKV(body.size() >= v.size / 10 * 8, "volume-lost", "a nearly empty volume on an image of %u bytes is full after %zu bytes", v.size, body.size());
    CHECKV(body.size() <= v.size, "endless-volume", "a volume of %u bytes accepts %zu bytes", v.size, body.size());
    ptrdiff_t again = a_write(f, "x"); if(again > 0) body += "x"; PROBE("volume_full");
    CHECKV(a_sync(f) == EVFS_OK && a_close(f) == EVFS_OK, "full-close", "a full volume fails to close a file");
    std::string g, part; CHECKV(a_open(dirn, &f, EVFS_READ, V) == EVFS_OK, "full-open", "the file filling the volume can't be opened");
    while(a_read(f, part, 8192) > 0) g += part; a_close(f);
    CHECKV(g == body, "full-content", "the file filling the volume holds %zu bytes, %zu were reported as written", g.size(), body.size());
    CHECKV(a_delete(dirn, V) == EVFS_OK, "full-delete", "the file filling the volume can't be deleted");
    if(round == 0) first = body.size(); else CHECKV(body.size() + 8192 >= first, "full-lost", "after deleting a file of %llu bytes only %zu fit", (unsigned long long)first, body.size());
    std::string t = tree_of(V); CHECKV(t == before, "full-harm", "filling the volume harmed other files: %s", first_diff(t, before).c_str());
  }
}
void c19() {
  SimFs b("base"); b.yields = false; b.quiet = true; evfs_init(); b.reg(true);
  unsigned nv = 1 + (choose(3) == 0);
  FatVol v[2] = {{"/vol0.img", "fat0", 0, fat_size()}, {"/d/vol1.img", "fat1", 1, oneof<uint32_t>({300000, 524288, 1000000})}};
  if(nv == 1 && choose(4) == 0) v[0].pdrv = 1;
  bool large = chance(1, 150); if(large) { v[0].size = 34000000 + choose(5) * 1000000; PROBE("more-than-65536-sectors"); }
  b.put_dir("/d");
  if(choose(10) == 0) { // too small for a filesystem
    FatVol t{"/tiny.img", "t", v[0].pdrv, range(1, 90000)}; int st = fat_make(t); CHECKV(st != EVFS_OK, "tiny-image", "an image of %u bytes was made", t.size);
    CHECKV(!b.find("/tiny.img"), "tiny-left", "a failed image stays behind"); b.check_handles("making an image"); PROBE("tiny_image");
  }
  SimFs ref[2] = {SimFs("ref0"), SimFs("ref1")}; std::vector<Diff> d(2, Diff{"", ""});
  for(unsigned i = 0; i < nv; i++) {
    CHECKV(fat_make(v[i]) == EVFS_OK, "make-image", "making an image of %u bytes failed", v[i].size);
    CHECKV(b.find(v[i].img) && b.find(v[i].img)->data.size() == v[i].size, "make-size", "an image of %u bytes was asked for, the file has %zu", v[i].size, b.find(v[i].img) ? b.find(v[i].img)->data.size() : 0);
    CHECKV(fat_mount(v[i]) == EVFS_OK, "mount-image", "mounting a new image failed");
    CHECKV(fat_reg(v[i]) == EVFS_OK, "register", "registering failed");
    ref[i].sep_both = true; ref[i].drive = true; ref[i].yields = false; ref[i].reg(false);
    Diff &x = d[i]; SimFs *rp = &ref[i]; FatVol vv = v[i]; bool fancy = choose(2);
    x.A = vv.pdrv ? (i ? "fat1" : "fat0") : "fat0"; x.B = i ? "ref1" : "ref0"; x.same = fat_same; x.ordered = false; x.one_writer = true; x.trunc_clamp = x.seek_within = x.append_seek = x.skip_empty_read = x.lazy_sizes = true; x.ctrl = false;
    x.flags = {EVFS_READ, EVFS_RDWR, EVFS_RDWR | EVFS_OPEN_OR_NEW, EVFS_RDWR | EVFS_OVERWRITE, EVFS_RDWR | EVFS_NO_EXIST, EVFS_RDWR | EVFS_APPEND, EVFS_WRITE | EVFS_OVERWRITE, EVFS_WRITE | EVFS_NO_EXIST, EVFS_RDWR | EVFS_OPEN_OR_NEW | EVFS_APPEND, EVFS_RDWR | EVFS_NO_EXIST | EVFS_OPEN_OR_NEW, EVFS_RDWR | EVFS_NO_EXIST | EVFS_OVERWRITE, EVFS_RDWR | EVFS_OPEN_OR_NEW};
    if(choose(4) == 0 && vv.size >= 1000000) { x.max_len = 5000; x.max_off = 9000; }
    x.path = [vv, fancy, rp] { // dot names only after a directory that exists
      for(;;) { std::string p = fat_path(vv, fancy); bool ok = true; size_t i = 0;
        while(i < p.size()) { size_t e = p.find_first_of("/\\", i); if(e == std::string::npos) e = p.size(); std::string g = p.substr(i, e - i); if(g.size() > 2 && g[1] == ':') g = g.substr(2);
          if((g == "." || g == "..") && i) { NodeP n = rp->walk(rp->resolve(p.substr(0, i))); if(!n || !n->dir) ok = false; } i = e + 1; }
        if(ok) return p; } };
    x.key = [rp](const std::string &p) { return rp->resolve(p); };
    x.norm_cwd = [vv](const std::string &s) { return s.size() > 1 && s[1] == ':' ? s.substr(2) : s; };
    x.allow = [rp](const char *w, const std::string &p, const std::string &q) {
      auto in_cwd = [&](const std::string &s) { std::string a = rp->resolve(s); return rp->cwd == a || rp->cwd.compare(0, a.size() + 1, a + "/") == 0; };
      auto dotty = [](const std::string &s) { size_t i = s.find_last_of("/\\:"); std::string l = i == std::string::npos ? s : s.substr(i + 1); return l.empty() || l == "." || l == ".."; };
      if((strcmp(w, "open") && strcmp(w, "mkdir") && dotty(p)) || dotty(q) * !strcmp(w, "rename")) return false;
      if(!strcmp(w, "delete")) return rp->resolve(p) != rp->cwd;
      if(!strcmp(w, "rename")) return !in_cwd(p) && !in_cwd(q);
      return true; };
    // a rename onto something that exists may be refused, without effect
    Diff *xp = &x; x.a_may_refuse = [rp, xp](const char *w, const std::string &, long st) { return !strcmp(w, "rename") && st == EVFS_ERR_EXISTS && rp->find(rp->resolve(xp->cur_dst)); };
  }
  auto compare = [&](const char *when, int only = -1) { for(unsigned i = 0; i < nv; i++) { if(only >= 0 && i != (unsigned)only) continue; std::string t = tree_of(v[i].vfs.c_str()), r = ref_tree(ref[i]); CHECKV(t == r, "tree-differs", "%s volume %u %s", when, i, first_diff(t, r).c_str()); } };
  unsigned nops = large ? 10 : range(10, g_cfg.thorough ? 220 : 90);
  if(v[0].size >= 1000000 && chance(1, 8)) { // a directory with many entries
    unsigned m = range(40, 200), len = choose(60), n = 0; const char *V = v[0].vfs.c_str(); std::string dir = "/many"; CHECKV(a_mkdir(dir, V) == EVFS_OK, "many", "making a directory failed"); ref[0].put_dir(dir); PROBE("many-entries");
    for(unsigned i = 0; i < m; i++) { std::string p = dir + strf("/e%u", i) + std::string(len, 'n'), data = content(70 + i, 0, choose(3) ? choose(30) : 0); EvfsFile *f; int st = a_open(p, &f, EVFS_RDWR | EVFS_OVERWRITE, V);
      if(st != EVFS_OK) { CHECKV(v[0].size < 600000, "many", "making the entry %u of a directory failed (%d)", i, st); break; }
      ptrdiff_t w = data.size() ? a_write(f, data) : 0; CHECKV(a_close(f) == EVFS_OK, "many", "closing failed"); ref[0].put_file(p, data.substr(0, w > 0 ? w : 0)); n++; if(w < (ptrdiff_t)data.size()) break; }
    for(unsigned i = 0; i < n; i++) if(!choose(4)) { std::string p = dir + strf("/e%u", i) + std::string(len, 'n'); CHECKV(a_delete(p, V) == EVFS_OK, "many", "deleting the entry %u of a directory failed", i); ref[0].remove(p); }
    compare("with many entries", 0);
    if(choose(2)) for(unsigned i = 0; i < n; i++) { std::string p = dir + strf("/e%u", i) + std::string(len, 'n'); if(ref[0].exists(p)) { CHECKV(a_delete(p, V) == EVFS_OK, "many", "deleting the entry %u of a directory failed", i); ref[0].remove(p); } }
  }
  for(unsigned i = 0; i < nops; i++) {
    unsigned k = nv > 1 && choose(3) == 0;
    d[k].step();
    if(choose(24) == 0) { // unmount and mount again
      d[k].close_all(); fat_unmount(v[k]);
      CHECKV(b.find(v[k].img)->data.size() == v[k].size, "image-resized", "the image file changed its size to %zu", b.find(v[k].img)->data.size());
      if(choose(3) == 0) { std::string keep = b.find(v[k].img)->data; int st = fat_make(v[k]); CHECKV(st == EVFS_ERR_EXISTS, "make-existing", "making an image over an existing one returned %d", st); CHECKV(b.find(v[k].img) && b.find(v[k].img)->data == keep, "make-overwrites", "making an image altered an existing one"); PROBE("make_existing"); }
      EvfsFile *f; int bad = a_open("/f0", &f, EVFS_READ, v[k].vfs.c_str()); CHECKV(bad < 0, "unmounted-access", "a file opens on a volume that is not mounted");
      CHECKV(fat_mount(v[k]) == EVFS_OK, "mount-image", "mounting the image again failed"); ref[k].cwd = "/";
      compare("after a remount", k); PROBE("remount");
    }
  }
  if(d[0].mutations) nontrivial();
  for(unsigned i = 0; i < nv; i++) d[i].close_all();
  compare("at the end,");
  if(large || (choose(4) == 0 && v[0].size <= 300000)) full_disk(v[0], ref[0]);
  for(unsigned i = 0; i < nv; i++) { fat_unmount(v[i]); CHECKV(fat_mount(v[i]) == EVFS_OK, "mount-image", "mounting the image again failed"); }
  compare("after the last remount,");
  for(unsigned i = 0; i < nv; i++) { fat_unmount(v[i]); evfs_unregister(evfs_find_vfs(v[i].vfs.c_str())); }
  b.check_handles("at the end");
}
SCENARIO("C19", c19, 400000000, "a run that changed something on a FAT volume; distinct = distinct event log");

// ------------------------------------------------------------------ C20, C21 common
int quiet_report(const char *, void *) { return 0; }
// The image may itself live behind shims, which then are the default filesystem.
std::string default_stack(unsigned kind) {
  switch(kind) {
  case 1: evfs_register_trace("dtr", "base", quiet_report, nullptr, true); return "";
  case 2: evfs_register_jail("dj", "base", "/d", true); return "/d";
  case 3: evfs_register_jail("dj", "base", "/", false); evfs_register_trace("dtr", "dj", quiet_report, nullptr, true); return "";
  default: return ""; }
}
void reboot_fat(SimFs &b) {
  b.faults_on = false; b.crash_in = 0; locks_forget(); evfs_unregister_all(); locks_forget(); allocs_forget(); b.forget_handles(); b.registered = false; b.reg(true);
}

// ------------------------------------------------------------------ C20
void c20() {
  SimFs b("base"); b.yields = false; b.quiet = true; b.close_durable = chance(3, 4); evfs_init(); b.reg(true); b.put_dir("/d");
  unsigned stack = choose(3) ? 0 : choose(4);
  std::string pre = default_stack(stack);
  FatVol v{"/vol.img", "fat", (uint8_t)choose(2), oneof<uint32_t>({300000, 524288, 280000, 1000000, 2200000})};
  bool reorder = choose(2);
  if(reorder) b.sector = 512; else b.ordered = true;
  CHECKV(fat_make(v) == EVFS_OK && fat_mount(v) == EVFS_OK && fat_reg(v) == EVFS_OK, "setup", "making, mounting or registering an image failed");
  NodeP img = b.find(pre + v.img); CHECKV((bool)img, "setup", "the image is not where it was made");
  img->durable = img->data;
  std::map<std::string, std::string> safe;    // synced or closed and not touched since
  struct W { EvfsFile *f; std::string path, data; size_t pos; bool mod; };
  unsigned crashes = reorder ? 1 : range(1, g_cfg.thorough ? 5 : 3); uint64_t stream = 100;
  for(unsigned ep = 0; ep <= crashes; ep++) {
    bool want = ep < crashes; clear_crash();
    std::vector<std::string> dirs = {strf("/e%ud", ep)}, names; bool lfn = choose(4) == 0;
    bool roots = choose(2);
    { int st = a_mkdir(dirs[0], "fat"); if(st == EVFS_ERR_AUTH) { PROBE("volume_full"); return; } CHECKV(st == EVFS_OK, "mkdir", "creating a directory failed with %d on a healthy volume", st); } if(roots) dirs.push_back("/");
    auto fresh = [&] { std::string d = dirs[choose((uint32_t)dirs.size())]; return (d == "/" ? "" : d) + (lfn ? strf("/e%u long file name %u.data", ep, choose(9)) : strf("/e%uf%u", ep, choose(9))); };
    // everything so far must be on the medium: mkdir is complete
    if(want) b.crash_after(choose(3) ? range(1, 60) : range(1, 400)); b.crash_on_mut_only = true;
    unsigned nops = range(5, 60); bool hit_inflight = false; (void)hit_inflight;
    spawn([&] {
      std::vector<W> ws; unsigned ndirs = 0;
      auto touch = [&](const std::string &p) { safe.erase(p); };
      auto busy = [&](const std::string &p) { for(auto &w : ws) if(w.path == p) return true; return false; };
      auto synced = [&](W &w, const char *how) { safe[w.path] = w.data; if(w.mod) { CHECKV(img->durable == img->data, "sync-not-passed", "%s of a FAT file succeeded but the image is not synced on the filesystem holding it", how); PROBE("sync_reached_base"); } w.mod = false; };
      for(unsigned i = 0; i < nops; i++) {
        switch(weighted({5, 12, 4, 3, 2, 2, 1, 2})) {
        case 0: { if(ws.size() >= 3) break; std::string p = fresh(); if(busy(p)) break;
          EvfsInfo inf; bool there = a_stat(p, &inf, "fat") == EVFS_OK; bool known = safe.count(p); std::string old = known ? safe[p] : "";
          int fl = !there ? EVFS_RDWR | oneof<int>({EVFS_OPEN_OR_NEW, EVFS_OVERWRITE, EVFS_NO_EXIST}) : known ? EVFS_RDWR | oneof<int>({0, EVFS_OVERWRITE, EVFS_APPEND}) : EVFS_RDWR | EVFS_OVERWRITE;
          if(!there || (fl & EVFS_OVERWRITE)) { touch(p); old = ""; }
          W w{nullptr, p, old, fl & EVFS_APPEND ? old.size() : 0, false}; int st = a_open(p, &w.f, fl, "fat");
          CHECKV(st == EVFS_OK || st == EVFS_ERR_AUTH, "open", "opening %s failed with %d on a healthy volume", p.c_str(), st); if(st != EVFS_OK) { finish_ok(); }
          w.mod = !there || (fl & EVFS_OVERWRITE); ws.push_back(w); break; }
        case 1: { if(ws.empty()) break; W &w = ws[choose((uint32_t)ws.size())]; std::string d = content(stream++, 0, choose(4) ? range(1, 300) : range(300, 3000)); touch(w.path); w.mod = true;
          ptrdiff_t r = a_write(w.f, d); CHECKV(r >= 0, "write", "a write failed with %td on a healthy volume", r); if(r < (ptrdiff_t)d.size()) { PROBE("volume_full"); d.resize(r); }
          if(w.data.size() < w.pos + d.size()) w.data.resize(w.pos + d.size()); w.data.replace(w.pos, d.size(), d); w.pos += d.size(); break; }
        case 2: { if(ws.empty()) break; W &w = ws[choose((uint32_t)ws.size())]; int st = a_sync(w.f); CHECKV(st == EVFS_OK, "sync", "sync failed with %d on a healthy volume", st); synced(w, "sync"); PROBE("synced"); break; }
        case 3: { if(ws.empty()) break; size_t k = choose((uint32_t)ws.size()); int st = a_close(ws[k].f); CHECKV(st == EVFS_OK, "close", "close failed with %d on a healthy volume", st); synced(ws[k], "close"); ws.erase(ws.begin() + k); break; }
        case 4: { if(ws.empty()) break; W &w = ws[choose((uint32_t)ws.size())]; size_t p = range(0, (uint32_t)w.data.size()); CHECKV(a_seek(w.f, (evfs_off_t)p, EVFS_SEEK_TO) == EVFS_OK, "seek", "seek failed on a healthy volume"); w.pos = p;
          if(choose(3) == 0) { touch(w.path); w.mod = w.mod || p < w.data.size(); w.data.resize(p); CHECKV(a_trunc(w.f, (evfs_off_t)p) == EVFS_OK, "truncate", "truncate failed on a healthy volume"); }
          break; }
        case 5: { std::string p = fresh(); if(busy(p)) break; touch(p); a_delete(p, "fat"); break; }
        case 6: { std::string p = fresh(), q = fresh(); if(busy(p) || busy(q) || p == q) break; touch(p); EvfsInfo inf; if(a_stat(q, &inf, "fat") == EVFS_OK) break; touch(q); a_rename(p, q, "fat"); break; }
        default: { std::string d = dirs[choose((uint32_t)dirs.size())]; d = strf("%s/e%us%u", d == "/" ? "" : d.c_str(), ep, ndirs++); if(dirs.size() < 5) { int st = a_mkdir(d, "fat"); if(st == EVFS_OK) dirs.push_back(d); } }
        }
      }
      while(ws.size()) { int st = a_close(ws[0].f); CHECKV(st == EVFS_OK, "close", "close failed with %d on a healthy volume", st); synced(ws[0], "close"); ws.erase(ws.begin()); }
    }, "writer");
    join_all();
    bool hit = crashed(); clear_crash();
    if(!hit) { b.crash_in = 0; b.power_cut(); }
    else { PROBE("crashed"); if(safe.size()) nontrivial(); }
    ev("reboot hit=%d safe=%zu", hit, safe.size());
    reboot_fat(b); default_stack(stack);
    int st = fat_mount(v); CHECKV(st == EVFS_OK, "mount", "the image can't be mounted after the crash (%d)", st);
    CHECKV(fat_reg(v) == EVFS_OK, "register", "registering after the crash failed");
    for(auto &x : safe) {
      EvfsFile *f; st = a_open(x.first, &f, EVFS_READ, "fat"); CHECKV(st == EVFS_OK, "synced-lost", "%s was synced or closed before the crash and can't be opened after it (%d)", x.first.c_str(), st);
      std::string g, part; ptrdiff_t r; while((r = a_read(f, part, 4096)) > 0) g += part; a_close(f);
      CHECKV(r == 0 && g == x.second, "synced-damaged", "%s was synced or closed before the crash with %zu bytes and reads back %zu bytes (%s)", x.first.c_str(), x.second.size(), g.size(), r ? "error" : g.size() == x.second.size() ? "other content" : "other length");
    }
  }
}
SCENARIO("C20", c20, 400000000, "a run in which a crash hit a FAT volume that held synced or closed files; distinct = distinct event log");

// ------------------------------------------------------------------ C21
struct Obj { bool dir = false; std::string data; };
struct Model {
  std::map<std::string, Obj> t; std::set<std::string> unsure; // names whose state is unknown after a reported failure
  bool known(const std::string &p) { // neither it nor anything above it is in doubt
    for(auto &u : unsure) if(p == u || (p.size() > u.size() && p.compare(0, u.size() + 1, u + "/") == 0)) return false;
    return true; }
  bool below_unsure(const std::string &dir) { for(auto &u : unsure) if(u.compare(0, dir.size() + 1, dir + "/") == 0 || (dir == "/" && u.size())) return true; return false; }
};
std::string kid_of(const std::string &dir, const std::string &p) { // the entry of dir that p is, if any
  std::string pre = dir == "/" ? "/" : dir + "/"; if(p.compare(0, pre.size(), pre) || p.size() == pre.size()) return ""; std::string r = p.substr(pre.size()); return r.find('/') == std::string::npos ? r : ""; }
void verify_all(Model &m, const char *when) {
  for(auto &x : m.t) { if(!m.known(x.first)) continue;
    EvfsInfo inf; int st = a_stat(x.first, &inf, "fat"); CHECKV(st == EVFS_OK, "lost", "%s: %s is gone (%d)", when, x.first.c_str(), st);
    CHECKV(!!(inf.type & EVFS_FILE_DIR) == x.second.dir, "type", "%s: %s changed its type", when, x.first.c_str());
    if(x.second.dir) { EvfsDir *d; DirEnt e; std::set<std::string> seen; st = a_opendir(x.first, &d, "fat"); CHECKV(st == EVFS_OK, "lost", "%s: directory %s can't be listed (%d)", when, x.first.c_str(), st);
      while((st = a_dirread(d, e)) == EVFS_OK) { if(e.name == "." || e.name == "..") continue; std::string p = x.first == "/" ? "/" + e.name : x.first + "/" + e.name; bool expect = m.t.count(p); CHECKV(expect || m.below_unsure(x.first), "ghost", "%s: the listing of %s shows %s", when, x.first.c_str(), e.name.c_str()); if(expect) { CHECKV(seen.insert(p).second || !m.known(p), "twice", "%s: %s listed twice", when, p.c_str()); } if(seen.size() > 500) break; }
      a_dirclose(d); CHECKV(st == EVFS_DONE || m.below_unsure(x.first), "listing", "%s: listing %s ended with %d on a healthy volume", when, x.first.c_str(), st);
      for(auto &y : m.t) { std::string k = kid_of(x.first, y.first); if(k.size() && m.known(y.first)) CHECKV(seen.count(y.first), "lost", "%s: the listing of %s misses %s", when, x.first.c_str(), k.c_str()); }
      continue; }
    EvfsFile *f; st = a_open(x.first, &f, EVFS_READ, "fat"); CHECKV(st == EVFS_OK, "lost", "%s: %s can't be opened (%d)", when, x.first.c_str(), st);
    std::string g, part; ptrdiff_t r; while((r = a_read(f, part, 3000)) > 0) g += part; a_close(f);
    CHECKV(r == 0 && g == x.second.data, "damaged", "%s: %s holds %zu bytes, expected %zu (%s)", when, x.first.c_str(), g.size(), x.second.data.size(), r ? "error" : "content");
    CHECKV((size_t)inf.size == g.size(), "size", "%s: stat of %s reports %ld bytes, it has %zu", when, x.first.c_str(), (long)inf.size, g.size());
  }
}
void c21() {
  SimFs b("base"); b.yields = false; b.quiet = true; evfs_init(); b.reg(true); b.put_dir("/d");
  FatVol v{"/vol.img", "fat", (uint8_t)choose(2), oneof<uint32_t>({524288, 420000, 524288, 1000000, 2200000})};
  auto faults = [&](bool rd, bool wr) {
    for(auto &m : b.faults.mean) m = 0;
    uint32_t mean = oneof<uint32_t>({8, 20, 60, 200});
    if(rd) { b.faults.mean[OP_READ] = choose(4) ? mean : 0; b.faults.mean[OP_SEEK] = choose(3) ? 0 : mean; }
    if(wr) { b.faults.mean[OP_WRITE] = choose(4) ? mean : 0; b.faults.mean[OP_SYNC] = choose(2) ? 1 + mean / 4 : 0; b.faults.mean[OP_CLOSE] = 0; b.faults.mean[OP_SIZE] = choose(4) ? 0 : 4; }
    b.faults.shorts = choose(3) != 0; b.arm(); };
  // making and mounting under faults
  if(choose(4) == 0) {
    b.faults.mean[OP_OPEN] = choose(2) ? 3 : 0; faults(true, true); b.faults.mean[OP_CLOSE] = choose(3) ? 0 : 3; b.faults.mean[OP_OPEN] = choose(2) ? 4 : 0; b.faults.mean[OP_DELETE] = choose(3) ? 0 : 2;
    if(choose(3) == 0) { for(auto &x : b.faults.mean) x = 0; b.faults.mean[oneof<OpKind>({OP_OPEN, OP_CLOSE, OP_WRITE, OP_SEEK, OP_SIZE, OP_SYNC})] = oneof<uint32_t>({1, 2, 3, 8}); } // one kind alone
    b.arm();
    uint64_t del = b.faults_by_kind[OP_DELETE], f0 = b.faults_fired; int st = fat_make(v); bool hit = b.faults_fired > f0; b.faults_stop(); NodeP n = b.find(v.img);

    CHECKV(hit == (st != EVFS_OK), "make-report", "making an image %s an access to its file reports %d", hit ? "with a failure of" : "without a failure of", st); if(hit) nontrivial();
    if(st != EVFS_OK) { CHECKV(!n || b.faults_by_kind[OP_DELETE] > del, "failed-image-left", "making an image failed with %d and leaves a file of %zu bytes", st, n ? n->data.size() : 0); b.remove(v.img); PROBE("make_failed"); CHECKV(fat_make(v) == EVFS_OK, "setup", "making an image fails after the faults stopped"); }
    else CHECKV(n && n->data.size() == v.size, "make-size", "an image reported as made has %zu bytes", n ? n->data.size() : 0);
    b.check_handles("making an image");
  } else CHECKV(fat_make(v) == EVFS_OK, "setup", "making an image failed");
  if(choose(4) == 0) {
    faults(true, false); b.faults.mean[OP_OPEN] = choose(2) ? 2 : 0; b.arm(); uint64_t f0 = b.faults_fired; int st = fat_mount(v); bool hit = b.faults_fired > f0; b.faults_stop();
    CHECKV(hit == (st != EVFS_OK), "mount-report", "mounting %s an access to the image reports %d", hit ? "with a failure of" : "without a failure of", st); if(hit) nontrivial();
    if(st != EVFS_OK) { PROBE("mount_failed"); b.check_handles("a failed mount"); EvfsFile *f; CHECKV(fat_reg(v) == EVFS_OK, "setup", "registering failed"); CHECKV(a_open("/x", &f, EVFS_RDWR | EVFS_OPEN_OR_NEW, "fat") != EVFS_OK, "unmounted-access", "a file can be created on a volume whose mount failed"); evfs_unregister(evfs_find_vfs("fat")); CHECKV(fat_mount(v) == EVFS_OK, "setup", "mounting fails after the faults stopped"); }
  } else CHECKV(fat_mount(v) == EVFS_OK, "setup", "mounting failed");
  CHECKV(fat_reg(v) == EVFS_OK, "setup", "registering failed");
  // content
  Model m; m.t["/"].dir = true; uint64_t stream = 200; std::vector<std::string> dirs = {"/"};
  unsigned nd = range(1, 4); for(unsigned i = 0; i < nd; i++) { std::string d = dirs[choose((uint32_t)dirs.size())]; d = (d == "/" ? "" : d) + strf("/d%u", i); CHECKV(a_mkdir(d, "fat") == EVFS_OK, "setup", "mkdir failed"); m.t[d].dir = true; dirs.push_back(d); }
  bool crowd = choose(4) == 0; if(crowd) PROBE("crowded_directory"); // directories that grow beyond a cluster
  auto name = [&] { std::string d = crowd && choose(4) ? dirs[1] : dirs[choose((uint32_t)dirs.size())]; return (d == "/" ? "" : d) + ((crowd ? choose(4) == 0 : choose(4) != 0) ? strf("/f%u", choose(7)) : strf("/long name of file number %u.bin", choose(crowd ? 30 : 12))); };
  unsigned nf = range(2, 30); for(unsigned i = 0; i < nf; i++) { std::string p = name(); EvfsFile *f; if(m.t.count(p)) continue; std::string d = content(stream++, 0, choose(3) ? range(0, 600) : range(0, 2500)); CHECKV(a_open(p, &f, EVFS_RDWR | EVFS_NO_EXIST, "fat") == EVFS_OK && a_write(f, d) == (ptrdiff_t)d.size() && a_close(f) == EVFS_OK, "setup", "creating a file failed"); m.t[p].data = d; }
  unsigned phases = range(1, 4);
  for(unsigned ph = 0; ph < phases; ph++) {
    bool wr = choose(2); faults(choose(3) != 0 || !wr, wr); uint64_t f0 = b.faults_fired;
    std::set<std::string> hot; // being changed: excluded from checks until known again
    struct W { EvfsFile *f; std::string path, data; size_t pos; bool bad; }; std::vector<W> ws; struct R { EvfsFile *f; std::string path; size_t pos; bool bad; }; std::vector<R> rs;
    auto busy = [&](const std::string &p) { for(auto &w : ws) if(w.path == p) return true; for(auto &r : rs) if(r.path == p) return true; return false; };
    unsigned nops = range(5, g_cfg.thorough ? 120 : 60);
    for(unsigned i = 0; i < nops; i++) {
      switch(weighted({3, 4, 6, 3, 2, wr ? 4u : 0u, wr ? 9u : 0u, wr ? 3u : 0u, wr ? 3u : 0u, wr ? 2u : 0u, wr ? 2u : 0u})) {
      case 0: { std::string p = name(); if(!m.known(p) || busy(p)) break; EvfsInfo inf; int st = a_stat(p, &inf, "fat"); bool have = m.t.count(p);
        if(have) { CHECKV(!missing(st), "missing", "stat of the existing %s says it is missing (%d)", p.c_str(), st); if(st == EVFS_OK) CHECKV(!!(inf.type & EVFS_FILE_DIR) == m.t[p].dir && (m.t[p].dir || (size_t)inf.size == m.t[p].data.size()), "stat", "stat of %s delivers wrong values", p.c_str()); }
        else CHECKV(st != EVFS_OK, "ghost", "stat of %s succeeds, it does not exist", p.c_str());
        break; }
      case 1: { std::string p = name(); if(!m.known(p) || busy(p) || rs.size() > 3) break; EvfsFile *f; int st = a_open(p, &f, EVFS_READ, "fat"); bool have = m.t.count(p);
        if(!have) { CHECKV(st != EVFS_OK, "ghost", "%s opens, it does not exist", p.c_str()); break; }
        CHECKV(!missing(st), "missing", "opening the existing %s says it is missing (%d)", p.c_str(), st); if(st == EVFS_OK) rs.push_back({f, p, 0, false}); break; }
      case 2: { if(rs.empty()) break; size_t k = choose((uint32_t)rs.size()); R &r = rs[k]; const std::string &d = m.t[r.path].data;
        if(choose(5) == 0) { a_close(r.f); rs.erase(rs.begin() + k); break; }
        if(choose(3) == 0) { size_t p = range(0, (uint32_t)d.size()); int st = a_seek(r.f, (evfs_off_t)p, EVFS_SEEK_TO); if(st == EVFS_OK) { CHECKV((size_t)a_tell(r.f) == p, "tell", "after a seek to %zu the position is %ld", p, (long)a_tell(r.f)); r.pos = p; } else r.bad = true; }
        std::string g; size_t n = range(1, 1500); ptrdiff_t c = a_read(r.f, g, n);
        if(c < 0) { r.bad = true; PROBE("read_error_reported"); break; }
        if(r.bad) { size_t pos = (size_t)a_tell(r.f) - c; CHECKV(pos + c <= d.size() && d.compare(pos, c, g) == 0, "wrong-bytes", "after a failed access a read of %s delivers bytes that are not at its position", r.path.c_str()); break; }
        size_t e = std::min(n, d.size() - r.pos); CHECKV((size_t)c == e && d.compare(r.pos, c, g) == 0, "wrong-bytes", "a read of %zu at %zu of %s (%zu bytes) reports %td bytes%s", n, r.pos, r.path.c_str(), d.size(), c, (size_t)c == e ? " with wrong content" : ""); r.pos += c; break; }
      case 3: { std::string p = dirs[choose((uint32_t)dirs.size())]; if(!m.known(p)) break; EvfsDir *d; DirEnt e; int st = a_opendir(p, &d, "fat"); CHECKV(!missing(st), "missing", "listing the existing %s says it is missing (%d)", p.c_str(), st); if(st != EVFS_OK) break;
        std::map<std::string, DirEnt> seen; bool again = false;
        do { seen.clear(); while((st = a_dirread(d, e)) == EVFS_OK) { if(e.name == "." || e.name == "..") continue; std::string q = p == "/" ? "/" + e.name : p + "/" + e.name; CHECKV(m.t.count(q) || m.below_unsure(p) || busy(q), "ghost", "a listing of %s shows %s", p.c_str(), e.name.c_str()); CHECKV(!seen.count(q) || m.below_unsure(p), "twice", "%s listed twice", q.c_str()); seen[q] = e; if(seen.size() > 500) break; }
        if(st == EVFS_DONE) { for(auto &y : m.t) if(kid_of(p, y.first).size() && m.known(y.first)) { CHECKV(seen.count(y.first), "short-listing", "a listing of %s ends without %s and without an error", p.c_str(), y.first.c_str()); if(!y.second.dir && !busy(y.first)) CHECKV((size_t)seen[y.first].size == y.second.data.size(), "stat", "the listing shows %ld bytes for %s", (long)seen[y.first].size, y.first.c_str()); }
          st = a_dirread(d, e); CHECKV(st != EVFS_OK || m.below_unsure(p), "listing-end", "an ended listing goes on"); }
        else PROBE("listing_error_reported");
        again = !again && choose(4) == 0 && a_rewind(d) == EVFS_OK; } while(again);
        a_dirclose(d); break; }
      case 4: { std::string c; int st = a_getcwd(c, "fat"); if(st == EVFS_OK) CHECKV(c == strf("%d:/", v.pdrv), "cwd", "the current directory reads back as %s", c.c_str()); break; }
      case 5: { if(ws.size() > 2) break; std::string p = name(); if(!m.known(p) || busy(p)) break; bool have = m.t.count(p); EvfsFile *f; int fl = EVFS_RDWR | (have ? oneof<int>({0, EVFS_OVERWRITE, EVFS_APPEND, EVFS_OPEN_OR_NEW, EVFS_NO_EXIST}) : oneof<int>({EVFS_OPEN_OR_NEW, EVFS_OVERWRITE, EVFS_NO_EXIST, 0}));
        int st = a_open(p, &f, fl, "fat"); std::string old = have ? m.t[p].data : "";
        if(have && (fl & EVFS_NO_EXIST)) { CHECKV(st != EVFS_OK, "created-over", "an existing file was opened although it must not exist"); break; }
        if(!have && fl == EVFS_RDWR) { CHECKV(st != EVFS_OK, "ghost", "a missing file opens"); break; }
        if(have) CHECKV(!missing(st), "missing", "opening the existing %s for writing says it is missing (%d)", p.c_str(), st);
        if(st == EVFS_OK) { ws.push_back({f, p, (fl & EVFS_OVERWRITE) ? "" : old, (fl & EVFS_APPEND) ? old.size() : 0, false}); if(!have || (fl & EVFS_OVERWRITE)) { Obj o; m.t[p] = o; } }
        else if(!have || (fl & EVFS_OVERWRITE)) { m.unsure.insert(p); PROBE("create_error_reported"); }
        break; }
      case 6: { if(ws.empty()) break; W &w = ws[choose((uint32_t)ws.size())]; if(w.bad) break;
        unsigned what = weighted({6, 2, 2, 1, 2});
        if(what == 0) { std::string d = content(stream++, 0, choose(4) ? range(1, 300) : range(300, 2000)); ptrdiff_t r = a_write(w.f, d);
          if(r < 0) { w.bad = true; PROBE("write_error_reported"); break; }
          if(r < (ptrdiff_t)d.size()) d.resize(r); if(w.data.size() < w.pos + d.size()) w.data.resize(w.pos + d.size()); w.data.replace(w.pos, d.size(), d); w.pos += d.size(); CHECKV((size_t)a_tell(w.f) == w.pos, "tell", "after a write the position is %ld, expected %zu", (long)a_tell(w.f), w.pos); }
        else if(what == 1) { size_t p = range(0, (uint32_t)w.data.size()); if(a_seek(w.f, (evfs_off_t)p, EVFS_SEEK_TO) != EVFS_OK) { w.bad = true; break; } w.pos = p; }
        else if(what == 2) { std::string g; size_t n = range(1, 700); ptrdiff_t r = a_read(w.f, g, n); if(r < 0) { w.bad = true; break; } size_t e = std::min(n, w.data.size() - w.pos); CHECKV((size_t)r == e && !w.data.compare(w.pos, r, g), "wrong-bytes", "reading back %s while it is written delivers %td bytes%s, expected %zu", w.path.c_str(), r, (size_t)r == e ? " of wrong content" : "", e); w.pos += r; }
        else if(what == 4) { evfs_off_t n = a_size(w.f); if(n < 0) { w.bad = true; PROBE("size_error_reported"); break; } CHECKV((size_t)n == w.data.size(), "size", "%s is reported to have %ld bytes, it has %zu", w.path.c_str(), (long)n, w.data.size()); }
        else { size_t p = range(0, (uint32_t)w.data.size() + 10); int st = a_trunc(w.f, (evfs_off_t)p); if(st != EVFS_OK) { w.bad = true; break; } if(p < w.data.size()) w.data.resize(p); if(w.pos > p) w.pos = std::min(p, w.data.size()); }
        break; }
      case 7: { if(ws.empty()) break; W &w = ws[choose((uint32_t)ws.size())]; int st = a_sync(w.f); if(st != EVFS_OK) { w.bad = true; PROBE("sync_error_reported"); } break; }
      case 8: { if(ws.empty()) break; size_t k = choose((uint32_t)ws.size()); W w = ws[k]; int st = a_close(w.f); ws.erase(ws.begin() + k);
        if(st != EVFS_OK || w.bad) { m.unsure.insert(w.path); if(st != EVFS_OK) PROBE("close_error_reported"); } else { m.t[w.path].data = w.data; PROBE("written_under_faults"); } break; }
      case 9: { std::string p = name(); if(!m.known(p) || busy(p)) break; int st = a_delete(p, "fat"); bool have = m.t.count(p); if(!have) { CHECKV(st != EVFS_OK, "ghost", "deleting a missing file succeeds"); break; } CHECKV(!missing(st), "missing", "deleting the existing %s says it is missing (%d)", p.c_str(), st); if(st == EVFS_OK) m.t.erase(p); else m.unsure.insert(p); break; }
      default: { std::string p = name(), q = name(); if(!m.known(p) || busy(p) || !m.known(q) || busy(q) || p == q) break; bool hp = m.t.count(p), hq = m.t.count(q); int st = a_rename(p, q, "fat");
        if(!hp || hq) { CHECKV(st != EVFS_OK, "rename", "renaming %s succeeds", hp ? "onto an existing file" : "a missing file"); break; }
        CHECKV(st != EVFS_ERR_NO_FILE && st != EVFS_ERR_EXISTS, "missing", "renaming the existing %s says %d", p.c_str(), st);
        if(st == EVFS_OK) { m.t[q] = m.t[p]; m.t.erase(p); } else { m.unsure.insert(p); m.unsure.insert(q); } break; }
      }
    }
    b.faults_stop();
    for(auto &r : rs) { a_close(r.f); }
    for(auto &w : ws) { int st = a_close(w.f); if(st != EVFS_OK || w.bad) m.unsure.insert(w.path); else m.t[w.path].data = w.data; }
    if(b.faults_fired > f0) nontrivial();
    if(choose(3)) verify_all(m, "after the faults stopped");
    if(choose(2)) { fat_unmount(v); CHECKV(fat_mount(v) == EVFS_OK, "mount", "mounting fails after the faults stopped"); verify_all(m, "after a remount"); }
  }
  fat_unmount(v); CHECKV(fat_mount(v) == EVFS_OK, "mount", "mounting fails after the faults stopped"); verify_all(m, "after the last remount");
  fat_unmount(v); b.check_handles("at the end");
}
SCENARIO("C21", c21, 400000000, "a run in which an access to the file holding a FAT image failed; distinct = distinct event log");
} // namespace
