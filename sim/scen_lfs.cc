// C24: the littlefs wrapper and littlefs volumes in image files, over a
// stand-in littlefs.
#include "fat.h"
#include "lfs_sim.h"
extern "C" {
#include "evfs/littlefs_fs.h"
#include "evfs/littlefs_image.h"
}
using namespace sim;
namespace {

std::string lfs_path(bool fancy) {
  std::string p;
  if(fancy && chance(1, 12)) return oneof<std::string>({"/", ".", "..", "a/.", "/a/..", "//", "sub/.."});
  if(choose(2)) p = "/";
  unsigned n = range(1, 3);
  for(unsigned i = 0; i < n; i++) {
    std::string s = chance(2, 3) ? oneof<std::string>({"f0", "f1", "a", "b", "sub"}) : oneof<std::string>({"f2", "deep", "..x", ".hid", "a longer name.txt", std::string(60, 'q'), std::string(150, 'r'), std::string(255, 's')});
    if(fancy && i + 1 < n) { if(chance(1, 10)) s = ".."; else if(chance(1, 12)) s = "."; }
    p += s; if(i + 1 < n) p += fancy && chance(1, 8) ? oneof<std::string>({"//", "/./"}) : "/";
  }
  return p;
}
std::string sim_tree(SimFs &r) {
  std::string o; std::function<void(Node &, const std::string &)> go = [&](Node &n, const std::string &p) {
    for(auto &k : n.kids) { std::string q = p + "/" + k.first; if(k.second->dir) { o += "D " + q + "\n"; go(*k.second, q); } else o += strf("F %s %zu %llx\n", q.c_str(), k.second->data.size(), (unsigned long long)fnv(k.second->data.data(), k.second->data.size())); } };
  go(*r.root, ""); return o;
}
bool lfs_same(const char *what, long a, long b) {
  if(a >= 0 || b >= 0) return a == b;
  if(b == EVFS_ERR_EXISTS || b == EVFS_ERR_NOT_EMPTY || b == EVFS_ERR_NO_FILE) return a == b || !strcmp(what, "rename") || (missing(b) && missing(a));
  return true;
}
struct ImageDev { LittlefsImage img; lfs_config cfg; lfs_t lfs; };
void image_cfg(ImageDev &d, uint32_t bs, uint32_t blocks) {
  memset(&d, 0, sizeof d); d.cfg.context = &d.img; d.cfg.read = littlefs_image_read; d.cfg.prog = littlefs_image_prog; d.cfg.erase = littlefs_image_erase; d.cfg.sync = littlefs_image_sync;
  d.cfg.read_size = d.cfg.prog_size = 16; d.cfg.block_size = bs; d.cfg.block_count = blocks; d.cfg.cache_size = 16 << choose(7); d.cfg.lookahead_size = 16; d.cfg.block_cycles = -1;
}
int i_make(const std::string &p, ImageDev &d) { return api("make_image", [&] { return littlefs_make_image(p.c_str(), &d.cfg); }); }
int i_mount(const std::string &p, ImageDev &d) { return api("mount_image", [&] { return littlefs_mount_image(p.c_str(), &d.cfg, &d.lfs); }); }
void i_unmount(ImageDev &d) { api("unmount_image", [&] { littlefs_unmount_image(&d.lfs); return 0; }); }

void lfs_run(bool image, bool faults) {
  g_lfs = LfsCtl(); evfs_init();
  SimFs b("base"), ref("ref"); b.yields = ref.yields = false; b.quiet = true; b.reg(true); ref.reg(false); b.put_dir("/d");
  RamDev ram(512); ImageDev dev; lfs_t *lfs; std::string path = oneof<std::string>({"/vol.img", "/d/vol.img"});
  auto base_faults = [&](bool writes) {
    for(auto &m : b.faults.mean) m = 0; uint32_t mean = oneof<uint32_t>({8, 25, 80});
    b.faults.mean[OP_READ] = mean; b.faults.mean[OP_SEEK] = choose(2) ? mean : 0; if(writes) { b.faults.mean[OP_WRITE] = mean; b.faults.mean[OP_SYNC] = choose(2) ? mean : 0; } b.faults.shorts = choose(3) != 0; b.arm(); };
  if(image) {
    uint32_t bs = oneof<uint32_t>({4096, 512, 1024}), blocks = bs == 4096 ? range(32, 64) : range(200, 260); image_cfg(dev, bs, blocks); lfs = &dev.lfs;
    if(faults && choose(2)) {
      base_faults(true); b.faults.mean[OP_OPEN] = choose(2) ? 2 : 0; b.faults.mean[OP_CLOSE] = choose(2) ? 2 : 0; b.faults.mean[OP_SEEK] = choose(2) ? 1 : 0; b.arm();
      uint64_t f0 = b.faults_fired; int st = i_make(path, dev); bool hit = b.faults_fired > f0; b.faults_stop(); b.check_handles("making an image");
      if(hit) { nontrivial(); PROBE("make_faulty"); }
      CHECKV(!hit || st != EVFS_OK, "make-report", "an image is reported as made although an access to its file failed");
      if(st != EVFS_OK) { CHECKV(hit, "make-image", "making an image failed with %d", st); CHECKV(!b.find(path), "failed-image-left", "making an image failed with %d and leaves a file of %zu bytes", st, b.find(path)->data.size()); CHECKV(i_make(path, dev) == EVFS_OK, "make-image", "making an image fails after the faults stopped"); }
    } else CHECKV(i_make(path, dev) == EVFS_OK, "make-image", "making an image failed");
    CHECKV(b.find(path) && b.find(path)->data.size() == (size_t)bs * blocks, "make-size", "an image of %u bytes was asked for, the file has %zu", bs * blocks, b.find(path) ? b.find(path)->data.size() : 0);
    if(choose(6) == 0) { std::string keep = b.find(path)->data; CHECKV(i_make(path, dev) == EVFS_ERR_EXISTS && b.find(path)->data == keep, "make-existing", "making an image over an existing one is not refused or changes it"); b.check_handles("making an image"); }
    if(choose(8) == 0) { ImageDev o; image_cfg(o, bs, blocks + 1); CHECKV(i_mount(path, o) != EVFS_OK, "mount-size", "an image of another size is mounted"); b.check_handles("a refused mount"); CHECKV(i_mount("/none.img", o) != EVFS_OK, "mount-missing", "a missing image is mounted"); b.check_handles("a refused mount"); }
    if(faults && choose(2)) { base_faults(false); b.faults.mean[OP_READ] = 2; b.faults.mean[OP_OPEN] = choose(2) ? 2 : 0; b.faults.mean[OP_SIZE] = choose(2) ? 1 : 0; b.arm(); uint64_t f0 = b.faults_fired; int st = i_mount(path, dev); bool hit = b.faults_fired > f0; b.faults_stop(); CHECKV(!hit || st != EVFS_OK, "mount-report", "an image is reported as mounted although an access to its file failed"); if(st != EVFS_OK) { CHECKV(hit, "mount-image", "mounting failed with %d", st); b.check_handles("a failed mount"); nontrivial(); st = i_mount(path, dev); } CHECKV(st == EVFS_OK, "mount-image", "mounting an image failed"); }
    else CHECKV(i_mount(path, dev) == EVFS_OK, "mount-image", "mounting an image failed");
  } else { lfs = &ram.lfs; CHECKV(!lfs_format(lfs, &ram.cfg) && !lfs_mount(lfs, &ram.cfg), "setup", "the stand-in failed"); }
  auto reg = [&] { int st = api("register", [&] { return evfs_register_littlefs("lfs", lfs, false); }); CHECKV(st == EVFS_OK, "register", "registering failed (%d)", st); }; reg();
  Diff d{"lfs", "ref"}; bool fancy = choose(3) == 0; SimFs *rp = &ref;
  d.same = lfs_same; d.ordered = false; d.one_writer = d.seek_within = d.append_past = d.append_unplaced = d.lazy_sizes = true; d.ctrl = false;
  d.flags = {EVFS_READ, EVFS_RDWR, EVFS_RDWR | EVFS_OPEN_OR_NEW, EVFS_RDWR | EVFS_OVERWRITE, EVFS_RDWR | EVFS_NO_EXIST, EVFS_RDWR | EVFS_NO_EXIST | EVFS_OPEN_OR_NEW, EVFS_RDWR | EVFS_OPEN_OR_NEW | EVFS_APPEND, EVFS_RDWR | EVFS_APPEND | EVFS_OPEN_OR_NEW, EVFS_RDWR | EVFS_OVERWRITE | EVFS_OPEN_OR_NEW, EVFS_WRITE | EVFS_OVERWRITE, EVFS_WRITE | EVFS_NO_EXIST, EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE};
  d.path = [fancy, rp] { for(;;) { std::string p = lfs_path(fancy); bool ok = true; size_t i = 0; // dots only after a directory that exists
      while(i < p.size()) { size_t e = p.find('/', i); if(e == std::string::npos) e = p.size(); std::string g = p.substr(i, e - i); if((g == "." || g == "..") && i) { NodeP n = rp->walk(rp->resolve(p.substr(0, i))); if(!n || !n->dir) ok = false; } i = e + 1; }
      if(ok) return p; } };
  d.key = [rp](const std::string &p) { return rp->resolve(p); };
  d.allow = [rp](const char *w, const std::string &p, const std::string &q) {
    auto in_cwd = [&](const std::string &s) { std::string a = rp->resolve(s); return a == "/" || rp->cwd == a || rp->cwd.compare(0, a.size() + 1, a + "/") == 0; };
    if(!strcmp(w, "delete")) return !in_cwd(p);
    if(!strcmp(w, "rename")) { std::string a = rp->resolve(p), c = rp->resolve(q); NodeP x = rp->find(a), y = rp->find(c); return !in_cwd(p) && !in_cwd(q) && !(x && y && (x->dir || y->dir)); }
    return true; };
  // paths beyond the limits of the library may be refused
  d.a_may_refuse = [rp](const char *w, const std::string &p, long st) {
    size_t n = (p.size() && p[0] == '/' ? 0 : rp->cwd.size() + 1) + p.size() + 1;
    if(!strcmp(w, "set_cur_dir") && n > EVFS_MAX_PATH - 2) return true; (void)st;
    return n > EVFS_MAX_PATH - 2; };
  uint64_t hits = 0, seen = 0; uint64_t bseen = b.faults_fired;
  if(faults) {
    d.b_data = [rp](const std::string &k) -> std::string * { NodeP n = rp->find(k); return n && !n->dir ? &n->data : nullptr; };
    d.size_synced = [&] { return hits == 1 && g_lfs.last_op == L_SIZE; }; // the sync before it went well
    d.failed = [&](const char *what, long st) {
      hits = g_lfs.fired - seen; bool hit = hits, bhit = b.faults_fired != bseen; seen = g_lfs.fired; bseen = b.faults_fired;
      d.hit = hit || bhit; if(!strcmp(what, "size") && st >= 0 && (bhit || (hit && g_lfs.last_op == L_SYNC))) return false; // asking for the size also syncs; the size itself is known
      if(hit) { CHECKV(st < 0, "error-swallowed", "littlefs failed with %d (%s) and %s reports %ld", g_lfs.last, "injected", what, st); long want = lfs_code(g_lfs.last); CHECKV(st == want || want == EVFS_ERR || !strcmp(what, "set_cur_dir"), "error-code", "littlefs failed with %d and %s reports %ld, it stands for %ld", g_lfs.last, what, st, want); nontrivial(); return true; }
      if(bhit) { CHECKV(st < 0, "error-swallowed", "an access to the image failed and %s reports %ld", what, st); CHECKV(!missing(st) && st != EVFS_ERR_EXISTS, "error-code", "an access to the image failed and %s reports %ld", what, st); nontrivial(); return true; }
      return false; };
    if(image) base_faults(true); else { uint32_t m = oneof<uint32_t>({5, 12, 40}); for(int k = 0; k < L_N; k++) g_lfs.mean[k] = choose(3) ? m : 0; g_lfs.mean[L_MOUNT] = g_lfs.mean[L_FORMAT] = 0; g_lfs.arm(); }
    d.eof_exact = false; d.max_dirs = 0;
  }
  auto pause = [&] { g_lfs.on = false; b.faults_on = false; }; auto resume = [&] { if(!faults) return; seen = g_lfs.fired; bseen = b.faults_fired; if(image) b.faults_on = true; else g_lfs.on = true; };
  auto compare = [&](const char *when) { std::string t = tree_of("lfs"), r = sim_tree(ref); CHECKV(t == r, "tree-differs", "%s: the volume %s", when, first_diff(t, r).c_str()); };
  auto quiet_point = [&] { d.close_all(); if(g_lfs.files || g_lfs.dirs) violate("handle-left", "%d files and %d directories stay open in littlefs after everything was closed", g_lfs.files, g_lfs.dirs); };
  unsigned n = range(10, g_cfg.thorough ? 200 : 80);
  for(unsigned i = 0; i < n; i++) {
    d.step(); CHECKV(g_lfs.files == (int)d.hs.size(), "handle-left", "%d files are open in littlefs, %zu handles exist", g_lfs.files, d.hs.size());
    if(choose(25) == 0) { // register again; on an image also mount again
      if(!faults) quiet_point(); else { pause(); quiet_point(); }
      if(image) { // a volume whose last commit failed is settled first
        if(faults) { a_mkdir("/settle", "lfs"); CHECKV(a_delete("/settle", "lfs") == EVFS_OK, "stuck", "the volume stays unusable after the faults stopped"); }
        if(choose(2)) CHECKV(b.find(path)->durable == b.find(path)->data, "sync-not-passed", "everything is closed but the image is not synced");
        i_unmount(dev); b.check_handles("unmounting"); int st = i_mount(path, dev); CHECKV(st == EVFS_OK, "mount-image", "mounting again failed (%d)", st); }
      CHECKV(evfs_unregister(evfs_find_vfs("lfs")) == EVFS_OK, "unregister", "unregistering failed"); reg(); ref.cwd = "/"; compare("after mounting again"); PROBE("remount"); resume();
    }
  }
  pause(); if(!faults && d.mutations > 2) nontrivial();
  quiet_point(); compare("at the end");
  if(image) { i_unmount(dev); b.check_handles("unmounting"); }
  CHECKV(evfs_unregister(evfs_find_vfs("lfs")) == EVFS_OK, "unregister", "unregistering failed");
  if(!image) lfs_unmount(lfs);
  b.unreg(); ref.unreg(); CHECKV(allocs_live() == 0, "leak", "memory stays allocated: %s", allocs_describe().c_str());
}
void c24() { switch(weighted({4, 5, 3, 3})) { case 0: lfs_run(false, false); break; case 1: lfs_run(false, true); break; case 2: lfs_run(true, false); break; default: lfs_run(true, true); } }
SCENARIO("C24", c24, 100000000, "a run that changed something on a littlefs volume, or in which littlefs or the image file failed; distinct = distinct event log");
} // namespace
