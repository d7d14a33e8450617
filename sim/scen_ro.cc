// C09, C10: tar archives.  C11: Romfs images.  C12: read-only mounts.
#include "ro.h"
extern "C" {
#include "evfs/tar_iter.h"
#include "evfs/tar_iter_rsrc.h"
}
using namespace sim;
namespace {

void ro_faults(SimFs &b) {
  b.faults.mean[OP_READ] = oneof<uint32_t>({0, 6, 15, 40, 120}); b.faults.mean[OP_SEEK] = oneof<uint32_t>({0, 0, 10, 40}); b.faults.shorts = choose(3) != 0;
  b.faults_on = true; b.arm();
}
char *exact_copy(const std::string &s) { char *p = (char *)::operator new(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); return p; }

enum Kind { TAR, ROM };
int mount_file(Kind k, const char *name, SimFs &b, const std::string &path) {
  EvfsFile *f; int st = a_open(path, &f, EVFS_READ, "base"); if(st != EVFS_OK) return st;
  st = api("register", [&] { return k == TAR ? evfs_register_tar_fs(name, f, false) : evfs_register_romfs(name, f, false); });
  if(st != EVFS_OK) { CHECKV(!evfs_find_vfs(name), "registered-anyway", "a refused mount stays registered"); a_close(f); }
  (void)b; return st;
}
int mount_mem(Kind k, const char *name, const char *img, size_t n) {
  int st = api("register", [&] { return k == TAR ? evfs_register_tar_rsrc_fs(name, (uint8_t *)img, n, false) : evfs_register_rsrc_romfs(name, (const uint8_t *)img, n, false); });
  if(st != EVFS_OK) CHECKV(!evfs_find_vfs(name), "registered-anyway", "a refused mount stays registered");
  return st;
}
void unmount(const char *name) { int st = api("unregister", [&] { return evfs_unregister(evfs_find_vfs(name)); }); CHECKV(st == EVFS_OK, "unregister", "unregistering failed (%d)", st); }

// Walks one archive with the public iterators: every member once, in order,
// with its header, its size and the place of its data.
void iter_run(bool file, bool mem, bool faults, bool damage) {
  SimFs b("base"); b.yields = false; evfs_init(); b.reg(true);
  Tree t; std::vector<size_t> heads; std::string img = make_tar(t, &heads); size_t bad = ~0ull; // header where the walk has to stop
  if(damage && heads.size()) { unsigned i = choose((uint32_t)heads.size()); size_t o = choose(492); if(o >= 148) o += 8; img[heads[i] + o] ^= 1 << choose(7); bad = heads[i]; FAULT("image-header-bit"); nontrivial(); }
  b.put_file("/img", img); char *m = exact_copy(img);
  auto size_of = [&](size_t h) { return (size_t)strtoul(&img[h + 124], nullptr, 8); };
  if(file) {
    EvfsFile *f; CHECKV(a_open("/img", &f, EVFS_READ, "base") == EVFS_OK, "open", "the archive cannot be opened");
    TarFileIterator it; memset(&it, 0x5A, sizeof it); tar_iter_init(&it, f);
    if(faults) ro_faults(b);
    size_t at = 0; bool on = false; uint64_t f0 = b.faults_fired;
    for(unsigned n = range(3, 40); n--;) {
      unsigned what = !on ? 0 : weighted({2, 8, 2, 3}); bool r; size_t want; f0 = b.faults_fired;
      if(what == 0) { bool any = heads.size() && choose(3) == 0; want = any ? choose((uint32_t)heads.size()) : 0; evfs_off_t o = any ? (evfs_off_t)heads[want] : 0; r = api("iter_seek", [&] { return tar_iter_seek(&it, o); }); }
      else if(what == 1) { want = at + 1; r = api("iter_next", [&] { return tar_iter_next(&it); }); }
      else if(what == 2) { want = at; r = api("iter_reset", [&] { return tar_iter_reset(&it); }); }
      else { // the archive file is left where the member's data starts
        size_t len = size_of(heads[at]); std::string g; CHECKV(a_tell(f) == (evfs_off_t)heads[at] + 512, "iter-data", "after stepping to the member at %zu the archive is at %ld", heads[at], (long)a_tell(f));
        ptrdiff_t k = a_read(f, g, len); if(k < 0 || (size_t)k < len) CHECKV(b.faults_fired > f0, "iter-data", "reading a member's data gives %ld of %zu", (long)k, len); CHECKV(img.compare(heads[at] + 512, g.size(), g) == 0, "iter-data", "wrong data follows the header of the member at %zu", heads[at]);
        if(k > 0) nontrivial(); a_seek(f, (evfs_off_t)heads[at] + 512, EVFS_SEEK_TO); if(a_tell(f) != (evfs_off_t)heads[at] + 512) on = false; continue; }
      bool end = want >= heads.size(), broken = !end && heads[want] == bad;
      if(b.faults_fired > f0 && !r) { CHECKV(it.status != EVFS_OK || end, "iter-silent", "a read failure looks like the end of the archive"); on = false; nontrivial(); continue; }
      CHECKV(r == (!end && !broken), "iter-step", "stepping to member %zu of %zu reports %d", want, heads.size(), r);
      CHECKV((it.status == EVFS_OK) == !broken, "iter-status", "after stepping to member %zu of %zu the status is %d", want, heads.size(), it.status);
      on = r; if(!r) continue;
      at = want; CHECKV(it.header_offset == (evfs_off_t)heads[at] && (size_t)it.file_size == size_of(heads[at]) && tar_iter_file_offset(&it) == (evfs_off_t)heads[at] + 512 && !memcmp(&it.cur_header, &img[heads[at]], 500), "iter-header", "member %zu is reported at %ld with %ld bytes, it is at %zu with %zu", at, (long)it.header_offset, (long)it.file_size, heads[at], size_of(heads[at]));
      if(at) nontrivial(); PROBE("tar-iterator-steps");
    }
    b.faults_stop(); tar_iter_close(&it); b.check_handles("closing an iterator");
  }
  if(mem) {
    TarRsrcIterator it; memset(&it, 0x5A, sizeof it); tar_rsrc_iter_init(&it, (uint8_t *)m, img.size()); size_t at = 0; bool on = false;
    for(unsigned n = range(3, 40); n--;) {
      unsigned what = !on ? 0 : weighted({2, 8, 2}); bool r; size_t want;
      if(what == 0) { bool any = heads.size() && choose(3) == 0; want = any ? choose((uint32_t)heads.size()) : 0; evfs_off_t o = any ? (evfs_off_t)heads[want] : 0; r = tar_rsrc_iter_seek(&it, o); }
      else if(what == 1) { want = at + 1; r = tar_rsrc_iter_next(&it); }
      else { want = at; r = tar_rsrc_iter_reset(&it); }
      bool end = want >= heads.size(), broken = !end && heads[want] == bad;
      CHECKV(r == (!end && !broken), "iter-step", "stepping in memory to member %zu of %zu reports %d", want, heads.size(), r);
      CHECKV((it.status == EVFS_OK) == !broken, "iter-status", "after stepping in memory to member %zu of %zu the status is %d", want, heads.size(), it.status);
      on = r; if(!r) continue;
      at = want; CHECKV(it.header_offset == heads[at] && it.file_size == size_of(heads[at]) && tar_rsrc_iter_file_offset(&it) == heads[at] + 512 && (char *)it.cur_header == m + heads[at] && (!it.file_size || (char *)it.read_pos == m + heads[at] + 512), "iter-header", "in memory member %zu is reported at %zu with %zu bytes, it is at %zu with %zu", at, it.header_offset, it.file_size, heads[at], size_of(heads[at]));
      if(at) nontrivial(); PROBE("tar-iterator-steps");
    }
  }
  ::operator delete(m); b.unreg();
}

void archive_run(Kind k, bool file, bool mem, bool faults, bool corrupt) {
  SimFs b("base"); b.yields = false; evfs_init(); b.reg(true);
  Tree t; std::vector<size_t> heads; std::string img = k == TAR ? make_tar(t, &heads) : make_rom(t, &heads);
  if(corrupt) {
    // An image whose index cannot be read completely is refused.
    bool must = false; std::string why; size_t kept = img.size();
    if(heads.size() && choose(2)) { // one damaged header
      size_t h = heads[choose((uint32_t)heads.size())]; must = true;
      switch(k == TAR ? choose(4) : 0) {
      case 3: { // a well-formed header of another format
        const char *m[] = {"ustar\00000", "ustar  x", "USTAR  \0", "\0\0\0\0\0\0\0\0", "ustar 00"}; memcpy(&img[h + 257], m[choose(5)], 8);
        unsigned sum = 8 * ' '; for(size_t i = 0; i < 512; i++) if(i < 148 || i >= 156) sum += (unsigned char)img[h + i]; snprintf(&img[h + 148], 8, "%06o", sum);
        why = "a header of another format"; FAULT("image-foreign-header"); break; }
      case 2: { // something else where the archive should end
        size_t e = heads.back() + 512 + (strtoul(&img[heads.back() + 124], nullptr, 8) + 511) / 512 * 512;
        if(e + 500 <= img.size()) { img[e + choose(500)] = (char)range(1, 255); why = "data that belongs to no member"; FAULT("image-garbage"); break; } } // fall through
      default: { size_t o = h + (k == TAR ? choose(492) : 4 + choose(4)); if(k == TAR && o >= h + 148) o += 8; img[o] ^= 1 << choose(7); why = "a damaged header"; FAULT("image-header-bit"); }
      }
    } else if(img.size() > 600) {
      size_t cut = choose(2) && heads.size() ? heads[choose((uint32_t)heads.size())] + (k == TAR ? range(1, 499) : range(1, 15)) : range(1, (uint32_t)img.size() - 1);
      if(cut >= img.size()) cut = img.size() - 1;
      img.resize(cut); kept = cut; FAULT("image-truncated");
      if(k == ROM) must = true; else for(size_t h : heads) if(cut > h && cut < h + 500) must = true;
      why = "a cut image";
    }
    if(k == ROM && g_cfg.variant == "alt" && why == "a damaged header") must = false; // without an index headers are read when they are needed
    b.put_file("/img", img); char *m = exact_copy(img);
    for(int v = 0; v < 2; v++) {
      int st = v ? mount_mem(k, "ro", m, img.size()) : mount_file(k, "ro", b, "/img");
      if(must) { CHECKV(st != EVFS_OK, "incomplete-mounted", "an image with %s is mounted", why.c_str()); nontrivial(); }
      if(st == EVFS_OK) {
        // what it serves may come up short but is never wrong
        for(auto &e : t) if(!e.second.dir && !e.second.kind && e.first.size() < 250) { EvfsFile *f; bool ok = a_open(e.first, &f, EVFS_READ, "ro") == EVFS_OK; if(k == TAR && e.second.data_off && e.second.data_off - 12 <= kept) CHECKV(ok, "member-dropped", "%s is missing from a mounted archive that holds its header", e.first.c_str()); if(!ok) continue; std::string g; ptrdiff_t r = a_read(f, g, e.second.data.size() + 10);
          bool any = r < 0 || e.second.data.compare(0, r, g) == 0; for(auto &o : e.second.old) any = any || o.compare(0, r, g) == 0;
          CHECKV(any, "wrong-bytes", "%s of a cut archive delivers wrong bytes", e.first.c_str()); a_close(f); }
        unmount("ro");
      }
      b.check_handles("mount");
      CHECKV(allocs_live() == 0, "leak", "memory stays allocated after a refused mount: %s", allocs_describe().c_str());
    }
    ::operator delete(m); b.unreg(); return;
  }
  b.put_file("/img", img); char *m = nullptr;
  RoClient c; c.t = &t; c.medium = &b; c.faults = faults; c.listing = k == ROM;
  if(file) {
    if(faults) {
      ro_faults(b); uint64_t f0 = b.faults_fired; int st = mount_file(k, "arc", b, "/img");
      if(st != EVFS_OK) { CHECKV(b.faults_fired > f0, "mount-refused", "mounting a readable archive fails (%d)", st); b.faults_stop(); b.check_handles("mount"); st = mount_file(k, "arc", b, "/img"); PROBE("mount-failed-then-ok"); nontrivial(); }
      CHECKV(st == EVFS_OK, "mount-refused", "mounting a readable archive fails (%d)", st);
      if(b.faults_fired == f0) b.faults_stop();
      // whatever happened while mounting, everything stored is there
      b.faults_stop(); c.mounts = {"arc"}; c.sweep();
    } else { int st = mount_file(k, "arc", b, "/img"); CHECKV(st == EVFS_OK, "mount-refused", "mounting a well-formed archive fails (%d)", st); }
    c.mounts.clear(); c.mounts.push_back("arc");
  }
  if(mem) { m = exact_copy(img); int st = mount_mem(k, "mem", m, img.size()); CHECKV(st == EVFS_OK, "mount-refused", "mounting a well-formed archive from memory fails (%d)", st); c.mounts.push_back("mem"); c.image = m; }
  if(k == ROM && choose(3) == 0) { c.dots = false; unsigned one = 1; for(auto &x : c.mounts) CHECKV(a_ctrl(EVFS_CMD_SET_NO_DIR_DOTS, &one, x.c_str()) == EVFS_OK, "no-dots", "dot entries cannot be switched off"); }
  b.readonly_medium = true; std::string before = b.dump();
  if(faults) { ro_faults(b); }
  unsigned n = range(10, g_cfg.thorough ? 160 : 70); uint64_t ff = b.faults_fired;
  for(unsigned i = 0; i < n; i++) c.step();
  if(faults && b.faults_fired > ff) nontrivial();
  if(!faults && c.delivered > 100 && c.opened_n >= 2) nontrivial();
  b.faults_stop(); c.faults = false;
  c.close_all(); c.sweep();
  CHECKV(b.write_attempts.empty(), "medium-written", "a read-only mount tried to change its medium: %s", b.write_attempts.empty() ? "" : b.write_attempts[0].c_str());
  CHECKV(b.dump() == before, "medium-changed", "the medium of a read-only mount changed");
  for(auto &x : c.mounts) unmount(x.c_str());
  b.check_handles("unmount");
  if(m) { CHECKV(!memcmp(m, img.data(), img.size()), "medium-changed", "the memory image changed"); ::operator delete(m); }
  b.unreg();
  CHECKV(allocs_live() == 0, "leak", "memory stays allocated after unmounting: %s", allocs_describe().c_str());
}

void c09() { if(chance(1, 8)) { iter_run(true, false, choose(2), choose(3) == 0); return; } unsigned w = weighted({5, 4, 2}); archive_run(TAR, true, false, w == 1, w == 2); }
void c10() { if(chance(1, 6)) { iter_run(true, true, false, choose(3) == 0); return; } if(chance(1, 8)) { archive_run(TAR, true, true, false, true); return; } archive_run(TAR, true, true, chance(1, 4), false); }
void c11() { unsigned w = weighted({3, 3, 2, 4, 2}); archive_run(ROM, w != 2, w == 1 || w == 2, w == 3, w == 4); }
SCENARIO("C09", c09, 20000000, "a mounted tar archive was read through interleaved handles (or a read failure or damage hit it) and compared with the stored bytes");
SCENARIO("C10", c10, 20000000, "one history ran side by side on the file and the memory mount of one archive");
SCENARIO("C11", c11, 20000000, "a Romfs image was read and listed through interleaved handles (or a read failure or damage hit it) and compared with the stored tree");
} // namespace
