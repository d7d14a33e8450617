// Set-up and tree helpers for FAT images.
#pragma once
#include "diff.h"
extern "C" {
#include "ff.h"
#include "evfs/fatfs_image.h"
#include "evfs/fatfs_fs.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_trace.h"
}
namespace sim {
struct FatVol { std::string img, vfs; uint8_t pdrv; uint32_t size; };
inline int fat_make(const FatVol &v) { return api("make_image", [&] { return fatfs_make_image(v.img.c_str(), v.pdrv, (evfs_off_t)v.size); }); }
inline int fat_mount(const FatVol &v) { return api("mount_image", [&] { return fatfs_mount_image(v.img.c_str(), v.pdrv); }); }
inline void fat_unmount(const FatVol &v) { api("unmount_image", [&] { fatfs_unmount_image(v.pdrv); return 0; }); }
inline int fat_reg(const FatVol &v, bool def = false) { return api("register_fatfs", [&] { return evfs_register_fatfs(v.vfs.c_str(), v.pdrv, def); }); }
inline bool missing(long st) { return st == EVFS_ERR_NO_FILE || st == EVFS_ERR_NO_PATH; }
// Statuses as this backend reports them: success, "exists" and "missing" are
// told apart, other refusals are any error.
inline bool fat_same(const char *what, long a, long b) {
  if(a >= 0 || b >= 0) return a == b;
  if(b == EVFS_ERR_EXISTS) return a == b;
  if(missing(b)) return missing(a) || !strcmp(what, "rename");
  return true;
}
inline uint32_t fat_size() { // small volumes get one-sector clusters, larger ones FAT16 and bigger clusters
  return oneof<uint32_t>({300000, 280000, 524288, 400001, 1000000, 2200000, 6000000});
}
// the whole tree through the public API, as text
inline std::string tree_of(const char *vfs, const std::string &dir = "/", int depth = 0) {
  std::string o; EvfsDir *d; DirEnt e; int st;
  if(depth > 12) return "too deep\n";
  if((st = a_opendir(dir, &d, vfs)) != EVFS_OK) return strf("! open_dir %s %d\n", dir.c_str(), st);
  std::map<std::string, DirEnt> m;
  while((st = a_dirread(d, e)) == EVFS_OK) { if(e.name == "." || e.name == "..") continue; if(m.count(e.name)) o += "! twice " + e.name + "\n"; m[e.name] = e; if(m.size() > 3000) { o += "! endless\n"; break; } }
  if(st != EVFS_DONE) o += strf("! listing %s ends with %d\n", dir.c_str(), st);
  a_dirclose(d);
  for(auto &x : m) {
    std::string p = dir == "/" ? "/" + x.first : dir + "/" + x.first;
    if(x.second.dir) { o += "D " + p + "\n"; o += tree_of(vfs, p, depth + 1); continue; }
    EvfsFile *f; std::string g;
    if((st = a_open(p, &f, EVFS_READ, vfs)) != EVFS_OK) { o += strf("! open %s %d\n", p.c_str(), st); continue; }
    ptrdiff_t r; std::string part; while((r = a_read(f, part, 4096)) > 0) { g += part; if(g.size() > 20000000) break; }
    if(r < 0) o += strf("! read %s %td\n", p.c_str(), r);
    if((evfs_off_t)g.size() != x.second.size) o += strf("! size %s %ld read %zu\n", p.c_str(), (long)x.second.size, g.size());
    a_close(f);
    o += strf("F %s %zu %llx\n", p.c_str(), g.size(), (unsigned long long)fnv(g.data(), g.size()));
  }
  return o;
}
inline std::string first_diff(const std::string &a, const std::string &b) {
  size_t i = 0; while(i < a.size() && i < b.size() && a[i] == b[i]) i++;
  while(i && a[i - 1] != '\n') i--;
  return "has '" + a.substr(i, a.find('\n', i) - i) + "' expected '" + b.substr(i, b.find('\n', i) - i) + "'";
}
} // namespace sim
