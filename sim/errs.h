// Every failure of the filesystem below is reported by the call that needed
// it: one armed base operation per call, through any filesystem that passes
// its calls on.
#pragma once
#include "api.h"
namespace sim {
// `f` and `d`: an existing file and directory of V over b; nothing but `f`'s
// content and `d`/errs.* may change.
inline void errors_reported(SimFs &b, const std::string &V, const std::string &f, const std::string &d, unsigned n) {
  const char *v = V.c_str(); bool shorts = b.faults.shorts; b.faults.shorts = false; EvfsFile *h = nullptr; EvfsDir *l = nullptr; std::string s; EvfsInfo i; DirEnt e;
  auto with = [&](OpKind k, const char *what, const std::function<long()> &call) {
    for(int x = 0; x < OP_NKINDS; x++) { b.faults.mean[x] = 0; b.next_fault[x] = 0; }
    b.faults.mean[k] = 1; b.faults_on = true; b.next_fault[k] = 1; uint64_t f0 = b.faults_fired; long r = call(); b.faults_stop();
    if(b.faults_fired == f0) return r;
    CHECKV(r < 0, "hidden-error", "%s returns %ld although the filesystem below failed with %d", what, r, b.last_fault_code); PROBE("error_passed_on"); return r; };
  std::string x = d + "/errs.x", y = d + "/errs.y";
  for(unsigned c = 0; c < n; c++) {
    if(!h && (a_open(f, &h, EVFS_RDWR, v) != EVFS_OK)) violate("open-after-error", "the file %s does not open after the failures ended", f.c_str());
    if(!l && (a_opendir(d, &l, v) != EVFS_OK)) violate("open-after-error", "the directory %s does not open after the failures ended", d.c_str());
    switch(choose(18)) {
    case 0: a_seek(h, 0, EVFS_SEEK_TO); with(OP_READ, "read", [&] { return (long)a_read(h, s, range(1, 40)); }); break;
    case 1: with(OP_WRITE, "write", [&] { return (long)a_write(h, content(9, 0, range(1, 40))); }); break;
    case 2: with(OP_TRUNC, "truncate", [&] { return (long)a_trunc(h, 3); }); break;
    case 3: with(OP_SYNC, "sync", [&] { return (long)a_sync(h); }); break;
    case 4: with(choose(2) ? OP_SIZE : OP_SYNC, "size", [&] { return (long)a_size(h); }); break;
    case 5: with(OP_SEEK, "seek", [&] { return (long)a_seek(h, 1, EVFS_SEEK_TO); }); break;
    case 6: with(OP_CLOSE, "close", [&] { return (long)a_close(h); }); h = nullptr; break;
    case 7: a_rewind(l); with(OP_DIRREAD, "dir_read", [&] { return (long)a_dirread(l, e); }); break;
    case 8: with(OP_DIRCLOSE, "dir_close", [&] { return (long)a_dirclose(l); }); l = nullptr; break;
    case 9: with(OP_REWIND, "dir_rewind", [&] { return (long)a_rewind(l); }); break;
    case 10: with(OP_STAT, "stat", [&] { return (long)a_stat(f, &i, v); }); break;
    case 11: with(OP_MKDIR, "mkdir", [&] { return (long)a_mkdir(x, v); }); break;
    case 12: a_mkdir(x, v); with(OP_DELETE, "delete", [&] { return (long)a_delete(x, v); }); a_delete(x, v); break;
    case 13: a_mkdir(x, v); with(OP_RENAME, "rename", [&] { return (long)a_rename(x, y, v); }); a_delete(x, v); break;
    case 14: { EvfsFile *g; if(with(OP_OPEN, "open", [&] { return (long)a_open(f, &g, EVFS_READ, v); }) == EVFS_OK) a_close(g); break; }
    case 15: { EvfsDir *g; if(with(OP_OPENDIR, "open_dir", [&] { return (long)a_opendir(d, &g, v); }) == EVFS_OK) a_dirclose(g); break; }
    case 16: a_rewind(l); with(OP_DIRREAD, "dir_find", [&] { return (long)api("dir_find", [&] { return evfs_dir_find(l, "*", &i); }); }); break;
    default: with(OP_STAT, "chdir", [&] { std::string o, p; a_getcwd(o, v); long r = a_chdir(d, v); if(r != EVFS_OK) { a_getcwd(p, v); CHECKV(o == p, "chdir-failed-moved", "a failed directory change moved the current directory from %s to %s", o.c_str(), p.c_str()); } else a_chdir(o, v); return r; }); }
  }
  if(h) a_close(h); if(l) a_dirclose(l);
  b.faults.shorts = shorts; a_delete(x, v); a_delete(y, v);
}
} // namespace sim
