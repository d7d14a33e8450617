// Thin wrappers over the public API: log the call, bound its steps and check
// that no library lock is left held when it returns.
#pragma once
#include "simfs.h"
#include <cstring>
namespace sim {
static const uint64_t CALL_STEPS = 3000000;
inline std::function<void(const char *)> &api_before() { static std::function<void(const char *)> f; return f; }
inline std::function<void(const char *, long long)> &api_after() { static std::function<void(const char *, long long)> f; return f; }
template<class F> auto api(const char *what, F f) -> decltype(f()) {
  if(!preempt_on()) step_budget(CALL_STEPS);
  if(api_before()) api_before()(what);
  auto r = f();
  ev("%s = %lld", what, (long long)r);
  check_no_locks(what);
  if(api_after()) api_after()(what, (long long)r);
  return r;
}
inline int a_open(const std::string &p, EvfsFile **fh, int flags, const char *vfs) {
  *fh = nullptr;
  ev("open %s %x on %s", p.c_str(), flags, vfs ? vfs : "-");
  int st = api("open", [&] { return evfs_open_ex(p.c_str(), fh, flags, vfs); });
  if(st == EVFS_OK) CHECKV(*fh && (*fh)->methods, "open-no-handle", "open reported success without a usable handle");
  else CHECKV(!*fh, "open-stale-handle", "a failed open returned a handle (status %d)", st);
  return st;
}
inline int a_close(EvfsFile *fh) { return api("close", [&] { return evfs_file_close(fh); }); }
inline ptrdiff_t a_read(EvfsFile *fh, std::string &out, size_t n) {
  // an exactly sized heap block so that any overrun is caught
  char *b = (char *)::operator new(n + 1);
  memset(b, 0xEE, n + 1);
  ptrdiff_t r = api("read", [&] { return evfs_file_read(fh, b, n); });
  CHECKV(r <= (ptrdiff_t)n, "read-count", "read of %zu reported %td bytes", n, r);
  CHECKV((unsigned char)b[n] == 0xEE, "read-overrun", "read wrote past the supplied buffer");
  out.assign(b, r > 0 ? r : 0);
  ::operator delete(b);
  ev("data %llx", (unsigned long long)fnv(out.data(), out.size()));
  return r;
}
inline ptrdiff_t a_write(EvfsFile *fh, const std::string &d) {
  ev("write %zu", d.size());
  ptrdiff_t r = api("write", [&] { return evfs_file_write(fh, d.data(), d.size()); });
  CHECKV(r <= (ptrdiff_t)d.size(), "write-count", "write of %zu reported %td bytes", d.size(), r);
  return r;
}
inline int a_seek(EvfsFile *fh, evfs_off_t o, EvfsSeekDir d) { ev("seek %ld %d", (long)o, (int)d); if(o == 0 && d == EVFS_SEEK_TO && choose(2)) return api("rewind", [&] { return evfs_file_rewind(fh); }); return api("seek", [&] { return evfs_file_seek(fh, o, d); }); }
inline evfs_off_t a_tell(EvfsFile *fh) { return api("tell", [&] { return evfs_file_tell(fh); }); }
inline evfs_off_t a_size(EvfsFile *fh) { return api("size", [&] { return evfs_file_size(fh); }); }
inline bool a_eof(EvfsFile *fh) { return api("eof", [&] { return evfs_file_eof(fh); }); }
inline int a_sync(EvfsFile *fh) { return api("sync", [&] { return evfs_file_sync(fh); }); }
inline int a_trunc(EvfsFile *fh, evfs_off_t n) { ev("truncate %ld", (long)n); return api("truncate", [&] { return evfs_file_truncate(fh, n); }); }
inline int a_fctrl(EvfsFile *fh, int c, void *a) { return api("file_ctrl", [&] { return evfs_file_ctrl(fh, c, a); }); }
inline int a_stat(const std::string &p, EvfsInfo *i, const char *v) { memset(i, 0x5A, sizeof *i); ev("stat %s", p.c_str()); return api("stat", [&] { return evfs_stat_ex(p.c_str(), i, v); }); }
inline int a_delete(const std::string &p, const char *v) { ev("delete %s", p.c_str()); return api("delete", [&] { return evfs_delete_ex(p.c_str(), v); }); }
inline int a_rename(const std::string &a, const std::string &b, const char *v) { ev("rename %s %s", a.c_str(), b.c_str()); return api("rename", [&] { return evfs_rename_ex(a.c_str(), b.c_str(), v); }); }
inline int a_mkdir(const std::string &p, const char *v) { ev("mkdir %s", p.c_str()); return api("mkdir", [&] { return evfs_make_dir_ex(p.c_str(), v); }); }
inline int a_chdir(const std::string &p, const char *v) { ev("chdir %s", p.c_str()); return api("chdir", [&] { return evfs_set_cur_dir_ex(p.c_str(), v); }); }
inline int a_getcwd(std::string &o, const char *v) {
  char b[EVFS_MAX_PATH + 1]; memset(b, 0xEE, sizeof b);
  StringRange r; r.start = b; r.end = b + EVFS_MAX_PATH;
  int st = api("getcwd", [&] { return evfs_get_cur_dir_ex(&r, v); });
  CHECKV((unsigned char)b[EVFS_MAX_PATH] == 0xEE, "getcwd-overrun", "current directory query wrote past its buffer");
  o.clear();
  if(st == EVFS_OK) { size_t n = strnlen(b, EVFS_MAX_PATH); CHECKV(n < EVFS_MAX_PATH, "getcwd-unterminated", "current directory text is not terminated"); o.assign(b, n); ev("cwd %s", o.c_str()); }
  return st;
}
inline int a_opendir(const std::string &p, EvfsDir **dh, const char *v) {
  *dh = nullptr; ev("opendir %s", p.c_str());
  int st = api("opendir", [&] { return evfs_open_dir_ex(p.c_str(), dh, v); });
  if(st == EVFS_OK) CHECKV(*dh && (*dh)->methods, "opendir-no-handle", "open_dir reported success without a usable handle");
  else CHECKV(!*dh, "opendir-stale-handle", "a failed open_dir returned a handle");
  return st;
}
struct DirEnt { std::string name; bool dir; evfs_off_t size; uint8_t type; };
inline int a_dirread(EvfsDir *dh, DirEnt &e) {
  EvfsInfo i; memset(&i, 0x5A, sizeof i); i.name = nullptr;
  int st = api("dir_read", [&] { return evfs_dir_read(dh, &i); });
  if(st == EVFS_OK) { CHECKV(i.name, "dir-no-name", "a directory entry was delivered without a name"); e.name = i.name; e.dir = i.type & EVFS_FILE_DIR; e.size = i.size; e.type = i.type; ev("ent %s %d %ld", e.name.c_str(), e.dir, (long)e.size); }
  return st;
}
inline int a_dirclose(EvfsDir *dh) { return api("dir_close", [&] { return evfs_dir_close(dh); }); }
inline int a_rewind(EvfsDir *dh) { return api("dir_rewind", [&] { return evfs_dir_rewind(dh); }); }
inline int a_ctrl(int c, void *a, const char *v) { return api("vfs_ctrl", [&] { return evfs_vfs_ctrl_ex(c, a, v); }); }

// Read everything from the current position with reads of varying size.
inline ptrdiff_t a_read_all(EvfsFile *fh, std::string &out, size_t limit) {
  out.clear();
  for(;;) {
    size_t n = choose(3) == 0 ? range(1, 17) : range(1, 600);
    std::string part;
    ptrdiff_t r = a_read(fh, part, n);
    if(r < 0) return r;
    out += part;
    if(r == 0) break;
    CHECKV(out.size() <= limit, "read-endless", "reading does not reach the end of the file (%zu bytes so far, at most %zu expected)", out.size(), limit);
  }
  return (ptrdiff_t)out.size();
}
} // namespace sim
