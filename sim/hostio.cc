#include "hostio.h"
#include <cerrno>
#include <cstring>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdio_ext.h>
#include <sys/stat.h>
namespace sim {
const char *host_names[H_N] = {"fopen", "fclose", "fread", "fwrite", "fflush", "fseek", "ftell", "fstat", "ftruncate", "stat", "mkdir", "remove", "rename",
                               "opendir", "readdir", "closedir", "getcwd", "chdir"};
HostFs *g_host;
}
using namespace sim;
extern "C" {
#define R(ret, n, args) ret __real_##n args;
R(FILE *, fopen, (const char *, const char *)) R(FILE *, freopen, (const char *, const char *, FILE *)) R(FILE *, fdopen, (int, const char *)) R(int, fclose, (FILE *))
R(size_t, fread, (void *, size_t, size_t, FILE *)) R(size_t, fwrite, (const void *, size_t, size_t, FILE *)) R(int, fflush, (FILE *))
R(int, fseek, (FILE *, long, int)) R(int, fseeko, (FILE *, off_t, int)) R(long, ftell, (FILE *)) R(off_t, ftello, (FILE *)) R(void, rewind, (FILE *)) R(int, feof, (FILE *)) R(int, ferror, (FILE *))
R(int, ftruncate, (int, off_t)) R(int, truncate, (const char *, off_t)) R(int, fstat, (int, struct stat *)) R(int, stat, (const char *, struct stat *)) R(int, lstat, (const char *, struct stat *)) R(int, fstatat, (int, const char *, struct stat *, int))
R(int, mkdir, (const char *, mode_t)) R(int, remove, (const char *)) R(int, unlink, (const char *)) R(int, rmdir, (const char *)) R(int, rename, (const char *, const char *))
R(DIR *, opendir, (const char *)) R(struct dirent *, readdir, (DIR *)) R(int, closedir, (DIR *)) R(void, rewinddir, (DIR *)) R(char *, getcwd, (char *, size_t)) R(int, chdir, (const char *))
R(int, open, (const char *, int, ...)) R(ssize_t, read, (int, void *, size_t)) R(ssize_t, write, (int, const void *, size_t)) R(int, close, (int)) R(off_t, lseek, (int, off_t, int)) R(int, fsync, (int)) R(int, fdatasync, (int))
#undef R
}
namespace sim {
int host_code(int e) {
  switch(e) { case 0: return EVFS_OK; case EIO: return EVFS_ERR_IO; case ENOENT: return EVFS_ERR_NO_FILE; case EEXIST: return EVFS_ERR_EXISTS; case ENOTDIR: return EVFS_ERR_NO_PATH;
    case EISDIR: return EVFS_ERR_IS_DIR; case ENOTEMPTY: return EVFS_ERR_NOT_EMPTY; case ERANGE: return EVFS_ERR_OVERFLOW; case EINVAL: return EVFS_ERR_BAD_ARG; case ENOSPC: return EVFS_ERR_FS_FULL;
    case ENOMEM: return EVFS_ERR_ALLOC; case ENAMETOOLONG: return EVFS_ERR_TOO_LONG; case EACCES: return EVFS_ERR_AUTH; }
  return EVFS_ERR;
}
void HostFs::start(const std::string &r) { root = r; __real_mkdir(root.c_str(), 0777); if(__real_chdir(root.c_str())) harness_error("chdir"); char t[4096]; if(!__real_getcwd(t, sizeof t)) harness_error("getcwd"); root = t; cwd = "/"; g_host = this; active = true; }
HostFs::~HostFs() { if(g_host == this) g_host = nullptr; }
void HostFs::arm() { faults_on = true; for(int k = 0; k < H_N; k++) next[k] = geom(mean[k]); }
int HostFs::pre(HostKind k) {
  ev("host.%s", host_names[k]); tag(100 + k); sim_advance(80);
  if(!faults_on || !next[k] || --next[k]) return 0;
  next[k] = geom(mean[k]);
  static const std::vector<int> codes[H_N] = {
    /*fopen*/ {EACCES, EMFILE, ENOSPC, EIO, ENOMEM}, /*fclose*/ {ENOSPC, EIO}, /*fread*/ {EIO}, /*fwrite*/ {ENOSPC, EIO}, /*fflush*/ {ENOSPC, EIO}, /*fseek*/ {EIO, ENOSPC}, /*ftell*/ {EIO},
    /*fstat*/ {EIO}, /*ftruncate*/ {EIO, ENOSPC}, /*stat*/ {EACCES, EIO}, /*mkdir*/ {ENOSPC, EACCES, EIO}, /*remove*/ {EACCES, EIO, EBUSY}, /*rename*/ {ENOSPC, EACCES, EIO},
    /*opendir*/ {EACCES, EMFILE, ENOMEM}, /*readdir*/ {EIO}, /*closedir*/ {EIO}, /*getcwd*/ {EACCES, EIO}, /*chdir*/ {EACCES, EIO}};
  int e = codes[k][choose((uint32_t)codes[k].size())];
  fired++; fired_kind[k]++; errs.push_back(e); count_fault((std::string("host_") + host_names[k]).c_str());
  ev("fault %s errno %d", host_names[k], e);
  return e;
}
// virtual path -> real path; text that would climb above the virtual root is clamped there
static std::string map_path(const std::string &root, const std::string &cwd, const char *p, int *err) {
  *err = 0;
  if(!p || !*p) { *err = ENOENT; return ""; }
  std::vector<std::string> v; bool climbs = false; std::string s = p[0] == '/' ? "" : cwd; s += "/"; s += p;
  for(size_t i = 0; i < s.size();) { size_t e = s.find('/', i); if(e == std::string::npos) e = s.size(); std::string g = s.substr(i, e - i); i = e + 1;
    if(g == "" || g == ".") continue; if(g == "..") { if(v.empty()) climbs = true; else v.pop_back(); } else v.push_back(g); }
  if(climbs) { std::string o = root; for(auto &g : v) o += "/" + g; return o; }
  if(p[0] == '/') return root + p;
  return p;
}
static void fresh_cwd(HostFs *h) { char t[9000]; if(__real_getcwd(t, sizeof t)) { std::string c = t; h->cwd = c.size() > h->root.size() ? c.substr(h->root.size()) : "/"; } }
std::string HostFs::map(const char *p, int *err) { fresh_cwd(this); return map_path(root, cwd, p, err); }
static void dump_r(const std::string &real, const std::string &v, std::string &o) {
  DIR *d = __real_opendir(real.c_str()); if(!d) { o += "! " + v + "\n"; return; }
  std::map<std::string, bool> m; while(dirent *e = __real_readdir(d)) { std::string n = e->d_name; if(n == "." || n == "..") continue; struct stat s; if(__real_lstat((real + "/" + n).c_str(), &s)) continue; m[n] = S_ISDIR(s.st_mode); }
  __real_closedir(d);
  for(auto &x : m) { if(x.second) { o += "D " + v + x.first + "\n"; dump_r(real + "/" + x.first, v + x.first + "/", o); }
    else { int fd = __real_open((real + "/" + x.first).c_str(), O_RDONLY); std::string c; char b[4096]; ssize_t n; while(fd >= 0 && (n = __real_read(fd, b, sizeof b)) > 0) c.append(b, n); if(fd >= 0) __real_close(fd);
      o += strf("F %s%s %zu %llx\n", v.c_str(), x.first.c_str(), c.size(), (unsigned long long)fnv(c.data(), c.size())); } }
}
std::string HostFs::dump() { std::string o; dump_r(root, "/", o); return o; }
std::string HostFs::raw(const std::string &p, bool *ok) {
  int fd = __real_open((root + p).c_str(), O_RDONLY); std::string c; char b[4096]; ssize_t n; if(ok) *ok = fd >= 0;
  while(fd >= 0 && (n = __real_read(fd, b, sizeof b)) > 0) c.append(b, n); if(fd >= 0) __real_close(fd); return c;
}
void HostFs::put(const std::string &p, const std::string &d) { int fd = __real_open((root + p).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if(fd < 0 || __real_write(fd, d.data(), d.size()) != (ssize_t)d.size()) harness_error("put %s", p.c_str()); __real_close(fd); }
void HostFs::dir(const std::string &p) { __real_mkdir((root + p).c_str(), 0755); }

// ------------------------------------------------------------ HostRef
struct RefFile { EvfsFile base; int fd; bool app; evfs_off_t pos; bool eof; };
struct RefDir { EvfsDir base; DIR *dp; bool ended; };
static int rerr() { return host_code(errno); }
static int rf_ctrl(EvfsFile *, int, void *) { return EVFS_ERR_NO_SUPPORT; }
static int rf_close(EvfsFile *f) { return __real_close(((RefFile *)f)->fd) ? rerr() : EVFS_OK; }
static ptrdiff_t rf_read(EvfsFile *f, void *b, size_t n) { auto r = (RefFile *)f; ssize_t k = pread(r->fd, b, n, r->pos); if(n == 0) return 0; if(k < 0) return rerr(); r->pos += k; r->eof = (size_t)k < n; return k; }
static ptrdiff_t rf_write(EvfsFile *f, const void *b, size_t n) { auto r = (RefFile *)f; if(n == 0) return 0; if(r->app) { ssize_t k = __real_write(r->fd, b, n); if(k < 0) return rerr(); r->pos = __real_lseek(r->fd, 0, SEEK_END); return k; }
  ssize_t k = pwrite(r->fd, b, n, r->pos); if(k < 0) return rerr(); r->pos += k; return k; }
static int rf_trunc(EvfsFile *f, evfs_off_t n) { return __real_ftruncate(((RefFile *)f)->fd, n) ? rerr() : EVFS_OK; }
static int rf_sync(EvfsFile *) { return EVFS_OK; }
static evfs_off_t rf_size(EvfsFile *f) { struct stat s; return __real_fstat(((RefFile *)f)->fd, &s) ? rerr() : (evfs_off_t)s.st_size; }
static int rf_seek(EvfsFile *f, evfs_off_t o, EvfsSeekDir d) { auto r = (RefFile *)f; int64_t p = o; if(d == EVFS_SEEK_REL) p += r->pos; if(d == EVFS_SEEK_REV) p = (int64_t)rf_size(f) - o; if(p < 0) return EVFS_ERR_BAD_ARG; r->pos = (evfs_off_t)p; r->eof = false; return EVFS_OK; }
static evfs_off_t rf_tell(EvfsFile *f) { return ((RefFile *)f)->pos; }
static bool rf_eof(EvfsFile *f) { return ((RefFile *)f)->eof; }
static EvfsFileMethods RF = {};
static int rd_close(EvfsDir *d) { return __real_closedir(((RefDir *)d)->dp) ? rerr() : EVFS_OK; }
static HostRef *self(Evfs *v) { return (HostRef *)v->fs_data; }
static int rd_read(EvfsDir *d, EvfsInfo *i) { auto r = (RefDir *)d; memset(i, 0, sizeof *i); errno = 0; struct dirent *e = __real_readdir(r->dp); if(!e) return errno ? rerr() : EVFS_DONE;
  struct stat s; if(__real_fstatat(dirfd(r->dp), e->d_name, &s, 0)) return rerr(); i->name = e->d_name; if(S_ISDIR(s.st_mode)) i->type |= EVFS_FILE_DIR; i->size = s.st_size; return EVFS_OK; }
static int rd_rewind(EvfsDir *d) { __real_rewinddir(((RefDir *)d)->dp); return EVFS_OK; }
static EvfsDirMethods RD = {};
static std::string fd_path(int fd) { char b[5000]; ssize_t n = readlink(strf("/proc/self/fd/%d", fd).c_str(), b, sizeof b); return n > 0 ? std::string(b, n) : ""; }
static bool ref_cwd(HostRef *h) { struct stat s; if(__real_fstat(h->cwdfd, &s) || s.st_nlink == 0) return false; std::string c = fd_path(h->cwdfd); h->cwd = c.size() > h->root.size() ? c.substr(h->root.size()) : "/"; return true; }
static std::string at(HostRef *h, const char *p, int *e) { ref_cwd(h); return map_path(h->root, h->cwd, p, e); }
#define MAP(p) int e_; std::string q = at(self(v), p, &e_); if(e_) return host_code(e_);
static int rv_open(Evfs *v, const char *p, EvfsFile *f, int fl) {
  MAP(p) auto r = (RefFile *)f; memset(r, 0, sizeof *r); f->methods = &RF;
  bool R_ = fl & EVFS_READ, W = fl & EVFS_WRITE; int o;
  if(fl & EVFS_APPEND) { o = (R_ && W ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; if(fl & EVFS_NO_EXIST) o |= O_EXCL; r->app = true; }
  else if(fl & (EVFS_OVERWRITE | EVFS_NO_EXIST)) { o = (R_ && W ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; if(fl & EVFS_NO_EXIST) o |= O_EXCL; }
  else if(fl & EVFS_OPEN_OR_NEW) o = (W ? O_RDWR : O_RDONLY) | O_CREAT;
  else if(W && !R_) o = O_WRONLY | O_CREAT | O_TRUNC;
  else o = W ? O_RDWR : O_RDONLY;
  r->fd = openat(self(v)->cwdfd, q.c_str(), o, 0666); if(r->fd < 0) return rerr();
  if(r->app && !(R_ && W)) r->pos = __real_lseek(r->fd, 0, SEEK_END);
  return EVFS_OK;
}
static int rv_stat(Evfs *v, const char *p, EvfsInfo *i) { MAP(p) struct stat s; memset(i, 0, sizeof *i); if(__real_fstatat(self(v)->cwdfd, q.c_str(), &s, 0)) return rerr(); i->size = s.st_size; i->mtime = s.st_mtime; if(S_ISDIR(s.st_mode)) i->type |= EVFS_FILE_DIR; return EVFS_OK; }
static int rv_delete(Evfs *v, const char *p) { MAP(p) if(!unlinkat(self(v)->cwdfd, q.c_str(), 0)) return EVFS_OK; if(errno != EISDIR) return rerr(); return unlinkat(self(v)->cwdfd, q.c_str(), AT_REMOVEDIR) ? rerr() : EVFS_OK; }
static int rv_rename(Evfs *v, const char *a, const char *b) { MAP(a) std::string q2 = at(self(v), b, &e_); if(e_) return host_code(e_); return renameat(self(v)->cwdfd, q.c_str(), self(v)->cwdfd, q2.c_str()) ? rerr() : EVFS_OK; }
static int rv_mkdir(Evfs *v, const char *p) { MAP(p) return mkdirat(self(v)->cwdfd, q.c_str(), 0700) ? rerr() : EVFS_OK; }
static int rv_opendir(Evfs *v, const char *p, EvfsDir *d) { MAP(p) auto r = (RefDir *)d; memset(r, 0, sizeof *r); d->methods = &RD; int fd = openat(self(v)->cwdfd, q.c_str(), O_RDONLY | O_DIRECTORY); if(fd < 0) return rerr(); r->dp = fdopendir(fd); return EVFS_OK; }
static int rv_getcwd(Evfs *v, StringRange *r) { if(!ref_cwd(self(v))) return host_code(ENOENT); const std::string &c = self(v)->cwd; size_t n = r->end - r->start; if(c.size() + 1 > n) return host_code(ERANGE); memcpy((char *)r->start, c.c_str(), c.size() + 1); return EVFS_OK; }
static int rv_chdir(Evfs *v, const char *p) { MAP(p) int fd = openat(self(v)->cwdfd, q.c_str(), O_RDONLY | O_DIRECTORY); if(fd < 0) return rerr(); __real_close(self(v)->cwdfd); self(v)->cwdfd = fd; ref_cwd(self(v)); return EVFS_OK; }
static int rv_ctrl(Evfs *, int c, void *) { return c == EVFS_CMD_UNREGISTER ? EVFS_OK : EVFS_ERR_NO_SUPPORT; }
HostRef::HostRef(const char *n, const std::string &r) : name(n), root(r) {
  RF.m_ctrl = rf_ctrl; RF.m_close = rf_close; RF.m_read = rf_read; RF.m_write = rf_write; RF.m_truncate = rf_trunc; RF.m_sync = rf_sync; RF.m_size = rf_size; RF.m_seek = rf_seek; RF.m_tell = rf_tell; RF.m_eof = rf_eof;
  RD.m_close = rd_close; RD.m_read = rd_read; RD.m_rewind = rd_rewind;
  __real_mkdir(r.c_str(), 0777); cwdfd = __real_open(r.c_str(), O_RDONLY | O_DIRECTORY); if(cwdfd < 0) harness_error("ref root");
  root = fd_path(cwdfd);
  memset(&vfs, 0, sizeof vfs); vfs.vfs_name = name.c_str(); vfs.vfs_file_size = sizeof(RefFile); vfs.vfs_dir_size = sizeof(RefDir); vfs.fs_data = this;
  vfs.m_open = rv_open; vfs.m_stat = rv_stat; vfs.m_delete = rv_delete; vfs.m_rename = rv_rename; vfs.m_make_dir = rv_mkdir; vfs.m_open_dir = rv_opendir; vfs.m_get_cur_dir = rv_getcwd; vfs.m_set_cur_dir = rv_chdir; vfs.m_vfs_ctrl = rv_ctrl;
  if(evfs_register(&vfs, false) != EVFS_OK) harness_error("register ref");
}
HostRef::~HostRef() { if(cwdfd >= 0) __real_close(cwdfd); }
} // namespace sim

// ------------------------------------------------------------ wrapped calls
#define ON (g_host && g_host->active)
#define HF g_host
#define PATH(p, bad) int e_; std::string q = HF->map(p, &e_); if(e_) { errno = e_; return bad; }
#define BUSY(q, bad) do { std::string t_ = q; while(t_.size() && t_.back() == '/') t_.pop_back(); if(t_ == HF->root) { errno = EBUSY; return bad; } } while(0) // the root directory itself
#define FAIL(k, bad) do { if(int fe_ = HF->pre(k)) { errno = fe_; return bad; } } while(0)
#define NOTE(...) do { if(HF->record) HF->changing.push_back(strf(__VA_ARGS__)); } while(0)
#define ERRFLAG(fp) ((fp)->_flags |= 0x20) // what the C library itself sets on a failed transfer
#define USE(fp) do { if(!HF->files.count(fp)) { HF->bad_uses++; violate("host-stream", "a stream is used that is not open"); } } while(0)
#define USED(dp) do { if(!HF->dirs.count(dp)) { HF->bad_uses++; violate("host-stream", "a directory stream is used that is not open"); } } while(0)
extern "C" {
FILE *__wrap_fopen(const char *p, const char *m) {
  if(!ON) return __real_fopen(p, m);
  PATH(p, nullptr) if(strpbrk(m, "wa+")) NOTE("fopen %s", m); FAIL(H_FOPEN, nullptr);
  FILE *f = __real_fopen(q.c_str(), m); ev("host.fopen %s %s", m, f ? "ok" : "fails"); if(f) HF->files.insert(f); return f;
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
FILE *__wrap_freopen(const char *p, const char *m, FILE *f) { return __real_freopen(p, m, f); }
FILE *__wrap_fdopen(int fd, const char *m) { FILE *f = __real_fdopen(fd, m); if(ON && f) HF->files.insert(f); return f; }
int __wrap_fclose(FILE *f) {
  if(!ON) return __real_fclose(f);
  USE(f); HF->files.erase(f);
  if(__fpending(f)) NOTE("fclose with data");
  if(int e = HF->pre(H_FCLOSE)) { if(__fpending(f)) { HF->lost_on_close++; ev("pending data lost"); } __fpurge(f); __real_fclose(f); errno = e; return EOF; }
  return __real_fclose(f);
}
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) {
  if(!ON) return __real_fread(b, s, n, f);
  USE(f);
  if(int e = HF->pre(H_FREAD)) { size_t t = s * n, k = t ? choose((uint32_t)t) : 0; k = __real_fread(b, 1, k, f); if(k < t) { ERRFLAG(f); errno = e; } return s ? k / s : 0; }
  return __real_fread(b, s, n, f);
}
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) {
  if(!ON) return __real_fwrite(b, s, n, f);
  if(f == stderr || f == stdout) return __real_fwrite(b, s, n, f); // diagnostics
  USE(f); NOTE("fwrite");
  if(int e = HF->pre(H_FWRITE)) { size_t t = s * n, k = t ? choose((uint32_t)t) : 0; k = __real_fwrite(b, 1, k, f); if(k < t) { ERRFLAG(f); errno = e; } return s ? k / s : 0; }
  return __real_fwrite(b, s, n, f);
}
int __wrap_fflush(FILE *f) { if(!ON || !f || f == stderr || f == stdout) return __real_fflush(f); USE(f); if(int e = HF->pre(H_FFLUSH)) { ERRFLAG(f); errno = e; return EOF; } return __real_fflush(f); }
int __wrap_fseek(FILE *f, long o, int w) { if(!ON) return __real_fseek(f, o, w); USE(f); FAIL(H_FSEEK, -1); return __real_fseek(f, o, w); }
int __wrap_fseeko(FILE *f, off_t o, int w) { if(!ON) return __real_fseeko(f, o, w); USE(f); FAIL(H_FSEEK, -1); return __real_fseeko(f, o, w); }
int __wrap_fseeko64(FILE *f, off_t o, int w) { return __wrap_fseeko(f, o, w); }
long __wrap_ftell(FILE *f) { if(!ON) return __real_ftell(f); USE(f); FAIL(H_FTELL, -1); return __real_ftell(f); }
off_t __wrap_ftello(FILE *f) { if(!ON) return __real_ftello(f); USE(f); FAIL(H_FTELL, -1); return __real_ftello(f); }
off_t __wrap_ftello64(FILE *f) { return __wrap_ftello(f); }
void __wrap_rewind(FILE *f) { if(ON) USE(f); __real_rewind(f); }
int __wrap_feof(FILE *f) { if(ON) USE(f); return __real_feof(f); }
int __wrap_ferror(FILE *f) { if(ON) USE(f); return __real_ferror(f); }
int __wrap_ftruncate(int fd, off_t n) { if(!ON) return __real_ftruncate(fd, n); NOTE("ftruncate"); FAIL(H_FTRUNC, -1); return __real_ftruncate(fd, n); }
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_truncate(const char *p, off_t n) { if(!ON) return __real_truncate(p, n); PATH(p, -1) NOTE("truncate"); FAIL(H_FTRUNC, -1); return __real_truncate(q.c_str(), n); }
int __wrap_truncate64(const char *p, off_t n) { return __wrap_truncate(p, n); }
int __wrap_fstat(int fd, struct stat *s) { if(!ON) return __real_fstat(fd, s); FAIL(H_FSTAT, -1); return __real_fstat(fd, s); }
int __wrap_fstat64(int fd, struct stat *s) { return __wrap_fstat(fd, s); }
int __wrap_stat(const char *p, struct stat *s) { if(!ON) return __real_stat(p, s); PATH(p, -1) FAIL(H_STAT, -1); return __real_stat(q.c_str(), s); }
int __wrap_stat64(const char *p, struct stat *s) { return __wrap_stat(p, s); }
int __wrap_lstat(const char *p, struct stat *s) { if(!ON) return __real_lstat(p, s); PATH(p, -1) FAIL(H_STAT, -1); return __real_lstat(q.c_str(), s); }
int __wrap_fstatat(int d, const char *p, struct stat *s, int fl) { if(!ON || d == AT_FDCWD) return __real_fstatat(d, p, s, fl); FAIL(H_STAT, -1); return __real_fstatat(d, p, s, fl); }
int __wrap_mkdir(const char *p, mode_t m) { if(!ON) return __real_mkdir(p, m); PATH(p, -1) NOTE("mkdir"); FAIL(H_MKDIR, -1); return __real_mkdir(q.c_str(), m); }
int __wrap_remove(const char *p) { if(!ON) return __real_remove(p); PATH(p, -1) NOTE("remove"); BUSY(q, -1); FAIL(H_REMOVE, -1); return __real_remove(q.c_str()); }
int __wrap_unlink(const char *p) { if(!ON) return __real_unlink(p); PATH(p, -1) NOTE("unlink"); BUSY(q, -1); FAIL(H_REMOVE, -1); return __real_unlink(q.c_str()); }
int __wrap_rmdir(const char *p) { if(!ON) return __real_rmdir(p); PATH(p, -1) NOTE("rmdir"); BUSY(q, -1); FAIL(H_REMOVE, -1); return __real_rmdir(q.c_str()); }
int __wrap_rename(const char *a, const char *b) { if(!ON) return __real_rename(a, b); PATH(a, -1) std::string q2 = HF->map(b, &e_); if(e_) { errno = e_; return -1; } NOTE("rename"); BUSY(q, -1); BUSY(q2, -1); FAIL(H_RENAME, -1); return __real_rename(q.c_str(), q2.c_str()); }
DIR *__wrap_opendir(const char *p) { if(!ON) return __real_opendir(p); PATH(p, nullptr) FAIL(H_OPENDIR, nullptr); DIR *d = __real_opendir(q.c_str()); if(d) HF->dirs.insert(d); return d; }
struct dirent *__wrap_readdir(DIR *d) {
  if(!ON) return __real_readdir(d);
  USED(d); FAIL(H_READDIR, nullptr);
  struct dirent *e = __real_readdir(d); if(e && HF->no_dtype) e->d_type = DT_UNKNOWN; return e;
}
struct dirent64 *__wrap_readdir64(DIR *d) { return (struct dirent64 *)__wrap_readdir(d); }
int __wrap_closedir(DIR *d) { if(!ON) return __real_closedir(d); USED(d); HF->dirs.erase(d); if(int e = HF->pre(H_CLOSEDIR)) { __real_closedir(d); errno = e; return -1; } return __real_closedir(d); }
void __wrap_rewinddir(DIR *d) { if(ON) USED(d); __real_rewinddir(d); }
char *__wrap_getcwd(char *b, size_t n) {
  if(!ON) return __real_getcwd(b, n);
  FAIL(H_GETCWD, nullptr);
  char t[9000]; if(!__real_getcwd(t, sizeof t)) return nullptr;
  std::string c = t; c = c.size() >= HF->root.size() ? c.substr(HF->root.size()) : ""; if(c == "") c = "/";
  if(!b) { errno = EINVAL; return nullptr; }
  if(c.size() + 1 > n) { errno = ERANGE; return nullptr; }
  memcpy(b, c.c_str(), c.size() + 1); return b;
}
int __wrap_chdir(const char *p) {
  if(!ON) return __real_chdir(p);
  PATH(p, -1) FAIL(H_CHDIR, -1);
  if(__real_chdir(q.c_str())) return -1;
  char t[9000]; if(__real_getcwd(t, sizeof t)) { std::string c = t; HF->cwd = c.size() > HF->root.size() ? c.substr(HF->root.size()) : "/"; }
  return 0;
}
int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if(!ON) return __real_open(p, fl, m); PATH(p, -1) if(fl & 3) NOTE("open"); FAIL(H_FOPEN, -1); return __real_open(q.c_str(), fl, m); }
int __wrap_open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return __wrap_open(p, fl, m); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if(ON) FAIL(H_FREAD, -1); return __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { if(ON) { NOTE("write"); FAIL(H_FWRITE, -1); } return __real_write(fd, b, n); }
int __wrap_close(int fd) { return __real_close(fd); }
off_t __wrap_lseek(int fd, off_t o, int w) { if(ON) FAIL(H_FSEEK, -1); return __real_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }
int __wrap_fsync(int fd) { if(ON) FAIL(H_FFLUSH, -1); return __real_fsync(fd); }
int __wrap_fdatasync(int fd) { if(ON) FAIL(H_FFLUSH, -1); return __real_fdatasync(fd); }
}
