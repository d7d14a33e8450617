#include "simfs.h"
#include <cstring>
#include <cstdio>
#include <algorithm>

namespace sim {
const char *op_names[OP_NKINDS] = {"open", "stat", "delete", "rename", "mkdir", "opendir", "getcwd", "setcwd",
  "read", "write", "truncate", "sync", "seek", "close", "size", "dirread", "dirclose", "rewind", "ctrl"};

std::string content(uint64_t stream, uint64_t off, size_t n) {
  std::string s(n, 0);
  for(size_t i = 0; i < n; i++) s[i] = (char)content_byte(stream, off + i);
  return s;
}

// All fields are plain data: shims embed these objects inside their own allocations.
struct SFile { EvfsFile base; uint64_t magic; SimFs *fs; Node *node; NodeP *keep; size_t pos; int flags; bool readable, writable, append, eof; uint64_t session; };
struct SDir  { EvfsDir base; uint64_t magic; SimFs *fs; std::vector<std::string> *names; NodeP *keep; size_t pos; char name[260]; uint64_t session; };
enum : uint64_t { FMAGIC = 0x51F11EF11E0001ull, DMAGIC = 0x51F1D1D1D1D001ull, CLOSED = 0xC105EDC105EDull };

static std::vector<std::string> split(const std::string &p, bool both) {
  std::vector<std::string> v; std::string cur;
  for(char c : p) {
    if(c == '/' || (both && c == '\\')) { if(!cur.empty()) v.push_back(cur); cur.clear(); } else cur += c;
  }
  if(!cur.empty()) v.push_back(cur);
  return v;
}
static bool is_sep(char c, bool both) { return c == '/' || (both && c == '\\'); }

std::string SimFs::resolve(const std::string &path0) {
  std::string path = path0;
  if(drive && path.size() >= 2 && path[0] >= '0' && path[0] <= '9' && path[1] == ':') path = path.substr(2);
  std::vector<std::string> out;
  if(path.empty() || !is_sep(path[0], sep_both)) out = split(cwd, false);
  for(auto &s : split(path, sep_both)) {
    if(s == ".") continue;
    if(s == "..") { if(!out.empty()) out.pop_back(); continue; }
    out.push_back(s);
  }
  std::string r;
  for(auto &s : out) { r += "/"; r += s; }
  return r.empty() ? "/" : r;
}
NodeP SimFs::walk(const std::string &abs) {
  NodeP n = root;
  for(auto &s : split(abs, false)) {
    if(!n->dir) return nullptr;
    auto it = n->kids.find(s);
    if(it == n->kids.end()) return nullptr;
    n = it->second;
  }
  return n;
}
NodeP SimFs::find(const std::string &p) { return walk(resolve(p)); }
static void parent_of(const std::string &abs, std::string &par, std::string &leaf) {
  size_t k = abs.rfind('/');
  par = k == 0 ? "/" : abs.substr(0, k); leaf = abs.substr(k + 1);
}
NodeP SimFs::put_dir(const std::string &p) {
  NodeP n = root;
  for(auto &s : split(resolve(p), false)) {
    auto &k = n->kids[s];
    if(!k) { k = std::make_shared<Node>(); k->dir = true; k->mtime = (time_t)++clock; }
    n = k;
  }
  return n;
}
NodeP SimFs::put_file(const std::string &p, const std::string &d) {
  std::string par, leaf; parent_of(resolve(p), par, leaf);
  NodeP dn = put_dir(par);
  NodeP f = std::make_shared<Node>(); f->data = f->durable = d; f->mtime = (time_t)++clock;
  dn->kids[leaf] = f;
  return f;
}
bool SimFs::remove(const std::string &p) {
  std::string par, leaf; parent_of(resolve(p), par, leaf);
  NodeP dn = walk(par);
  if(!dn) return false;
  auto it = dn->kids.find(leaf);
  if(it == dn->kids.end()) return false;
  it->second->linked = false;
  dn->kids.erase(it);
  return true;
}
static void dump_r(const NodeP &n, const std::string &path, std::string &o) {
  for(auto &k : n->kids) {
    std::string p = path + "/" + k.first;
    if(k.second->dir) { o += "D " + p + "\n"; dump_r(k.second, p, o); }
    else o += strf("F %s %zu %016llx\n", p.c_str(), k.second->data.size(), (unsigned long long)fnv(k.second->data.data(), k.second->data.size()));
  }
}
std::string SimFs::dump() { std::string o; dump_r(root, "", o); return o; }
static uint64_t used_r(const NodeP &n) { uint64_t t = n->data.size(); for(auto &k : n->kids) t += used_r(k.second); return t; }
uint64_t SimFs::used() { return used_r(root); }

void SimFs::check_handles(const char *when) {
  if(open_files || open_dirs) violate("handle-leak", "%s: %d base file(s) and %d base listing(s) left open", when, open_files, open_dirs);
}
void SimFs::forget_handles() { open_files = open_dirs = 0; live.clear(); session++; }

void SimFs::arm() {
  faults_on = true;
  for(int k = 0; k < OP_NKINDS; k++) next_fault[k] = faults.mean[k] ? geom(faults.mean[k]) : 0;
}
int SimFs::draw_fault_code(OpKind k) {
  (void)k; if(fault_code) return fault_code;
  static const int codes[] = {EVFS_ERR_IO, EVFS_ERR, EVFS_ERR_CORRUPTION, EVFS_ERR_AUTH, EVFS_ERR_FS_FULL};
  return codes[choose(5)];
}
// Loss of volatile state.  Content not made durable falls back to a torn mix.
static void cut_r(SimFs *fs, const NodeP &n) {
  for(auto &k : n->kids) cut_r(fs, k.second);
  if(n->dir || n->data == n->durable) return;
  if(fs->ordered) { n->durable = n->data; return; }
  if(fs->sector && n->data.size() == n->durable.size()) {
    // a medium that reorders: each changed block is the old or the new one
    uint32_t keep = choose(5), lost = 0;
    for(size_t o = 0; o < n->data.size(); o += fs->sector) {
      size_t l = std::min<size_t>(fs->sector, n->data.size() - o);
      if(!n->data.compare(o, l, n->durable, o, l)) continue;
      if(!chance(keep, 4)) { n->data.replace(o, l, n->durable, o, l); lost++; ev("lost block %zu", o / fs->sector); }
    }
    if(lost) FAULT("unsynced_block_lost");
    n->durable = n->data; return;
  }
  const std::string &a = n->durable, &b = n->data;
  if(b.size() >= a.size() && b.compare(0, a.size(), a) == 0) {
    // growth: any prefix between what is durable and what was written
    size_t extra = b.size() - a.size();
    size_t lost = choose((uint32_t)extra + 1);
    if(lost) FAULT("unsynced_data_lost");
    n->data = b.substr(0, b.size() - lost);
  } else {
    if(chance(1, 2)) { n->data = a; FAULT("unsynced_data_lost"); }
  }
  n->durable = n->data;
}
void SimFs::power_cut() { cut_r(this, root); forget_handles(); cwd = "/"; }
void SimFs::do_crash(Node *, const std::string &, size_t) {
  FAULT("crash");
  power_cut();
  crash_in = 0;
  crash_now();
}

static bool is_mut(OpKind k) { return k == OP_DELETE || k == OP_RENAME || k == OP_MKDIR || k == OP_WRITE || k == OP_TRUNC || k == OP_SYNC || k == OP_CLOSE || k == OP_OPEN; }

int SimFs::pre(OpKind k, const char *detail) {
  ops++;
  sim_advance(50);
  if(!quiet) ev("%s.%s %s", name.c_str(), op_names[k], detail);
  tag(k + 1);
  if(record_calls) calls.push_back(std::string(op_names[k]) + " " + detail);
  if(yields) yield_point(2);
  if(faults_on && next_fault[k] && --next_fault[k] == 0) {
    next_fault[k] = geom(faults.mean[k]);
    faults_fired++; faults_by_kind[k]++;
    last_fault_kind = k;
    last_fault_code = draw_fault_code(k);
    count_fault(op_names[k]);
    ev("fault %s -> %d", op_names[k], last_fault_code);
    return last_fault_code;
  }
  return 0;
}
// Crash points are placed on both sides of every mutation.
static void crash_point(SimFs *fs, OpKind k) {
  if(!fs->crash_in) return;
  if(fs->crash_on_mut_only && !is_mut(k)) return;
  if(--fs->crash_in == 0) fs->do_crash(nullptr, "", 0);
}

// ---------------------------------------------------------------- files
static SFile *F(EvfsFile *fh, const char *what) {
  SFile *f = (SFile *)fh;
  if(f->magic != FMAGIC) violate("base-handle-misuse", "base file %s on a handle that is %s", what, f->magic == CLOSED ? "already closed" : "not open");
  return f;
}
static void made_durable(SFile *f) { f->node->durable = f->node->data; }

static int s_ctrl(EvfsFile *fh, int cmd, void *) { SFile *f = F(fh, "ctrl"); char d[32]; snprintf(d, 32, "%d", cmd); int e = f->fs->pre(OP_CTRL, d); if(e) return e; return EVFS_ERR_NO_SUPPORT; }
static int s_close(EvfsFile *fh) {
  SFile *f = F(fh, "close"); SimFs *fs = f->fs;
  int e = fs->pre(OP_CLOSE, "");
  crash_point(fs, OP_CLOSE);
  // like fclose(): the handle is gone even when an error is reported
  if(!e && fs->close_durable && f->writable) made_durable(f);
  if(e) { fs->closes_failed++; if(fs->lossy_close && f->writable && f->node->data != f->node->durable) { f->node->data = f->node->durable; fs->unsaved.push_back(*f->keep); ev("unstored data dropped"); FAULT("close_drops_data"); } }
  f->magic = CLOSED;
  fs->open_files--; fs->live.erase(fh);
  f->node->opens--;
  delete f->keep; f->keep = nullptr; f->node = nullptr;
  fh->methods = nullptr;
  return e ? e : EVFS_OK;
}
static ptrdiff_t s_read(EvfsFile *fh, void *buf, size_t size) {
  SFile *f = F(fh, "read"); SimFs *fs = f->fs;
  char d[64]; snprintf(d, 64, "@%zu+%zu", f->pos, size);
  int e = fs->pre(OP_READ, d);
  crash_point(fs, OP_READ);
  if(!f->readable) return EVFS_ERR_IO;
  if(fs->early_end > 1) fs->early_end--;
  if(fs->early_end == 1 && size > 0 && !e) { FAULT("early_end"); ev("file ends early"); fs->faults_fired++; fs->last_fault_kind = OP_READ; fs->last_fault_code = EVFS_ERR_IO; f->eof = true; return 0; }
  size_t avail = f->pos < f->node->data.size() ? f->node->data.size() - f->pos : 0;
  size_t n = size < avail ? size : avail;
  if(e) {
    if(fs->faults.shorts && n > 1 && chance(1, 2)) {
      n = 1 + choose((uint32_t)n - 1); // strictly short; none at all would mean the end
      FAULT("short_read");
      ev("short read %zu", n);
    } else {
      // what a failed read leaves in the buffer and the position is unspecified
      size_t junk = choose((uint32_t)n + 1);
      memset(buf, 0x5A, junk);
      if(chance(1, 2)) f->pos += junk;
      return e;
    }
  }
  memcpy(buf, f->node->data.data() + (n ? f->pos : 0), n);
  f->pos += n;
  if(n < size) f->eof = true;
  return (ptrdiff_t)n;
}
static ptrdiff_t s_write(EvfsFile *fh, const void *buf, size_t size) {
  SFile *f = F(fh, "write"); SimFs *fs = f->fs;
  if(f->append) f->pos = f->node->data.size();
  char d[80]; snprintf(d, 80, "@%zu+%zu %llx", f->pos, size, (unsigned long long)fnv(buf, size));
  if(fs->readonly_medium) fs->write_attempts.push_back("write");
  int e = fs->pre(OP_WRITE, d);
  if(!f->writable) return EVFS_ERR_IO;
  size_t n = size; ptrdiff_t ret = (ptrdiff_t)size;
  if(e) {
    if(fs->faults.shorts && size > 0 && chance(1, 2)) {
      n = choose((uint32_t)size);
      FAULT("short_write"); ev("short write %zu", n);
      ret = (ptrdiff_t)n;
    } else {
      // A failed write may still have stored a prefix (a torn write).
      n = chance(1, 3) ? choose((uint32_t)size + 1) : 0;
      if(n) { FAULT("torn_write"); ev("torn %zu", n); }
      ret = e;
    }
  }
  size_t old = f->node->data.size();
  if(fs->capacity != ~0ull) {
    uint64_t u = fs->used(), grow = f->pos + n > old ? f->pos + n - old : 0;
    if(u + grow > fs->capacity) {
      uint64_t room = fs->capacity > u ? fs->capacity - u : 0;
      uint64_t can = old + room > f->pos ? old + room - f->pos : 0;
      if(can < n) n = (size_t)can;
      FAULT("disk_full"); ev("disk full, stored %zu", n);
      if(!e) { fs->faults_fired++; fs->last_fault_kind = OP_WRITE; }
      if(ret >= 0) ret = n > 0 ? (ptrdiff_t)n : EVFS_ERR_FS_FULL;
    }
  }
  if(fs->crash_in) {
    if(fs->crash_in == 1) { // crash inside this write: torn at any byte
      n = choose((uint32_t)n + 1);
      FAULT("torn_write_at_crash");
      ev("crash tears write at %zu", n);
    }
  }
  if(n && f->pos + n > old) f->node->data.resize(f->pos + n, 0);
  if(n) memcpy(&f->node->data[f->pos], buf, n);
  f->node->mtime = (time_t)++fs->clock;
  fs->muts++;
  f->pos += n;
  crash_point(fs, OP_WRITE);
  return ret;
}
static int s_trunc(EvfsFile *fh, evfs_off_t size) {
  SFile *f = F(fh, "truncate"); SimFs *fs = f->fs;
  char d[40]; snprintf(d, 40, "%ld", (long)size);
  if(fs->readonly_medium) fs->write_attempts.push_back("truncate");
  int e = fs->pre(OP_TRUNC, d);
  if(!f->writable) return EVFS_ERR_IO;
  if(e) { crash_point(fs, OP_TRUNC); return e; }
  if(size < 0) return EVFS_ERR_BAD_ARG;
  f->node->data.resize((size_t)size, 0);
  if(f->node->durable.size() > (size_t)size) f->node->durable.resize((size_t)size);
  f->node->mtime = (time_t)++fs->clock;
  fs->muts++;
  crash_point(fs, OP_TRUNC);
  return EVFS_OK;
}
static int s_sync(EvfsFile *fh) {
  SFile *f = F(fh, "sync"); SimFs *fs = f->fs;
  int e = fs->pre(OP_SYNC, "");
  crash_point(fs, OP_SYNC);
  if(e) return e;
  made_durable(f);
  return EVFS_OK;
}
static evfs_off_t s_size(EvfsFile *fh) {
  SFile *f = F(fh, "size"); SimFs *fs = f->fs;
  int e = fs->pre(OP_SIZE, "");
  if(e) return e;
  return (evfs_off_t)f->node->data.size();
}
static int s_seek(EvfsFile *fh, evfs_off_t off, EvfsSeekDir org) {
  SFile *f = F(fh, "seek"); SimFs *fs = f->fs;
  char d[40]; snprintf(d, 40, "%ld/%d", (long)off, (int)org);
  int e = fs->pre(OP_SEEK, d);
  if(e) return e;
  long long p = off;
  if(org == EVFS_SEEK_REL) p += (long long)f->pos;
  else if(org == EVFS_SEEK_REV) p = (long long)f->node->data.size() - off;
  if(p < 0) p = 0;
  f->pos = (size_t)p; f->eof = false;
  return EVFS_OK;
}
static evfs_off_t s_tell(EvfsFile *fh) { SFile *f = F(fh, "tell"); if(f->fs->record_calls) f->fs->calls.push_back("tell "); return (evfs_off_t)f->pos; }
static bool s_eof(EvfsFile *fh) { SFile *f = F(fh, "eof"); if(f->fs->record_calls) f->fs->calls.push_back("eof "); return f->pos >= f->node->data.size(); }
static const EvfsFileMethods s_fm = {s_ctrl, s_close, s_read, s_write, s_trunc, s_sync, s_size, s_seek, s_tell, s_eof};

// ---------------------------------------------------------------- dirs
static SDir *D(EvfsDir *dh, const char *what) {
  SDir *d = (SDir *)dh;
  if(d->magic != DMAGIC) violate("base-handle-misuse", "base listing %s on a handle that is %s", what, d->magic == CLOSED ? "already closed" : "not open");
  return d;
}
static int d_close(EvfsDir *dh) {
  SDir *d = D(dh, "close"); SimFs *fs = d->fs;
  int e = fs->pre(OP_DIRCLOSE, "");
  d->magic = CLOSED;
  delete d->names; d->names = nullptr; delete d->keep; d->keep = nullptr;
  fs->open_dirs--; fs->live.erase(dh);
  dh->methods = nullptr;
  return e ? e : EVFS_OK;
}
static int d_read(EvfsDir *dh, EvfsInfo *info) {
  SDir *d = D(dh, "read"); SimFs *fs = d->fs;
  memset(info, 0, sizeof *info);
  int e = fs->pre(OP_DIRREAD, "");
  crash_point(fs, OP_DIRREAD);
  if(e) { if(choose(2)) memset(info, 0xFF, sizeof *info); return e; }
  Node *dir = d->keep->get();
  for(;;) {
    if(d->pos >= d->names->size()) return EVFS_DONE;
    std::string n = (*d->names)[d->pos++];
    Node *k = dir; Node tmp;
    if(n != "." && n != "..") {
      auto it = dir->kids.find(n);
      if(it == dir->kids.end()) continue; // deleted meanwhile
      k = it->second.get();
    }
    snprintf(d->name, sizeof d->name, "%s", n.c_str());
    info->name = d->name;
    info->size = k->dir ? 0 : (evfs_off_t)k->data.size();
    info->mtime = k->mtime;
    if(k->dir) info->type |= EVFS_FILE_DIR;
    if(!fs->quiet) ev("entry %s", d->name);
    return EVFS_OK;
  }
}
static int d_rewind(EvfsDir *dh) {
  SDir *d = D(dh, "rewind");
  int e = d->fs->pre(OP_REWIND, "");
  if(e) return e;
  std::vector<std::string> v;
  if(d->fs->dots) { v.push_back("."); v.push_back(".."); }
  std::vector<std::string> k; for(auto &x : (*d->keep)->kids) k.push_back(x.first);
  if(d->fs->lifo) std::reverse(k.begin(), k.end());
  v.insert(v.end(), k.begin(), k.end());
  *d->names = v; d->pos = 0;
  return EVFS_OK;
}
static const EvfsDirMethods s_dm = {d_close, d_read, d_rewind};

// ---------------------------------------------------------------- vfs
static SimFs *S(Evfs *v) { return (SimFs *)v->fs_data; }
static std::string note(SimFs *fs, const char *path) {
  std::string r = fs->resolve(path);
  if(fs->record_paths) fs->paths.push_back(r);
  return r;
}
static int v_open(Evfs *v, const char *path, EvfsFile *fh, int flags) {
  SimFs *fs = S(v);
  std::string abs = note(fs, path);
  char d[400]; snprintf(d, sizeof d, "%s %x", path, flags);
  if(fs->readonly_medium && (flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_APPEND | EVFS_OVERWRITE))) fs->write_attempts.push_back("open-for-write");
  int e = fs->pre(OP_OPEN, d);
  fh->methods = nullptr;
  if(e) { if(flags & EVFS_WRITE) crash_point(fs, OP_OPEN); return e; }
  if(!*path) return EVFS_ERR_NO_FILE;
  NodeP n = fs->walk(abs);
  std::string par, leaf; parent_of(abs, par, leaf);
  if(abs == "/") return EVFS_ERR_IS_DIR;
  NodeP pn = fs->walk(par);
  if(n && n->dir) return EVFS_ERR_IS_DIR;
  if(!n && (!pn || !pn->dir)) return EVFS_ERR_NO_PATH;
  bool app = (flags & EVFS_APPEND), w = !app && ((flags & EVFS_OVERWRITE) || (flags & EVFS_NO_EXIST) || ((flags & EVFS_WRITE) && !(flags & EVFS_READ)));
  bool rd = flags & EVFS_READ, wr = flags & EVFS_WRITE;
  if(app || w) wr = true;
  if(!app && !w) rd = true;
  if(n && (flags & EVFS_NO_EXIST)) return EVFS_ERR_EXISTS;
  if(!n) {
    if(!app && !w && !(flags & EVFS_OPEN_OR_NEW)) return EVFS_ERR_NO_FILE;
    if(fs->capacity != ~0ull && fs->used() >= fs->capacity + 64) return EVFS_ERR_FS_FULL;
    n = std::make_shared<Node>(); n->mtime = (time_t)++fs->clock;
    pn->kids[leaf] = n; fs->muts++;
    if(fs->crash_in) crash_point(fs, OP_OPEN);
  } else if(w) {
    n->data.clear(); n->durable.clear(); n->mtime = (time_t)++fs->clock; fs->muts++;
    if(fs->crash_in) crash_point(fs, OP_OPEN);
  }
  SFile *f = (SFile *)fh;
  memset(f, 0, sizeof *f);
  f->magic = FMAGIC; f->fs = fs; f->keep = new NodeP(n); f->node = n.get(); f->flags = flags;
  f->readable = rd; f->writable = wr; f->append = app; f->session = fs->session;
  if(app) f->pos = n->data.size();
  fh->methods = &s_fm;
  n->opens++; fs->open_files++; fs->live.insert(fh);
  return EVFS_OK;
}
static int v_stat(Evfs *v, const char *path, EvfsInfo *info) {
  SimFs *fs = S(v);
  std::string abs = note(fs, path);
  memset(info, 0, sizeof *info);
  int e = fs->pre(OP_STAT, path);
  crash_point(fs, OP_STAT);
  if(e) { if(choose(2)) memset(info, 0xFF, sizeof *info); return e; } // what a failed call leaves there means nothing
  NodeP n = *path ? fs->walk(abs) : nullptr;
  if(!n) return EVFS_ERR_NO_FILE;
  info->size = n->dir ? 0 : (evfs_off_t)n->data.size();
  info->mtime = n->mtime;
  if(n->dir) info->type |= EVFS_FILE_DIR;
  return EVFS_OK;
}
static int v_delete(Evfs *v, const char *path) {
  SimFs *fs = S(v);
  std::string abs = note(fs, path);
  if(fs->readonly_medium) fs->write_attempts.push_back("delete");
  int e = fs->pre(OP_DELETE, path);
  if(e) { crash_point(fs, OP_DELETE); return e; }
  NodeP n = *path ? fs->walk(abs) : nullptr;
  if(!n) return EVFS_ERR_NO_FILE;
  if(abs == "/") return EVFS_ERR_AUTH;
  if(n->dir && !n->kids.empty()) return EVFS_ERR_NOT_EMPTY;
  if(fs->crash_in == 1 && chance(1, 2)) crash_point(fs, OP_DELETE); // before the effect
  std::string par, leaf; parent_of(abs, par, leaf);
  fs->walk(par)->kids.erase(leaf); n->linked = false; fs->muts++;
  crash_point(fs, OP_DELETE);
  return EVFS_OK;
}
static int v_rename(Evfs *v, const char *a, const char *b) {
  SimFs *fs = S(v);
  std::string ra = note(fs, a), rb = note(fs, b);
  if(fs->readonly_medium) fs->write_attempts.push_back("rename");
  int e = fs->pre(OP_RENAME, (std::string(a) + " -> " + b).substr(0, 380).c_str());
  if(e) return e;
  NodeP n = *a ? fs->walk(ra) : nullptr;
  if(!n || ra == "/") return EVFS_ERR_NO_FILE;
  if(!*b || rb == "/") return EVFS_ERR_NO_PATH;
  if(ra == rb) return EVFS_OK;
  if(rb.compare(0, ra.size() + 1, ra + "/") == 0) return EVFS_ERR_BAD_ARG;
  std::string pa, la, pb, lb; parent_of(ra, pa, la); parent_of(rb, pb, lb);
  NodeP dn = fs->walk(pb);
  if(!dn || !dn->dir) return EVFS_ERR_NO_PATH;
  auto it = dn->kids.find(lb);
  if(it != dn->kids.end()) {
    if(it->second->dir) { if(!n->dir) return EVFS_ERR_IS_DIR; if(!it->second->kids.empty()) return EVFS_ERR_NOT_EMPTY; }
    else if(n->dir) return EVFS_ERR_NO_PATH;
    it->second->linked = false;
  }
  fs->walk(pa)->kids.erase(la);
  dn->kids[lb] = n; fs->muts++;
  crash_point(fs, OP_RENAME);
  return EVFS_OK;
}
static int v_mkdir(Evfs *v, const char *path) {
  SimFs *fs = S(v);
  std::string abs = note(fs, path);
  if(fs->readonly_medium) fs->write_attempts.push_back("mkdir");
  int e = fs->pre(OP_MKDIR, path);
  if(e) { crash_point(fs, OP_MKDIR); return e; }
  if(!*path) return EVFS_ERR_NO_FILE;
  if(fs->walk(abs)) return EVFS_ERR_EXISTS;
  std::string par, leaf; parent_of(abs, par, leaf);
  NodeP pn = fs->walk(par);
  if(!pn || !pn->dir) return EVFS_ERR_NO_PATH;
  NodeP n = std::make_shared<Node>(); n->dir = true; n->mtime = (time_t)++fs->clock;
  pn->kids[leaf] = n; fs->muts++;
  crash_point(fs, OP_MKDIR);
  return EVFS_OK;
}
static int v_opendir(Evfs *v, const char *path, EvfsDir *dh) {
  SimFs *fs = S(v);
  std::string abs = note(fs, path);
  dh->methods = nullptr;
  int e = fs->pre(OP_OPENDIR, path);
  crash_point(fs, OP_OPENDIR);
  if(e) return e;
  NodeP n = *path ? fs->walk(abs) : nullptr;
  if(!n || !n->dir) return EVFS_ERR_NO_PATH;
  SDir *d = (SDir *)dh;
  memset(d, 0, sizeof *d);
  d->magic = DMAGIC; d->fs = fs; d->names = new std::vector<std::string>; d->keep = new NodeP(n);
  if(fs->dots) { d->names->push_back("."); d->names->push_back(".."); }
  std::vector<std::string> k; for(auto &x : n->kids) k.push_back(x.first);
  if(fs->lifo) std::reverse(k.begin(), k.end());
  d->names->insert(d->names->end(), k.begin(), k.end());
  dh->methods = &s_dm;
  fs->open_dirs++; fs->live.insert(dh);
  return EVFS_OK;
}
static int v_getcwd(Evfs *v, StringRange *cur) {
  SimFs *fs = S(v);
  int e = fs->pre(OP_GETCWD, "");
  if(e) { if(range_size(cur) && choose(2)) memset((char *)cur->start, 'X', range_size(cur)); return e; }
  std::string s = fs->drive ? "0:" + fs->cwd : fs->cwd;
  if(range_size(cur) < s.size() + 1) return EVFS_ERR_OVERFLOW;
  memcpy((char *)cur->start, s.c_str(), s.size() + 1);
  return EVFS_OK;
}
static int v_setcwd(Evfs *v, const char *path) {
  SimFs *fs = S(v);
  std::string abs = note(fs, path);
  int e = fs->pre(OP_SETCWD, path);
  if(e) return e;
  NodeP n = *path ? fs->walk(abs) : nullptr;
  if(!n || !n->dir) return EVFS_ERR_NO_PATH;
  fs->cwd = abs;
  return EVFS_OK;
}
static int v_ctrl(Evfs *v, int cmd, void *arg) {
  SimFs *fs = S(v);
  if(cmd == EVFS_CMD_UNREGISTER) { fs->registered = false; ev("%s.unregister", fs->name.c_str()); return EVFS_OK; }
  char d[32]; snprintf(d, 32, "%d", cmd);
  int e = fs->pre(OP_CTRL, d);
  if(e) return e;
  if(cmd == EVFS_CMD_GET_STAT_FIELDS || cmd == EVFS_CMD_GET_DIR_FIELDS) {
    *(unsigned *)arg = EVFS_INFO_SIZE | EVFS_INFO_MTIME | EVFS_INFO_TYPE | (cmd == EVFS_CMD_GET_DIR_FIELDS ? EVFS_INFO_NAME : 0);
    return EVFS_OK;
  }
  if(cmd == EVFS_CMD_USER_DEFINED + 5) { *(int *)arg += 17; return EVFS_DONE; }
  return EVFS_ERR_NO_SUPPORT;
}
static bool v_root(Evfs *v, const char *path, StringRange *root) {
  SimFs *fs = S(v);
  const char *p = path;
  if(fs->drive && p[0] >= '0' && p[0] <= '9' && p[1] == ':') p += 2;
  const char *q = p;
  while(*q == '/' || *q == '\\') q++;
  root->start = (char *)path; root->end = (char *)q;
  return q > p;
}
SimFs::SimFs(const char *nm, bool make_default) : name(nm) {
  root = std::make_shared<Node>(); root->dir = true;
  (void)make_default;
}
void SimFs::fill() {
  memset(&vfs, 0, sizeof vfs);
  vfs.vfs_name = name.c_str();
  vfs.vfs_file_size = sizeof(SFile); vfs.vfs_dir_size = sizeof(SDir);
  vfs.fs_data = this;
  vfs.m_open = v_open; vfs.m_stat = v_stat; vfs.m_delete = v_delete; vfs.m_rename = v_rename; vfs.m_make_dir = v_mkdir;
  vfs.m_open_dir = v_opendir; vfs.m_get_cur_dir = v_getcwd; vfs.m_set_cur_dir = v_setcwd; vfs.m_vfs_ctrl = v_ctrl;
  vfs.m_path_root_component = v_root;
}
void SimFs::reg(bool make_default) {
  fill();
  int st = evfs_register(&vfs, make_default);
  if(st != EVFS_OK) violate("register", "registering the base filesystem failed with %d", st);
  registered = true;
}
void SimFs::unreg() { if(registered) evfs_unregister(&vfs); }
} // namespace sim
