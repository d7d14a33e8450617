// The littlefs stand-in: a tree in memory, committed as a whole to one of two
// halves of the block device (checksummed, alternating), so that it survives
// any interruption of the device.
#include "lfs_sim.h"
#include <cstring>
#include <algorithm>
namespace sim {
const char *lfs_op_names[L_N] = {"format", "mount", "remove", "rename", "stat", "file_open", "file_close", "file_sync", "file_read", "file_write", "file_seek", "file_truncate", "file_tell", "file_size", "mkdir", "dir_open", "dir_close", "dir_read", "dir_rewind"};
LfsCtl g_lfs;
int lfs_code(int e) {
  if(e >= 0) return EVFS_OK;
  switch(e) { case LFS_ERR_IO: return EVFS_ERR_IO; case LFS_ERR_CORRUPT: return EVFS_ERR_CORRUPTION; case LFS_ERR_NOENT: return EVFS_ERR_NO_FILE; case LFS_ERR_EXIST: return EVFS_ERR_EXISTS; case LFS_ERR_NOTDIR: return EVFS_ERR_NO_PATH;
    case LFS_ERR_ISDIR: return EVFS_ERR_IS_DIR; case LFS_ERR_NOTEMPTY: return EVFS_ERR_NOT_EMPTY; case LFS_ERR_FBIG: return EVFS_ERR_OVERFLOW; case LFS_ERR_INVAL: return EVFS_ERR_BAD_ARG; case LFS_ERR_NOSPC: return EVFS_ERR_FS_FULL;
    case LFS_ERR_NOMEM: return EVFS_ERR_ALLOC; case LFS_ERR_NAMETOOLONG: return EVFS_ERR_TOO_LONG; }
  return EVFS_ERR;
}
static int pre(LfsOp k) {
  ev("lfs.%s", lfs_op_names[k]); tag(200 + k); sim_advance(60);
  if(!g_lfs.on || !g_lfs.next[k] || --g_lfs.next[k]) return 0;
  g_lfs.next[k] = geom(g_lfs.mean[k]);
  static const int reads[] = {LFS_ERR_IO, LFS_ERR_CORRUPT, LFS_ERR_NOMEM}, writes[] = {LFS_ERR_NOSPC, LFS_ERR_IO, LFS_ERR_CORRUPT, LFS_ERR_NOMEM, LFS_ERR_FBIG};
  bool w = k == L_REMOVE || k == L_RENAME || k == L_CLOSE || k == L_SYNC || k == L_WRITE || k == L_TRUNC || k == L_MKDIR || k == L_OPEN;
  int e = w ? writes[choose(5)] : reads[choose(3)];
  g_lfs.fired++; g_lfs.fired_kind[k]++; g_lfs.last = e; g_lfs.last_op = k; count_fault((std::string("lfs_") + lfs_op_names[k]).c_str()); ev("fault lfs.%s %d", lfs_op_names[k], e);
  return e;
}
struct LN; typedef std::shared_ptr<LN> LP;
struct LN { bool dir = false; std::map<std::string, LP> kids; std::string data; uint64_t at = 0; bool stored = false; };
struct LF { LP n; std::string d; bool dirty; uint32_t pos; int flags; };
struct LD { std::vector<struct lfs_info> e; size_t i; LP n; };
struct Impl { LP root; uint32_t seq = 0; std::set<LF *> files; std::set<LD *> dirs; };
static void ser(LN &n, std::string &o, uint64_t base) { for(auto &k : n.kids) { uint32_t nl = k.first.size(), dl = k.second->data.size(); o.push_back(k.second->dir ? 2 : 1); o.append((char *)&nl, 4); o.append((char *)&dl, 4); o += k.first; (void)base; k.second->at = o.size(); o += k.second->data; if(k.second->dir) { ser(*k.second, o, base); } } o.push_back(0); }
static bool de(LN &n, const std::string &s, size_t &i, int depth) {
  for(;;) { if(i >= s.size() || depth > 400) return false; char t = s[i++]; if(t == 0) return true; uint32_t nl, dl; if(i + 8 > s.size()) return false; memcpy(&nl, &s[i], 4); memcpy(&dl, &s[i + 4], 4); i += 8; if(i + (size_t)nl + dl > s.size()) return false;
    LP c = std::make_shared<LN>(); c->dir = t == 2; std::string nm = s.substr(i, nl); i += nl; c->at = i; c->data = s.substr(i, dl); i += dl; c->stored = true; n.kids[nm] = c; if(c->dir && !de(*c, s, i, depth + 1)) return false; }
}
static void mark(LN &n, bool s) { for(auto &k : n.kids) { k.second->stored = s; mark(*k.second, s); } }
static uint64_t half_at(const lfs_config *c, uint32_t seq) { return seq & 1 ? (uint64_t)c->block_size * (c->block_count / 2) : 0; }
// aligned pieces inside one block
static int dev(const lfs_config *c, bool w, uint64_t at, char *b, size_t n) {
  while(n) { uint64_t blk = at / c->block_size, off = at % c->block_size; size_t k = std::min<size_t>(std::min<size_t>(n, c->block_size - off), c->cache_size ? c->cache_size : 64);
    int e = w ? c->prog(c, blk, off, b, k) : c->read(c, blk, off, b, k); if(e) return e; at += k; b += k; n -= k; }
  return 0;
}
struct Head { uint32_t magic, seq, len, pad; uint64_t sum, pad2; };
static int commit(lfs_t *l) {
  auto m = (Impl *)l->impl; const lfs_config *c = l->cfg; std::string o; ser(*m->root, o, 0); size_t len = o.size(); while(o.size() % 16) o.push_back(0);
  uint64_t half = half_at(c, m->seq + 1), cap = (uint64_t)c->block_size * (c->block_count / 2);
  if(sizeof(Head) + o.size() > cap) return LFS_ERR_NOSPC;
  for(uint64_t b = 0; b * c->block_size < sizeof(Head) + o.size(); b++) if(int e = c->erase(c, half / c->block_size + b)) return e;
  if(int e = dev(c, true, half + sizeof(Head), &o[0], o.size())) return e;
  if(int e = c->sync(c)) return e;
  Head h = {0x4C465353, m->seq + 1, (uint32_t)len, 0, fnv(o.data(), len), 0};
  if(int e = dev(c, true, half, (char *)&h, sizeof h)) return e;
  if(int e = c->sync(c)) return e;
  m->seq++; mark(*m->root, true); return 0;
}
// A change that can't be committed has not happened.
static int change(lfs_t *l, const std::function<void()> &f, const std::function<void()> &undo) { f(); int e = commit(l); if(e) { undo(); mark(*((Impl *)l->impl)->root, false); } return e; }
static int walk(Impl *m, const char *p, LP *node, LP *parent, std::string *leaf) {
  std::vector<std::string> v; std::string s = p ? p : "";
  for(size_t i = 0; i < s.size();) { size_t e = s.find('/', i); if(e == std::string::npos) e = s.size(); std::string g = s.substr(i, e - i); i = e + 1; if(g == "" || g == ".") continue; if(g == "..") { if(v.size()) v.pop_back(); continue; } v.push_back(g); }
  LP n = m->root; *parent = nullptr; *leaf = "";
  for(size_t i = 0; i < v.size(); i++) { if(!n->dir) return LFS_ERR_NOTDIR; if(v[i].size() > LFS_NAME_MAX) return LFS_ERR_NAMETOOLONG; auto it = n->kids.find(v[i]); *leaf = v[i]; *parent = n; if(it == n->kids.end()) { *node = nullptr; if(i + 1 < v.size()) *parent = nullptr; return LFS_ERR_NOENT; } n = it->second; }
  *node = n; return 0;
}
RamDev::RamDev(uint32_t blocks) {
  memset(&cfg, 0, sizeof cfg); memset(&lfs, 0, sizeof lfs); cfg.context = this; cfg.read_size = cfg.prog_size = 16; cfg.block_size = 4096; cfg.block_count = blocks; cfg.cache_size = 1024; cfg.lookahead_size = 16; cfg.block_cycles = -1;
  mem.assign((size_t)4096 * blocks, '\xFF');
  cfg.read = [](const lfs_config *c, lfs_block_t b, lfs_off_t o, void *d, lfs_size_t n) { auto r = (RamDev *)c->context; memcpy(d, &r->mem[(size_t)b * c->block_size + o], n); return 0; };
  cfg.prog = [](const lfs_config *c, lfs_block_t b, lfs_off_t o, const void *d, lfs_size_t n) { auto r = (RamDev *)c->context; r->progs++; memcpy(&r->mem[(size_t)b * c->block_size + o], d, n); return 0; };
  cfg.erase = [](const lfs_config *, lfs_block_t) { return 0; }; cfg.sync = [](const lfs_config *) { return 0; };
}
} // namespace sim
using namespace sim;
#define M ((Impl *)l->impl)
#define NEEDM do { if(!l || !l->impl) violate("lfs-misuse", "littlefs is called on a volume that is not mounted"); } while(0)
#define PRE(k) do { NEEDM; if(int e_ = pre(k)) return e_; } while(0)
#define CHG(what) do { g_lfs.muts++; if(g_lfs.dirty_calls) g_lfs.changing.push_back(what); } while(0)
#define FH(f) LF *h = (LF *)(f)->h; do { if(!h || !M->files.count(h)) violate("lfs-misuse", "littlefs is called with a file that is not open"); } while(0)
#define DH(d) LD *h = (LD *)(d)->h; do { if(!h || !M->dirs.count(h)) violate("lfs-misuse", "littlefs is called with a directory that is not open"); } while(0)
extern "C" {
int lfs_format(lfs_t *l, const lfs_config *c) { if(int e = pre(L_FORMAT)) return e; Impl m; m.root = std::make_shared<LN>(); m.root->dir = true; l->cfg = c; l->impl = &m; m.seq = 0; int e = commit(l); if(!e) e = commit(l); l->impl = nullptr; return e; }
int lfs_mount(lfs_t *l, const lfs_config *c) {
  if(int e = pre(L_MOUNT)) return e;
  l->cfg = c; l->impl = nullptr; Head h[2]; int best = -1;
  for(int k = 0; k < 2; k++) if(int e = dev(c, false, half_at(c, k), (char *)&h[k], sizeof(Head))) return e;
  std::string body[2];
  for(int k = 0; k < 2; k++) { uint64_t cap = (uint64_t)c->block_size * (c->block_count / 2); if(h[k].magic != 0x4C465353 || (h[k].seq & 1) != (uint32_t)k || h[k].len + sizeof(Head) > cap) continue;
    body[k].resize((h[k].len + 15) / 16 * 16); if(int e = dev(c, false, half_at(c, k) + sizeof(Head), &body[k][0], body[k].size())) return e; body[k].resize(h[k].len); if(fnv(body[k].data(), h[k].len) != h[k].sum) continue; if(best < 0 || h[k].seq > h[best].seq) best = k; }
  if(best < 0) return LFS_ERR_CORRUPT;
  auto m = new Impl; m->root = std::make_shared<LN>(); m->root->dir = true; m->seq = h[best].seq; size_t i = 0; if(!de(*m->root, body[best], i, 0)) { delete m; return LFS_ERR_CORRUPT; }
  l->impl = m; return 0;
}
int lfs_unmount(lfs_t *l) { NEEDM; auto m = M; for(auto f : m->files) delete f; for(auto d : m->dirs) delete d; g_lfs.files -= m->files.size(); g_lfs.dirs -= m->dirs.size(); delete m; l->impl = nullptr; return 0; }
int lfs_remove(lfs_t *l, const char *p) { CHG("remove"); PRE(L_REMOVE); LP n, q; std::string leaf; int e = walk(M, p, &n, &q, &leaf); if(e) return e; if(!q) return LFS_ERR_INVAL; if(n->dir && n->kids.size()) return LFS_ERR_NOTEMPTY; return change(l, [&] { q->kids.erase(leaf); }, [&] { q->kids[leaf] = n; }); }
int lfs_rename(lfs_t *l, const char *a, const char *b) {
  if(!a || !b) violate("null-path", "littlefs is asked to rename without a name"); CHG("rename"); PRE(L_RENAME); LP n, q, n2, q2; std::string leaf, leaf2; int e = walk(M, a, &n, &q, &leaf); if(e) return e; if(!q) return LFS_ERR_INVAL;
  e = walk(M, b, &n2, &q2, &leaf2); if(e && !(e == LFS_ERR_NOENT && q2)) return e; if(!q2) return LFS_ERR_INVAL;
  if(n2 == n) return 0; if(n2) { if(n2->dir != n->dir) return n->dir ? LFS_ERR_NOTDIR : LFS_ERR_ISDIR; if(n2->dir && n2->kids.size()) return LFS_ERR_NOTEMPTY; }
  for(std::function<bool(LP)> in = [&](LP x) { if(x == q2) return true; for(auto &k : x->kids) if(in(k.second)) return true; return false; }; n->dir && in(n);) return LFS_ERR_INVAL;
  return change(l, [&] { q->kids.erase(leaf); q2->kids[leaf2] = n; }, [&] { if(n2) q2->kids[leaf2] = n2; else q2->kids.erase(leaf2); q->kids[leaf] = n; });
}
int lfs_stat(lfs_t *l, const char *p, struct lfs_info *i) { PRE(L_STAT); LP n, q; std::string leaf; int e = walk(M, p, &n, &q, &leaf); if(e) return e; memset(i, 0, sizeof *i); i->type = n->dir ? LFS_TYPE_DIR : LFS_TYPE_REG; i->size = n->dir ? 0 : n->data.size(); strncpy(i->name, q ? leaf.c_str() : "/", LFS_NAME_MAX); return 0; }
int lfs_file_open(lfs_t *l, lfs_file_t *f, const char *p, int fl) {
  if(fl & (LFS_O_CREAT | LFS_O_TRUNC)) CHG("file_open"); PRE(L_OPEN); f->h = nullptr; LP n, q; std::string leaf; int e = walk(M, p, &n, &q, &leaf);
  if(e == LFS_ERR_NOENT && q && (fl & LFS_O_CREAT)) { if(leaf.size() > LFS_NAME_MAX) return LFS_ERR_NAMETOOLONG; n = std::make_shared<LN>(); e = change(l, [&] { q->kids[leaf] = n; }, [&] { q->kids.erase(leaf); }); if(e) return e; }
  else if(e) return e;
  else if(fl & LFS_O_EXCL) return LFS_ERR_EXIST;
  if(n->dir) return LFS_ERR_ISDIR;
  auto h = new LF{n, n->data, false, 0, fl}; if(fl & LFS_O_TRUNC) { h->d.clear(); h->dirty = true; }
  if((fl & LFS_O_APPEND)) h->pos = 0;
  f->h = h; f->flags = fl; M->files.insert(h); g_lfs.files++; return 0;
}
static int fsync_(lfs_t *l, LF *h) { if(!h->dirty) return 0; std::string old = h->n->data; int e = change(l, [&] { h->n->data = h->d; }, [&] { h->n->data = old; }); if(!e) h->dirty = false; return e; }
int lfs_file_close(lfs_t *l, lfs_file_t *f) { NEEDM; FH(f); if(h->dirty) CHG("close of changed file"); int e = pre(L_CLOSE); if(!e) e = fsync_(l, h); M->files.erase(h); delete h; f->h = nullptr; g_lfs.files--; return e; }
int lfs_file_sync(lfs_t *l, lfs_file_t *f) { NEEDM; FH(f); if(h->dirty) CHG("sync of changed file"); if(int e = pre(L_SYNC)) return e; return fsync_(l, h); }
lfs_ssize_t lfs_file_read(lfs_t *l, lfs_file_t *f, void *b, lfs_size_t n) {
  NEEDM; FH(f); if(!(h->flags & LFS_O_RDONLY)) return LFS_ERR_BADF; if(int e = pre(L_READ)) return e;
  if(h->pos >= h->d.size()) return 0; size_t k = std::min<size_t>(n, h->d.size() - h->pos);
  if(!h->dirty && h->n->stored && h->n->data == h->d) { // from the device, in aligned pieces
    uint64_t at = half_at(l->cfg, M->seq) + sizeof(Head) + h->n->at + h->pos, a0 = at & ~15ull, a1 = (at + k + 15) & ~15ull; std::string t(a1 - a0, 0); if(int e = dev(l->cfg, false, a0, &t[0], t.size())) return e; memcpy(b, &t[at - a0], k); }
  else memcpy(b, &h->d[h->pos], k);
  h->pos += k; return (lfs_ssize_t)k;
}
lfs_ssize_t lfs_file_write(lfs_t *l, lfs_file_t *f, const void *b, lfs_size_t n) {
  NEEDM; FH(f); CHG("file_write"); if(!(h->flags & LFS_O_WRONLY)) return LFS_ERR_BADF; if(int e = pre(L_WRITE)) return e;
  if((h->flags & LFS_O_APPEND) && h->pos < h->d.size()) h->pos = h->d.size();
  if((uint64_t)h->pos + n > (uint64_t)l->cfg->block_size * l->cfg->block_count / 2) return LFS_ERR_NOSPC;
  if(n == 0) return 0; if(h->d.size() < (size_t)h->pos + n) h->d.resize((size_t)h->pos + n); memcpy(&h->d[h->pos], b, n); h->pos += n; h->dirty = true; return (lfs_ssize_t)n;
}
lfs_soff_t lfs_file_seek(lfs_t *l, lfs_file_t *f, lfs_soff_t o, int w) { NEEDM; FH(f); if(int e = pre(L_SEEK)) return e; int64_t p = o; if(w == LFS_SEEK_CUR) p += h->pos; if(w == LFS_SEEK_END) p += h->d.size(); if(p < 0 || p > 2147483647) return LFS_ERR_INVAL; h->pos = (uint32_t)p; return (lfs_soff_t)p; }
int lfs_file_truncate(lfs_t *l, lfs_file_t *f, lfs_off_t n) { NEEDM; FH(f); CHG("file_truncate"); if(!(h->flags & LFS_O_WRONLY)) return LFS_ERR_BADF; if(int e = pre(L_TRUNC)) return e; if(n > 0x7FFFFFFF) return LFS_ERR_INVAL; if(n > (uint64_t)l->cfg->block_size * l->cfg->block_count / 2) return LFS_ERR_NOSPC; if(n == h->d.size()) return 0; h->d.resize(n); h->dirty = true; return 0; }
lfs_soff_t lfs_file_tell(lfs_t *l, lfs_file_t *f) { NEEDM; FH(f); if(int e = pre(L_TELL)) return e; return (lfs_soff_t)h->pos; }
int lfs_file_rewind(lfs_t *l, lfs_file_t *f) { lfs_soff_t r = lfs_file_seek(l, f, 0, LFS_SEEK_SET); return r < 0 ? r : 0; }
lfs_soff_t lfs_file_size(lfs_t *l, lfs_file_t *f) { NEEDM; FH(f); if(int e = pre(L_SIZE)) return e; return (lfs_soff_t)h->d.size(); }
int lfs_mkdir(lfs_t *l, const char *p) { CHG("mkdir"); PRE(L_MKDIR); LP n, q; std::string leaf; int e = walk(M, p, &n, &q, &leaf); if(!e) return LFS_ERR_EXIST; if(!(e == LFS_ERR_NOENT && q)) return e; n = std::make_shared<LN>(); n->dir = true; return change(l, [&] { q->kids[leaf] = n; }, [&] { q->kids.erase(leaf); }); }
static void fill_dir(LD *h) { h->e.clear(); for(auto s : {".", ".."}) { struct lfs_info i; memset(&i, 0, sizeof i); i.type = LFS_TYPE_DIR; strcpy(i.name, s); h->e.push_back(i); } for(auto &k : h->n->kids) { struct lfs_info i; memset(&i, 0, sizeof i); i.type = k.second->dir ? LFS_TYPE_DIR : LFS_TYPE_REG; i.size = k.second->dir ? 0 : k.second->data.size(); strncpy(i.name, k.first.c_str(), LFS_NAME_MAX); h->e.push_back(i); } h->i = 0; }
int lfs_dir_open(lfs_t *l, lfs_dir_t *d, const char *p) { PRE(L_DIROPEN); d->h = nullptr; LP n, q; std::string leaf; int e = walk(M, p, &n, &q, &leaf); if(e) return e; if(!n->dir) return LFS_ERR_NOTDIR; auto h = new LD; h->n = n; fill_dir(h); d->h = h; M->dirs.insert(h); g_lfs.dirs++; return 0; }
int lfs_dir_close(lfs_t *l, lfs_dir_t *d) { NEEDM; DH(d); int e = pre(L_DIRCLOSE); M->dirs.erase(h); delete h; d->h = nullptr; g_lfs.dirs--; return e; }
int lfs_dir_read(lfs_t *l, lfs_dir_t *d, struct lfs_info *i) { NEEDM; DH(d); if(int e = pre(L_DIRREAD)) return e; if(h->i >= h->e.size()) { memset(i, 0, sizeof *i); return 0; } *i = h->e[h->i++]; return 1; }
int lfs_dir_seek(lfs_t *l, lfs_dir_t *d, lfs_off_t o) { NEEDM; DH(d); if(o > h->e.size()) return LFS_ERR_INVAL; h->i = o; return 0; }
lfs_soff_t lfs_dir_tell(lfs_t *l, lfs_dir_t *d) { NEEDM; DH(d); return (lfs_soff_t)h->i; }
int lfs_dir_rewind(lfs_t *l, lfs_dir_t *d) { NEEDM; DH(d); if(int e = pre(L_DIRREWIND)) return e; fill_dir(h); return 0; }
lfs_ssize_t lfs_fs_size(lfs_t *l) { NEEDM; return 2; }
}
