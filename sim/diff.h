// Differential exerciser: one random history of filesystem calls applied to a
// filesystem under test (A) and to a reference (B, a SimFs).  Every observable
// result is compared.
#pragma once
#include "api.h"
namespace sim {
struct Diff {
  const char *A, *B;
  std::function<std::string()> path;                     // next path
  std::function<std::string(const std::string &)> to_b = [](const std::string &s) { return s; };
  std::vector<int> flags = {EVFS_READ, EVFS_RDWR, EVFS_WRITE, EVFS_RDWR | EVFS_APPEND, EVFS_RDWR | EVFS_OVERWRITE, EVFS_RDWR | EVFS_NO_EXIST,
                            EVFS_RDWR | EVFS_OPEN_OR_NEW, EVFS_WRITE | EVFS_OVERWRITE, EVFS_WRITE | EVFS_NO_EXIST, EVFS_RDWR | EVFS_OPEN_OR_NEW | EVFS_APPEND};
  // status comparison; default exact
  std::function<bool(const char *, long, long)> same = [](const char *, long a, long b) { return a == b; };
  // A refused in a way that B does not have to (too long a path): B is not asked
  std::function<bool(const char *, const std::string &, long)> a_may_refuse = [](const char *, const std::string &, long) { return false; };
  std::function<bool(const char *, const std::string &, const std::string &)> allow = [](const char *, const std::string &, const std::string &) { return true; };
  std::function<std::string(const std::string &)> norm_cwd = [](const std::string &s) { return s; };
  std::function<void()> after = [] {};
  bool ordered = true, cwd = true, mutate = true, dir_sizes = true, dir_types = true, mtimes = false, ctrl = true, eof_exact = true, skip_dots = false, skip_empty_read = false;
  unsigned max_files = 4, max_dirs = 2; uint32_t max_len = 300, max_off = 500;
  // an operation that failed on A because of an injected fault: B is not asked
  std::function<bool(const char *, long)> failed;
  bool bad(const char *w, long st) { return failed && failed(w, st); }
  bool hit = false;                                      // a fault hit the last operation
  bool append_unplaced = false;                          // where a handle opened for appending stands first is open
  std::function<bool()> size_synced;                      // the failed size query had synced the file before it failed
  std::map<std::string, std::string> stored;             // content of B's files at the last sync or close (kept with `failed`)
  std::function<std::string *(const std::string &)> b_data; // direct access to the content of B's files
  std::function<void(EvfsFile *, size_t, ptrdiff_t)> on_read = [](EvfsFile *, size_t, ptrdiff_t) {};
  bool trunc_clamp = false;                              // truncation never grows and pulls the position back (FatFs)
  bool seek_within = false;                              // positions past the end are not used
  bool append_past = false;                              // the same, but only when it stands past the end
  bool append_seek = false;                              // a handle opened for appending is moved to the end before a write
  bool lazy_sizes = false;                               // the size of a file open for writing shows elsewhere after its close
  bool writing(const std::string &k) { if(lazy_sizes) for(auto &h : hs) if(h.wr && h.key == k) return true; return false; }
  bool lock_open_names = true;                           // no delete/rename of a file that is open
  bool one_writer = false;                               // a file is open either once for writing or by readers only
  std::function<std::string(const std::string &)> key = [](const std::string &s) { return s; };
  struct H { EvfsFile *a, *b; int fl; std::string key; bool wr; };
  struct L { EvfsDir *a, *b; };
  std::vector<H> hs; std::vector<L> ls;
  uint64_t off = 0; unsigned mutations = 0, opened = 0;
  const char *klass = "differs";

  void cmp(const char *what, long x, long y, const std::string &p = "") {
    CHECKV(same(what, x, y), klass, "%s %s returned %ld, expected the result of the reference %ld", what, p.c_str(), x, y);
  }
  bool file_open(const std::string &k) { for(auto &h : hs) if(h.key == k || (h.key.size() > k.size() && h.key.compare(0, k.size(), k) == 0 && (k == "/" || h.key[k.size()] == '/'))) return true; return false; }
  std::string where, cur_dst; int cur_fl = 0;
  void list(const std::string &p) {
    where = key(p);
    EvfsDir *x, *y;
    long s1 = a_opendir(p, &x, A);
    if(bad("open_dir", s1) || (s1 < 0 && a_may_refuse("open_dir", p, s1))) return;
    long s2 = a_opendir(to_b(p), &y, B); cmp("open_dir", s1, s2, p);
    if(s1 != EVFS_OK) { if(s2 == EVFS_OK) a_dirclose(y); return; }
    if(s2 != EVFS_OK) { a_dirclose(x); return; }
    if(!ordered) { list_set(x, y); long c = a_dirclose(x); if(!bad("dir_close", c)) CHECKV(c == EVFS_OK, "dir-close", "closing a listing failed (%ld)", c); a_dirclose(y); return; }
    if(ls.size() < max_dirs && choose(2)) { ls.push_back({x, y}); return; }
    while(list_step(x, y)) {}
    a_dirclose(x); a_dirclose(y);
  }
  void ent(const DirEnt &e1, const DirEnt &e2) {
    CHECKV(e1.name == e2.name, klass, "listing delivers %s, expected %s", e1.name.c_str(), e2.name.c_str());
    if(dir_types) CHECKV(e1.dir == e2.dir, klass, "listing reports a different type for %s", e1.name.c_str());
    if(dir_sizes && !e2.dir && !writing(where + (where == "/" ? "" : "/") + e2.name)) CHECKV(e1.size == e2.size, klass, "listing reports size %ld for %s, expected %ld", (long)e1.size, e1.name.c_str(), (long)e2.size);
  }
  bool list_step(EvfsDir *x, EvfsDir *y) {
    DirEnt e1, e2; int s1 = a_dirread(x, e1), s2 = a_dirread(y, e2);
    cmp("dir_read", s1, s2);
    if(s1 != EVFS_OK || s2 != EVFS_OK) return false;
    ent(e1, e2);
    return true;
  }
  void list_set(EvfsDir *x, EvfsDir *y) {
    int passes = 1 + (choose(3) == 0);
    std::map<std::string, DirEnt> m2; DirEnt e; int st;
    while((st = a_dirread(y, e)) == EVFS_OK) if(e.name != "." && e.name != "..") m2[e.name] = e;
    for(int p = 0; p < passes; p++) {
      std::map<std::string, DirEnt> m1;
      while((st = a_dirread(x, e)) == EVFS_OK) {
        if(bad("dir_read", st)) return;
        if(e.name == "." || e.name == "..") { continue; }
        CHECKV(!m1.count(e.name), "listing-duplicate", "listing delivers %s twice", e.name.c_str());
        CHECKV(m1.size() <= m2.size(), "listing-endless", "the listing delivers more entries than exist (%s)", e.name.c_str());
        m1[e.name] = e;
      }
      if(bad("dir_read", st)) return;
      CHECKV(st == EVFS_DONE, klass, "a listing on a healthy filesystem ended with %d", st);
      st = a_dirread(x, e); if(bad("dir_read", st)) return; CHECKV(st == EVFS_DONE, "listing-end", "reading past the end of a listing returned %d", st);
      for(auto &k : m2) { CHECKV(m1.count(k.first), klass, "the listing misses %s", k.first.c_str()); ent(m1[k.first], k.second); }
      CHECKV(m1.size() == m2.size(), klass, "the listing has entries that do not exist");
      if(p + 1 < passes) { st = a_rewind(x); if(bad("dir_rewind", st)) return; CHECKV(st == EVFS_OK, "rewind", "rewind failed"); }
    }
  }
  void compare_stat(const std::string &p) {
    EvfsInfo x, y; long s1 = a_stat(p, &x, A);
    if(bad("stat", s1) || (s1 < 0 && a_may_refuse("stat", p, s1))) return;
    long s2 = a_stat(to_b(p), &y, B); cmp("stat", s1, s2, p);
    if(s1 == EVFS_OK && s2 == EVFS_OK) {
      CHECKV((x.type & EVFS_FILE_DIR) == (y.type & EVFS_FILE_DIR), klass, "stat %s reports a different type", p.c_str());
      if(!(y.type & EVFS_FILE_DIR) && !writing(key(p))) CHECKV(x.size == y.size, klass, "stat %s reports size %ld, expected %ld", p.c_str(), (long)x.size, (long)y.size);
      if(mtimes) CHECKV(x.mtime == y.mtime, klass, "stat %s reports another time", p.c_str());
    }
  }
  void open(const std::string &p, int fl) {
    H h; h.fl = fl; cur_fl = fl;
    if(!allow("open", p, "")) return;
    h.key = key(p); h.wr = fl & (EVFS_WRITE | EVFS_APPEND | EVFS_OVERWRITE | EVFS_NO_EXIST);
    if(one_writer) for(auto &o : hs) if(o.key == h.key && (o.wr || h.wr)) return;
    long s1 = a_open(p, &h.a, fl, A);
    if(bad("open", s1) || (s1 < 0 && a_may_refuse("open", p, s1))) return;
    if(b_data) { std::string *d = b_data(h.key); if(!file_open(h.key)) stored[h.key] = d ? *d : ""; }
    long s2 = a_open(to_b(p), &h.b, fl, B); cmp("open", s1, s2, p);
    if(s1 == EVFS_OK && s2 == EVFS_OK) { hs.push_back(h); opened++;
      if(append_unplaced && (fl & EVFS_APPEND)) for(;;) { long x = a_seek(h.a, 0, EVFS_SEEK_TO); if(bad("seek", x)) continue; cmp("seek", x, a_seek(h.b, 0, EVFS_SEEK_TO)); break; } }
    else if(s1 == EVFS_OK) a_close(h.a);
    else if(s2 == EVFS_OK) a_close(h.b);
  }
  void read(H &h) {
    std::string g1, g2; size_t n = range(skip_empty_read ? 1 : 0, max_len + 100);
    long x = a_read(h.a, g1, n); if(bad("read", x)) return;
    long y = a_read(h.b, g2, n); cmp("read", x, y);
    CHECKV(g1 == g2, klass, "a read delivered other bytes than were stored: %s, expected %s", hexs(g1, 12).c_str(), hexs(g2, 12).c_str());
    on_read(h.a, n, x);
  }
  void file_op(size_t k) {
    H &h = hs[k];
    switch(weighted({5, 5, 3, 2, 2, 1, 2, 2})) {
    case 0: read(h); break;
    case 1: if(!mutate) break; { if((h.fl & EVFS_APPEND) && (append_seek || (append_past && a_tell(h.b) > a_size(h.b)))) { long x = a_seek(h.a, 0, EVFS_SEEK_REV); if(bad("seek", x)) return; cmp("seek", x, a_seek(h.b, 0, EVFS_SEEK_REV)); }
              std::string s = content(6, off, range(0, max_len)); off += s.size(); long x = a_write(h.a, s); if(bad("write", x)) break; cmp("write", x, a_write(h.b, s)); if(h.wr) mutations++; break; }
    case 2: {
      EvfsSeekDir d = (EvfsSeekDir)(1 + choose(3)); evfs_off_t p = range(0, max_off);
      if(d == EVFS_SEEK_REL && choose(2)) p = -p;
      if(seek_within) { evfs_off_t n = a_size(h.b), c = a_tell(h.b); if(d == EVFS_SEEK_TO && p > n) p = n; if(d == EVFS_SEEK_REV && p > n) p = n; if(d == EVFS_SEEK_REL) { if(c + p > n) p = n - c; if(c + p < 0) p = -c; } }
      long x = a_seek(h.a, p, d); if(bad("seek", x)) break; cmp("seek", x, a_seek(h.b, p, d)); x = a_tell(h.a); if(bad("tell", x)) break; cmp("tell", x, a_tell(h.b)); break; }
    case 3: if(!mutate) break; { evfs_off_t p = range(0, max_off); if(trunc_clamp) { evfs_off_t n = a_size(h.b); long x = a_trunc(h.a, p); if(p > n) p = n; cmp("truncate", x, a_trunc(h.b, p)); if(a_tell(h.b) > p && h.wr) a_seek(h.b, p, EVFS_SEEK_TO); if(h.wr) cmp("tell", a_tell(h.a), a_tell(h.b)); break; }
              long x = a_trunc(h.a, p); if(bad("truncate", x)) break; cmp("truncate", x, a_trunc(h.b, p)); break; }
    case 4: { long x = a_size(h.a); if(!bad("size", x)) { cmp("size", x, a_size(h.b)); if(!hit && b_data && b_data(h.key)) stored[h.key] = *b_data(h.key); } else if(size_synced && size_synced() && b_data(h.key)) stored[h.key] = *b_data(h.key); x = a_tell(h.a); if(!bad("tell", x)) cmp("tell", x, a_tell(h.b)); } if(eof_exact) cmp("eof", a_eof(h.a), a_eof(h.b)); break;
    case 5: { long x = a_sync(h.a); if(bad("sync", x)) break; cmp("sync", x, a_sync(h.b)); if(b_data && b_data(h.key)) stored[h.key] = *b_data(h.key); break; }
    case 6: if(ctrl) { cmp("file_ctrl", a_fctrl(h.a, EVFS_CMD_USER_DEFINED + 1, nullptr), a_fctrl(h.b, EVFS_CMD_USER_DEFINED + 1, nullptr)); } break;
    default: close(h); hs.erase(hs.begin() + k);
    }
  }
  void close(H &h) {
    long x = a_close(h.a); bool f = bad("close", x); long y = a_close(h.b);
    if(!f) { cmp("close", x, y); return; }
    if(h.wr && b_data && b_data(h.key)) *b_data(h.key) = stored[h.key]; // what was not synced is lost
  }
  void chdir(const std::string &p) {
    long s1 = a_chdir(p, A);
    if(bad("set_cur_dir", s1) || (s1 < 0 && a_may_refuse("set_cur_dir", p, s1))) {} else cmp("set_cur_dir", s1, a_chdir(to_b(p), B), p);
    check_cwd();
  }
  void check_cwd() {
    std::string c1, c2; long s1 = a_getcwd(c1, A), s2 = a_getcwd(c2, B); cmp("get_cur_dir", s1, s2);
    CHECKV(norm_cwd(c1) == norm_cwd(c2), klass, "the current directory reads back as %s, expected %s", c1.c_str(), c2.c_str());
  }
  void step() {
    unsigned k = weighted({4, 12, 3, 2, 2, 3, 3, 3, 2});
    switch(k) {
    case 0: if(hs.size() < max_files) { open(path(), flags[choose((uint32_t)flags.size())]); break; } // fall through
    case 1: if(hs.size()) file_op(choose((uint32_t)hs.size())); else open(path(), flags[choose((uint32_t)flags.size())]); break;
    case 2: compare_stat(path()); break;
    case 3: { if(!mutate) break; std::string p = path(); if(!allow("delete", p, "") || (lock_open_names && file_open(key(p)))) break;
              long s1 = a_delete(p, A); if(bad("delete", s1) || (s1 < 0 && a_may_refuse("delete", p, s1))) break; cmp("delete", s1, a_delete(to_b(p), B), p); if(s1 == EVFS_OK) mutations++; break; }
    case 4: { if(!mutate) break; std::string p = path(), q = path(); if(!allow("rename", p, q) || (lock_open_names && (file_open(key(p)) || file_open(key(q))))) break;
              cur_dst = q; long s1 = a_rename(p, q, A); if(bad("rename", s1)) break; if(s1 < 0 && a_may_refuse("rename", p.size() > q.size() ? p : q, s1)) break; cmp("rename", s1, a_rename(to_b(p), to_b(q), B), p + " " + q); if(s1 == EVFS_OK) mutations++; break; }
    case 5: { if(!mutate) break; std::string p = path(); if(!allow("mkdir", p, "")) break; long s1 = a_mkdir(p, A); if(bad("make_dir", s1) || (s1 < 0 && a_may_refuse("mkdir", p, s1))) break; cmp("make_dir", s1, a_mkdir(to_b(p), B), p); if(s1 == EVFS_OK) mutations++; break; }
    case 6: list(path()); break;
    case 7: if(cwd) { if(choose(2)) chdir(path()); else check_cwd(); } break;
    default: if(ls.size()) { size_t i = choose((uint32_t)ls.size()); L l = ls[i];
               switch(choose(4)) { case 0: case 1: list_step(l.a, l.b); break;
                 case 2: cmp("dir_rewind", a_rewind(l.a), a_rewind(l.b)); break;
                 default: cmp("dir_close", a_dirclose(l.a), a_dirclose(l.b)); ls.erase(ls.begin() + i); } }
             else compare_stat(path());
    }
    after();
  }
  void close_all() {
    for(auto &h : hs) close(h); hs.clear();
    for(auto &l : ls) cmp("dir_close", a_dirclose(l.a), a_dirclose(l.b)); ls.clear();
  }
};
} // namespace sim
