// C22: the standard-library backend over the host's files.
#include "diff.h"
#include "hostio.h"
extern "C" {
#include "evfs/stdio_fs.h"
}
using namespace sim;
namespace {
std::vector<std::string> names() { return {"a", "b", "f0", "d", "d/a", "d/e", "d/e/f1", "missing/x", "a/x", "long"}; }
std::string host_path(const std::string &cwd) {
  std::string s = oneof(names());
  if(s == "long") s = std::string(oneof<unsigned>({200, 255, 256, 300}), 'n');
  switch(weighted({6, 6, 1, 1, 1})) {
    case 0: return s;
    case 1: return "/" + s;
    case 2: return oneof<std::string>({"./" + s, "/./" + s, "/d/../" + s, "//" + s, s + "/", "/" + s + "/."});
    case 3: return cwd == "/" ? s : "../" + s;
    default: return oneof<std::string>({"/", ".", "", "/d", "/d/e"});
  }
}
const std::vector<int> ALLFLAGS = {EVFS_READ, EVFS_WRITE, EVFS_RDWR, EVFS_READ | EVFS_OPEN_OR_NEW, EVFS_RDWR | EVFS_OPEN_OR_NEW, EVFS_WRITE | EVFS_OPEN_OR_NEW, EVFS_WRITE | EVFS_OVERWRITE,
  EVFS_RDWR | EVFS_OVERWRITE, EVFS_OVERWRITE, EVFS_APPEND, EVFS_WRITE | EVFS_APPEND, EVFS_RDWR | EVFS_APPEND, EVFS_NO_EXIST, EVFS_WRITE | EVFS_NO_EXIST, EVFS_RDWR | EVFS_NO_EXIST,
  EVFS_RDWR | EVFS_OPEN_OR_NEW | EVFS_APPEND, EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_APPEND, EVFS_RDWR | EVFS_OVERWRITE | EVFS_NO_EXIST, EVFS_WRITE | EVFS_APPEND | EVFS_NO_EXIST,
  EVFS_RDWR | EVFS_APPEND | EVFS_NO_EXIST, EVFS_RDWR | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE, EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE};

void end_host(HostFs &h) {
  CHECKV(h.files.empty(), "host-leak", "%zu host files are still open after every handle was closed", h.files.size());
  CHECKV(h.dirs.empty(), "host-leak", "%zu host directories are still open after every listing was closed", h.dirs.size());
}

void host_same() {
  evfs_init();
  HostFs h; h.start(scratch_dir() + "/h"); HostRef ref("ref", scratch_dir() + "/r");
  CHECKV(evfs_register_stdio(chance(1, 2)) == EVFS_OK, "register", "registering stdio failed");
  h.no_dtype = choose(3) == 0;
  Diff d{"stdio", "ref"};
  d.path = [&] { return host_path(h.cwd); };
  d.flags = ALLFLAGS; d.ordered = false; d.one_writer = true; d.lazy_sizes = true; d.dir_sizes = false; d.eof_exact = false; d.max_files = 4;
  d.key = [&](const std::string &p) { // one name per file
    std::vector<std::string> v; std::string s = (p[0] == '/' ? "" : h.cwd) + "/" + p, o;
    for(size_t i = 0; i < s.size();) { size_t e = s.find('/', i); if(e == std::string::npos) e = s.size(); std::string g = s.substr(i, e - i); i = e + 1; if(g == "" || g == ".") continue; if(g == "..") { if(v.size()) v.pop_back(); } else v.push_back(g); }
    for(auto &g : v) o += "/" + g; return o == "" ? std::string("/") : o; };
  d.allow = [&](const char *what, const std::string &p, const std::string &q) { if((!strcmp(what, "delete") || !strcmp(what, "rename")) && (d.key(p) == "/" || (!strcmp(what, "rename") && d.key(q) == "/"))) return false; // the host decides about its root
    if(!strcmp(what, "open")) { EvfsInfo i; if(evfs_stat_ex(p.c_str(), &i, "ref") == EVFS_OK && (i.type & EVFS_FILE_DIR) && !(d.cur_fl & ~(EVFS_READ | EVFS_OPEN_OR_NEW))) return false; } return true; };
  d.on_read = [&](EvfsFile *f, size_t n, ptrdiff_t r) { if(n && r >= 0) CHECKV(a_eof(f) == ((size_t)r < n), "host-eof", "after a read of %zu that delivered %td bytes end-of-file is %d", n, r, (int)a_eof(f)); };
  for(auto s : {"/d", "/d/e"}) { h.dir(s); a_mkdir(s, "ref"); }
  for(auto s : {"/a", "/d/e/f1"}) { std::string c = content(80, 0, range(0, 9000)); h.put(s, c); EvfsFile *f; a_open(s, &f, EVFS_WRITE, "ref"); a_write(f, c); a_close(f); }
  if(choose(3) == 0) { d.max_len = 9000; d.max_off = 9000; }
  unsigned n = range(10, g_cfg.thorough ? 260 : 110);
  for(unsigned i = 0; i < n; i++) {
    d.step();
    if(choose(6) == 0) { // times and sizes are the host's
      std::string p = host_path(h.cwd); EvfsInfo x; if(a_stat(p, &x, "stdio") == EVFS_OK) { EvfsInfo y; if(evfs_stat_ex(p.c_str(), &y, "ref") == EVFS_OK) { long dt = (long)x.mtime - (long)y.mtime; CHECKV(dt > -30 && dt < 30, "host-mtime", "stat reports a time %ld s off", dt); } }
    }
    if(choose(12) == 0 && d.hs.size()) { // what was synced is in the host's file
      auto &q = d.hs[choose((uint32_t)d.hs.size())]; if(q.wr) { CHECKV(a_sync(q.a) == EVFS_OK, "host-sync", "sync failed"); std::string x = h.dump(), y; HostFs t; t.root = ref.root; y = t.dump(); (void)x; bool o1, o2; std::string c1 = h.raw(q.key, &o1), c2 = t.raw(q.key, &o2);
        CHECKV(o1 == o2 && c1 == c2, "host-synced", "after sync the host's file holds %zu bytes, %zu were written", c1.size(), c2.size()); g_host = &h; } }
  }
  d.close_all();
  HostFs t; t.root = ref.root; std::string x = h.dump(), y = t.dump(); g_host = &h;
  if(x != y) { size_t i = 0; while(i < x.size() && i < y.size() && x[i] == y[i]) i++; while(i && x[i - 1] != '\n') i--; violate("host-tree", "the host has '%s' where '%s' is expected", x.substr(i, x.find('\n', i) - i).c_str(), y.substr(i, y.find('\n', i) - i).c_str()); }
  end_host(h);
  if(d.mutations > 2 && d.opened > 2) nontrivial();
}

// Host calls fail.  The model is what must be true of the host's files.
struct Fault {
  HostFs &h; uint64_t before;
  explicit Fault(HostFs &h) : h(h) { h.errs.clear(); before = h.fired; }
  bool hit() { return h.fired != before; }
  // a failure is reported as what it is
  void code(const char *what, long st, long truth) {
    if(!hit()) { CHECKV(st == truth, "host-status", "%s returned %ld, the host's result stands for %ld", what, st, truth); return; }
    if(st >= 0 || st == truth) return;
    std::set<long> ok; for(int e : h.errs) ok.insert(host_code(e));
    static const std::set<long> telling = {EVFS_ERR_NO_FILE, EVFS_ERR_NO_PATH, EVFS_ERR_EXISTS, EVFS_ERR_FS_FULL, EVFS_ERR_AUTH};
    bool all_telling = true; for(long c : ok) if(!telling.count(c)) all_telling = false;
    if(all_telling || telling.count(st)) CHECKV(ok.count(st), "host-misreported", "%s failed on the host with errno %d (%s) and reports status %ld", what, h.errs.back(), strerror(h.errs.back()), st);
  }
};
void host_faults() {
  evfs_init();
  HostFs h; h.start(scratch_dir() + "/h");
  CHECKV(evfs_register_stdio(chance(1, 2)) == EVFS_OK, "register", "registering stdio failed");
  h.no_dtype = choose(3) == 0; const char *V = "stdio";
  std::map<std::string, std::string> files; std::set<std::string> dirs = {"/"};
  h.dir("/d"); dirs.insert("/d");
  for(auto s : {"/a", "/d/a"}) { files[s] = content(81, 0, range(0, 700)); h.put(s, files[s]); }
  static const std::vector<std::string> P = {"/a", "/b", "/d/a", "/d/b", "/d", "/e", "/e/a"};
  uint32_t m = oneof<uint32_t>({4, 8, 20});
  for(int k = 0; k < H_N; k++) h.mean[k] = choose(3) ? m : 0;
  h.arm();
  struct O { EvfsFile *f; std::string name, m; evfs_off_t pos; bool rd, wr, app, sure, flushed; };
  std::vector<O> os;
  auto isopen = [&](const std::string &n) { for(auto &o : os) if(o.name == n) return true; return false; };
  auto parent = [&](const std::string &p) { size_t i = p.rfind('/'); return i ? p.substr(0, i) : std::string("/"); };
  auto verify = [&](O &o, const char *when) { bool ok; std::string c = h.raw(o.name, &ok); CHECKV(ok && c == o.m, "host-lost", "%s succeeded but the host's file %s holds %zu bytes that are not the %zu bytes reported as written", when, o.name.c_str(), c.size(), o.m.size()); o.flushed = true; };
  auto reload = [&](O &o, const char *when) { o.m = h.raw(o.name); o.flushed = true; (void)when; };
  auto do_sync = [&](O &o) { Fault w(h); int st = a_sync(o.f); w.code("sync", st, EVFS_OK); if(st == EVFS_OK && o.wr) { if(o.sure) verify(o, "sync"); } return st; };
  auto recover = [&](O &o) { // a failed transfer: find out where the file stands
    h.stop(); int st = a_sync(o.f); CHECKV(st == EVFS_OK, "host-stuck", "sync still fails (%d) after the host's faults stopped", st); 
    std::string c = h.raw(o.name); o.m = c; o.sure = true; evfs_off_t p = range(0, (uint32_t)o.m.size()); CHECKV(a_seek(o.f, p, EVFS_SEEK_TO) == EVFS_OK, "host-stuck", "seek still fails after the host's faults stopped"); o.pos = p; h.faults_on = true; };
  auto do_close = [&](size_t i) {
    O o = os[i]; os.erase(os.begin() + i); Fault w(h); uint64_t fc = h.fired_kind[H_FCLOSE]; int st = a_close(o.f); w.code("close", st, EVFS_OK);
    if(h.fired_kind[H_FCLOSE] != fc && o.wr) CHECKV(st < 0, "host-close-lost", "closing a file failed on the host and close reports %d", st);
    if(st == EVFS_OK) { if(o.wr && o.sure) verify(o, "close"); } 
    files[o.name] = h.raw(o.name);
    CHECKV(!o.wr || st != EVFS_OK || !o.sure || files[o.name] == o.m, "host-lost", "close lost data"); };
  unsigned n = range(10, g_cfg.thorough ? 200 : 90);
  for(unsigned i = 0; i < n; i++) {
    std::string p = oneof(P);
    bool isdir = dirs.count(p), isfile = files.count(p), par = dirs.count(parent(p)), parfile = files.count(parent(p));
    long absent = par ? EVFS_ERR_NO_FILE : parfile ? EVFS_ERR_NO_PATH : EVFS_ERR_NO_FILE;
    switch(weighted({8, 30, 3, 3, 3, 3, 5, 2, 1})) {
    case 0: {
      if(os.size() >= 3 || isopen(p) || isdir) break;
      int fl = oneof(ALLFLAGS); bool R_ = fl & EVFS_READ, W = fl & EVFS_WRITE;
      bool app = fl & EVFS_APPEND, ne = fl & EVFS_NO_EXIST, over = fl & EVFS_OVERWRITE, oon = fl & EVFS_OPEN_OR_NEW;
      bool trunc = !app && (over || ne || (W && !R_ && !oon)); bool creates = app || trunc || oon;
      long truth = isfile ? (ne ? EVFS_ERR_EXISTS : EVFS_OK) : par && creates ? EVFS_OK : absent;
      O o; o.name = p; Fault w(h); int st = a_open(p, &o.f, fl, V); w.code("open", st, truth);
      if(st < 0) { // a refused open changes nothing, except that a file to be created may exist
        bool ex; std::string c = h.raw(p, &ex);
        if(isfile) { CHECKV(ex, "host-open-harm", "a failed open removed a file"); if(!(trunc && !ne)) CHECKV(c == files[p], "host-open-harm", "a failed open changed a file"); files[p] = c; }
        else if(ex) { CHECKV(creates && par && c == "", "host-open-harm", "a failed open made a file"); files[p] = ""; }
        break; }
      if(!isfile) files[p] = "";
      o.m = trunc ? "" : files[p]; o.app = app; o.rd = (R_ && (W || !(app || trunc))) || (!app && !trunc && oon); o.wr = W || app || trunc; o.pos = app && !(R_ && W) ? (evfs_off_t)o.m.size() : 0; o.sure = true; o.flushed = true;
      files[p] = o.m; os.push_back(o); PROBE("faulty_open");
      break; }
    case 1: {
      if(os.empty()) break; size_t k = choose((uint32_t)os.size()); O &o = os[k];
      switch(weighted({5, 5, 3, 2, 2, 2, 2})) {
      case 0: { if(!o.rd) break; std::string g; size_t q = range(1, 500); Fault w(h); ptrdiff_t r = a_read(o.f, g, q);
        size_t left = o.pos < (evfs_off_t)o.m.size() ? o.m.size() - o.pos : 0; size_t want = std::min(left, q);
        if(!w.hit()) CHECKV(r == (ptrdiff_t)want, "host-read", "a read of %zu at %ld of %zu bytes returned %td", q, (long)o.pos, o.m.size(), r);
        if(r > 0) CHECKV((size_t)r <= want && !o.m.compare(o.pos, r, g), "host-read", "a read delivered other bytes than the file holds");
        if(r == 0 && want) violate("host-read-end", "a failing read reports the end of the file with %zu bytes left", left);
        if(r >= 0 && a_eof(o.f)) CHECKV(o.pos + r >= (evfs_off_t)o.m.size(), "host-eof", "end-of-file is reported with %zd bytes left", o.m.size() - o.pos - r);
        if(r >= 0) o.pos += r; else { h.stop(); CHECKV(a_seek(o.f, o.pos, EVFS_SEEK_TO) == EVFS_OK, "host-stuck", "seek fails without a fault"); h.faults_on = true; }
        break; }
      case 1: { if(!o.wr) break; std::string s = content(6, o.pos + i * 977, range(1, choose(4) ? 300 : 9000)); if(o.app) o.pos = (evfs_off_t)o.m.size(); Fault w(h); ptrdiff_t r = a_write(o.f, s);
        if(!w.hit()) CHECKV(r == (ptrdiff_t)s.size(), "host-write", "a write of %zu bytes returned %td", s.size(), r);
        if(r < 0) w.code("write", r, EVFS_OK);
        if(r == 0) violate("host-write-zero", "a failing write reports no error");
        if(r > 0) { if(o.m.size() < o.pos + (size_t)r) o.m.resize(o.pos + r); o.m.replace(o.pos, r, s, 0, r); o.pos += r; o.flushed = false; }
        else { std::string old = o.m; evfs_off_t at = o.pos; bool was = o.sure; recover(o);
          if(was) { // any part of the refused data, nothing else
            bool ok = o.m == old; for(size_t j = 1; j <= s.size() && !ok; j++) { std::string t = old; if(t.size() < at + j) t.resize(at + j); t.replace(at, j, s, 0, j); ok = t == o.m; }
            CHECKV(ok, "host-write-harm", "a failed write damaged other parts of the file"); } }
        break; }
      case 2: { evfs_off_t q = range(0, 600); EvfsSeekDir dir = (EvfsSeekDir)(1 + choose(3)); evfs_off_t to = dir == EVFS_SEEK_TO ? q : dir == EVFS_SEEK_REL ? o.pos + q : (evfs_off_t)o.m.size() - q;
        if(o.app && dir == EVFS_SEEK_REL) break; if(to < 0) break; if(to > (evfs_off_t)o.m.size() && o.wr) break;
        Fault w(h); int st = a_seek(o.f, q, dir); w.code("seek", st, EVFS_OK);
        if(st < 0) { h.stop(); CHECKV(a_seek(o.f, o.pos, EVFS_SEEK_TO) == EVFS_OK, "host-stuck", "seek fails without a fault"); h.faults_on = true; } else o.pos = to;
        if(o.app && st == EVFS_OK) {} break; }
      case 3: { Fault w(h); evfs_off_t t = a_tell(o.f); if(w.hit()) { CHECKV(t < 0 || t == o.pos, "host-tell", "tell failed on the host and reports %ld", (long)t); } else CHECKV(t == o.pos || o.app, "host-tell", "tell reports %ld, expected %ld", (long)t, (long)o.pos); break; }
      case 4: { Fault w(h); evfs_off_t t = a_size(o.f); if(!w.hit()) CHECKV(t == (evfs_off_t)o.m.size(), "host-size", "size reports %ld, expected %zu", (long)t, o.m.size());
        else CHECKV(t < 0 || t == (evfs_off_t)o.m.size() || (h.fired_kind[H_FFLUSH] && t == (evfs_off_t)h.raw(o.name).size()), "host-size", "the size can't be read from the host and is reported as %ld", (long)t); break; }
      case 5: if(!o.wr || o.app) { do_sync(o); break; } { evfs_off_t q = range(0, (uint32_t)o.m.size()); Fault w(h); int st = a_trunc(o.f, q); w.code("truncate", st, EVFS_OK); if(st == EVFS_OK) { o.m.resize(q); } else { std::string old = o.m; bool was = o.sure; recover(o); if(was) CHECKV(o.m == old, "host-truncate-harm", "a refused truncate changed the file"); }
        if(o.pos > (evfs_off_t)o.m.size()) { h.stop(); a_seek(o.f, o.m.size(), EVFS_SEEK_TO); o.pos = o.m.size(); h.faults_on = true; } break; }
      default: if(choose(2)) do_sync(o); else do_close(k); }
      break; }
    case 2: { if(isopen(p)) break; EvfsInfo x; Fault w(h); int st = a_stat(p, &x, V); w.code("stat", st, isdir || isfile ? EVFS_OK : absent); if(st == EVFS_OK) { CHECKV(isdir || isfile, "host-stat", "stat of a missing file succeeds"); CHECKV(!!(x.type & EVFS_FILE_DIR) == isdir, "host-stat", "stat reports the wrong type"); if(isfile) CHECKV(x.size == (evfs_off_t)files[p].size(), "host-stat", "stat reports size %ld", (long)x.size); } break; }
    case 3: { if(isopen(p) || p == h.cwd) break; bool full = false; if(isdir) { for(auto &f : files) if(parent(f.first) == p) full = true; for(auto &f : dirs) if(f != "/" && parent(f) == p) full = true; }
        Fault w(h); int st = a_delete(p, V); w.code("delete", st, isfile ? EVFS_OK : isdir ? (full ? EVFS_ERR_NOT_EMPTY : EVFS_OK) : absent); if(st == EVFS_OK) { CHECKV((isfile || isdir) && !full, "host-delete", "deleting %s succeeds", p.c_str()); files.erase(p); dirs.erase(p); } break; }
    case 4: { std::string q = oneof(P); if(isdir || dirs.count(q) || isopen(p) || isopen(q) || p == q) break; bool qpar = dirs.count(parent(q));
        Fault w(h); int st = a_rename(p, q, V); w.code("rename", st, isfile ? qpar ? EVFS_OK : files.count(parent(q)) ? EVFS_ERR_NO_PATH : EVFS_ERR_NO_FILE : absent == EVFS_ERR_NO_FILE && par && files.count(parent(q)) ? st : absent);
        if(st == EVFS_OK) { CHECKV(isfile && qpar, "host-rename", "renaming %s to %s succeeds", p.c_str(), q.c_str()); files[q] = files[p]; files.erase(p); } break; }
    case 5: { Fault w(h); int st = a_mkdir(p, V); w.code("make_dir", st, isdir || isfile ? EVFS_ERR_EXISTS : par ? EVFS_OK : absent); if(st == EVFS_OK) { CHECKV(!isdir && !isfile && par, "host-mkdir", "making %s succeeds", p.c_str()); dirs.insert(p); } break; }
    case 6: { EvfsDir *dh; Fault w(h); int st = a_opendir(p, &dh, V); w.code("open_dir", st, isdir ? EVFS_OK : isfile ? EVFS_ERR_NO_PATH : absent); if(st < 0) break;
        std::set<std::string> got, want; std::string pre = p == "/" ? "/" : p + "/"; for(auto &f : files) if(parent(f.first) == p) want.insert(f.first.substr(pre.size())); for(auto &f : dirs) if(f != "/" && parent(f) == p) want.insert(f.substr(pre.size()));
        for(;;) { DirEnt e; Fault w2(h); st = a_dirread(dh, e); w2.code("dir_read", st, st >= 0 ? st : EVFS_OK); if(st != EVFS_OK) { if(st == EVFS_DONE) CHECKV(!h.fired_kind[H_READDIR] || !w2.hit() || got == want, "host-list-short", "a listing that failed on the host is reported as complete with %zu of %zu entries", got.size(), want.size()); break; }
          if(e.name == "." || e.name == "..") continue; CHECKV(want.count(e.name) && got.insert(e.name).second, "host-list", "the listing delivers %s", e.name.c_str()); CHECKV(e.dir == !!dirs.count(pre + e.name), "host-list-type", "the listing reports the wrong type for %s", e.name.c_str()); }
        if(st == EVFS_DONE) CHECKV(got == want, "host-list-short", "a listing delivers %zu of %zu entries", got.size(), want.size());
        a_dirclose(dh); break; }
    case 7: { std::string c; Fault w(h); int st = a_getcwd(c, V); w.code("get_cur_dir", st, EVFS_OK); if(st == EVFS_OK) CHECKV(c == h.cwd, "host-cwd", "the current directory reads back as %s, it is %s", c.c_str(), h.cwd.c_str()); break; }
    default: { std::string old = h.cwd; if(!(p == "/d" || p == "/e" || p == "/a")) p = "/"; Fault w(h); int st = a_chdir(p, V); w.code("set_cur_dir", st, dirs.count(p) ? EVFS_OK : files.count(p) ? EVFS_ERR_NO_PATH : absent); if(st < 0) CHECKV(h.cwd == old, "host-cwd", "a failed directory change moved"); else CHECKV(h.cwd == p, "host-cwd", "a directory change reported as done did not happen"); break; }
    }
  }
  while(os.size()) do_close(choose((uint32_t)os.size()));
  h.stop();
  std::string want; { std::map<std::string, std::string> all; // in the order of dump
    std::function<void(const std::string &)> go = [&](const std::string &d) { std::set<std::string> k; for(auto &f : files) if(parent(f.first) == d) k.insert(f.first); for(auto &f : dirs) if(f != "/" && parent(f) == d) k.insert(f);
      for(auto &x : k) { if(dirs.count(x)) { want += "D " + x + "\n"; go(x); } else want += strf("F %s %zu %llx\n", x.c_str(), files[x].size(), (unsigned long long)fnv(files[x].data(), files[x].size())); } }; go("/"); }
  std::string is = h.dump(); CHECKV(is == want, "host-tree", "the host's files differ from what was reported:\n%s\nexpected\n%s", is.c_str(), want.c_str());
  end_host(h);
  if(h.fired > 2) nontrivial();
}
void c22() { if(choose(2)) host_faults(); else host_same(); }
SCENARIO("C22", c22, 50000000, "a history of calls on the standard-library backend over real host files redirected into a private directory: compared with a twin directory driven by direct system calls, or with host calls made to fail");
}
