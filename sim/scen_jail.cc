// C06, C07: the jail shim.
#include "diff.h"
#include "errs.h"
extern "C" {
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_trace.h"
}
using namespace sim;
namespace {

int null_report(const char *, void *) { return 0; }

// Hostile path text: dot-dot chains, mixed and repeated separators, root
// prefixes, over-long and many-segment paths.
std::string hostile(bool drive, unsigned longness) {
  static const char *seg[] = {"a", "b", "f0", "sub", "..", "..", "..", ".", "...", "..x", "secret", "jail", "deep", "..y", "f1"};
  std::string p;
  switch(weighted({8, 5, 1, 1, drive ? 2u : 1u, drive ? 2u : 1u})) {
    case 0: break; case 1: p = "/"; break; case 2: p = "//"; break; case 3: p = "\\"; break; case 4: p = "0:"; break; default: p = chance(1, 2) ? "0:/" : "1:\\/"; }
  unsigned n;
  if(chance(longness, 8)) { // a meaningful path padded to about the limit of the fast path with segments that cancel out
    std::vector<std::string> v; std::string m = oneof<std::string>({"f0", "a/f0", "a/f1", "sub/deep/f0", "a/b/new", "sub/deep", "newd", "..x", "a"});
    size_t i = 0; while(i <= m.size()) { size_t e = m.find('/', i); if(e == std::string::npos) e = m.size(); v.push_back(m.substr(i, e - i)); i = e + 1; }
    size_t want = choose(4) ? range(30, 35) : range(60, 67);
    while(v.size() < want) { size_t at = choose((uint32_t)v.size() + (chance(1, 4) ? 1 : 0)); if(v.size() + 1 == want || choose(2)) v.insert(v.begin() + at, "."); else { std::vector<std::string> pr = {oneof<std::string>({"a", "zz", "sub"}), ".."}; v.insert(v.begin() + at, pr.begin(), pr.end()); } }
    if(p != "" && p != "/") p = "/";
    for(size_t k = 0; k < v.size(); k++) p += (k ? "/" : "") + v[k];
    PROBE("padded_segments");
    return p;
  }
  switch(weighted({12, longness, longness})) {
    case 0: n = range(0, 6); break;
    case 1: n = range(28, 70); break;   // around and beyond the 32 segments of the fast path
    default: n = range(1, 4); }
  bool big = n <= 4 && longness && chance(longness, 16);
  for(unsigned i = 0; i < n; i++) {
    std::string s = seg[choose(15)];
    if(big && chance(1, 2)) s = std::string(range(20, 250), "xyz"[choose(3)]);
    p += s;
    if(i + 1 < n || chance(1, 6)) p += oneof<std::string>({"/", "/", "/", "\\", "//", "/./"});
  }
  return p;
}
void fill(SimFs &b, const std::string &r) {
  b.put_dir(r + "/a/b"); b.put_file(r + "/f0", content(70, 0, 90)); b.put_file(r + "/a/f0", content(71, 0, 33));
  b.put_file(r + "/a/f1", content(72, 0, 400)); b.put_dir(r + "/sub/deep"); b.put_file(r + "/sub/deep/f0", content(73, 0, 5));
  b.put_file(r + "/..x", content(74, 0, 21)); b.put_dir(r + "/...");
}

// ------------------------------------------------------------------ C06
struct JailSpec { std::string root_arg, abs, base_cwd; };
JailSpec draw_jail(bool drive) {
  JailSpec j; j.base_cwd = "/";
  std::string ln(range(1, 200), 'L');
  switch(weighted({4, 3, 2, 2, 2, 1, 1, 2, 1, 1})) {
    case 0: j.root_arg = j.abs = "/jail"; break;
    case 1: j.root_arg = j.abs = "/jail/a"; break;
    case 2: j.root_arg = "jail"; j.abs = "/jail"; break;
    case 3: j.root_arg = "a"; j.abs = "/jail/a"; j.base_cwd = "/jail"; break;
    case 4: j.root_arg = "../jail/"; j.abs = "/jail"; j.base_cwd = "/secret"; break;
    case 5: j.root_arg = "/secret/../jail//a/"; j.abs = "/jail/a"; break;
    case 6: j.root_arg = "\\jail"; j.abs = "/jail"; break;
    case 7: j.root_arg = drive ? "0:/jail" : "/jail/"; j.abs = "/jail"; break;
    case 8: j.root_arg = "/"; j.abs = "/"; break;
    default: j.root_arg = j.abs = "/" + ln; }
  return j;
}
void outside_tree(SimFs &b) {
  b.put_file("/secret/f0", content(80, 0, 50)); b.put_dir("/secret/a"); b.put_file("/f0", content(81, 0, 60)); b.put_file("/jail2/f0", content(82, 0, 10));
  b.put_dir("/jailx"); b.put_file("/jai", content(83, 0, 11)); b.put_file("/a/f0", content(84, 0, 12)); b.put_dir("/sub/deep"); b.put_dir("/b");
}
std::string outside_dump(SimFs &b, const std::string &root) {
  std::string d = b.dump(), o; size_t i = 0;
  while(i < d.size()) {
    size_t e = d.find('\n', i); std::string l = d.substr(i, e - i), p = l.substr(2); i = e + 1;
    if(l[0] == 'F') p = p.substr(0, p.find(' '));
    if(p == root || p.compare(0, root.size() + 1, root + "/") == 0 || root == "/") continue;
    o += l + "\n";
  }
  return o;
}
void c06() {
  SimFs b("base"); b.sep_both = chance(1, 2); b.drive = chance(1, 3); b.dots = chance(1, 2); b.lifo = chance(1, 2);
  evfs_init(); b.reg(true);
  outside_tree(b);
  JailSpec j = draw_jail(b.drive);
  if(j.root_arg.find('\\') != std::string::npos) {}
  fill(b, "/jail"); if(j.abs != "/") fill(b, j.abs);
  b.cwd = j.base_cwd;
  bool traced = chance(1, 4);
  const char *under = "base";
  if(traced) { evfs_register_trace("tr", "base", null_report, nullptr, false); under = "tr"; }
  int st = api("register_jail", [&] { return evfs_register_jail("j", under, j.root_arg.c_str(), chance(1, 2)); });
  CHECKV(st == EVFS_OK, "register", "registering a jail at %s failed with %d", j.root_arg.c_str(), st);
  const char *V = "j"; std::string root = j.abs;
  if(chance(1, 3)) { // a jail inside the jail
    std::string in = oneof<std::string>({"/a", "sub", "a/b/", "/sub/deep/../../a"}), rel = in == "sub" ? "/sub" : in == "a/b/" ? "/a/b" : "/a";
    if(chance(1, 3)) { a_chdir("/sub", "j"); if(in == "sub") { rel = "/sub/sub"; b.put_dir((root == "/" ? "" : root) + rel); } if(in == "a/b/") { rel = "/sub/a/b"; b.put_dir((root == "/" ? "" : root) + rel); } }
    st = api("register_jail", [&] { return evfs_register_jail("k", "j", in.c_str(), false); });
    CHECKV(st == EVFS_OK, "register", "registering a nested jail failed with %d", st);
    V = "k"; root = (root == "/" ? "" : root) + rel; fill(b, root); PROBE("nested_jail");
  }
  if(root != "/") nontrivial();
  if(chance(1, 2)) { for(int k : {OP_STAT, OP_OPEN, OP_OPENDIR, OP_MKDIR, OP_RENAME, OP_DELETE, OP_DIRREAD, OP_READ, OP_WRITE}) if(chance(1, 2)) b.faults.mean[k] = range(3, 12); b.arm(); }
  bool oom = chance(1, 3);
  b.record_paths = true;
  std::string before = outside_dump(b, root);
  std::vector<EvfsFile *> fs;
  unsigned nops = range(6, g_cfg.thorough ? 120 : 50), dotdot = 0;
  for(unsigned i = 0; i < nops; i++) {
    std::string p = hostile(b.drive, 2), q; EvfsFile *fh; EvfsDir *dh; EvfsInfo inf;
    if(p.find("..") != std::string::npos) dotdot++;
    if(oom && chance(1, 4)) alloc_fault_next(range(1, 3), 1);
    switch(choose(9)) {
    case 0: st = a_open(p, &fh, Diff().flags[choose(10)], V);
            if(st == EVFS_OK) { fs.push_back(fh); std::string g; if(chance(1, 2)) a_write(fh, content(7, 0, range(1, 40))); a_seek(fh, 0, EVFS_SEEK_TO); a_read(fh, g, 64); } break;
    case 1: a_stat(p, &inf, V); break;
    case 2: a_delete(p, V); break;
    case 3: q = hostile(b.drive, 2); a_rename(p, q, V); break;
    case 4: a_mkdir(p, V); break;
    case 5: st = a_opendir(p, &dh, V); if(st == EVFS_OK) { DirEnt e; for(int k = 0; k < 3 && a_dirread(dh, e) == EVFS_OK; k++) {} a_dirclose(dh); } break;
    case 6: case 7: a_chdir(p, V); { std::string c; a_getcwd(c, V); } break;
    default: if(fs.size()) { a_close(fs.back()); fs.pop_back(); } else { std::string w = p; StringRange r; range_init(&r, &w[0], w.size() + 1); api("make_path", [&] { return evfs_make_path_ex(p.c_str(), V); }); }
             if(chance(1, 3)) { b.cwd = oneof<std::string>({"/", "/secret", "/jail", "/a"}); } // the base's own current directory moves
    }
    alloc_faults_off();
    for(auto &x : b.paths)
      CHECKV(root == "/" || x == root || x.compare(0, root.size() + 1, root + "/") == 0, "escape", "operation %u with path %s reached %s outside the jail root %s", i, p.substr(0, 120).c_str(), x.substr(0, 120).c_str(), root.substr(0, 60).c_str());
    b.paths.clear();
  }
  for(auto f : fs) a_close(f);
  CHECKV(outside_dump(b, root) == before, "outside-changed", "something outside the jail root %s was changed", root.c_str());
  if(dotdot) PROBE("parent_references");
  b.check_handles("at the end");
}
SCENARIO("C06", c06, 50000000, "a run with a jail root below the base root and paths that try to leave it; distinct = distinct event log");

// ------------------------------------------------------------------ C07
void c07() {
  SimFs b("base"), ref("ref"), ref2("ref2");
  b.sep_both = chance(1, 2); b.drive = chance(1, 4);
  for(SimFs *f : {&ref, &ref2}) { f->sep_both = true; f->drive = b.drive; }
  b.dots = ref.dots = ref2.dots = chance(1, 2); b.lifo = ref.lifo = ref2.lifo = chance(1, 2);
  evfs_init(); b.reg(true); ref.reg(false); ref2.reg(false);
  outside_tree(b);
  JailSpec j = draw_jail(b.drive);
  if(j.abs == "/") j.abs = j.root_arg = "/jail";
  std::string r2 = "/other";
  fill(b, j.abs); fill(b, r2); fill(ref, ""); fill(ref2, "");
  // the content of a jail root inside /jail is exactly what fill() put there
  b.cwd = j.base_cwd; b.put_dir(j.base_cwd);
  CHECKV(api("register_jail", [&] { return evfs_register_jail("j", "base", j.root_arg.c_str(), false); }) == EVFS_OK, "register", "registering a jail at %s failed", j.root_arg.c_str());
  bool nested = chance(1, 4); const char *V1 = "j"; std::string top = j.abs;
  if(nested) {
    top = j.abs + "/nest"; b.put_dir(top); fill(b, top);
    CHECKV(api("register_jail", [&] { return evfs_register_jail("jn", "j", "/nest", false); }) == EVFS_OK, "register", "registering a nested jail failed");
    V1 = "jn"; PROBE("nested_jail");
  }
  CHECKV(api("register_jail", [&] { return evfs_register_jail("j2", "base", r2.c_str(), false); }) == EVFS_OK, "register", "registering a second jail failed");
  auto setup = [&](Diff &d, const std::string &root, SimFs &rf) {
    SimFs *rp = &rf;
    d.path = [&b] { std::string p = hostile(b.drive, 1); return p.empty() ? std::string(".") : p; };
    d.norm_cwd = [](const std::string &s) { return s.size() > 1 && s[1] == ':' ? s.substr(2) : s; };
    d.key = [rp](const std::string &p) { return rp->resolve(p); };
    d.allow = [](const char *, const std::string &p, const std::string &q) { return !p.empty(); };
    d.same = [](const char *w, long x, long y) { return x == y || (y == EVFS_ERR_AUTH && x < 0 && !strcmp(w, "delete")); }; // the root itself: any refusal
    size_t rl = root.size();
    d.a_may_refuse = [rl, rp](const char *, const std::string &p, long st) {
      if(st != EVFS_ERR_OVERFLOW) return false;
      bool ok = rl + 8 + rp->cwd.size() + 4 + p.size() >= EVFS_MAX_PATH || (p.size() + 8 + rl >= EVFS_MAX_PATH);
      CHECKV(ok, "short-path-refused", "a path of %zu characters below a root of %zu was refused as too long", p.size(), rl);
      PROBE("overlong_refused"); return true;
    };
  };
  Diff d1{V1, "ref"}, d2{"j2", "ref2"};
  setup(d1, top, ref); setup(d2, r2, ref2);
  // operations on the root itself: any refusal is fine, but it must be a refusal
  auto rootish = [](SimFs *rp) { return [rp](const char *w, const std::string &p, const std::string &q) {
    if(p.empty() || (q.empty() && !strcmp(w, "rename"))) return false;
    if(!strcmp(w, "rename") && (rp->resolve(p) == "/" || rp->resolve(q) == "/")) return false;
    return true; }; };
  d1.allow = rootish(&ref); d2.allow = rootish(&ref2);
  std::string c0; CHECKV(a_getcwd(c0, V1) == EVFS_OK && c0 == "/", "start-dir", "the current directory of a new jail is %s", c0.c_str());
  unsigned nops = range(8, g_cfg.thorough ? 160 : 60);
  for(unsigned i = 0; i < nops; i++) {
    std::string bc = b.cwd;
    if(chance(1, 4)) d2.step(); else d1.step();
    CHECKV(b.cwd == bc, "base-cwd", "an operation in a jail changed the current directory of the base filesystem");
    if(chance(1, 6)) { // a failing directory change
      std::string c1, c2; a_getcwd(c1, V1);
      b.faults.mean[OP_STAT] = 1; b.arm(); b.next_fault[OP_STAT] = 1; int st = a_chdir(hostile(b.drive, 1), V1); b.faults_stop();
      CHECKV(st != EVFS_OK, "chdir-hidden-error", "a directory change succeeded although the base filesystem failed");
      a_getcwd(c2, V1); CHECKV(c1 == c2, "chdir-failed-moved", "a failed directory change moved the current directory from %s to %s", c1.c_str(), c2.c_str());
    }
    if(chance(1, 12)) b.cwd = oneof<std::string>({"/", "/secret", "/a"});
  }
  if(d1.mutations) nontrivial();
  d1.close_all(); d2.close_all();
  auto sub = [&](const std::string &root) { std::string d = b.dump(), o; size_t i = 0;
    while(i < d.size()) { size_t e = d.find('\n', i); std::string l = d.substr(i, e - i); i = e + 1; if(l.compare(2, root.size() + 1, root + "/") == 0) o += l.substr(0, 2) + l.substr(2 + root.size()) + "\n"; }
    return o; };
  CHECKV(sub(top) == ref.dump(), "tree-differs", "the jail's tree differs from the standalone filesystem's:\n%s--- expected\n%s", sub(top).c_str(), ref.dump().c_str());
  CHECKV(sub(r2) == ref2.dump(), "tree-differs", "the second jail's tree differs");
  if(choose(3) == 0) { // failures below are not hidden
    b.put_file(top + "/errs.f", content(1, 0, 100)); b.put_dir(top + "/errs"); a_chdir("/", V1); errors_reported(b, V1, "/errs.f", choose(2) ? "/errs" : "errs", range(2, 12)); }
  if(choose(4) == 0) { // an empty jail's root stays
    a_chdir("/", V1); NodeP rn = b.find(top); rn->kids.clear();
    std::string p = oneof<std::string>({"/", ".", "..", "//", "/..", "./", "a/..", "/./..", "../.."}); int st = a_delete(p, V1);
    CHECKV(st < 0, "root-deleted", "deleting %s in an empty jail reports success", p.c_str()); NodeP r1 = b.find(top); CHECKV(r1 && r1->dir, "root-deleted", "deleting %s in an empty jail (%d) removed its root", p.c_str(), st); PROBE("delete_empty_root");
    st = a_rename(p, oneof<std::string>({"/x", "x", "/x/y"}), V1); r1 = b.find(top); CHECKV(st < 0 && r1 && r1->dir, "root-renamed", "renaming %s in a jail to something inside it returns %d", p.c_str(), st); }
  b.check_handles("at the end");
}
SCENARIO("C07", c07, 50000000, "a run that changed something through a jail; distinct = distinct event log");
} // namespace
