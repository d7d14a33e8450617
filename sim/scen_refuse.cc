// C29: calls that can't be carried out - because the filesystem has no such
// operation, because something they need is missing or because nothing is
// registered - are refused with the error that says so, and nothing changes.
#include "env.h"
extern "C" {
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/tar_fs.h"
}
using namespace sim;
namespace {
int quiet(const char *, void *) { return 0; }

// What has to stay as it was, on the filesystem V
struct Watch {
  std::string V, path, data, cwd; EvfsFile *f = nullptr; size_t pos = 0; EvfsDir *d = nullptr; bool has_cwd = true; std::vector<SimFs *> fs;
  std::vector<std::string> dumps;
  void snap() { dumps.clear(); for(auto x : fs) dumps.push_back(x->dump()); }
  void check(const char *what) {
    for(size_t i = 0; i < fs.size(); i++) CHECKV(fs[i]->dump() == dumps[i], "changed", "the refused %s changes the content of %s", what, fs[i]->name.c_str());
    if(f && choose(3) == 0) { evfs_off_t t = a_tell(f); CHECKV((size_t)t == pos, "changed", "after the refused %s the position of an open file is %ld, not %zu", what, (long)t, pos);
      size_t n = range(1, 40); std::string g; ptrdiff_t r = a_read(f, g, n); CHECKV(r >= 0 && g == data.substr(pos, n), "changed", "after the refused %s an open file reads %td bytes, expected %zu", what, r, std::min(n, data.size() - pos)); pos += r;
      if(pos == data.size()) { pos = 0; CHECKV(a_seek(f, 0, EVFS_SEEK_TO) == EVFS_OK, "changed", "an open file can't be positioned after the refused %s", what); } }
    if(has_cwd && choose(4) == 0) { std::string c; int st = a_getcwd(c, V.c_str()); CHECKV(st == EVFS_OK && c == cwd, "changed", "after the refused %s the current directory is '%s' (%d), not '%s'", what, c.c_str(), st, cwd.c_str()); }
  }
};

// every public function with one pointer missing; the rest is as good as can be
void null_call(Watch &w, unsigned k, bool reg) {
  const char *v = choose(3) ? w.V.c_str() : nullptr; if(!v && strcmp(evfs_default_vfs_name(), w.V.c_str())) v = w.V.c_str();
  const char *p = w.path.c_str(); EvfsFile *nf = (EvfsFile *)0x10; EvfsDir *nd = (EvfsDir *)0x10; EvfsInfo info; memset(&info, 0, sizeof info); char buf[300]; memset(buf, 'x', sizeof buf); char keep[300]; memcpy(keep, buf, sizeof keep);
  AppendRange ar; range_init(&ar, buf, sizeof buf); StringRange out = *(StringRange *)&ar, head, tail; range_init(&head, "a", 2); range_init(&tail, "b", 2); Evfs *vfs = evfs_find_vfs(w.V.c_str());
  const long BAD = EVFS_ERR_BAD_ARG; long st = 0, want = BAD; const char *what = "?"; uint64_t a0 = allocs_live();
#define T(n, e) case n: what = #e; st = api(what, [&] { return (long)(e); }); break
  switch(k) {
  T(0, evfs_open_ex(nullptr, &nf, EVFS_READ, v)); T(1, evfs_open_ex(p, nullptr, EVFS_READ, v)); T(2, evfs_stat_ex(nullptr, &info, v)); T(3, evfs_stat_ex(p, nullptr, v));
  T(4, evfs_delete_ex(nullptr, v)); T(5, evfs_rename_ex(nullptr, "/nn", v)); T(6, evfs_rename_ex(p, nullptr, v)); T(7, evfs_make_dir_ex(nullptr, v)); T(8, evfs_make_path_ex(nullptr, v)); T(9, evfs_make_path_range_ex(nullptr, v));
  T(10, evfs_open_dir_ex(nullptr, &nd, v)); T(11, evfs_open_dir_ex("/", nullptr, v)); T(12, evfs_get_cur_dir_ex(nullptr, v)); T(13, evfs_set_cur_dir_ex(nullptr, v));
  T(14, evfs_copy_to_file_ex(nullptr, w.f, nullptr, 100, v)); T(15, evfs_copy_to_file_ex("/nn", nullptr, nullptr, 100, v));
  T(16, evfs_path_dirname_ex(nullptr, &out, v)); T(17, evfs_path_dirname_ex(p, nullptr, v)); T(18, evfs_path_join_ex(nullptr, &tail, &out, v)); T(19, evfs_path_join_ex(&head, nullptr, &out, v)); T(20, evfs_path_join_ex(&head, &tail, nullptr, v));
  T(21, evfs_path_join_str_ex(nullptr, "b", &out, v)); T(22, evfs_path_join_str_ex("a", nullptr, &out, v)); T(23, evfs_path_join_str_ex("a", "b", nullptr, v));
  T(24, evfs_path_normalize_ex(nullptr, &out, v)); T(25, evfs_path_normalize_ex(p, nullptr, v)); T(26, evfs_path_absolute_ex(nullptr, &out, v)); T(27, evfs_path_absolute_ex(p, nullptr, v));
  T(28, evfs_path_basename(nullptr, &out)); T(29, evfs_path_basename(p, nullptr)); T(30, evfs_path_extname(nullptr, &out)); T(31, evfs_path_extname(p, nullptr));
  T(32, evfs_file_close(nullptr)); T(33, evfs_file_read(nullptr, buf, 10)); T(34, evfs_file_read(w.f, nullptr, 10)); T(35, evfs_file_write(nullptr, "x", 1)); T(36, evfs_file_write(w.f, nullptr, 1));
  T(37, evfs_file_truncate(nullptr, 0)); T(38, evfs_file_sync(nullptr)); T(39, evfs_file_size(nullptr)); T(40, evfs_file_seek(nullptr, 0, EVFS_SEEK_TO)); T(41, evfs_file_tell(nullptr)); T(42, evfs_file_ctrl(nullptr, EVFS_CMD_GET_RSRC_ADDR, buf));
  T(43, evfs_dir_close(nullptr)); T(44, evfs_dir_read(nullptr, &info)); T(45, evfs_dir_rewind(nullptr)); T(46, evfs_dir_find(nullptr, "*", &info));
  T(47, evfs_file_printf(nullptr, "%d", 5)); T(48, evfs_file_puts(nullptr, "x")); T(49, evfs_file_puts(w.f, nullptr));
  T(50, evfs_vfs_open(nullptr, p, &nf, EVFS_READ)); T(51, evfs_vfs_open(vfs, nullptr, &nf, EVFS_READ)); T(52, evfs_vfs_open(vfs, p, nullptr, EVFS_READ)); T(53, evfs_vfs_open_dir(nullptr, "/", &nd)); T(54, evfs_vfs_open_dir(vfs, nullptr, &nd)); T(55, evfs_vfs_open_dir(vfs, "/", nullptr));
  T(56, evfs_register(nullptr, choose(2))); T(57, evfs_unregister(nullptr));
  case 58: what = "evfs_find_vfs(nullptr)"; st = api(what, [&] { return evfs_find_vfs(nullptr) ? 1L : BAD; }); break;
  case 59: what = "evfs_vfs_name(nullptr)"; st = api(what, [&] { const char *n = evfs_vfs_name(nullptr); return n && !*n ? BAD : 1L; }); break;
  // these answer a question: no
  T(60, evfs_path_is_absolute_ex(nullptr, v)); T(61, evfs_path_root_component_ex(nullptr, &out, v)); T(62, evfs_path_root_component_ex("/a", nullptr, v)); T(63, evfs_vfs_path_is_absolute(vfs, nullptr)); T(64, evfs_existing_file_ex(nullptr, v)); T(65, evfs_existing_dir_ex(nullptr, v));
  T(66, evfs_register_trace(nullptr, w.V.c_str(), quiet, nullptr, false)); T(67, evfs_register_trace("nn", nullptr, quiet, nullptr, false)); T(68, evfs_register_trace("nn", w.V.c_str(), nullptr, nullptr, false));
  T(69, evfs_register_jail(nullptr, w.V.c_str(), "/", false)); T(70, evfs_register_jail("nn", nullptr, "/", false));
  case 71: case 72: { RotateConfig rc; memset(&rc, 0, sizeof rc); rc.chunk_size = 64; rc.max_chunks = 3; what = "evfs_register_rotate with no name"; st = api(what, [&] { return (long)evfs_register_rotate(k == 71 ? nullptr : "nn", k == 71 ? w.V.c_str() : nullptr, &rc, false); }); break; }
  T(73, evfs_register_tar_fs(nullptr, w.f, false)); T(74, evfs_register_tar_fs("nn", nullptr, false)); T(75, evfs_register_romfs(nullptr, w.f, false)); T(76, evfs_register_romfs("nn", nullptr, false));
  T(77, evfs_register_tar_rsrc_fs(nullptr, (uint8_t *)buf, 10, false)); T(78, evfs_register_tar_rsrc_fs("nn", nullptr, 10, false)); T(79, evfs_register_rsrc_romfs(nullptr, (uint8_t *)buf, 10, false)); T(80, evfs_register_rsrc_romfs("nn", nullptr, 10, false));
  T(81, evfs_register_littlefs("nn", nullptr, false)); T(82, evfs_register_fatfs(nullptr, 1, false));
  // with a listing
  T(83, evfs_dir_read(w.d, nullptr)); T(84, evfs_dir_find(w.d, nullptr, &info)); T(85, evfs_dir_find(w.d, "*", nullptr));
  // shims over a filesystem that isn't there
  T(86, evfs_register_trace("nn", "no such", quiet, nullptr, false)); T(87, evfs_register_jail("nn", "no such", "/", false));
  case 88: { RotateConfig rc; memset(&rc, 0, sizeof rc); rc.chunk_size = 64; rc.max_chunks = 3; what = "evfs_register_rotate over nothing"; st = api(what, [&] { return (long)evfs_register_rotate("nn", "no such", &rc, false); }); break; }
  }
#undef T
  if(k >= 60 && k <= 65) want = 0; if(k >= 86) want = EVFS_ERR_NO_VFS;
  if(k == 54 && st == EVFS_ERR_NO_SUPPORT) want = st;
  CHECKV(st == want, "not-refused", "%s with a null pointer or nothing to work on gives %ld, expected %ld", what, st, want);
  CHECKV(allocs_live() == a0, "leak", "the refused %s leaves memory behind: %s", what, allocs_describe().c_str());
  CHECKV(!memcmp(buf, keep, sizeof buf), "changed", "the refused %s writes to its output", what);
  CHECKV(!evfs_find_vfs("nn"), "changed", "the refused %s registers something", what);
  CHECKV(nf == (EvfsFile *)0x10 || !nf, "changed", "the refused %s hands out a file", what); (void)reg;
  w.check(what);
}
static const unsigned N_NULL = 89;

void null_round(Watch &w, unsigned n) {
  std::string dn = evfs_default_vfs_name();
  for(unsigned i = 0; i < n; i++) { unsigned k = choose(N_NULL); if(k >= 83 && k <= 85 && !w.d) continue; null_call(w, k, false); tag(k); PROBE("null-argument"); }
  CHECKV(dn == evfs_default_vfs_name(), "changed", "refused calls change the default filesystem from '%s' to '%s'", dn.c_str(), evfs_default_vfs_name());
}

// nothing is registered (yet, or any more): there is no filesystem to ask
void no_vfs(const char *name) {
  EvfsFile *f = nullptr; EvfsDir *d = nullptr; EvfsInfo info; char buf[300]; AppendRange ar; range_init(&ar, buf, sizeof buf); StringRange out = *(StringRange *)&ar, h, t; range_init(&h, "a", 2); range_init(&t, "b", 2); long st; std::string pth = "/a/b";
  unsigned k = choose(17);
  st = api("use without a filesystem", [&]() -> long { switch(k) {
    case 0: return evfs_open_ex("/a", &f, EVFS_RDWR | EVFS_OPEN_OR_NEW, name); case 1: return evfs_stat_ex("/a", &info, name); case 2: return evfs_delete_ex("/a", name); case 3: return evfs_rename_ex("/a", "/b", name);
    case 4: return evfs_make_dir_ex("/a", name); case 5: return evfs_make_path_ex(pth.c_str(), name); case 6: return evfs_open_dir_ex("/", &d, name); case 7: return evfs_get_cur_dir_ex(&out, name); case 8: return evfs_set_cur_dir_ex("/", name);
    case 9: return evfs_vfs_ctrl_ex(EVFS_CMD_GET_STAT_FIELDS, buf, name); case 10: return evfs_path_dirname_ex("/a", &out, name); case 11: return evfs_path_join_ex(&h, &t, &out, name); case 12: return evfs_path_join_str_ex("a", "b", &out, name); case 13: return evfs_path_normalize_ex("/a", &out, name); case 14: return evfs_path_absolute_ex("/a", &out, name);
    case 15: return evfs_path_is_absolute_ex("/a", name) ? 0 : EVFS_ERR_NO_VFS; default: { StringRange r; return evfs_path_root_component_ex("/a", &r, name) ? 0 : EVFS_ERR_NO_VFS; } } });
  CHECKV(st == EVFS_ERR_NO_VFS, "not-refused", "call %u with nothing registered gives %ld", k, st);
  CHECKV(allocs_live() == 0, "leak", "a refused call leaves memory behind"); PROBE("nothing-registered");
}

enum { M_DEL, M_REN, M_MKD, M_DIR, M_GET, M_SET, M_CTRL, M_ROOT, M_N };
// a filesystem without some of its operations, bare or under shims
void missing() {
  SimFs o("other"), b("part"); b.sep_both = true; b.put_file("/f", content(3, 0, 300)); b.put_dir("/d"); b.put_file("/d/g", "g"); b.put_dir("/e"); o.put_file("/f", "other");
  unsigned gone = 0; for(unsigned i = 0; i < M_N; i++) if(choose(3)) gone |= 1u << i;
  b.fill(); Evfs &v = b.vfs;
  if(gone >> M_DEL & 1) v.m_delete = nullptr; if(gone >> M_REN & 1) v.m_rename = nullptr; if(gone >> M_MKD & 1) v.m_make_dir = nullptr; if(gone >> M_DIR & 1) v.m_open_dir = nullptr;
  if(gone >> M_GET & 1) v.m_get_cur_dir = nullptr; if(gone >> M_SET & 1) v.m_set_cur_dir = nullptr; if(gone >> M_CTRL & 1) v.m_vfs_ctrl = nullptr; if(gone >> M_ROOT & 1) v.m_path_root_component = nullptr;
  bool first = choose(2); if(!first) o.reg(choose(2));
  bool def = choose(2); CHECKV(api("register", [&] { return evfs_register(&v, def); }) == EVFS_OK, "setup", "registering a filesystem without some operations fails");
  if(first && choose(2)) o.reg(choose(2));
  if(choose(4) == 0) CHECKV(api("register", [&] { return evfs_register(&v, def); }) == EVFS_OK, "setup", "registering it again fails");
  CHECKV(!strcmp(evfs_vfs_name(&v), "part"), "name", "the filesystem's name is '%s'", evfs_vfs_name(&v));
  std::vector<std::string> stack = {"part"}; bool jail = false, trace = false; unsigned ns = choose(3);
  for(unsigned i = 0; i < ns; i++) { std::string n = strf("s%u", i), u = stack.back(); int st;
    if(choose(2)) { st = api("register jail", [&] { return evfs_register_jail(n.c_str(), u.c_str(), "/", false); }); jail = true; } else { st = api("register trace", [&] { return evfs_register_trace(n.c_str(), u.c_str(), quiet, nullptr, false); }); trace = true; }
    CHECKV(st == EVFS_OK, "setup", "registering a shim over it fails (%d)", st); stack.push_back(n); }
  Watch w; w.V = stack.back(); w.path = "/f"; w.data = content(3, 0, 300); w.cwd = "/"; w.fs = {&b, &o}; w.has_cwd = jail || !(gone >> M_GET & 1);
  const char *V = w.V.c_str(); CHECKV(a_open("/f", &w.f, EVFS_READ, V) == EVFS_OK, "setup", "a file can't be opened");
  if(!(gone >> M_DIR & 1) && choose(2)) CHECKV(a_opendir("/", &w.d, V) == EVFS_OK, "setup", "a listing can't be opened");
  w.snap(); unsigned steps = range(4, 30); long st; bool refused = false;
  for(unsigned i = 0; i < steps; i++) {
    unsigned k = choose(M_N + 1); if(k == M_N) { null_round(w, range(1, 4)); continue; }
    bool none = gone >> k & 1; const char *what = "call"; uint64_t a0 = allocs_live();
    switch(k) {
    case M_DEL: what = "delete"; if(none) st = a_delete(oneof<std::string>({"/f", "/d/g", "/e", "/none"}), V); else { b.put_file("/tmp", "x"); st = a_delete("/tmp", V); } break;
    case M_REN: what = "rename"; if(none) st = a_rename(oneof<std::string>({"/f", "/d", "/none"}), "/new", V); else { b.put_file("/tmp", "x"); st = a_rename("/tmp", "/tmp2", V); if(!st) { CHECKV(b.exists("/tmp2"), "lost", "a rename that succeeds does nothing"); b.remove("/tmp2"); } } break;
    case M_MKD: { what = "make_dir"; unsigned how = none ? choose(3) : 0; if(how == 1) { what = "make_path"; st = api("make_path", [&] { return evfs_make_path_ex("/d/new/er", V); }); } else if(how == 2) { what = "make_path"; st = api("make_path", [&] { return evfs_make_path_ex("/d//e/", V); }); if(!b.exists("/d/e")) break; } else { st = a_mkdir("/new", V); if(!st) { CHECKV(b.exists("/new"), "lost", "a directory creation that succeeds does nothing"); b.remove("/new"); } } break; }
    case M_DIR: { what = "open_dir"; EvfsDir *d; st = a_opendir(oneof<std::string>({"/", "/d"}), &d, V); if(!st) a_dirclose(d); if(choose(2) && none) { EvfsDir *x = nullptr; Evfs *t = evfs_find_vfs(V); long s2 = api("open_dir by handle", [&] { return evfs_vfs_open_dir(t, "/", &x); }); CHECKV(s2 == EVFS_ERR_NO_SUPPORT && !x, "not-refused", "opening a directory through the filesystem's handle gives %ld, it has no such operation", s2); } break; }
    case M_GET: { what = "get_cur_dir"; if(jail) none = false; std::string c; st = a_getcwd(c, V); if(!st) CHECKV(c == "/", "changed", "the current directory is '%s'", c.c_str()); break; }
    case M_SET: what = "set_cur_dir"; if(jail) none = false; st = a_chdir(none ? "/d" : "/", V); break;
    case M_CTRL: { what = "vfs_ctrl"; unsigned x = 0; st = a_ctrl(oneof<int>({EVFS_CMD_GET_STAT_FIELDS, EVFS_CMD_GET_DIR_FIELDS}), &x, V); break; }
    default: { what = "path_root_component"; std::string p = oneof<std::string>({"/a", "//a", "a", "", "/", "a/b", "\\a"}); StringRange r; r.start = r.end = nullptr; bool abs = api("path_root_component", [&] { return evfs_path_root_component_ex(p.c_str(), &r, V); }); size_t n = 0; while(n < p.size() && strchr(EVFS_PATH_SEPS, p[n])) n++;
      CHECKV(abs == (n > 0), "root", "'%s' is %sabsolute", p.c_str(), abs ? "" : "not "); if(none) CHECKV(r.start == p.c_str() && (size_t)(r.end - r.start) == n, "root", "the root of '%s' has %td characters, expected %zu", p.c_str(), r.end - r.start, n);
      CHECKV(evfs_path_is_absolute_ex(p.c_str(), V) == (n > 0), "root", "'%s' is reported as %sabsolute", p.c_str(), n ? "not " : "");
      st = none ? EVFS_ERR_NO_SUPPORT : EVFS_OK; } }
    if(k == M_MKD && none && !strcmp(what, "make_path") && b.exists("/d/e")) none = false;
    if(none) { refused = true; CHECKV(st == EVFS_ERR_NO_SUPPORT, "not-refused", "%s on a filesystem that has no such operation gives %ld", what, st); CHECKV(allocs_live() == a0, "leak", "the refused %s leaves memory behind: %s", what, allocs_describe().c_str()); tag(100 + k); PROBE("operation-not-provided"); w.check(what); }
    else CHECKV(st == EVFS_OK, "refused", "%s, which the filesystem provides, reports %ld", what, st);
    w.snap();
  }
  if(refused) nontrivial(); (void)trace;
  a_close(w.f); if(w.d) a_dirclose(w.d);
  for(size_t i = stack.size(); i-- > 0;) { Evfs *x = evfs_find_vfs(stack[i].c_str()); CHECKV(x && api("unregister", [&] { return evfs_unregister(x); }) == EVFS_OK, "unregister", "unregistering %s fails", stack[i].c_str()); }
  b.check_handles("at the end"); if(o.registered) o.unreg();
  no_vfs(choose(2) ? nullptr : "part");
}

// a complete filesystem of every kind
void everywhere() {
  Env e; unsigned bots[] = {E_BASE, E_STDIO, E_FAT, E_LFS, E_TAR, E_TARM, E_ROM, E_ROMM}; int bot = bots[choose(8)];
  std::string data = content(3, 0, 300); e.prepare(bot); e.mount(); e.shims(2, false); const char *V = e.top.c_str();
  Watch w; w.V = e.top; w.path = "/f"; w.data = data; w.cwd = "/"; w.has_cwd = false;
  if(e.ro) { std::vector<std::string> c; for(auto &x : e.t) if(!x.second.dir && !x.second.kind && x.second.data.size()) c.push_back(x.first); if(c.empty()) { e.finish(); return; } w.path = oneof(c); w.data = e.t[w.path].data; }
  if(!e.ro) { EvfsFile *f; CHECKV(a_open("/f", &f, EVFS_WRITE | EVFS_OVERWRITE, V) == EVFS_OK && a_write(f, data) == 300 && a_close(f) == EVFS_OK, "setup", "writing a file fails"); }
  int st = a_open(w.path, &w.f, EVFS_READ, V); CHECKV(st == EVFS_OK, "setup", "a file can't be opened (%d)", st);
  if(e.listing) { st = a_opendir("/", &w.d, V); CHECKV(st == EVFS_OK, "setup", "a listing can't be opened (%d)", st); }
  { std::string c; if(a_getcwd(c, V) == EVFS_OK) { w.has_cwd = true; w.cwd = c; } }
  w.fs = {&e.b}; w.snap(); count_probe(bottom_name(bot)); tag(1000 + bot * 8 + e.names.size());
  unsigned n = range(2, 8);
  for(unsigned i = 0; i < n; i++) {
    null_round(w, range(1, 6));
    // a command nobody knows
    int cmd = oneof<int>({0, 1, 9, 15, 99, EVFS_CMD_USER_DEFINED + 77, -5}); char a[64]; memset(a, 0, sizeof a);
    long s = a_ctrl(cmd, a, V); CHECKV(s < 0, "not-refused", "the unknown command %d is accepted (%ld)", cmd, s); w.check("unknown command");
    s = a_fctrl(w.f, cmd, a); CHECKV(s < 0, "not-refused", "the unknown file command %d is accepted (%ld)", cmd, s); w.check("unknown file command");
  }
  nontrivial();
  if(w.d) a_dirclose(w.d); a_close(w.f); e.finish(); no_vfs(choose(2) ? nullptr : V);
}

// the names of errors and commands tell them apart
void names() {
  std::set<std::string> seen; std::map<int, const char *> known;
#define NM(E, V) known[E] = #E;
  EVFS_ERR_LIST(NM) for(int i = -60; i < 60; i++) { const char *s = evfs_err_name(i); CHECKV(s && (known.count(i) ? !strcmp(s, known[i]) && seen.insert(s).second : !strcmp(s, "<unknown>")), "names", "error %d is called '%s'", i, s ? s : "(null)"); }
  known.clear(); EVFS_CMD_LIST(NM) for(int i = -10; i < 1100; i++) { const char *s = evfs_cmd_name(i); CHECKV(s && (known.count(i) ? !strcmp(s, known[i]) && seen.insert(s).second : !strcmp(s, "<unknown>")), "names", "command %d is called '%s'", i, s ? s : "(null)"); }
}

void refuse() {
  if(choose(4) == 0) { // before initialisation there is nothing
    SimFs x("early"); x.fill(); int st = api("register", [&] { return evfs_register(&x.vfs, choose(2)); }); CHECKV(st == EVFS_ERR_INIT, "not-refused", "registering before evfs_init() gives %d", st); no_vfs(choose(2) ? nullptr : "early"); }
  evfs_init(); names();
  if(choose(3) == 0) no_vfs(choose(2) ? nullptr : "any");
  if(choose(2)) missing(); else everywhere();
  CHECKV(allocs_live() == 0 && locks_live() == 0, "leak", "memory or locks are left at the end: %s", allocs_describe().c_str());
}
} // namespace
SCENARIO("C29", refuse, 60000000, "a run counts when a call was refused on a live filesystem with open handles");
