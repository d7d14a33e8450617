// C08: the trace shim is transparent.
#include "diff.h"
extern "C" {
#include "evfs/shim/shim_trace.h"
#include "evfs/shim/shim_jail.h"
#include "evfs/shim/shim_rotate.h"
}
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
using namespace sim;
namespace {

// ---- a recording pass-through between the trace shim and its base
struct Rec { std::string op, args; long ret; };
std::vector<Rec> g_rec; uint64_t g_data;
Evfs g_spy, *g_under;
struct SpyF { EvfsFile base; EvfsFile *u; };
struct SpyD { EvfsDir base; EvfsDir *u; };
EvfsFile *U(EvfsFile *f) { return ((SpyF *)f)->u; }
EvfsDir *U(EvfsDir *f) { return ((SpyD *)f)->u; }
template<class T> T rec(const char *op, const std::string &a, T r) { g_rec.push_back({op, a, (long)r}); return r; }
uint64_t H(const void *p, long n) { return n > 0 ? fnv(p, (size_t)n) : 0; }
std::string info_s(int st, EvfsInfo *i) { return st == EVFS_OK ? strf("%s %ld %ld %d", i->name ? i->name : "-", (long)i->size, (long)i->mtime, i->type) : std::string("-"); }
int f_ctrl(EvfsFile *f, int c, void *a) { return rec("m_ctrl", strf("%d %p", c, a), U(f)->methods->m_ctrl(U(f), c, a)); }
int f_close(EvfsFile *f) { int r = U(f)->methods->m_close(U(f)); if(r == EVFS_OK) f->methods = nullptr; return rec("m_close", "", r); }
ptrdiff_t f_read(EvfsFile *f, void *b, size_t n) { ptrdiff_t r = U(f)->methods->m_read(U(f), b, n); g_data = H(b, r); return rec("m_read", strf("%zu", n), r); }
ptrdiff_t f_write(EvfsFile *f, const void *b, size_t n) { return rec("m_write", strf("%zu %llx", n, (unsigned long long)fnv(b, n)), U(f)->methods->m_write(U(f), b, n)); }
int f_trunc(EvfsFile *f, evfs_off_t n) { return rec("m_truncate", strf("%ld", (long)n), U(f)->methods->m_truncate(U(f), n)); }
int f_sync(EvfsFile *f) { return rec("m_sync", "", U(f)->methods->m_sync(U(f))); }
evfs_off_t f_size(EvfsFile *f) { return rec("m_size", "", U(f)->methods->m_size(U(f))); }
int f_seek(EvfsFile *f, evfs_off_t o, EvfsSeekDir d) { return rec("m_seek", strf("%ld %d", (long)o, (int)d), U(f)->methods->m_seek(U(f), o, d)); }
evfs_off_t f_tell(EvfsFile *f) { return rec("m_tell", "", U(f)->methods->m_tell(U(f))); }
bool f_eof(EvfsFile *f) { return rec("m_eof", "", U(f)->methods->m_eof(U(f))); }
const EvfsFileMethods spy_fm = {f_ctrl, f_close, f_read, f_write, f_trunc, f_sync, f_size, f_seek, f_tell, f_eof};
int d_close(EvfsDir *d) { int r = U(d)->methods->m_close(U(d)); if(r == EVFS_OK) d->methods = nullptr; return rec("m_dir_close", "", r); }
int d_read(EvfsDir *d, EvfsInfo *i) { int r = U(d)->methods->m_read(U(d), i); return rec("m_dir_read", info_s(r, i), r); }
int d_rewind(EvfsDir *d) { return rec("m_dir_rewind", "", U(d)->methods->m_rewind(U(d))); }
const EvfsDirMethods spy_dm = {d_close, d_read, d_rewind};
int v_open(Evfs *, const char *p, EvfsFile *f, int fl) { SpyF *s = (SpyF *)f; s->u = (EvfsFile *)(s + 1); int r = g_under->m_open(g_under, p, s->u, fl); f->methods = r == EVFS_OK ? &spy_fm : nullptr; return rec("m_open", strf("%s %x", p, fl), r); }
int v_stat(Evfs *, const char *p, EvfsInfo *i) { int r = g_under->m_stat(g_under, p, i); return rec("m_stat", std::string(p) + " " + info_s(r, i), r); }
int v_del(Evfs *, const char *p) { return rec("m_delete", p, g_under->m_delete(g_under, p)); }
int v_ren(Evfs *, const char *a, const char *b) { return rec("m_rename", std::string(a) + " > " + b, g_under->m_rename(g_under, a, b)); }
int v_mkd(Evfs *, const char *p) { return rec("m_make_dir", p, g_under->m_make_dir(g_under, p)); }
int v_opd(Evfs *, const char *p, EvfsDir *d) { SpyD *s = (SpyD *)d; s->u = (EvfsDir *)(s + 1); int r = g_under->m_open_dir(g_under, p, s->u); d->methods = r == EVFS_OK ? &spy_dm : nullptr; return rec("m_open_dir", p, r); }
int v_gcd(Evfs *, StringRange *c) { return rec("m_get_cur_dir", strf("%zu", (size_t)range_size(c)), g_under->m_get_cur_dir(g_under, c)); }
int v_scd(Evfs *, const char *p) { return rec("m_set_cur_dir", p, g_under->m_set_cur_dir(g_under, p)); }
int v_ctl(Evfs *, int c, void *a) { if(c == EVFS_CMD_UNREGISTER) return EVFS_OK; return rec("m_vfs_ctrl", strf("%d %p", c, a), g_under->m_vfs_ctrl(g_under, c, a)); }
bool v_prc(Evfs *, const char *p, StringRange *r) { return rec("m_path_root_component", p, g_under->m_path_root_component(g_under, p, r)); }
void reg_spy(SimFs &b) {
  g_under = &b.vfs; memset(&g_spy, 0, sizeof g_spy);
  g_spy.vfs_name = "spy"; g_spy.vfs_file_size = sizeof(SpyF) + b.vfs.vfs_file_size; g_spy.vfs_dir_size = sizeof(SpyD) + b.vfs.vfs_dir_size;
  g_spy.m_open = v_open; g_spy.m_stat = v_stat; g_spy.m_delete = v_del; g_spy.m_rename = v_ren; g_spy.m_make_dir = v_mkd; g_spy.m_open_dir = v_opd;
  g_spy.m_get_cur_dir = v_gcd; g_spy.m_set_cur_dir = v_scd; g_spy.m_vfs_ctrl = v_ctl; g_spy.m_path_root_component = v_prc;
  CHECKV(evfs_register(&g_spy, false) == EVFS_OK, "register", "registering the recorder failed");
}

std::string g_rep; int g_ctx_ok = 1, g_marker;
int report(const char *buf, void *ctx) { if(ctx != &g_marker) g_ctx_ok = 0; g_rep += buf; return choose(3) == 0 ? -1 : 0; }
std::set<std::string> words(const std::string &t) { // the words and numbers of a report, without colour codes
  std::set<std::string> w; std::string c;
  for(size_t i = 0; i <= t.size(); i++) {
    if(i < t.size() && t[i] == 27) { while(i < t.size() && t[i] != 'm') i++; if(c.size()) w.insert(c); c.clear(); continue; }
    if(i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_' || t[i] == '-')) c += t[i]; else { if(c.size()) w.insert(c); c.clear(); } }
  return w;
}
int report_quiet(const char *, void *) { return 0; }

std::string rpath() {
  static const char *p[] = {"/f0", "f0", "/d1/f1", "d1/f1", "/d1", "/d1/sub", "/nope/x", "/new", "/d1/sub/../f1", "", "/", ".", "/d1/f2", "//d1//sub/g", "d1\\f1", "0:/f0", "/d1/"};
  std::string s = p[choose(17)];
  if(chance(1, 12)) s += std::string(range(20, 300), 'q');
  if(chance(1, 12)) s = "/d1/%s%n%d" + s;
  return s;
}

void direct() { // exact one-to-one correspondence, with base and memory failures
  SimFs b("base"); b.sep_both = chance(1, 2); b.drive = chance(1, 3); b.dots = chance(1, 2);
  b.reg(true); reg_spy(b);
  b.put_file("/f0", content(90, 0, 170)); b.put_file("/d1/f1", content(91, 0, 900)); b.put_dir("/d1/sub"); b.put_file("/d1/sub/g", "");
  CHECKV(api("register_trace", [&] { return evfs_register_trace("tr", "spy", report, &g_marker, chance(1, 2)); }) == EVFS_OK, "register", "registering the trace shim failed");
  const char *V = "tr"; int layers = 1;
  if(chance(1, 4)) { CHECKV(evfs_register_trace("tr2", "tr", report, &g_marker, false) == EVFS_OK, "register", "stacked trace"); V = "tr2"; layers = 2; PROBE("stacked_traces"); }
  if(chance(2, 3)) { for(int k = 0; k < OP_NKINDS; k++) if(chance(1, 2)) b.faults.mean[k] = range(2, 10); b.arm(); }
  bool oom = chance(1, 3);
  std::vector<EvfsFile *> fs; std::vector<EvfsDir *> ds; bool oomed = false;
  uint64_t off = 0;
  std::vector<std::string> nums, names; std::map<void *, std::string> fname; // what the next report has to mention
  auto bn = [](const std::string &p) { return p.substr(p.find_last_of("/\\") + 1).substr(0, 30); };
  auto one = [&](const char *op, const std::string &args, long ret, bool handle = false) {
    uint64_t af = alloc_faults_fired(); (void)af;
    if(handle && ret == EVFS_ERR_ALLOC && g_rec.empty() && oomed) return;
    CHECKV(g_rec.size() == 1, "call-count", "%s through the trace shim made %zu calls of the traced filesystem", op, g_rec.size());
    CHECKV(g_rec[0].op == op, "wrong-call", "%s through the trace shim reached the traced filesystem as %s", op, g_rec[0].op.c_str());
    CHECKV(g_rec[0].args == args, "wrong-args", "%s reached the traced filesystem with %s, the caller's were %s", op, g_rec[0].args.c_str(), args.c_str());
    CHECKV(g_rec[0].ret == ret, "wrong-result", "%s returned %ld, the traced filesystem returned %ld", op, ret, g_rec[0].ret);
    if(!oomed) CHECKV(g_rep.find(op) != std::string::npos, "trace-silent", "the trace output of %s does not name the operation: %s", op, g_rep.c_str());
    if(!oomed) CHECKV(g_rep.find("tr") != std::string::npos, "trace-silent", "no trace output for %s", op);
    if(!oomed) { // what was asked and what came of it
      std::string o = op, n = strf("%ld", ret), want = n, alt = n; auto all = words(g_rep);
      bool count = o == "m_read" || o == "m_write" || o == "m_tell" || o == "m_size";
      if(o == "m_eof") { want = ret ? "T" : "f"; alt = ret ? "true" : "false"; }
      else if(o == "m_path_root_component") { want = ret ? "absolute" : "relative"; alt = want; }
      else if(!count || ret < 0) want = evfs_err_name((int)ret);
      size_t ar = g_rep.rfind("->"); auto rw = words(ar == std::string::npos ? g_rep : g_rep.substr(ar + 2));
      CHECKV(rw.count(want) || rw.count(alt), "trace-result", "%s returned %s, the trace output was: %s", op, want.c_str(), g_rep.c_str());
      for(auto &a : nums) CHECKV(all.count(a), "trace-argument", "%s was made with %s, the trace output was: %s", op, a.c_str(), g_rep.c_str());
      for(auto &a : names) CHECKV(g_rep.find(a) != std::string::npos, "trace-name", "%s was made on %s, the trace output was: %s", op, a.c_str(), g_rep.c_str());
    }
    nums.clear(); names.clear();
    if(!oomed && ret < 0 && strcmp(op, "m_tell") && strcmp(op, "m_size")) { nontrivial(); }
  };
  unsigned nops = range(8, g_cfg.thorough ? 150 : 70);
  for(unsigned i = 0; i < nops; i++) {
    g_rec.clear(); g_rep.clear();
    std::string p = rpath(), q; EvfsFile *fh; EvfsDir *dh; EvfsInfo inf; long r; int fl;
    oomed = oom && chance(1, 4); if(oomed) alloc_fault_next(range(1, 4), 1 + choose(2));
    nums.clear(); names.clear();
    EvfsFile *f = fs.size() ? fs[choose((uint32_t)fs.size())] : nullptr;
    switch(ds.size() && chance(1, 4) ? 10 : f ? choose(22) : choose(11)) {
    case 0: case 1: case 2: fl = Diff().flags[choose(10)]; r = a_open(p, &fh, fl, V); names = {bn(p)}; one("m_open", strf("%s %x", p.c_str(), fl), r, true); if(r == EVFS_OK) { fs.push_back(fh); fname[fh] = bn(p); } break;
    case 3: memset(&inf, 0x5A, sizeof inf); r = a_stat(p, &inf, V); names = {p}; one("m_stat", p + " " + (r == EVFS_OK ? info_s(0, &inf) : "-"), r); break;
    case 4: r = a_delete(p, V); names = {p}; one("m_delete", p, r); break;
    case 5: q = rpath(); r = a_rename(p, q, V); names = {p, q}; one("m_rename", p + " > " + q, r); break;
    case 6: r = a_mkdir(p, V); names = {p}; one("m_make_dir", p, r); break;
    case 7: r = a_opendir(p, &dh, V); names = {p.substr(0, 30)}; one("m_open_dir", p, r, true); if(r == EVFS_OK) { if(ds.size() < 3) ds.push_back(dh); else a_dirclose(dh); } break;
    case 8: r = a_chdir(p, V); names = {p}; one("m_set_cur_dir", p, r); break;
    case 9: { char buf[300]; memset(buf, 0x77, sizeof buf); StringRange sr; size_t n = choose(2) ? EVFS_MAX_PATH : range(0, 12); sr.start = buf; sr.end = buf + n;
              r = api("getcwd", [&] { return evfs_get_cur_dir_ex(&sr, V); }); one("m_get_cur_dir", strf("%zu", n), r); CHECKV(buf[n] == 0x77, "getcwd-overrun", "written past the range"); if(r == EVFS_OK) CHECKV(!strcmp(buf, ((b.drive ? "0:" : "") + b.cwd).c_str()), "wrong-result", "other current directory"); break; }
    case 10: if(ds.size() ? chance(1, 4) : choose(2)) { int x = 5; int c = oneof<int>({EVFS_CMD_USER_DEFINED + 5, EVFS_CMD_GET_STAT_FIELDS, EVFS_CMD_GET_DIR_FIELDS, EVFS_CMD_SET_READONLY, 777}); r = a_ctrl(c, &x, V); if(evfs_cmd_name(c)[0] == '<') nums = {strf("%d", c)}; else names = {evfs_cmd_name(c)}; one("m_vfs_ctrl", strf("%d %p", c, (void *)&x), r); if(c == EVFS_CMD_USER_DEFINED + 5 && r == EVFS_DONE) CHECKV(x == 22, "wrong-result", "control result not delivered"); }
             else if(ds.size()) { size_t k = choose((uint32_t)ds.size()); dh = ds[k];
               switch(choose(4)) { case 0: case 1: memset(&inf, 0, sizeof inf); r = api("dir_read", [&] { return evfs_dir_read(dh, &inf); }); one("m_dir_read", r == EVFS_OK ? info_s(0, &inf) : "-", r); break;
                 case 2: r = a_rewind(dh); one("m_dir_rewind", "", r); break;
                 default: r = a_dirclose(dh); one("m_dir_close", "", r); ds.erase(ds.begin() + k); } }
             else { StringRange sr; bool t = evfs_path_root_component_ex(p.c_str(), &sr, V); one("m_path_root_component", p, t); }
             break;
    case 11: case 12: case 13: { std::string g; size_t n = range(0, 500); g_data = 0; r = a_read(f, g, n); nums = {strf("%zu", n)}; names = {fname[f]}; one("m_read", strf("%zu", n), r); if(r > 0) CHECKV(fnv(g.data(), g.size()) == g_data, "wrong-result", "read delivered other bytes than the traced filesystem"); break; }
    case 14: case 15: { std::string s = content(6, off, range(0, 200)); off += s.size(); r = a_write(f, s); nums = {strf("%zu", s.size())}; names = {fname[f]}; one("m_write", strf("%zu %llx", s.size(), (unsigned long long)fnv(s.data(), s.size())), r); break; }
    case 16: { evfs_off_t o = (evfs_off_t)range(0, 900) - 200; EvfsSeekDir d = (EvfsSeekDir)(1 + choose(3)); r = a_seek(f, o, d); nums = {strf("%ld", (long)o)}; names = {fname[f], d == EVFS_SEEK_TO ? "SEEK_TO" : d == EVFS_SEEK_REL ? "SEEK_REL" : "SEEK_REV"}; one("m_seek", strf("%ld %d", (long)o, (int)d), r); break; }
    case 17: { evfs_off_t o = range(0, 900); r = a_trunc(f, o); nums = {strf("%ld", (long)o)}; names = {fname[f]}; one("m_truncate", strf("%ld", (long)o), r); break; }
    case 18: r = a_sync(f); one("m_sync", "", r); break;
    case 19: if(choose(2)) { r = a_tell(f); one("m_tell", "", r); } else { r = a_eof(f); one("m_eof", "", r); } break;
    case 20: { int x = 0; int c = chance(1, 4) ? EVFS_CMD_SET_READONLY : EVFS_CMD_USER_DEFINED + (int)choose(5); if(choose(2)) { r = a_fctrl(f, c, &x); if(evfs_cmd_name(c)[0] == '<') nums = {strf("%d", c)}; else names = {evfs_cmd_name(c)}; one("m_ctrl", strf("%d %p", c, (void *)&x), r); break; }
               r = a_size(f); bool unsynced = g_rec.size() && g_rec[0].ret < 0 && g_rec[0].ret != EVFS_ERR_NO_SUPPORT; CHECKV(g_rec.size() == (unsynced ? 1 : 2) && g_rec[0].op == "m_sync" && (unsynced || g_rec[1].op == "m_size"), "call-count", "size made other calls than sync and size"); CHECKV(r == g_rec.back().ret, "wrong-result", "size returned %ld, the traced filesystem %ld", r, g_rec.back().ret);
               if(!oomed && !unsynced) { auto w = words(g_rep); CHECKV(g_rep.find("m_size") != std::string::npos && (w.count(strf("%ld", r)) || (r < 0 && w.count(evfs_err_name((int)r)))), "trace-result", "size returned %ld, the trace output was: %s", r, g_rep.c_str()); }
               break; }
    default: r = a_close(f); names = {fname[f]}; one("m_close", "", r); for(size_t k = 0; k < fs.size(); k++) if(fs[k] == f) { fs.erase(fs.begin() + k); break; } }
    alloc_faults_off();
    CHECKV(g_ctx_ok, "report-context", "the report function was called with another context");
  }
  (void)layers;
  for(auto f : fs) a_close(f);
  for(auto d : ds) a_dirclose(d);
  b.check_handles("at the end");
}

void stacks() { // the same shim stack with and without traces in it
  SimFs b("base"), ref("ref");
  b.sep_both = ref.sep_both = chance(1, 2); b.drive = ref.drive = chance(1, 3); b.dots = ref.dots = chance(1, 2);
  b.reg(true); ref.reg(false);
  for(SimFs *f : {&b, &ref}) { f->put_file("/j/f0", content(90, 0, 170)); f->put_file("/j/d1/f1", content(91, 0, 900)); f->put_dir("/j/d1/sub"); f->put_file("/j/d1/sub/g", ""); }
  auto tr = [&](const char *n, const char *o) { CHECKV(evfs_register_trace(n, o, report_quiet, nullptr, false) == EVFS_OK, "register", "registering a trace shim failed"); };
  std::string A = "base", B = "ref"; int k = 0;
  auto maybe = [&] { if(chance(1, 2)) { std::string n = strf("t%d", k++); static std::vector<std::string> keep; tr(n.c_str(), A.c_str()); A = n; } };
  maybe();
  bool jail = chance(1, 2), rot = chance(1, 2);
  if(jail) { CHECKV(evfs_register_jail("ja", A.c_str(), "/j", false) == EVFS_OK && evfs_register_jail("jb", B.c_str(), "/j", false) == EVFS_OK, "register", "jail"); A = "ja"; B = "jb"; maybe(); }
  if(rot) { RotateConfig c; memset(&c, 0, sizeof c); c.chunk_size = 40; c.max_chunks = 3;
    CHECKV(evfs_register_rotate("ra", A.c_str(), &c, false) == EVFS_OK && evfs_register_rotate("rb", B.c_str(), &c, false) == EVFS_OK, "register", "rotate"); A = "ra"; B = "rb"; maybe(); }
  if(k == 0) { tr("t9", A.c_str()); A = "t9"; }
  Diff d{A.c_str(), B.c_str()};
  d.path = [&] { std::string s = rpath(); if(!jail) s = "/j/" + s; return s; };
  d.key = [&](const std::string &p) { return ref.resolve(p); };
  d.allow = [](const char *, const std::string &p, const std::string &) { return !p.empty(); };
  d.mtimes = true; d.one_writer = rot;
  unsigned nops = range(8, g_cfg.thorough ? 120 : 50);
  for(unsigned i = 0; i < nops; i++) d.step();
  d.close_all();
  if(d.mutations) nontrivial();
  CHECKV(b.dump() == ref.dump(), "tree-differs", "the traced stack left a different tree:\n%s--- untraced\n%s", b.dump().c_str(), ref.dump().c_str());
  b.check_handles("at the end"); ref.check_handles("at the end");
  // with the same base operations in the same order
  PROBE("shim_stack");
}
void c08() {
  fflush(stdout);
  int save = dup(1), mfd = memfd_create("out", 0);
  dup2(mfd, 1);
  evfs_init();
  if(chance(1, 3)) stacks(); else direct();
  fflush(stdout);
  off_t n = lseek(mfd, 0, SEEK_END);
  dup2(save, 1); close(save); close(mfd);
  CHECKV(n == 0, "stdout-output", "tracing wrote %ld bytes to the standard output", (long)n);
}
SCENARIO("C08", c08, 50000000, "a traced operation that failed underneath, or a mutating history through a traced shim stack; distinct = distinct event log");
} // namespace
