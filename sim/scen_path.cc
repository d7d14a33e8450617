// C27: path text is split, joined, normalised and made absolute by the rules
// of the filesystem it is for, in whatever buffers, current directory, memory
// shortage or failure of the filesystem below.
#include "env.h"
using namespace sim;
namespace {
bool sep(char c) { return c == '/' || c == '\\'; }
// the root part of a path as each filesystem documents it
size_t root_len(const std::string &p, int drives, bool *abs) { // drives: 0 none, 1 digits, 2 letters and digits
  size_t k = 0; if(drives && p.size() >= 2 && p[1] == ':' && (isdigit((unsigned char)p[0]) || (drives == 2 && isalpha((unsigned char)p[0])))) k = 2;
  size_t q = k; while(q < p.size() && sep(p[q])) q++; *abs = q > k; return q;
}
std::string norm(const std::string &p, int drives) {
  bool abs; size_t r = root_len(p, drives, &abs), k = r; while(k && sep(p[k - 1])) k--;
  std::string o = p.substr(0, k) + (abs ? "/" : ""); std::vector<std::string> v; std::string s;
  for(size_t i = r; i <= p.size(); i++) { if(i < p.size() && !sep(p[i])) { s += p[i]; continue; }
    if(s == "..") { if(!v.empty() && v.back() != "..") v.pop_back(); else if(!abs) v.push_back(s); } else if(!s.empty() && s != ".") v.push_back(s);
    s.clear(); }
  for(size_t i = 0; i < v.size(); i++) o += (i ? "/" : "") + v[i];
  return o;
}
std::string basename_of(const std::string &p) { size_t i = p.size(); while(i && !sep(p[i - 1])) i--; return p.substr(i); }
std::string dirname_of(const std::string &p, int drives) { // as os.path.dirname: without the separators before the last part, unless they are the root
  bool abs; size_t r = root_len(p, drives, &abs), i = p.size(); while(i && !sep(p[i - 1])) i--;
  if(i < r) i = r; while(i > r && sep(p[i - 1])) i--; return p.substr(0, i);
}
std::string extname_of(const std::string &p) { std::string b = basename_of(p); size_t k = b.find_first_not_of('.'); if(k == std::string::npos) return ""; size_t i = b.rfind('.'); return i == std::string::npos || i < k ? "" : b.substr(i); }
std::string shown(const std::string &s) { return s.size() <= 90 ? "\"" + s + "\"" : strf("\"%.60s...\" (%zu)", s.c_str(), s.size()); }
// exactly this many bytes, every one of them guarded
struct Buf { char *p; size_t n; Buf(size_t n_) : p((char *)malloc(n_ ? n_ : 1)), n(n_) { memset(p, '#', n ? n : 1); } ~Buf() { free(p); } Buf(const Buf &) = delete;
  StringRange r(size_t off = 0) { StringRange x; x.start = p + off; x.end = p + n; return x; } };
struct Str { char *p; Str(const std::string &s, bool nul = true) : p((char *)malloc(s.size() + nul)) { memcpy(p, s.c_str(), s.size() + nul); } ~Str() { free(p); } Str(const Str &) = delete; };

struct PathRun {
  Env e; std::string V; int drives = 0; uint32_t mean = 0; std::string cwd; bool bslash = true; unsigned judged = 0, good = 0; std::vector<std::string> dirs{"/"}, objs;
  std::string text(bool deep) {
    static const char *seg[] = {"a", "b", "f0", "..", "..", ".", "x.y", ".h", "..a", "...", "a.", ".a.b", "sub", "d", "long segment name", ".."};
    std::string p; auto seps = [&](unsigned n) { std::string s; for(unsigned i = 0; i < n; i++) s += choose(4) ? '/' : '\\'; return s; };
    switch(weighted({6, 5, 1, 2, 1})) { case 0: break; case 1: p = "/"; break; case 2: p = seps(range(1, 4)); break;
      case 3: p = oneof<std::string>({"0:", "0:/", "0:\\", "1:/", "C:/", "0://"}); break; default: p = (choose(2) ? "0:" : "") + seps(range(12, 40)); PROBE("long-root"); }
    if(deep) PROBE("many-segments"); unsigned n = deep ? oneof<uint32_t>({range(28, 36), range(60, 70), 32, 33, 31}) : range(0, 7);
    for(unsigned i = 0; i < n; i++) { std::string s = deep && choose(3) ? oneof<std::string>({".", "a", "..", "b"}) : seg[choose(16)]; if(!deep && choose(40) == 0) s = std::string(range(20, 90), 'l');
      p += s; if(i + 1 < n || choose(5) == 0) p += choose(6) ? "/" : seps(range(1, 3)); }
    return p.size() < 240 ? p : p.substr(0, 240);
  }
  std::string known() { // a path that leads somewhere, spelled from the current directory or the root
    std::string o = oneof(objs), q; bool rel = choose(2); std::vector<std::string> v; std::string t = o.substr(1);
    for(size_t i = 0; i <= t.size();) { size_t k = t.find('/', i); if(k == std::string::npos) k = t.size(); if(k > i) v.push_back(t.substr(i, k - i)); i = k + 1; }
    if(rel) { size_t up = 0; bool a; std::string c = cwd.substr(std::max<size_t>(root_len(cwd, drives, &a), 1)); if(!c.empty()) up = 1 + std::count(c.begin(), c.end(), '/'); for(; up; up--) q += "../"; } else q = drives && choose(2) ? "0:/" : "/";
    for(size_t i = 0; i < v.size(); i++) { if(choose(4) == 0) q += "./"; if(i + 1 < v.size() && choose(5) == 0) q += v[i] + "/../"; q += v[i]; if(i + 1 < v.size()) q += choose(5) ? "/" : "//"; }
    if(q.empty()) q = "."; return q; }
  // the range handed back must lie in the text
  std::string cut(const char *what, const Str &s, size_t len, const StringRange &r) { CHECKV(r.start >= s.p && r.end >= r.start && r.end <= s.p + len, "outside", "%s hands back a range outside its path", what); return std::string(r.start, r.end); }
  bool fault_on = false; uint64_t f0 = 0;
  void begin(unsigned one_in = 4) { f0 = e.fired(); fault_on = choose(one_in) == 0; if(fault_on) { if(mean && choose(3)) e.arm(mean); if(choose(2)) alloc_fault_next(range(1, 3), choose(2)); } }
  bool end() { if(fault_on) e.calm(); alloc_faults_off(); return e.fired() != f0; }
  // status and text of an operation that writes its result
  void result(const char *what, const std::string &in, int st, const char *out, size_t size, const std::string &want, size_t needs, bool hit) {
    judged++; ev("%s %s -> %d", what, shown(in).c_str(), st);
    if(st != EVFS_OK) {
      if(hit) { CHECKV(st < 0, "odd-status", "%s of %s reports %d when a call below fails", what, shown(in).c_str(), st); PROBE("refused-under-fault"); return; }
      CHECKV(st == EVFS_ERR_OVERFLOW || (st == EVFS_ERR_ALLOC && e.bot == E_FAT && size < needs) /* how FatFs tells its text does not fit */ || (st == EVFS_ERR_BAD_ARG && e.bot == E_STDIO && !size), "refused", "%s of %s into %zu bytes reports %d", what, shown(in).c_str(), size, st);
      CHECKV(size < needs, "needless-overflow", "%s of %s reports overflow in %zu bytes, the result %s needs %zu", what, shown(in).c_str(), size, shown(want).c_str(), needs); PROBE("overflow-reported"); return; }
    const void *z = memchr(out, 0, size); CHECKV(z, "unterminated", "%s of %s into %zu bytes succeeds without ending the text", what, shown(in).c_str(), size);
    CHECKV(want == out, "wrong-text", "%s of %s into %zu bytes gives %s, expected %s", what, shown(in).c_str(), size, shown(out).c_str(), shown(want).c_str()); good++; if(hit) PROBE("right-under-fault");
  }
  size_t room(size_t want) { switch(choose(6)) { case 0: return range(0, (uint32_t)want + 2); case 1: return want + 1; case 2: return want; case 3: return want + 2; case 4: return range(0, 256); default: return 256; } }
  void split() {
    std::string p = text(choose(8) == 0); Str s(p); StringRange r; const char *v = V.c_str();
    CHECKV(api("basename", [&] { return evfs_path_basename(s.p, &r); }) == EVFS_OK, "refused", "basename of %s fails", shown(p).c_str());
    std::string g = cut("basename", s, p.size(), r), w = basename_of(p); CHECKV(g == w, "wrong-text", "the base name of %s is given as %s, expected %s", shown(p).c_str(), shown(g).c_str(), shown(w).c_str());
    CHECKV(api("extname", [&] { return evfs_path_extname(s.p, &r); }) == EVFS_OK, "refused", "extname of %s fails", shown(p).c_str());
    g = cut("extname", s, p.size(), r); w = extname_of(p); CHECKV(g == w, "wrong-text", "the extension of %s is given as %s, expected %s", shown(p).c_str(), shown(g).c_str(), shown(w).c_str());
    CHECKV(api("dirname", [&] { return evfs_path_dirname_ex(s.p, &r, v); }) == EVFS_OK, "refused", "dirname of %s fails", shown(p).c_str());
    g = cut("dirname", s, p.size(), r); w = dirname_of(p, drives); CHECKV(g == w, "wrong-text", "the directory name of %s is given as %s, expected %s", shown(p).c_str(), shown(g).c_str(), shown(w).c_str());
    bool abs, ga = api("root",[&] { return evfs_path_root_component_ex(s.p, &r, v); }); size_t n = root_len(p, drives, &abs); g = cut("root component", s, p.size(), r);
    CHECKV(r.start == s.p && g.size() == n && ga == abs, "wrong-root", "the root of %s is given as %s, absolute %d", shown(p).c_str(), shown(g).c_str(), ga);
    ga = api("root",[&] { return evfs_path_is_absolute_ex(s.p, v); }); CHECKV(ga == abs, "wrong-root", "%s is reported %s", shown(p).c_str(), ga ? "absolute" : "relative"); judged++;
    if(abs || !n) { // part by part
      Evfs *fs = evfs_find_vfs(v); std::vector<std::string> want, got; std::string x; for(size_t i = n; i <= p.size(); i++) if(i < p.size() && !sep(p[i])) x += p[i]; else { if(!x.empty()) want.push_back(x); x.clear(); }
      int st = api("scan path", [&] { return evfs_vfs_scan_path(fs, s.p, &r); }); while(st == EVFS_OK && got.size() <= want.size()) { got.push_back(cut("scanning", s, p.size(), r)); st = api("scan path", [&] { return evfs_vfs_scan_path(fs, nullptr, &r); }); }
      CHECKV(got == want, "wrong-parts", "scanning %s gives %zu parts that are not its own %zu", shown(p).c_str(), got.size(), want.size()); }
  }
  void join() {
    std::string h = choose(6) ? text(false) : choose(2) ? "" : "/", t = choose(6) ? text(false) : ""; h = h.substr(0, 120); t = t.substr(0, 120); const char *v = V.c_str();
    bool abs; size_t rl = root_len(h, drives, &abs); std::string w = h + (h.empty() || h.size() == rl ? "" : "/") + t; size_t n = room(w.size()); int st; bool hit;
    unsigned how = choose(3); std::string in = h + "\" + \"" + t;
    if(how == 0) { Str a(h), b(t); Buf o(n); StringRange r = o.r(); begin(); st = api("join", [&] { return evfs_path_join_str_ex(a.p, b.p, &r, v); }); hit = end(); result("joining", in, st, o.p, n, w, w.size() + 1, hit); CHECKV(r.start == o.p && r.end == o.p + n, "moved", "joining moves the caller's range"); }
    else if(how == 1) { // parts that are not terminated, or carry their NUL
      bool na = choose(2), nb = choose(2); Str a(h, na), b(t, nb); StringRange ra{a.p, a.p + h.size() + na}, rb{b.p, b.p + t.size() + nb}; Buf o(n); StringRange r = o.r(); begin(); st = api("join", [&] { return evfs_path_join_ex(&ra, &rb, &r, v); }); hit = end(); result("joining", in, st, o.p, n, w, w.size() + 1, hit); }
    else { // onto its own first part
      if(n < h.size() + 1) n = h.size() + 1; Buf o(n); memcpy(o.p, h.c_str(), h.size() + 1); Str b(t); StringRange r = o.r(), rb{b.p, b.p + t.size()}; begin(); st = choose(2) ? api("join", [&] { return evfs_path_join_ex(&r, &rb, &r, v); }) : api("join", [&] { return evfs_path_join_str_ex(o.p, b.p, &r, v); }); hit = end(); result("joining in place", in, st, o.p, n, w, w.size() + 1, hit); PROBE("in-place"); }
  }
  void normalise() {
    std::string p = text(choose(3) == 0), w = norm(p, drives); size_t n = room(w.size()); bool hit; int st; const char *v = V.c_str();
    if(choose(3)) { Str s(p); Buf o(n); StringRange r = o.r(); begin(); st = api("normalize", [&] { return evfs_path_normalize_ex(s.p, &r, v); }); hit = end(); result("normalising", p, st, o.p, n, w, w.size() + 1, hit); CHECKV(r.start == o.p && r.end == o.p + n, "moved", "normalising moves the caller's range"); }
    else { if(n < p.size() + 1) n = p.size() + 1; Buf o(n); memcpy(o.p, p.c_str(), p.size() + 1); StringRange r = o.r(); begin(); st = api("normalize", [&] { return evfs_path_normalize_ex(o.p, &r, v); }); hit = end(); result("normalising in place", p, st, o.p, n, w, w.size() + 1, hit); PROBE("in-place"); }
  }
  void absolute() {
    bool lead = choose(3) == 0; std::string p = lead ? known() : text(choose(6) == 0); const char *v = V.c_str(); bool abs; size_t rl = root_len(p, drives, &abs);
    if(!abs && rl && p[0] != '0') return; // another volume's current directory is not known
    std::string w, joined = p;
    if(!abs) { bool ca; size_t cr = root_len(cwd, drives, &ca); joined = (rl ? p.substr(0, rl) + "/" + cwd.substr(cr) : cwd) + "/" + p.substr(rl); }
    w = norm(joined, drives); if(joined.size() + cwd.size() + p.size() > 250) return;
    size_t n = room(w.size()), full = abs ? w.size() + 1 : std::max(cwd.size() + rl + 1, w.size() + 1); bool hit; int st; std::string out; const char *how = "making absolute";
    if(choose(3)) { Str s(p); Buf o(n); StringRange r = o.r(); begin(2); st = api("absolute", [&] { return evfs_path_absolute_ex(s.p, &r, v); }); hit = end(); result(how, p, st, o.p, n, w, full, hit); CHECKV(r.start == o.p && r.end == o.p + n, "moved", "making a path absolute moves the caller's range"); if(st == EVFS_OK) out = o.p; }
    else { how = "making absolute in place"; size_t off = abs ? 0 : choose(3) ? 0 : range(0, (uint32_t)p.size()), at = !abs && off == 0 && choose(3) == 0 ? range(1, 8) : 0; // the output may begin before the path, in it, or with it
      full = abs ? w.size() + 1 : p.size() + 1 + cwd.size() + 1; full = std::max(full, w.size() + 1); size_t sz = std::max(n, at + p.size() + 1 - off); if(sz > 256) sz = 256;
      Buf o(off + sz); if(at + p.size() + 1 > sz + off || off + sz > 500) return; memcpy(o.p + at, p.c_str(), p.size() + 1); StringRange r = o.r(off);
      begin(2); st = api("absolute", [&] { return evfs_path_absolute_ex(o.p + at, &r, v); }); hit = end(); result(how, p, st, o.p + off, sz, w, full, hit); PROBE("in-place"); if(off || at) PROBE("partly-overlapping"); if(st == EVFS_OK) out = o.p + off; }
    if(lead && !out.empty()) { EvfsInfo a, b; int s1 = a_stat(p, &a, v), s2 = a_stat(out, &b, v); CHECKV(s1 == EVFS_OK && s2 == EVFS_OK && a.type == b.type && a.size == b.size, "leads-elsewhere", "%s leads to an object (%d), its absolute form %s does not lead to the same (%d)", shown(p).c_str(), s1, shown(out).c_str(), s2); PROBE("both-forms-lead-there"); }
  }
  void chdir() {
    std::string d = oneof(dirs); int st = a_chdir(d, V.c_str()); CHECKV(st == EVFS_OK, "setup", "changing to %s failed (%d)", d.c_str(), st); pwd(); }
  void pwd() { int st = a_getcwd(cwd, V.c_str()); CHECKV(st == EVFS_OK, "setup", "asking for the current directory failed (%d)", st); bool a; root_len(cwd, drives, &a); CHECKV(a, "relative-cwd", "the current directory %s is not absolute", cwd.c_str()); }
  void run() {
    evfs_init(); e.prepare(weighted({6, 2, 2, 2, 1, 1, 1, 1})); e.b.yields = false; e.b.drive = e.bot == E_BASE && choose(2); e.b.sep_both = e.b.drive; e.b.dots = choose(2);
    e.mount(); e.shims(3, false); V = e.top; drives = e.bot == E_BASE ? e.b.drive : e.bot == E_FAT ? 2 : 0; const char *v = V.c_str(); mean = choose(2) ? oneof<uint32_t>({1, 2, 5}) : 0;
    objs.push_back("/");
    if(e.ro) { for(auto &x : e.t) if(!x.second.kind && x.first.size() > 1 && x.first.size() < 70 && x.first.find('\\') == std::string::npos && (!x.second.dir || e.bot >= E_ROM)) { objs.push_back(x.first); if(x.second.dir) dirs.push_back(x.first); } }
    else { std::string d; unsigned depth = range(1, 5); for(unsigned i = 0; i < depth; i++) { d += "/" + oneof<std::string>({"a", "sub", "d.x", "b", "long segment name"}); if(d.size() > 60) break; CHECKV(a_mkdir(d, v) == EVFS_OK, "setup", "mkdir failed"); dirs.push_back(d); objs.push_back(d); }
      for(auto &x : dirs) { std::string f = (x == "/" ? "" : x) + "/f0"; EvfsFile *fh; CHECKV(a_open(f, &fh, EVFS_WRITE | EVFS_OVERWRITE, v) == EVFS_OK, "setup", "creating %s failed", f.c_str()); CHECKV(a_close(fh) == EVFS_OK, "setup", "closing failed"); objs.push_back(f); } }
    pwd(); unsigned n = range(20, g_cfg.thorough ? 160 : 80);
    for(unsigned i = 0; i < n; i++) switch(weighted({4, 3, 5, 6, 2})) { case 0: split(); break; case 1: join(); break; case 2: normalise(); break; case 3: absolute(); break; default: chdir(); }
    tag(e.bot * 64 + e.names.size() * 8 + mean + 1000 * e.b.drive); tag(std::hash<std::string>()(cwd)); if(judged > 10 && good > 5) nontrivial();
    CHECKV(a_chdir("/", v) == EVFS_OK, "setup", "going home failed"); e.finish();
  }
};
void c27() { PathRun r; r.run(); }
} // namespace
SCENARIO("C27", c27, 8000000, "path text split, joined, normalised and made absolute on a filesystem under a stack of shims, from changing current directories, into guarded buffers of every size, apart from or over their input, with the filesystem below and memory failing");
