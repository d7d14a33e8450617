// C30: what a filesystem says it knows about its files and directories is
// true, and what it does not say is left zero.
#include "env.h"
#include <sys/stat.h>
#include <fcntl.h>
using namespace sim;
namespace {
struct Obj { bool dir; size_t size = 0; std::vector<std::pair<int64_t, int64_t>> when; bool any_time = false; };
int64_t local_reading(int64_t t) { time_t x = (time_t)t; struct tm m; localtime_r(&x, &m); return (int64_t)timegm(&m); }

struct InfoRun {
  Env e; std::map<std::string, Obj> o; std::string V, W, pre; bool fat = false;
  struct Wr { EvfsFile *f; std::string p; size_t pos; }; std::vector<Wr> ws;
  unsigned fs_stat = 0, fs_dir = 0, checked = 0, mean = 0; uint64_t f0 = 0;
  std::string w(const std::string &p) { return pre + p; }
  bool writing(const std::string &p) { for(auto &x : ws) if(x.p == p) return true; return false; }
  bool writing_below(const std::string &d) { for(auto &x : ws) if(x.p.compare(0, d.size() + 1, d + "/") == 0 || x.p == d) return true; return false; }
  template<class F> auto timed(const std::string &p, bool starts, F f) -> decltype(f()) { int64_t a = wall_clock(); auto r = f(); Obj &x = o[p]; if(starts) x.when.clear(); x.when.push_back({a, wall_clock()}); return r; }
  void clock() { switch(choose(5)) { case 0: sim_advance((uint64_t)range(1, 5000000)); break; case 1: sim_advance((uint64_t)range(1, 100000) * 1000000); PROBE("clock-forward"); break; case 2: { uint32_t lo = 315705600; set_wall_clock(range(lo, 0xffffffffu)); FAULT("clock-jump"); break; } default:; } }
  std::string pick(bool dirs, bool files) { std::vector<std::string> k; for(auto &x : o) if(x.second.dir ? dirs : files) k.push_back(x.first); return k.empty() ? "" : oneof(k); }
  std::string fresh() { std::string d = pick(true, false), n = oneof<std::string>({"f", "note.txt", "Mixed Case Name.dat", "UPPER.TXT", "a.b.c", ".dot", "g0", "longer name than eight.three"}); std::string p = (d == "/" ? "" : d) + "/" + n; return p.size() < 90 ? p : ""; }
  bool taken(const std::string &p) { for(auto &x : o) if(!strcasecmp(x.first.c_str(), p.c_str())) return true; return false; }
  void mutate() {
    clock(); const char *v = W.c_str();
    switch(choose(7)) {
    case 0: { std::string p = fresh(); if(p.empty() || taken(p)) return; CHECKV(a_mkdir(w(p), v) == EVFS_OK, "setup", "creating the directory %s failed", p.c_str()); int64_t t = wall_clock(); o[p] = Obj{true, 0, {{t - 1, t}}, false}; break; }
    case 1: case 2: { std::string p = choose(2) ? fresh() : pick(false, true); if(p.empty() || writing(p) || ws.size() >= 3) return; if(o.count(p) ? o[p].dir : taken(p)) return; EvfsFile *f; bool trunc = choose(2), is_new = !o.count(p);
      int st = timed(p, is_new || trunc, [&] { return a_open(w(p), &f, EVFS_RDWR | EVFS_OPEN_OR_NEW | (trunc ? EVFS_OVERWRITE : 0), v); });
      CHECKV(st == EVFS_OK, "setup", "opening %s failed (%d)", p.c_str(), st); if(!is_new && !trunc) o[p].when.pop_back(); if(is_new || trunc) o[p].size = 0; o[p].dir = false; ws.push_back({f, p, 0}); break; }
    case 3: case 4: { if(ws.empty()) return; Wr &x = ws[choose((uint32_t)ws.size())]; Obj &y = o[x.p];
      if(choose(4) == 0) { size_t n = range(0, (uint32_t)y.size); if(n == y.size) return; CHECKV(timed(x.p, true, [&] { return a_trunc(x.f, (evfs_off_t)n); }) == EVFS_OK, "setup", "truncating failed"); y.size = n; CHECKV(a_seek(x.f, x.pos = n, EVFS_SEEK_TO) == EVFS_OK, "setup", "seeking failed"); break; }
      size_t n = range(1, 900); if(x.pos + n > 6000) return; CHECKV(timed(x.p, true, [&] { return a_write(x.f, content(3, x.pos, n)); }) == (ptrdiff_t)n, "setup", "writing failed"); x.pos += n; y.size = std::max(y.size, x.pos); break; }
    case 5: { if(ws.empty()) return; size_t k = choose((uint32_t)ws.size()); Wr x = ws[k]; CHECKV(timed(x.p, false, [&] { return a_close(x.f); }) == EVFS_OK, "setup", "closing failed"); ws.erase(ws.begin() + k); break; }
    default: { std::string p = pick(true, true); if(p.empty() || p == "/" || writing_below(p)) return; bool empty = true; for(auto &x : o) if(x.first.compare(0, p.size() + 1, p + "/") == 0) empty = false;
      if(choose(2)) { if(!empty) return; CHECKV(a_delete(w(p), v) == EVFS_OK, "setup", "deleting %s failed", p.c_str()); o.erase(p); break; }
      std::string q = fresh(); if(q.empty() || taken(q) || q.compare(0, p.size() + 1, p + "/") == 0) return; int st = a_rename(w(p), w(q), v); CHECKV(st == EVFS_OK, "setup", "renaming %s to %s failed (%d)", p.c_str(), q.c_str(), st);
      std::map<std::string, Obj> n; for(auto &x : o) { if(x.first == p || x.first.compare(0, p.size() + 1, p + "/") == 0) n[q + x.first.substr(p.size())] = x.second; else n[x.first] = x.second; } o = n; break; } }
  }
  static std::string base_of(const std::string &p) { return p == "/" ? p : p.substr(p.rfind('/') + 1); }
  void fields_agree() { // every shim answers as the filesystem below it
    for(int c : {EVFS_CMD_GET_STAT_FIELDS, EVFS_CMD_GET_DIR_FIELDS}) { unsigned want = 0xdead; int ws_ = -99; bool first = true;
      std::vector<std::string> all = e.names; if(e.bot == E_BASE) all.insert(all.begin(), "base");
      for(auto &n : all) { unsigned got = 0xdead; int st = a_ctrl(c, &got, n.c_str()); CHECKV(st == EVFS_OK || e.bot == E_TAR || e.bot == E_TARM, "no-fields", "%s does not tell which fields it fills (%d)", n.c_str(), st);
        if(first) { want = got; ws_ = st; first = false; } else CHECKV(got == want && st == ws_, "fields-differ", "%s claims the fields %x (%d), the filesystem below it %x (%d)", n.c_str(), got, st, want, ws_);
        if(st == EVFS_OK) { CHECKV(!(got & ~15u), "fields-unknown", "%s claims unknown fields %x", n.c_str(), got); (c == EVFS_CMD_GET_STAT_FIELDS ? fs_stat : fs_dir) = got; } } }
  }
  void judge(const char *how, const std::string &p, const std::string &name, const EvfsInfo &i, unsigned have, const Obj &x, bool open_now, int64_t host_time) {
    const char *c = p.c_str(); checked++;
    if(have & EVFS_INFO_NAME) CHECKV(i.name && (name == i.name || (fat && !strcmp(how, "stat") && !strcasecmp(name.c_str(), i.name))), "name", "%s of %s tells the name %s", how, c, i.name ? i.name : "(none)"); else CHECKV(!i.name, "unused-field", "%s of %s fills the name although that field is not claimed", how, c);
    if(have & EVFS_INFO_TYPE) CHECKV(i.type == (x.dir ? EVFS_FILE_DIR : 0), "type", "%s of %s tells type %x, it is a %s", how, c, i.type, x.dir ? "directory" : "file"); else CHECKV(!i.type, "unused-field", "%s of %s fills the type although that field is not claimed", how, c);
    if(have & EVFS_INFO_SIZE) { if(!x.dir && !open_now) CHECKV(i.size == (evfs_off_t)x.size, "size", "%s of %s tells size %ld, it has %zu bytes", how, c, (long)i.size, x.size); } else CHECKV(!i.size, "unused-field", "%s of %s fills the size although that field is not claimed", how, c);
    if(!(have & EVFS_INFO_MTIME)) { CHECKV(!i.mtime, "unused-field", "%s of %s fills the modification time although that field is not claimed", how, c); return; }
    if(host_time >= 0) { CHECKV((int64_t)i.mtime == host_time, "mtime", "%s of %s tells modification time %lld, it is %lld", how, c, (long long)i.mtime, (long long)host_time); return; }
    if(!fat || p == "/" || open_now || x.any_time) return;
    bool ok = false; std::string s; for(auto &t : x.when) { ok = ok || ((int64_t)i.mtime > t.first - 2 && (int64_t)i.mtime <= t.second) || (local_reading(i.mtime) > local_reading(t.first) - 2 && local_reading(i.mtime) <= local_reading(t.second)); s += strf(" %lld", (long long)t.second); }
    if(ok) { time_t q = i.mtime; struct tm m; localtime_r(&q, &m); if(m.tm_isdst > 0) PROBE("mtime-in-summer-time"); }
    CHECKV(ok, "mtime", "%s of %s tells modification time %lld, it was changed at%s (%s)", how, c, (long long)i.mtime, s.c_str(), getenv("TZ"));
  }
  // the modification time the medium itself holds: chosen by us on the host
  int64_t medium_time(const std::string &p) {
    std::string base = under(p);
    if(e.bot == E_BASE) { NodeP n = e.b.find(base); return n ? (int64_t)n->mtime : -1; }
    if(e.bot != E_STDIO) return -1;
    struct timespec ts[2]; memset(ts, 0, sizeof ts); ts[0].tv_sec = ts[1].tv_sec = range(0, 0xfffffff0u); std::string q = scratch_dir() + "/h" + base; if(utimensat(AT_FDCWD, q.c_str(), ts, 0)) return -1; return ts[1].tv_sec;
  }
  std::map<std::string, std::string> jails;          // shim -> its root
  std::string under(const std::string &p) { std::string q = p; for(size_t k = e.names.size(); k-- > 0;) { auto it = jails.find(e.names[k]); if(it != jails.end() && it->second != "/") q = q == "/" ? it->second : it->second + q; } return q; }
  void look() {
    clock(); const char *v = V.c_str(); bool faulty = mean && choose(2) && (!fat || ws.empty());
    auto begin = [&] { if(faulty) e.arm(mean); f0 = e.fired(); }; auto end = [&] { uint64_t f = e.fired(); if(faulty) e.calm(); return f != f0; };
    if(choose(5) == 0) fields_agree();
    if(choose(2) || !e.listing) {
      std::string p = pick(true, true), sp = p; if(p.size() >= 240) return; const Obj &x = o[p];
      if(fat && choose(3) == 0) for(auto &c : sp) c = (char)toupper(c);
      int64_t mt = medium_time(p); EvfsInfo i; begin(); int st = a_stat(sp, &i, v); bool hit = end();
      if(st != EVFS_OK) { CHECKV(hit, "stat-fails", "stat of the existing %s reports %d", sp.c_str(), st); return; }
      std::string nm = i.name ? i.name : ""; judge("stat", p, base_of(under(p)), i, fs_stat, x, writing(p), mt);
      if(choose(3) == 0) { begin(); bool fi = api_b([&] { return evfs_existing_file_ex(sp.c_str(), v); }), di = api_b([&] { return evfs_existing_dir_ex(sp.c_str(), v); }); hit = end();
        CHECKV((fi == !x.dir && di == x.dir) || hit, "exists", "%s, a %s, exists as a file: %d, as a directory: %d", p.c_str(), x.dir ? "directory" : "file", fi, di); }
      return; }
    std::string d = pick(true, false); if(d.size() >= 240) return; EvfsDir *h; std::map<std::string, int64_t> mts; std::string k = d == "/" ? d : d + "/"; std::set<std::string> left;
    for(auto &x : o) if(x.first.size() > k.size() && !x.first.compare(0, k.size(), k) && x.first.find('/', k.size()) == std::string::npos) { mts[x.first] = (fs_dir & EVFS_INFO_MTIME) ? medium_time(x.first) : -1; left.insert(x.first); }
    begin(); int st = a_opendir(d, &h, v); if(st != EVFS_OK) { CHECKV(end(), "list-fails", "listing the existing directory %s reports %d", d.c_str(), st); return; }
    for(unsigned n = 0; n < 300; n++) { EvfsInfo i; memset(&i, 0x5a, sizeof i); st = api("dir_read", [&] { return evfs_dir_read(h, &i); });
      if(st != EVFS_OK) break; 
      CHECKV(i.name && (fs_dir & EVFS_INFO_NAME), "name", "a listing entry of %s has no name", d.c_str()); std::string nm = i.name; ev("ent %s", nm.c_str());
      if(nm == "." || nm == "..") { CHECKV(!(fs_dir & EVFS_INFO_TYPE) || i.type == EVFS_FILE_DIR, "type", "%s in %s is listed with type %x", nm.c_str(), d.c_str(), i.type); continue; }
      auto it = o.find(k + nm); if(it == o.end() && e.ro) continue; // an image may hold entries that are no files
      if(it == o.end() && d == "/" && ("/" + nm) == "/jr") continue;
      CHECKV(it != o.end() && left.erase(k + nm), "listing", "listing %s delivers %s, which is not there or was delivered before", d.c_str(), nm.c_str());
      judge("the listing", k + nm, nm, i, fs_dir, it->second, writing(k + nm), mts[k + nm]); }
    a_dirclose(h); bool hit = end(); CHECKV((st == EVFS_DONE && left.empty()) || hit, "listing", "the listing of %s ends with %d and %zu entries missing", d.c_str(), st, left.size());
  }
  template<class F> bool api_b(F f) { bool r = false; api("existing", [&] { r = f(); return 0; }); return r; }
  void run() {
    evfs_init();
    setenv("TZ", oneof<std::string>({"UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<-03>3"}).c_str(), 1); tzset(); if(choose(2)) clock();
    e.prepare(oneof<int>({E_BASE, E_STDIO, E_STDIO, E_FAT, E_FAT, E_FAT, E_LFS, E_TAR, E_TARM, E_ROM, E_ROMM})); e.b.yields = false; e.b.dots = choose(2); fat = e.bot == E_FAT;
    e.mount(); e.shims(3, true);
    V = e.top; W = e.below_rotate.empty() ? V : e.below_rotate; pre = e.rotate_prefix; jails = e.jails;
    if(e.ro) for(auto &x : e.t) { if(!x.second.kind) o[x.first] = Obj{x.second.dir, x.second.data.size(), {}, true}; } else o["/"] = Obj{true, 0, {}, true};
    fields_agree(); if(choose(3) == 0) mean = oneof<uint32_t>({4, 12, 40});
    unsigned n = range(10, g_cfg.thorough ? 200 : 80);
    for(unsigned k = 0; k < n; k++) { if(!e.ro && choose(2)) mutate(); else look(); }
    for(auto &x : ws) { CHECKV(timed(x.p, false, [&] { return a_close(x.f); }) == EVFS_OK, "setup", "closing failed"); } ws.clear();
    mean = 0; for(unsigned k = 0; k < 6; k++) look();
    if(checked > 3) nontrivial(); count_probe(strf("on_%s", bottom_name(e.bot)).c_str()); if(e.names.size() > 1) PROBE("shims");
    e.unmount_all(); e.b.unreg(); ::operator delete(e.mem); e.mem = nullptr;
  }
};
void c30() { InfoRun r; r.run(); }
SCENARIO("C30", c30, 30000000, "files were created, changed and moved under a wandering clock and several of them looked up or listed; distinct = distinct event log");
} // namespace
