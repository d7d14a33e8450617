// C16: copying files.  C23: making paths.  C25: listings, rewinds and pattern
// searches.  C26: printing.
#include "env.h"
#include "chaos.h"
#include <algorithm>
using namespace sim;
namespace {
const std::vector<int> WB = {E_BASE, E_BASE, E_STDIO, E_FAT, E_LFS};

// all of a file, with no faults on
std::string slurp(const std::string &p, const std::string &v, int *status = nullptr) {
  EvfsFile *f; int st = a_open(p, &f, EVFS_READ, v.c_str()); if(status) *status = st;
  if(st != EVFS_OK) { CHECKV(status, "unreadable", "%s on %s can't be opened (%d)", p.c_str(), v.c_str(), st); return ""; }
  std::string g, part; ptrdiff_t r; while((r = a_read(f, part, range(1, 900))) > 0) { g += part; CHECKV(g.size() < 1000000, "endless", "reading %s does not end", p.c_str()); }
  CHECKV(r == 0, "unreadable", "reading %s on %s reports %td", p.c_str(), v.c_str(), r); CHECKV(a_close(f) == EVFS_OK, "unreadable", "closing %s failed", p.c_str()); return g;
}
bool put(const std::string &p, const std::string &v, const std::string &d) {
  EvfsFile *f; int st = a_open(p, &f, EVFS_WRITE | EVFS_OPEN_OR_NEW, v.c_str()); if(st != EVFS_OK) return false;
  size_t o = 0; while(o < d.size()) { ptrdiff_t w = a_write(f, d.substr(o)); if(w <= 0) break; o += w; }
  return a_close(f) == EVFS_OK && o == d.size();
}

// ------------------------------------------------------------------ C16
void c16() {
  Env e; evfs_init(); SimFs o("other"); o.yields = false; e.fv.size = 2200000;
  bool arch = choose(5) == 0; e.prepare(arch ? oneof<int>({E_TAR, E_TARM, E_ROM, E_ROMM}) : oneof(WB)); e.b.yields = false;
  e.rot_chunk = oneof<unsigned>({100, 700, 4096}); e.rot_chunks = 30000 / e.rot_chunk + 2; e.mount(); e.shims(2, true); o.reg(false);
  std::vector<std::string> ws = {"base", "other"}; if(!e.ro && e.top != "base") { ws.push_back(e.top); ws.push_back(e.top); }
  std::vector<std::string> arcf; if(e.ro) for(auto &x : e.t) if(!x.second.dir && !x.second.kind) arcf.push_back(x.first);
  bool worn = false; /* failures leave clusters of a FAT volume unusable */ unsigned rounds = range(1, g_cfg.thorough ? 12 : 6); std::map<std::string, std::string> have; // "vfs path" -> content of every file made here
  auto home = [](const std::string &w) { return "/cp" + w; };
  for(auto &w : std::set<std::string>(ws.begin(), ws.end())) CHECKV(a_mkdir(home(w), w.c_str()) == EVFS_OK, "setup", "mkdir failed");
  for(unsigned r = 0; r < rounds; r++) {
    // the source
    std::string sv, sp, data; EvfsFile *src; bool wr = false;
    if(arcf.size() && choose(3)) { sv = e.top; sp = oneof(arcf); data = e.t[sp].data; CHECKV(a_open(sp, &src, EVFS_READ, sv.c_str()) == EVFS_OK, "setup", "can't open the archive's %s", sp.c_str()); }
    else { sv = oneof(ws); sp = home(sv) + strf("/src%u", r); data = content(r + 1, 0, oneof<uint32_t>({0, 1, range(2, 70), 64, 128, range(1, 700), range(600, 5000)}));
      if(!e.rotate && e.bot != E_FAT && chance(1, 25)) { data = content(r + 1, 0, range(65000, 140000)); PROBE("file-over-64k"); }
      bool made = put(sp, sv, data); if(!made && worn) { a_delete(sp, sv.c_str()); break; } CHECKV(made, "setup", "can't write %s", sp.c_str()); wr = choose(2) || (e.rotate && sv == e.top && false);
      CHECKV(a_open(sp, &src, wr ? EVFS_RDWR : EVFS_READ, sv.c_str()) == EVFS_OK, "setup", "can't open %s", sp.c_str());
      if(wr && choose(2)) { std::string x = content(r + 50, 0, range(1, 90)); if(a_seek(src, 0, EVFS_SEEK_REV) == EVFS_OK && a_write(src, x) == (ptrdiff_t)x.size()) data += x; PROBE("unsaved_source"); } }
    size_t at = choose(2) ? 0 : range(0, (uint32_t)data.size()); CHECKV(a_seek(src, (evfs_off_t)at, EVFS_SEEK_TO) == EVFS_OK, "setup", "seek failed");
    if(at) PROBE("from_the_middle");
    // the destination
    std::string dv = oneof(ws), dp = home(dv) + strf("/dst%u", r), old; unsigned kind = weighted({10, 2, 1, 1, 1}); bool exists = false, rot = e.rotate && dv == e.top;
    if(kind == 1 && have.size()) { auto it = have.begin(); std::advance(it, choose((uint32_t)have.size())); size_t k = it->first.find(' '); dv = it->first.substr(0, k); dp = it->first.substr(k + 1); old = it->second; exists = true; }
    else if(kind == 2) dp = home(dv) + "/none/dst"; else if(kind == 3) dp = home(dv); else if(kind == 4) { dp = home(dv) + "/" + std::string(range(250, 300), 'l'); }
    rot = e.rotate && dv == e.top; if(rot && kind == 3) { dp = home(dv) + strf("/dst%u", r); kind = 0; } if(dv == "base" && e.rotate) { }
    // the buffer: exactly sized, to catch overruns
    size_t bs = oneof<uint32_t>({0, 1, range(2, 63), 64, 512, range(65, 1200)}); if(data.size() > 60000) bs = oneof<uint32_t>({0, 700, 4096, 65535, 65536, 70000, 200000}); char *buf = nullptr; bool own = choose(2), tight = own && chance(1, 10); if(tight) { bs = oneof<uint32_t>({40000, 65536, 70000}); PROBE("no_memory_for_another_buffer"); } if(own) { if(!bs) bs = data.size() > 60000 ? 300 : 1; buf = (char *)::operator new(bs); }
    if(bs < 16 && data.size() > 1500) { data.size(); }
    // the trouble
    unsigned t = weighted({4, 4, 2, 2, 2}); uint64_t f0, a0 = 0; { uint32_t mean = oneof<uint32_t>({2, 6, 20});
      if(t == 1) { if(choose(2)) e.arm(mean); for(int k = 0; k < OP_NKINDS; k++) o.faults.mean[k] = choose(4) ? mean : 0; o.arm(); }
      if(t == 2) { uint32_t room = range(0, (uint32_t)(data.size() - at) + 40); o.faults.full = true; o.capacity = o.used() + room; if(e.bot == E_BASE && !choose(3)) { e.b.faults.full = true; e.b.capacity = e.b.used() + room; } }
      if(t == 4) { unsigned k = 1 + range(1, 4); if(sv == "other") o.early_end = k; else e.b.early_end = k; } // the source ends before its size
      if(t == 3) alloc_fault_next(geom(4), choose(2)); f0 = e.fired() + o.faults_fired; a0 = allocs_live(); }
    int hb = e.b.open_files, ho = o.open_files, hh = (int)e.h.files.size(), hl = g_lfs.files;
    bool dflt = dv == "base" && choose(3) == 0; // the default filesystem
    if(tight) alloc_limit(bs);
    int st = dflt ? api("copy", [&] { return evfs_copy_to_file(dp.c_str(), src, buf, bs); }) : api("copy", [&] { return evfs_copy_to_file_ex(dp.c_str(), src, buf, bs, dv.c_str()); });
    alloc_limit(0);
    bool hurt = e.fired() + o.faults_fired != f0 || t == 2; o.early_end = e.b.early_end = 0; e.calm(); o.faults_stop(); o.faults.full = e.b.faults.full = false; o.capacity = e.b.capacity = ~0ull;
    if(hurt && e.bot == E_FAT) worn = true;
    bool srot = e.rotate && sv == e.top; // the source may have opened another of its chunks
    if(!srot) { CHECKV(e.b.open_files == hb && o.open_files == ho && (int)e.h.files.size() == hh && (!(e.bot == E_LFS) || g_lfs.files == hl), "copy-leak", "copying (%d) leaves files open", st);
      if(!hurt || !e.rotate) CHECKV(allocs_live() == a0, "copy-leak", "copying (%d) leaves memory behind: %s", st, allocs_describe().c_str()); }
    std::string want = data.substr(at), key = dv + " " + dp; bool hard = exists || kind == 2 || kind == 3 || kind == 4;
    if(st == EVFS_OK) { nontrivial();
      CHECKV(!exists && kind != 2 && kind != 3, "copy-accepted", "a copy to %s reports success", exists ? "an existing file" : kind == 2 ? "a missing directory" : "a directory");
      std::string g = slurp(dp, dv); CHECKV(g == want, "copy-differs", "a copy of %zu bytes (from %zu of %zu, buffer %zu%s) reports success and holds %zu bytes%s", want.size(), at, data.size(), bs, own ? " supplied" : "", g.size(), g.size() == want.size() ? " of other content" : ""); have[key] = g; if(want.size() > bs) PROBE("several_blocks"); if(hurt) PROBE("success_despite_fault");
    } else {
      CHECKV(hurt || hard, "copy-refused", "copying %zu bytes (buffer %zu%s) to the new file %s on %s fails with %d although nothing is wrong", want.size(), bs, own ? " supplied" : "", dp.c_str(), dv.c_str(), st);
      if(exists) { if(!hurt) CHECKV(st == EVFS_ERR_EXISTS, "copy-refused", "a copy to an existing file reports %d", st); std::string g = slurp(dp, dv); CHECKV(g == old, "copy-overwrote", "a refused copy changed the existing %s from %zu to %zu bytes", dp.c_str(), old.size(), g.size()); PROBE("refused"); }
      if(hurt) { PROBE("failed_copy"); nontrivial(); } }
    // the source is unchanged
    std::string g, part; ptrdiff_t n; bool again = hurt && sv == e.top && (e.bot == E_FAT || e.bot == E_LFS || e.rotate); // these give up a file after a failure of the medium
    if(again && !wr) { a_close(src); CHECKV(a_open(sp, &src, EVFS_READ, sv.c_str()) == EVFS_OK, "copy-source", "the source can't be opened again"); } else if(again) { a_close(src); g = slurp(sp, sv); CHECKV(g.size() <= data.size() && !g.compare(0, g.size(), data, 0, g.size()), "copy-source", "the source holds other data after the copy"); data = g; g.clear(); CHECKV(a_open(sp, &src, EVFS_READ, sv.c_str()) == EVFS_OK, "copy-source", "the source can't be opened again"); }
    CHECKV(a_seek(src, 0, EVFS_SEEK_TO) == EVFS_OK, "copy-source", "the source can't be positioned after the copy"); while((n = a_read(src, part, 900)) > 0) g += part; CHECKV(n == 0 && g == data, "copy-source", "the source holds %zu bytes after the copy, it had %zu (%td)", g.size(), data.size(), n);
    CHECKV(a_close(src) == EVFS_OK, "copy-source", "closing the source failed"); ::operator delete(buf);
    if(sp.compare(0, 3, "/cp") == 0 && sv != "" && !(e.ro && sv == e.top)) have[sv + " " + sp] = data;
    tag(((uint64_t)t << 8) ^ kind ^ (st == EVFS_OK ? 16 : 0) ^ ((uint64_t)e.bot << 12));
    if(kind == 0 && st != EVFS_OK) { // what was begun is left behind at most as a part of the copy
      int s2 = 0; std::string part2; if(!rot || !hurt) part2 = slurp(dp, dv, &s2); /* a log whose creation failed twice over can be unreadable */ if(s2 == EVFS_OK) { CHECKV(!want.compare(0, part2.size(), part2) || e.bot == E_FAT, "copy-differs", "a failed copy leaves %zu bytes that are not the source's", part2.size()); } }
  }
  for(auto &x : have) { size_t k = x.first.find(' '); std::string g = slurp(x.first.substr(k + 1), x.first.substr(0, k)); CHECKV(g == x.second, "copy-damage", "%s changed by copying other files", x.first.c_str()); }
  count_probe(strf("on_%s", bottom_name(e.bot)).c_str()); if(e.rotate) PROBE("rotate-shim");
  o.check_handles("at the end"); o.unreg(); e.finish();
}

// ------------------------------------------------------------------ C23
struct Walk { std::vector<std::string> comps; bool abs; };
std::string norm(const std::vector<std::string> &c, size_t n, const std::string &cwd, bool abs) { // the absolute path of the first n components
  std::vector<std::string> s; if(!abs) { std::string t; for(char ch : cwd + "/") if(ch == '/') { if(t.size()) s.push_back(t); t.clear(); } else t += ch; }
  for(size_t i = 0; i < n; i++) { if(c[i] == ".") continue; if(c[i] == "..") { if(s.size()) s.pop_back(); } else s.push_back(c[i]); }
  std::string r; for(auto &x : s) r += "/" + x; return r.size() ? r : "/";
}
void c23() {
  Env e; e.fv.size = 6000000; evfs_init(); bool arch = choose(8) == 0; e.prepare(arch ? oneof<int>({E_TAR, E_TARM, E_ROM, E_ROMM}) : oneof(WB)); e.b.yields = false; e.b.dots = choose(2); e.b.sep_both = false; e.b.drive = e.bot == E_BASE && choose(3) == 0;
  e.mount(); e.shims(3, true); std::string V = e.top; const char *v = V.c_str();
  std::set<std::string> dirs = {"/"}, files; std::string cwd = "/";
  auto list = [&](std::set<std::string> &d, std::set<std::string> &f) { d = {"/"}; f.clear(); std::vector<std::string> todo = {"/"};
    while(todo.size()) { std::string at = todo.back(); todo.pop_back(); EvfsDir *h; DirEnt x; int st = a_opendir(at, &h, v); CHECKV(st == EVFS_OK, "listing", "directory %s can't be listed (%d)", at.c_str(), st);
      while((st = a_dirread(h, x)) == EVFS_OK) { if(x.name == "." || x.name == "..") continue; std::string p = (at == "/" ? "" : at) + "/" + x.name; if(x.dir) { d.insert(p); todo.push_back(p); } else f.insert(p); } CHECKV(st == EVFS_DONE, "listing", "listing %s ends with %d", at.c_str(), st); a_dirclose(h); } };
  if(!e.ro) { // something to start from
    for(auto d : {"/d", "/d/e", "/w"}) if(choose(2) && a_mkdir(d, v) == EVFS_OK) dirs.insert(d);
    if(!e.rotate) for(auto p : {"/file", "/d/file"}) if(choose(2) && dirs.count(std::string(p, strrchr(p, '/') - p).size() ? std::string(p, strrchr(p, '/') - p) : "/") && put(p, V, "x")) files.insert(p);
    list(dirs, files);
  } else for(auto &x : e.t) { if(x.second.kind) continue; (x.second.dir ? dirs : files).insert(x.first); }
  unsigned rounds = range(2, g_cfg.thorough ? 24 : 12);
  for(unsigned r = 0; r < rounds; r++) {
    if(choose(4) == 0) { std::vector<std::string> ds(dirs.begin(), dirs.end()); std::string c = oneof(ds); if(a_chdir(c, v) == EVFS_OK) cwd = c; }
    // the path: components and how they are written
    std::vector<std::string> c; unsigned n = weighted({1, 3, 4, 4, 2, 1}); if(choose(20) == 0) n = range(6, 70);
    std::vector<std::string> adirs, afiles; if(e.ro) { adirs.assign(dirs.begin(), dirs.end()); afiles.assign(files.begin(), files.end()); }
    if(e.ro && choose(3)) { std::string p = afiles.size() && !choose(4) ? oneof(afiles) : oneof(adirs), t; for(char ch : p + "/") if(ch == '/') { if(t.size()) c.push_back(t); t.clear(); } else t += ch; if(choose(2) && c.size()) c.pop_back(); if(!choose(3)) c.push_back("new"); }
    else for(unsigned i = 0; i < n; i++) switch(weighted({12, 2, 2, 1})) { case 0: c.push_back(oneof<std::string>({"d", "e", "w", "a", "b", "new dir", "x.y", "file"})); break; case 1: c.push_back("."); break; case 2: c.push_back(".."); break; default: c.push_back(choose(6) ? strf("n%u", choose(50)) : std::string(range(200, 250), 'z')); }
    bool longc = n > 12; for(auto &x : c) if(x.size() > 100) longc = true; bool abs = longc || choose(3) != 0, vol = abs && (e.b.drive || e.bot == E_FAT) && choose(3) == 0; std::string text = vol ? "0:" : ""; if(vol) PROBE("volume_in_path"); text += abs ? std::string(choose(4) ? 1 : range(1, 3), '/') : "";
    bool bs = choose(12) == 0; auto sep = [&] { return std::string(choose(4) ? 1 : range(1, 3), bs && choose(2) ? '\\' : '/'); };
    for(size_t i = 0; i < c.size(); i++) { text += c[i]; if(i + 1 < c.size() || choose(4) == 0) text += sep(); }
    if(e.ro && text.size() > 200) continue;
    // what it should do
    std::vector<std::string> missing_, seq; bool blocked = false; std::set<std::string> sim_dirs = dirs;
    for(size_t i = 1; i <= c.size(); i++) { std::string p = norm(c, i, cwd, abs); seq.push_back(p); if(files.count(p)) { blocked = true; break; } if(!sim_dirs.count(p)) { missing_.push_back(p); sim_dirs.insert(p); } }
    bool longish = text.size() + cwd.size() > 200; for(auto &x : c) if(x.size() > 100) longish = true; for(auto &p : seq) if(p.size() > 200) longish = true;
    uint64_t f0 = e.fired(); bool safe = e.bot != E_FAT; unsigned t = weighted({3, 2, 1}); if(e.ro && t == 1 && (e.bot == E_ROMM || e.bot == E_TARM)) t = 0;
    if(t == 1) e.arm(oneof<uint32_t>({3, 8, 20})); if(t == 2) alloc_fault_next(geom(6), choose(2)); if(t == 1 && e.bot == E_BASE && choose(3) == 0) { e.b.faults.full = true; }
    uint64_t a0 = allocs_live(); int st;
    if(choose(2)) { // a part of a longer text, not necessarily terminated
      std::string tail = oneof<std::string>({"", "/file.txt", "tail", "/"}); size_t total = text.size() + tail.size(); char *raw = (char *)::operator new(total + 1); bool term = tail.size() || choose(2);
      char *b = raw + (term ? 0 : 1); memcpy(b, text.data(), text.size()); memcpy(b + text.size(), tail.data(), tail.size()); if(term) b[total] = 0; StringRange rg; rg.start = b; rg.end = b + text.size();
      st = api("make_path", [&] { return evfs_make_path_range_ex(&rg, v); });
      CHECKV(rg.start == b && rg.end == b + text.size(), "path-range-changed", "making a path changes the caller's range"); CHECKV(!memcmp(b, (text + tail).data(), total), "path-text-changed", "making a path changes the caller's text"); ::operator delete(raw); PROBE("range");
    } else { std::string copy = text; st = api("make_path", [&] { return evfs_make_path_ex(copy.c_str(), v); }); CHECKV(copy == text, "path-text-changed", "making a path changes the caller's text"); }
    bool hurt = e.fired() != f0; e.calm(); e.b.faults.full = false; e.b.capacity = ~0ull; ev("path '%s' in %s", text.c_str(), cwd.c_str());
    CHECKV(allocs_live() == a0, "path-leak", "making a path (%d) leaves memory behind: %s", st, allocs_describe().c_str());
    if(e.ro) { bool all = true; for(auto &p : seq) if(!dirs.count(p)) all = false; if(blocked) all = false;
      if(st == EVFS_OK) { CHECKV(all, "path-lies", "making '%s' on a read-only archive reports success; not every component is a directory", text.c_str()); if(c.size()) PROBE("existing_archive_path"); } else CHECKV(!all || hurt || longish, "path-refused", "making the existing path '%s' on an archive reports %d", text.c_str(), st); nontrivial(); continue; }
    std::set<std::string> nd, nf; list(nd, nf);
    CHECKV(nf == files, "path-damage", "making '%s' (%d) changes the files: %zu were there, now %zu", text.c_str(), st, files.size(), nf.size());
    for(auto &d : dirs) CHECKV(nd.count(d), "path-damage", "making '%s' (%d) removes directory %s", text.c_str(), st, d.c_str());
    std::set<std::string> ms(missing_.begin(), missing_.end()); for(auto &d : nd) CHECKV(dirs.count(d) || ms.count(d), "path-extra", "making '%s' in %s creates %s", text.c_str(), cwd.c_str(), d.c_str());
    size_t k = 0; while(k < missing_.size() && nd.count(missing_[k])) k++; for(size_t i = k; i < missing_.size(); i++) CHECKV(!nd.count(missing_[i]), "path-order", "making '%s' creates %s but not %s before it", text.c_str(), missing_[i].c_str(), missing_[k].c_str());
    if(st == EVFS_OK) { CHECKV(!blocked, "path-lies", "making '%s' reports success although the file %s is in the way", text.c_str(), seq.back().c_str()); CHECKV(k == missing_.size(), "path-lies", "making '%s' in %s reports success but %s does not exist", text.c_str(), cwd.c_str(), missing_[k].c_str()); if(missing_.size() > 1) { PROBE("made_several"); nontrivial(); } }
    else { CHECKV(blocked || hurt || longish, "path-refused", "making '%s' in %s reports %d although nothing is in the way", text.c_str(), cwd.c_str(), st); if(!hurt && !longish) CHECKV(k == missing_.size(), "path-partial", "making '%s' stops before the file that is in the way", text.c_str()); if(hurt) { PROBE("failed_path"); nontrivial(); } if(blocked) PROBE("file_in_the_way"); }
    (void)safe; dirs = nd; tag(((uint64_t)k << 16) ^ ((uint64_t)e.bot << 8) ^ (st == EVFS_OK) ^ (t << 2));
  }
  count_probe(strf("on_%s", bottom_name(e.bot)).c_str()); e.finish();
}

// ------------------------------------------------------------------ C25
// The documented pattern language, matched the plain way.
bool ref_match(const char *p, const char *s) {
  if(!*p) return !*s;
  if(*p == '*') { for(const char *q = s;; q++) { if(ref_match(p + 1, q)) return true; if(!*q) return false; } }
  if(!*s) return false;
  if(*p == '?') return ref_match(p + 1, s + 1);
  if(*p == '[') { const char *q = p + 1; bool inv = *q == '!', in = false; if(inv) q++; for(; *q != ']'; q++) { if(q[1] == '-') { if((unsigned char)*s >= (unsigned char)q[0] && (unsigned char)*s <= (unsigned char)q[2]) in = true; q += 2; } else if(*s == *q) in = true; } return in != inv && ref_match(q + 1, s + 1); }
  return *p == *s && ref_match(p + 1, s + 1);
}
std::string a_set() { std::string s = "["; if(choose(3) == 0) s += '!'; unsigned n = range(1, 3); for(unsigned i = 0; i < n; i++) s += oneof<std::string>({"a", "b", "0", "a-c", "0-9", "a-z", "A-Z", ".", "x", "n-z", "_", "c-a"}); return s + "]"; }
std::string pattern(const std::vector<std::string> &names, bool *wild) {
  *wild = false; if(choose(10) == 0) { *wild = true; return oneof<std::string>({"[", "*[", "[a", "[!", "[!a", "*[a-", "a[b-]", "[]", "*[!]*", "[a-\x7f]*", "f[!\x01-\xff]"}); }
  if(names.size() && choose(2)) { std::string n = oneof(names), p; for(char c : n) switch(weighted({10, 2, 1, 2})) { case 0: if(strchr("*?[]", c)) p += '?'; else p += c; break; case 1: p += '?'; break; case 2: p += '*'; break; default: if(isalnum((unsigned char)c)) { p += '['; p += c; p += ']'; } else p += '?'; } if(choose(3) == 0) { p.resize(p.find_first_of("[") == std::string::npos ? range(0, (uint32_t)p.size()) : p.size()); p += '*'; } return p; }
  std::string p; unsigned n = range(1, 5); for(unsigned i = 0; i < n; i++) switch(choose(4)) { case 0: p += '*'; break; case 1: p += '?'; break; case 2: p += a_set(); break; default: p += oneof<std::string>({"f", "a", "0", ".", "txt", "n"}); } return p;
}
struct Scan { EvfsDir *d = nullptr; std::string path; std::vector<std::string> got; std::set<std::string> may; bool end = false, broken = false, find_only = false, fresh = true; std::string last; const char *lastp = nullptr; bool order_ok = true; bool stale = false; };
void c25() {
  Env e; evfs_init(); bool arch = choose(4) == 0; e.prepare(arch ? oneof<int>({E_ROM, E_ROMM}) : oneof(WB)); e.b.yields = false; e.b.dots = choose(2); e.b.lifo = choose(2); e.mount(); e.shims(3, true); std::string V = e.top; const char *v = V.c_str();
  unsigned fields = 0; bool sizes = a_ctrl(EVFS_CMD_GET_DIR_FIELDS, &fields, v) == EVFS_OK && (fields & EVFS_INFO_SIZE), types = fields & EVFS_INFO_TYPE; if(e.rotate) sizes = types = false;
  unsigned one = 1, zero = 0; bool nodots = choose(3) == 0 && a_ctrl(EVFS_CMD_SET_NO_DIR_DOTS, &one, v) == EVFS_OK; if(nodots) PROBE("dots_switched_off");
  struct Obj { bool dir; size_t size; }; std::map<std::string, std::map<std::string, Obj>> tree; // directory -> entries
  auto up = [](const std::string &p) { size_t i = p.rfind('/'); return i ? p.substr(0, i) : std::string("/"); }; auto leaf = [](const std::string &p) { return p.substr(p.rfind('/') + 1); };
  auto at = [](const std::string &d, const std::string &n) { return (d == "/" ? "" : d) + "/" + n; };
  unsigned serial = 0; auto fresh = [&] { std::string n = oneof<std::string>({"f", "a", "bb", "n", "x_", "c1."}) + strf("%u", serial++); switch(choose(8)) { case 0: n += ".txt"; break; case 1: n += std::string(range(1, 60), 'n'); break; case 2: n = "." + n; break; case 3: n += " z"; break; case 4: n += "[!]"; break; } return n; };
  tree["/"];
  if(e.ro) { for(auto &x : e.t) { if(x.first == "/") continue; tree[up(x.first)][leaf(x.first)] = Obj{x.second.dir, x.second.data.size()}; if(x.second.dir) tree[x.first]; if(x.second.kind) { tree[up(x.first)][leaf(x.first)].size = ~0ull; } } }
  else { if(a_mkdir("/d", v) == EVFS_OK) { tree["/"]["d"] = Obj{true, 0}; tree["/d"]; } if(choose(2) && a_mkdir("/d/e", v) == EVFS_OK) { tree["/d"]["e"] = Obj{true, 0}; tree["/d/e"]; }
    unsigned many = choose(10) == 0 ? range(20, 90) : range(0, 14); for(unsigned i = 0; i < many; i++) { std::string d = choose(3) ? "/d" : "/", n = fresh(); std::string data = content(1, 0, choose(3) ? range(0, 40) : range(0, 3000)); if(put(at(d, n), V, data)) tree[d][n] = Obj{false, data.size()}; else a_delete(at(d, n), v); } }
  { // the registered extras directly in the root of a shared bottom (images, jail roots) are no part of this
    EvfsDir *d; DirEnt x; if(a_opendir("/", &d, v) == EVFS_OK) { while(a_dirread(d, x) == EVFS_OK) if(x.name != "." && x.name != ".." && !tree["/"].count(x.name)) tree["/"][x.name] = Obj{x.dir, (size_t)x.size}; a_dirclose(d); } }
  std::vector<Scan> ss; unsigned steps = range(10, g_cfg.thorough ? 160 : 80), ended = 0; bool faulty = choose(2); uint32_t mean = oneof<uint32_t>({6, 20, 60});
  std::map<std::string, std::vector<std::string>> order; // the listing order while a directory does not change
  auto names_ok = [&](const char *when) { for(auto &s : ss) if(s.lastp) CHECKV(s.last == s.lastp, "name-changed", "the name %s delivered by one listing reads %s %s", s.last.c_str(), hexs(std::string(s.lastp, strnlen(s.lastp, 40))).c_str(), when); };
  auto start = [&](Scan &s) { s.got.clear(); s.end = s.broken = s.find_only = false; s.order_ok = true; s.stale = false; s.may.clear(); s.lastp = nullptr; };
  // FatFs leaves a directory object between two sectors when the medium fails: it has to be rewound
  auto fail = [&](Scan &s) { s.broken = true; if(e.bot == E_FAT) s.stale = true; };
  auto changed = [&](const std::string &d, const std::string &n) { for(auto &s : ss) if(s.path == d) { s.may.insert(n); s.order_ok = false; } order.erase(d); };
  auto check_end = [&](Scan &s) { std::set<std::string> g(s.got.begin(), s.got.end()); if(s.broken) return; if(!s.find_only) for(auto &x : tree[s.path]) CHECKV(g.count(x.first) || s.may.count(x.first), "entry-missed", "a listing of %s reports its end without %s", s.path.c_str(), x.first.c_str());
    if(!s.find_only && s.order_ok) { if(order.count(s.path)) CHECKV(order[s.path] == s.got, "order-changed", "listing %s again gives another listing", s.path.c_str()); else order[s.path] = s.got; } };
  auto entry = [&](Scan &s, const EvfsInfo &i) -> bool { // false: a dot entry
    std::string n = i.name; s.last = n; s.lastp = i.name; if(n == "." || n == "..") { CHECKV(!nodots, "dots-listed", "a listing of %s delivers %s although dot entries are switched off", s.path.c_str(), n.c_str()); return false; }
    CHECKV(!s.end, "after-end", "a listing of %s delivers %s after its end", s.path.c_str(), n.c_str());
    auto it = tree[s.path].find(n); if(e.bot == E_FAT && !s.order_ok && n.find('~') != std::string::npos) return true; /* FatFs lists a file made behind the listing's back under its short name */ CHECKV(it != tree[s.path].end() || s.may.count(n), "entry-unknown", "a listing of %s delivers %s, which is not there", s.path.c_str(), n.c_str());
    if(!s.broken && !s.may.count(n)) CHECKV(std::find(s.got.begin(), s.got.end(), n) == s.got.end(), "entry-twice", "a listing of %s delivers %s twice", s.path.c_str(), n.c_str());
    s.got.push_back(n); if(it == tree[s.path].end() || s.may.count(n)) return true;
    if(types) CHECKV(!!(i.type & EVFS_FILE_DIR) == it->second.dir, "entry-type", "a listing of %s delivers %s with the wrong type", s.path.c_str(), n.c_str());
    if(sizes && !it->second.dir && it->second.size != ~0ull) CHECKV((size_t)i.size == it->second.size, "entry-size", "a listing of %s delivers %s with size %ld, it has %zu", s.path.c_str(), n.c_str(), (long)i.size, it->second.size);
    return true; };
  for(unsigned k = 0; k < steps; k++) {
    bool on = faulty && choose(2); uint64_t f0 = e.fired(); auto arm = [&] { if(!on) return; if(choose(4) == 0) alloc_fault_next(geom(3), 0); e.arm(mean); f0 = e.fired(); }; auto hurt = [&] { bool h = e.fired() != f0; e.calm(); return h; };
    switch(weighted({4, 16, 8, 3, 2, e.ro ? 0u : 3u, 2})) {
    case 0: { if(ss.size() >= 4) break; Scan s; std::vector<std::string> ds; for(auto &x : tree) ds.push_back(x.first); s.path = oneof(ds); arm(); int st = a_opendir(s.path, &s.d, v); bool h = hurt(); if(st != EVFS_OK) { CHECKV(h, "listing-refused", "%s can't be listed (%d)", s.path.c_str(), st); break; } ss.push_back(s); if(ss.size() > 1) PROBE("several_listings"); break; }
    case 1: { if(ss.empty()) break; Scan &s = ss[choose((uint32_t)ss.size())]; if(s.stale) break; unsigned n = choose(5) ? 1 : 100; for(unsigned j = 0; j < n; j++) {
        EvfsInfo i; memset(&i, 0x5A, sizeof i); i.name = nullptr; arm(); s.lastp = nullptr; int st = api("dir_read", [&] { return evfs_dir_read(s.d, &i); }); bool h = hurt();
        if(st == EVFS_OK) { CHECKV(i.name, "dir-no-name", "an entry without a name"); entry(s, i); names_ok("after another was read"); continue; }
        if(st == EVFS_DONE) { if(!s.end) check_end(s); if(!s.end && !s.broken) { ended++; if(s.got.size() > 1) nontrivial(); } s.end = true; names_ok("at the end of another"); if(choose(2)) break; continue; }
        CHECKV(h, "listing-failed", "reading a listing of %s reports %d although nothing failed", s.path.c_str(), st); fail(s); PROBE("failed_read"); break; } break; }
    case 2: { if(ss.empty()) break; Scan &s = ss[choose((uint32_t)ss.size())]; if(s.stale) break; bool wild; std::vector<std::string> ns; for(auto &x : tree[s.path]) ns.push_back(x.first); std::string p = pattern(ns, &wild); ev("find %s", p.c_str()); unsigned n = choose(3) ? 1 : 100;
      for(unsigned j = 0; j < n; j++) {
        EvfsInfo i; memset(&i, 0x5A, sizeof i); i.name = nullptr; arm(); s.lastp = nullptr; size_t had = s.got.size(); int st = api("dir_find", [&] { return evfs_dir_find(s.d, p.c_str(), &i); }); bool h = hurt();
        if(wild) { s.broken = true; if(st != EVFS_OK) { if(h) fail(s); break; } continue; }
        if(st == EVFS_OK) { CHECKV(i.name, "dir-no-name", "an entry without a name"); CHECKV(ref_match(p.c_str(), i.name), "find-wrong", "a search for %s finds %s", p.c_str(), i.name); PROBE("found");
          // everything skipped must not match: known when the order is
          std::string nm = i.name; if(order.count(s.path) && s.order_ok && !s.find_only && !s.broken && nm != "." && nm != "..") { auto &o = order[s.path]; size_t q = had; while(q < o.size() && o[q] != nm) { CHECKV(!ref_match(p.c_str(), o[q].c_str()), "find-skipped", "a search for %s passes over %s", p.c_str(), o[q].c_str()); s.got.push_back(o[q]); q++; } CHECKV(q < o.size(), "find-order", "a search for %s finds %s out of order", p.c_str(), nm.c_str()); entry(s, i); PROBE("ordered_find"); }
          else { std::vector<std::string> g = s.got; bool real = entry(s, i); if(real) s.find_only = true; }
          names_ok("after another was searched"); continue; }
        if(st == EVFS_DONE) { if(!s.end && !s.broken) { if(order.count(s.path) && s.order_ok && !s.find_only) { auto &o = order[s.path]; for(size_t q = had; q < o.size(); q++) CHECKV(!ref_match(p.c_str(), o[q].c_str()), "find-skipped", "a search for %s reports the end and passes over %s", p.c_str(), o[q].c_str()); s.find_only = true; }
              else if(s.got.empty() && !s.find_only) for(auto &x : tree[s.path]) CHECKV(s.may.count(x.first) || !ref_match(p.c_str(), x.first.c_str()), "find-skipped", "a search for %s in %s ends without finding %s", p.c_str(), s.path.c_str(), x.first.c_str()); ended++; nontrivial(); }
          s.end = true; s.find_only = true; if(choose(2)) break; continue; }
        CHECKV(h, "listing-failed", "searching %s reports %d although nothing failed", s.path.c_str(), st); fail(s); PROBE("failed_find"); break; } break; }
    case 3: { if(ss.empty()) break; Scan &s = ss[choose((uint32_t)ss.size())]; arm(); int st = a_rewind(s.d); bool h = hurt(); if(st != EVFS_OK) { CHECKV(h, "rewind-failed", "rewinding %s reports %d", s.path.c_str(), st); fail(s); s.lastp = nullptr; break; } start(s); PROBE("rewound"); break; }
    case 4: { if(ss.empty()) break; size_t q = choose((uint32_t)ss.size()); arm(); EvfsDir *d = ss[q].d; ss.erase(ss.begin() + q); int st = a_dirclose(d); bool h = hurt(); CHECKV(st == EVFS_OK || h, "close-failed", "closing a listing reports %d", st); names_ok("after another was closed"); break; }
    case 5: { std::string d = choose(3) ? "/d" : "/"; if(!tree.count(d)) break; std::vector<std::string> fs; for(auto &x : tree[d]) if(!x.second.dir && x.first != "img" && x.first.size() && x.first[0] != 'v') fs.push_back(x.first);
      if(choose(2) && fs.size() && !e.rotate) { std::string n = oneof(fs); int st = a_delete(at(d, n), v); if(st == EVFS_OK) { tree[d].erase(n); changed(d, n); PROBE("deleted_during"); } }
      else if(e.bot != E_FAT || true) { std::string n = fresh(), data = content(1, 0, range(0, 40)); if(put(at(d, n), V, data)) { tree[d][n] = Obj{false, data.size()}; PROBE("created_during"); } else a_delete(at(d, n), v); changed(d, n); }
      names_ok("after files were made or removed"); break; }
    default: { std::string d = choose(2) && tree.count("/d") ? "/d" : "/"; if(tree[d].empty()) break; std::vector<std::string> ns; for(auto &x : tree[d]) ns.push_back(x.first); EvfsInfo i; a_stat(at(d, oneof(ns)), &i, v); names_ok("after a status was asked for"); } }
  }
  for(auto &s : ss) { // every listing can be finished
    s.lastp = nullptr; DirEnt x; unsigned n = 0; int st; if(s.stale) CHECKV(a_rewind(s.d) == EVFS_OK, "rewind-failed", "rewinding %s fails", s.path.c_str()); while((st = a_dirread(s.d, x)) == EVFS_OK) { CHECKV(!s.end || s.broken || x.name[0] == '.', "after-end", "a listing of %s goes on after its end", s.path.c_str()); CHECKV(++n < 2000, "endless", "a listing of %s does not end", s.path.c_str()); } if(st != EVFS_DONE) { CHECKV(s.broken, "listing-failed", "a listing of %s reports %d", s.path.c_str(), st); }
    if(choose(2)) { CHECKV(a_rewind(s.d) == EVFS_OK, "rewind-failed", "rewinding %s fails", s.path.c_str()); std::set<std::string> g; while((st = a_dirread(s.d, x)) == EVFS_OK) { if(x.name == "." || x.name == "..") continue; CHECKV(g.insert(x.name).second, "entry-twice", "a rewound listing of %s delivers %s twice", s.path.c_str(), x.name.c_str()); }
      CHECKV(st == EVFS_DONE, "listing-failed", "a rewound listing of %s reports %d", s.path.c_str(), st); std::set<std::string> w; for(auto &y : tree[s.path]) w.insert(y.first); CHECKV(g == w, "entry-missed", "a rewound listing of %s delivers %zu entries, there are %zu", s.path.c_str(), g.size(), w.size()); }
    CHECKV(a_dirclose(s.d) == EVFS_OK, "close-failed", "closing a listing failed"); }
  tag(ended * 64 + e.bot); count_probe(strf("on_%s", bottom_name(e.bot)).c_str()); if(e.rotate) PROBE("rotate-shim"); if(nodots) a_ctrl(EVFS_CMD_SET_NO_DIR_DOTS, &zero, v); e.finish();
}

// ------------------------------------------------------------------ C26
void c26() {
  Env e; e.fv.size = 6000000; evfs_init(); e.prepare(oneof(WB)); e.b.yields = false; e.rot_chunk = oneof<unsigned>({64, 500, 4096}); e.rot_chunks = 60000 / e.rot_chunk + 2; e.mount(); e.shims(2, true); std::string V = e.top; const char *v = V.c_str();
  std::string data, p = "/out.txt"; unsigned rounds = range(2, g_cfg.thorough ? 40 : 20); uint64_t ser = 0; EvfsFile *f = nullptr; size_t pos = 0; bool app = false;
  auto reread = [&] { std::string g, part; ptrdiff_t r; CHECKV(a_seek(f, 0, EVFS_SEEK_TO) == EVFS_OK, "stuck", "the file can't be positioned"); while((r = a_read(f, part, range(100, 900))) > 0) g += part; CHECKV(r == 0, "stuck", "reading the file reports %td", r); return g; };
  auto open = [&] { app = data.size() && choose(5) == 0 && !e.rotate; int st = a_open(p, &f, app ? EVFS_RDWR | EVFS_APPEND : EVFS_RDWR | EVFS_OPEN_OR_NEW, v); CHECKV(st == EVFS_OK, "setup", "opening the file failed (%d)", st); pos = app ? data.size() : 0; if(app) { CHECKV(a_seek(f, 0, EVFS_SEEK_REV) == EVFS_OK, "setup", "seek failed"); } };
  open();
  for(unsigned r = 0; r < rounds; r++) {
    if(choose(6) == 0) { CHECKV(a_close(f) == EVFS_OK, "setup", "close failed"); std::string g = slurp(p, V); CHECKV(g == data, "print-lost", "the closed file holds %zu bytes, %zu were printed", g.size(), data.size()); open(); }
    if(!app && choose(4) == 0) { pos = range(0, (uint32_t)data.size()); CHECKV(a_seek(f, (evfs_off_t)pos, EVFS_SEEK_TO) == EVFS_OK, "setup", "seek failed"); }
    if(choose(10) == 0) { // a text that can't be formatted: a wide character the locale has no form for
      if(choose(2)) e.arm(4); if(choose(3) == 0) alloc_fault_next(1, false); uint64_t a0 = allocs_live(); int n = api("printf", [&] { return evfs_file_printf(f, "abc%lcdef", (wint_t)0x20AC); }); e.calm(); CHECKV(n < 0, "print-silent", "printing a text that can't be formatted reports %d", n); if(!e.rotate) CHECKV(allocs_live() == a0, "print-leak", "printing (%d) leaves memory behind: %s", n, allocs_describe().c_str());
      CHECKV((size_t)a_tell(f) == pos, "print-position", "a print that failed moves the position"); PROBE("unformattable_text"); continue; }
    // the text
    std::string s = oneof<std::string>({"", "x", "some text", "100%", std::string(range(1, 200), 'm'), std::string(range(200, 5000), 'l')}); if(!e.rotate && e.bot != E_FAT && chance(1, 60)) { s = std::string(range(65000, 70000), 'h'); PROBE("text-over-64k"); } for(size_t i = 0; i < s.size(); i++) if(s[i] == 'l' || s[i] == 'm') s[i] = (char)('a' + (ser++ * 7 + i) % 26);
    int a = (int)range(0, 5000) - 1000, w = (int)range(0, 30), ch = choose(4) ? 'A' + (int)choose(26) : 0; long long big = -1234567890123ll * (int)choose(3); double fl = a / 8.0; unsigned kind = choose(9);
    if(data.size() + s.size() > 30000) kind = 2;
    std::string want; auto expect = [&](const char *fmt, auto... args) { int n = snprintf(nullptr, 0, fmt, args...); std::string o((size_t)n + 1, 0); snprintf(&o[0], o.size(), fmt, args...); o.resize(n); want = o; };
    switch(kind) { case 0: want = s; break; case 1: expect("%s", s.c_str()); break; case 2: expect("%d", a); break; case 3: expect("%*d|%-*s|%x", w, a, w, s.c_str(), (unsigned)a); break; case 4: expect("<%c%s>", ch, s.c_str()); break; case 5: expect("plain %% text\n"); break; case 6: expect("%lld %s %.3f %s", big, s.c_str(), fl, s.c_str()); break; case 7: expect("%.*s\n", w, s.c_str()); break; default: expect("%c%c%d%c", ch, 'q', a, ch); }
    unsigned t = weighted({4, 2, 2, 2}); uint64_t f0 = e.fired(); if(t == 1) e.arm(oneof<uint32_t>({2, 5, 12})); if(t == 2) alloc_fault_next(geom(2), choose(2)); if(t == 3 && e.bot == E_BASE) { e.b.faults.full = true; e.b.capacity = e.b.used() + range(0, (uint32_t)want.size() + 10); }
    uint64_t a0 = allocs_live();
    int n = api("printf", [&] { switch(kind) { case 0: return evfs_file_puts(f, s.c_str()); case 1: return evfs_file_printf(f, "%s", s.c_str()); case 2: return evfs_file_printf(f, "%d", a); case 3: return evfs_file_printf(f, "%*d|%-*s|%x", w, a, w, s.c_str(), (unsigned)a); case 4: return evfs_file_printf(f, "<%c%s>", ch, s.c_str()); case 5: return evfs_file_printf(f, "plain %% text\n"); case 6: return evfs_file_printf(f, "%lld %s %.3f %s", big, s.c_str(), fl, s.c_str()); case 7: return evfs_file_printf(f, "%.*s\n", w, s.c_str()); default: return evfs_file_printf(f, "%c%c%d%c", ch, 'q', a, ch); } });
    bool hurt = e.fired() != f0 || (t == 3 && e.bot == E_BASE); e.calm(); e.b.faults.full = false; e.b.capacity = ~0ull; if(!e.rotate) CHECKV(allocs_live() == a0, "print-leak", "printing (%d) leaves memory behind: %s", n, allocs_describe().c_str());
    CHECKV(n <= (int)want.size(), "print-count", "printing %zu bytes reports %d", want.size(), n);
    if(t == 2 && want.size()) CHECKV(n != 0, "print-silent", "printing %zu bytes without memory for them reports success", want.size());
    if(!hurt) CHECKV(n == (int)want.size(), "print-count", "printing %zu bytes reports %d", want.size(), n);
    auto after = [&](size_t k) { std::string o = data; if(k) { if(o.size() < pos + k) o.resize(pos + k); o.replace(pos, k, want, 0, k); } return o; };
    if(hurt) { if(e.bot == E_FAT || e.bot == E_LFS || e.rotate) { size_t was = pos; int cs = a_close(f); open(); pos = was; if(cs != EVFS_OK) { data = reread(); pos = range(0, (uint32_t)data.size()); CHECKV(a_seek(f, (evfs_off_t)pos, EVFS_SEEK_TO) == EVFS_OK, "stuck", "the file can't be positioned"); PROBE("loss_reported_at_close"); continue; } } std::string g = reread(); bool ok = false; if(n >= 0) ok = g == after((size_t)n); if(n < 0 || (e.rotate && !ok)) /* part of a failed write may be left at the end of a log */ for(size_t k = 0; k <= want.size() && !ok; k++) ok = g == after(k);
      if(n < 0 && (e.bot == E_STDIO || e.bot == E_FAT || e.rotate)) ok = ok || true; // the host or the medium may keep what was handed over
      CHECKV(ok, "print-differs", "printing %zu bytes at %zu of %zu reports %d and leaves %zu bytes", want.size(), pos, data.size(), n, g.size()); data = g; pos = range(0, (uint32_t)data.size()); if(app) pos = data.size(); CHECKV(a_seek(f, (evfs_off_t)pos, EVFS_SEEK_TO) == EVFS_OK, "stuck", "the file can't be positioned"); if(n < 0) PROBE("failed_print"); else PROBE("short_print"); nontrivial();
    } else { data = after(want.size()); pos += want.size(); evfs_off_t tl = a_tell(f); CHECKV((size_t)tl == pos, "print-position", "after printing %zu bytes the position is %ld, not %zu", want.size(), (long)tl, pos); if(choose(3) == 0) { std::string g = reread(); CHECKV(g == data, "print-differs", "after printing %zu bytes the file holds %zu bytes%s", want.size(), g.size(), g.size() == data.size() ? " of other text" : ""); CHECKV(a_seek(f, (evfs_off_t)pos, EVFS_SEEK_TO) == EVFS_OK, "stuck", "the file can't be positioned"); } if(want.size() > 600) PROBE("long_text"); if(want.find('\0') != std::string::npos) PROBE("text_with_nul"); }
    tag(((uint64_t)kind << 4) ^ (hurt ? 1 : 0) ^ (n < 0 ? 2 : 0) ^ ((uint64_t)e.bot << 10));
  }
  { std::string g = reread(); CHECKV(g == data, "print-differs", "the file holds %zu bytes, not the %zu printed", g.size(), data.size()); }
  CHECKV(a_close(f) == EVFS_OK, "setup", "close failed"); { std::string g = slurp(p, V); CHECKV(g == data, "print-lost", "the closed file holds %zu bytes, %zu were printed", g.size(), data.size()); }
  count_probe(strf("on_%s", bottom_name(e.bot)).c_str()); if(e.rotate) PROBE("rotate-shim"); e.finish();
}
} // namespace
SCENARIO("C16", c16, 100000000, "a run counts when a copy succeeded, or failed under a fault, and the destination and source were compared");
SCENARIO("C23", c23, 20000000, "a run counts when a path of several missing components was made or its making failed under a fault");
SCENARIO("C25", c25, 20000000, "a run counts when a listing or search reached its end and was compared with the directory");
SCENARIO("C26", c26, 20000000, "a run counts when printing met a fault and the file was compared with the text");
