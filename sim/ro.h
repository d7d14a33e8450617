// Read-only archive mounts (tar, Romfs): archive builders and a client that
// runs a random history on one or two mounts against the known stored tree.
#pragma once
#include "api.h"
extern "C" {
#include "evfs/tar_fs.h"
#include "evfs/tar_rsrc_fs.h"
#include "evfs/romfs_fs.h"
}
namespace sim {
struct Stored { bool dir; std::string data; uint64_t data_off = 0; int kind = 0; std::vector<std::string> old; }; // kind 1: neither a file nor a directory
typedef std::map<std::string, Stored> Tree;        // absolute normalised path -> content

// ------------------------------------------------------------------ tar
struct TarBuilder {
  std::string out;
  void member(const std::string &prefix, const std::string &name, char type, const std::string &data) {
    char h[512]; memset(h, 0, sizeof h);
    memcpy(h, name.data(), std::min<size_t>(name.size(), 100));
    snprintf(h + 100, 8, "%07o", 0644); snprintf(h + 108, 8, "%07o", 1000); snprintf(h + 116, 8, "%07o", 1000);
    snprintf(h + 124, 12, "%011lo", (unsigned long)data.size()); snprintf(h + 136, 12, "%011lo", 1600000000ul);
    h[156] = type; memcpy(h + 257, "ustar  ", 8); memcpy(h + 265, "root", 4); memcpy(h + 297, "root", 4);
    memcpy(h + 345, prefix.data(), std::min<size_t>(prefix.size(), 155));
    memset(h + 148, ' ', 8); unsigned sum = 0; for(int i = 0; i < 512; i++) sum += (unsigned char)h[i];
    snprintf(h + 148, 8, "%06o", sum); h[155] = ' ';
    out.append(h, 512); out += data; if(data.size() % 512) out.append(512 - data.size() % 512, '\0');
  }
};
inline uint32_t some_len() {
  if(chance(1, 80)) { PROBE("file-over-64k"); return range(65000, 140000); }
  switch(choose(8)) { case 0: return 0; case 1: return 512; case 2: return 1024; case 3: return range(510, 514); case 4: return range(1, 20); case 5: return range(1000, 3000); default: return range(1, 700); }
}
inline std::string some_name(unsigned maxlen, unsigned k) {
  static const char *w[] = {"alpha", "b", "readme.txt", "x.y.z", ".hidden", "..odd", "long name", "UPPER", "0", "data-1"};
  std::string n = w[choose(10)];
  if(choose(3)) n += strf("%u", k);
  if(chance(1, 6)) { n += std::string(range(1, maxlen), 'n'); }
  if(n.size() > maxlen) n.resize(maxlen);
  return n;
}
// A random archive; fills the tree of what it stores.
inline std::string make_tar(Tree &t, std::vector<size_t> *headers = nullptr, bool closed = true) {
  TarBuilder b; t["/"] = Stored{true, ""};
  unsigned n = weighted({1, 4, 4}) == 0 ? 0 : chance(1, 50) ? range(250, 330) : range(1, chance(1, 4) ? 40 : 9); if(n >= 250) PROBE("many-members");
  std::vector<std::string> dirs = {""};
  std::string style = oneof<std::string>({"", "", "./"});
  if(style.size() && choose(2)) { if(headers) headers->push_back(b.out.size()); b.member("", "./", '5', ""); }
  for(unsigned k = 0; k < n; k++) {
    std::string d = oneof(dirs);
    unsigned what = weighted({8, 3, 2, 1});
    bool pfx = chance(1, 5) && d.size();                  // split between prefix and name fields
    std::string base = some_name(90, k);
    std::string rel = d + base;
    if(chance(1, 8) && d.size() <= 90) { rel = d; base = ""; while(rel.size() < 100) { rel += (char)('a' + choose(26)); } rel.resize(100); base = rel.substr(d.size()); if(style.size()) { rel = d + "m" + strf("%u", k); base = rel.substr(d.size()); } pfx = false; }
    std::string full = style + rel;
    if(full.size() > 100) { if(!d.size()) continue; pfx = true; }
    std::string prefix, name = full;
    if(pfx) {
      size_t cut = full.rfind('/', full.size() - 1); if(cut == std::string::npos || cut == 0) continue;
      prefix = full.substr(0, cut); name = full.substr(cut + 1);
      if(prefix.size() > 155 || name.size() > 98 || prefix == ".") continue;
    }
    if(t.count("/" + rel) && t["/" + rel].dir) continue;
    if(headers) headers->push_back(b.out.size());
    switch(what) {
    case 0: { std::string data = content(200 + k, 0, some_len()); auto o = t["/" + rel].old; if(t["/" + rel].data.size()) o.push_back(t["/" + rel].data); t["/" + rel] = Stored{false, data, b.out.size() + 512, 0, o}; b.member(prefix, name, '0', data); if(pfx) PROBE("tar-prefix"); if(name.size() == 100) PROBE("tar-name-100"); break; }
    case 1: if(t.count("/" + rel) || rel.size() > 200 || name.size() > 99) { headers ? headers->pop_back() : void(); break; } t["/" + rel] = Stored{true, ""}; b.member(prefix, name + "/", '5', ""); dirs.push_back(rel + "/"); break;
    case 2: b.member(prefix, name + "!", "123467xgK"[choose(9)], choose(2) ? content(900 + k, 0, range(1, 900)) : std::string()); PROBE("tar-nonfile-member"); break;
    default: { std::vector<std::string> f; for(auto &e : t) if(!e.second.dir && style.empty() && e.first.size() <= 100) f.push_back(e.first);
               if(f.empty()) { headers ? headers->pop_back() : void(); break; }
               std::string p = oneof(f), data = content(700 + k, 0, some_len()); auto o = t[p].old; o.push_back(t[p].data); t[p] = Stored{false, data, b.out.size() + 512, 0, o}; b.member("", p.substr(1), '0', data); PROBE("tar-replaced-member"); } }
  }
  switch(weighted({6, 1, 1, 2})) { case 0: b.out.append(1024, '\0'); break; case 1: b.out.append(512, '\0'); break; case 2: if(closed && !b.out.empty()) break; /* fall through */ default: b.out.append(512 * range(3, 18), '\0'); }
  return b.out;
}

// ------------------------------------------------------------------ romfs
struct RomBuilder {
  struct E { std::string name; bool dir; std::string data; int type; uint32_t off = 0; std::vector<int> kids; int parent = 0; int link = -1; };
  std::vector<E> es; std::string vol, out;
  RomBuilder() { es.push_back(E{"", true, "", 1}); }
  int add(int parent, const std::string &name, int type, const std::string &data, int link = -1) { es.push_back(E{name, type == 1, data, type}); es.back().parent = parent; es.back().link = link; es[parent].kids.push_back((int)es.size() - 1); return (int)es.size() - 1; }
  static void be(std::string &s, size_t o, uint32_t v) { s[o] = v >> 24; s[o + 1] = v >> 16; s[o + 2] = v >> 8; s[o + 3] = v; }
  static uint32_t gb(const std::string &s, size_t o) { return ((uint32_t)(uint8_t)s[o] << 24) | ((uint32_t)(uint8_t)s[o + 1] << 16) | ((uint32_t)(uint8_t)s[o + 2] << 8) | (uint8_t)s[o + 3]; }
  size_t head(const std::string &name, int type, uint32_t spec, uint32_t size, bool exec) {
    size_t o = out.size(), n = (16 + name.size() + 1 + 15) & ~15ull; out.append(n, '\0');
    be(out, o, (uint32_t)type | (exec ? 8 : 0)); be(out, o + 4, spec); be(out, o + 8, size); memcpy(&out[o + 16], name.data(), name.size());
    return o;
  }
  void sum(size_t o, size_t n) { be(out, o + 12, 0); uint32_t s = 0; for(size_t i = 0; i < n; i += 4) s += gb(out, o + i); be(out, o + 12, 0u - s); }
  std::vector<size_t> heads; std::vector<std::pair<size_t, int>> fix; // header -> entry whose offset goes into spec
  void setnext(size_t h, uint32_t next) { be(out, h, (gb(out, h) & 15) | next); }
  void dir(int d) {
    // "." and ".." first, as genromfs writes them
    size_t prev = 0; std::vector<size_t> mine;
    if(d == 0) { es[0].off = (uint32_t)out.size(); size_t h = head(".", 1, (uint32_t)out.size(), 0, false); mine.push_back(h); }
    else { size_t h = head(".", 0, es[d].off, 0, false); mine.push_back(h); }
    if(d) be(out, es[d].off + 4, (uint32_t)mine[0]);
    { size_t h = head("..", 0, es[d == 0 ? 0 : es[d].parent].off, 0, false); mine.push_back(h); }
    for(int k : es[d].kids) {
      E &e = es[k]; size_t h = head(e.name, e.type, 0, (uint32_t)(e.type == 0 ? 0 : e.data.size()), choose(2)); e.off = (uint32_t)h; mine.push_back(h);
      if(e.type == 0) fix.push_back({h, e.link});
      if(e.type == 2 || e.type == 3) { out += e.data; while(out.size() % 16) out += '\0'; }
      if(e.type == 1) dir(k);
    }
    for(size_t h : mine) { if(prev) setnext(prev, (uint32_t)h); prev = h; heads.push_back(h); }
  }
  std::string build() {
    out = "-rom1fs-"; out.append(8, '\0'); out += vol; out += '\0'; while(out.size() % 16) out += '\0';
    dir(0);
    for(auto &f : fix) be(out, f.first + 4, es[f.second].off);
    for(size_t h : heads) { size_t n = (16 + strnlen(&out[h + 16], 64) + 1 + 15) & ~15ull; sum(h, n); }
    if(chance(1, 6)) PROBE("rom-unpadded"); else while(out.size() % 1024) out += '\0';
    be(out, 8, (uint32_t)out.size()); sum(0, std::min<size_t>(512, out.size()));
    return out;
  }
};
inline std::string make_rom(Tree &t, std::vector<size_t> *headers = nullptr) {
  RomBuilder b; t["/"] = Stored{true, ""}; b.vol = std::string(range(0, 31), 'v');
  std::vector<std::pair<int, std::string>> dirs = {{0, ""}}, files;
  unsigned n = weighted({1, 6}) == 0 ? 0 : chance(1, 50) ? range(250, 330) : range(1, chance(1, 4) ? 40 : 10); if(n >= 250) PROBE("many-members");
  for(unsigned k = 0; k < n; k++) {
    auto d = oneof(dirs); std::string nm = some_name(31, k), p = d.second + "/" + nm;
    if(t.count(p) || p.size() > 230 || nm == "." || nm == "..") continue;
    switch(weighted({8, 4, 1, 1, 1})) {
    case 0: { std::string data = content(200 + k, 0, some_len()); int e = b.add(d.first, nm, 2, data); t[p] = Stored{false, data, (uint64_t)e, 0}; files.push_back({e, p}); if(nm.size() >= 30) PROBE("rom-long-name"); break; }
    case 1: { int e = b.add(d.first, nm, 1, ""); t[p] = Stored{true, ""}; dirs.push_back({e, p}); break; }
    case 2: b.add(d.first, nm, 3, content(300 + k, 0, range(1, 40))); t[p] = Stored{false, b.es.back().data, 0, 1}; PROBE("rom-symlink"); break;
    case 3: if(files.size()) { auto f = oneof(files); b.add(d.first, nm, 0, "", f.first); t[p] = t[f.second]; PROBE("rom-hard-link"); } break;
    default: b.add(d.first, nm, 7, ""); t[p] = Stored{false, "", 0, 1}; }
  }
  std::string img = b.build();
  // where each file's bytes are
  for(auto &e : t) if(!e.second.dir && !e.second.kind) { auto &x = b.es[e.second.data_off]; e.second.data_off = x.off + ((16 + x.name.size() + 1 + 15) & ~15ull); }
  if(headers) *headers = b.heads;
  return img;
}

// ------------------------------------------------------------------ client
inline std::string norm_abs(const std::string &cwd, const std::string &p) {
  std::string full = (p.size() && (p[0] == '/' || p[0] == '\\')) ? p : cwd + "/" + p; std::vector<std::string> seg; size_t i = 0;
  while(i < full.size()) { size_t e = full.find_first_of("/\\", i); if(e == std::string::npos) e = full.size(); std::string s = full.substr(i, e - i); i = e + 1;
    if(s.empty() || s == ".") continue; if(s == "..") { if(seg.size()) seg.pop_back(); continue; } seg.push_back(s); }
  std::string o; for(auto &s : seg) o += "/" + s; return o.empty() ? "/" : o;
}
struct RoClient {
  std::vector<std::string> mounts;               // one, or two run side by side
  Tree *t; SimFs *medium = nullptr; const char *image = nullptr; // image of the last mount, when it is in memory
  bool addr_check = true, listing = false, cwd_ops = true, faults = false, dots = true, refuse_ops = true; std::vector<bool> no_dots;
  std::string cwd = "/";
  unsigned max_open = 5; uint64_t delivered = 0; unsigned listed = 0, opened_n = 0;
  struct H { std::vector<EvfsFile *> f; std::string path; evfs_off_t pos; };
  struct L { std::vector<EvfsDir *> d; std::string path; std::vector<std::set<std::string>> seen; bool at_end; bool dots; std::vector<std::string> order; };
  std::vector<H> hs; std::vector<L> ls;
  uint64_t f0 = 0;
  std::function<void()> pre; std::function<uint64_t()> other; uint64_t o0 = 0; // further faults: called before a call that may fail; how many hit so far
  void mark() { f0 = medium ? medium->faults_fired : 0; if(other) o0 = other(); if(pre) pre(); }
  bool hurt() { return faults && ((medium && medium->faults_fired != f0) || (other && other() != o0)); }
  std::string pick() {
    std::vector<std::string> ks; for(auto &e : *t) ks.push_back(e.first);
    std::string p;
    switch(weighted({14, 2, 2, 1, 1})) {
      case 0: p = oneof(ks); break;
      case 1: p = oneof(ks) + "/none"; break;
      case 2: p = "/" + some_name(20, 3) + "?"; break;
      case 3: p = oneof(ks); if(p.size() > 1) p.pop_back(); break;
      default: p = oneof(ks) + "x"; }
    return p;
  }
  std::string spell(const std::string &abs) {      // another way to write the same path
    std::string p = abs;
    switch(choose(7)) {
      case 0: case 1: return p;
      case 2: { std::string c = cwd == "/" ? "/" : cwd + "/"; if(p.compare(0, c.size(), c) == 0 && p.size() > c.size()) return p.substr(c.size()); return p; }
      case 3: { std::string c = cwd == "/" ? "/" : cwd + "/"; if(p.compare(0, c.size(), c) == 0 && p.size() > c.size()) return "./" + p.substr(c.size()); return "/." + p; }
      case 4: { size_t at = p.find('/', 1); if(at != std::string::npos) p.insert(at, "/"); return p; }
      case 5: { std::string up; std::string c = cwd; while(c != "/") { up += "../"; c = c.substr(0, c.rfind('/')); if(c.empty()) c = "/"; } return up.empty() ? p : up + p.substr(1); }
      default: return p == "/" ? p : (choose(2) ? p + "/" : "/zz/.." + p); }
  }
  const Stored *find(const std::string &p) { auto it = t->find(p); return it == t->end() ? nullptr : &it->second; }
  bool implicit(const std::string &p) { std::string k = p == "/" ? p : p + "/"; for(auto &e : *t) if(e.first.compare(0, k.size(), k) == 0 && e.first != p) return true; return false; }
  void open() {
    std::string p = pick(), sp = spell(p); bool toolong = false; if(sp.size() + cwd.size() >= 240) sp = p;
    if(p.size() >= 250) toolong = true;
    const Stored *s = find(norm_abs(cwd, sp)); bool imp = !s && implicit(norm_abs(cwd, sp));
    H h; h.path = norm_abs(cwd, sp); h.pos = 0; bool any_ok = false, any_bad = false;
    for(auto &m : mounts) {
      EvfsFile *f; mark(); int st = a_open(sp, &f, EVFS_READ, m.c_str());
      if(st == EVFS_OK) { any_ok = true; CHECKV(s && !s->dir && !s->kind, "opened-nothing", "opening %s succeeded although no such file is stored", h.path.c_str()); }
      else { any_bad = true;
        if(hurt() || toolong) {}
        else if(s && !s->dir && !s->kind) violate("not-opened", "the stored file %s cannot be opened (%d)", h.path.c_str(), st);
        else if(!s && !imp) CHECKV(st == EVFS_ERR_NO_FILE || st == EVFS_ERR_NO_PATH, "missing-status", "opening the missing path %s reports %d instead of a missing file", h.path.c_str(), st);
        f = nullptr; }
      h.f.push_back(f);
    }
    if(any_ok && any_bad) { CHECKV(faults, "mounts-differ", "%s opens on one mount only", h.path.c_str()); for(auto f : h.f) if(f) a_close(f); return; }
    if(any_ok) {
      opened_n++;
      if(addr_check) for(size_t i = 0; i + (image ? 1 : 0) < mounts.size(); i++) { uint8_t *a = nullptr; int st = a_fctrl(h.f[i], EVFS_CMD_GET_RSRC_ADDR, &a); CHECKV(st < 0 && !a, "rsrc-addr", "a file of a mount that reads its image from a file claims a memory address (%d)", st); }
      if(image) { uint8_t *a = nullptr; int st = a_fctrl(h.f.back(), EVFS_CMD_GET_RSRC_ADDR, &a);
        CHECKV(st == EVFS_OK, "rsrc-addr", "no memory address for an open file (%d)", st);
        CHECKV((const char *)a == image + s->data_off, "rsrc-addr", "the memory address of %s is at image offset %td, its bytes are at %llu", h.path.c_str(), (const char *)a - image, (unsigned long long)s->data_off); }
      hs.push_back(h); }
  }
  void file_op() {
    size_t k = choose((uint32_t)hs.size()); H &h = hs[k]; const std::string &d = find(h.path)->data; evfs_off_t size = (evfs_off_t)d.size();
    switch(weighted({8, 4, 2, 2, refuse_ops ? 2u : 0u})) {
    case 0: {
      size_t n = choose(4) ? range(1, size > 60000 && choose(2) ? 150000 : 900) : range(0, 3); bool all = true; ptrdiff_t first = 0;
      for(size_t i = 0; i < h.f.size(); i++) {
        std::string got; mark(); ptrdiff_t r = a_read(h.f[i], got, n), want = std::min<evfs_off_t>(n, size - h.pos);
        if(r < 0) { CHECKV(hurt(), "read-fails", "reading %s reports %td although the archive is readable", h.path.c_str(), r); all = false; r = 0; }
        CHECKV(d.compare(h.pos, r, got) == 0, "wrong-bytes", "%s at %ld delivers bytes other than the stored ones", h.path.c_str(), (long)h.pos);
        if(!hurt()) CHECKV(r == want, "read-count", "reading %zu at %ld of %s (size %ld) delivers %td bytes", n, (long)h.pos, h.path.c_str(), (long)size, r);
        evfs_off_t at = a_tell(h.f[i]); CHECKV(at == h.pos + r, "position", "after reading %td bytes at %ld the position of %s is %ld", r, (long)h.pos, h.path.c_str(), (long)at);
        delivered += r; if(i == 0) first = r; else if(r != first) all = false;
      }
      if(h.f.size() > 1 && !all) { for(auto f : h.f) { mark(); int st = a_seek(f, h.pos, EVFS_SEEK_TO); CHECKV(st == EVFS_OK, "seek", "seeking back failed (%d)", st); } }
      else h.pos += first;
      break; }
    case 1: {
      EvfsSeekDir dir = (EvfsSeekDir)(1 + choose(3)); evfs_off_t o = range(0, (uint32_t)size + 20); if(dir == EVFS_SEEK_REL && choose(2)) o = -o;
      evfs_off_t want = dir == EVFS_SEEK_TO ? o : dir == EVFS_SEEK_REL ? h.pos + o : size - o; int st0 = 0;
      for(size_t i = 0; i < h.f.size(); i++) {
        mark(); int st = a_seek(h.f[i], o, dir);
        if(i == 0) st0 = st; else CHECKV(hurt() || st == st0, "mounts-differ", "a seek reports %d on one mount and %d on the other", st0, st);
        CHECKV(st == EVFS_OK, "seek", "seeking to %ld failed (%d)", (long)want, st);
        evfs_off_t at = a_tell(h.f[i]), exp = want < 0 ? 0 : std::min(want, size);
        CHECKV(at == exp, "position", "after a seek to %ld of %s (size %ld) the position is %ld", (long)want, h.path.c_str(), (long)size, (long)at);
      }
      h.pos = want < 0 ? 0 : std::min(want, size);
      break; }
    case 2: for(auto f : h.f) {
        evfs_off_t sz = a_size(f); CHECKV(sz == size, "size", "%s reports size %ld, stored are %ld bytes", h.path.c_str(), (long)sz, (long)size);
        CHECKV(a_tell(f) == h.pos, "position", "the position moved without an operation on %s", h.path.c_str());
        CHECKV(a_eof(f) == (h.pos >= size), "eof", "end-of-file of %s at %ld of %ld is wrong", h.path.c_str(), (long)h.pos, (long)size); }
      if(image && choose(2)) { uint8_t *a = nullptr; int st = a_fctrl(h.f.back(), EVFS_CMD_GET_RSRC_ADDR, &a); CHECKV(st == EVFS_OK && (const char *)a == image + find(h.path)->data_off, "rsrc-addr", "at position %ld the memory address of %s is at image offset %td, its bytes are at %llu", (long)h.pos, h.path.c_str(), (const char *)a - image, (unsigned long long)find(h.path)->data_off); }
      break;
    case 3: for(auto f : h.f) CHECKV(a_close(f) == EVFS_OK, "close", "close failed"); hs.erase(hs.begin() + k); break;
    default: for(auto f : h.f) {
        if(choose(2)) { ptrdiff_t r = a_write(f, content(5, 0, range(1, 30))); CHECKV(r < 0, "write-accepted", "writing to a read-only file reported %td", r); }
        else { int st = a_trunc(f, range(0, 10)); CHECKV(st < 0, "truncate-accepted", "truncating a read-only file reported %d", st); }
        CHECKV(a_tell(f) == h.pos && a_size(f) == size, "position", "a refused operation moved the position or size of %s", h.path.c_str()); } }
  }
  void stat() {
    std::string p = pick(), sp = spell(p); if(sp.size() + cwd.size() >= 240) sp = p; std::string np = norm_abs(cwd, sp); const Stored *s = find(np); bool imp = !s && implicit(np);
    for(auto &m : mounts) {
      EvfsInfo i; mark(); int st = a_stat(sp, &i, m.c_str());
      if(st == EVFS_OK) { if(imp) continue; CHECKV(s, "stat-nothing", "stat of %s succeeded although it is not stored", np.c_str());
        CHECKV(!!(i.type & EVFS_FILE_DIR) == s->dir, "stat-type", "stat of %s reports the wrong type", np.c_str());
        if(!s->dir && !s->kind) CHECKV(i.size == (evfs_off_t)s->data.size(), "stat-size", "stat of %s reports size %ld, stored are %zu bytes", np.c_str(), (long)i.size, s->data.size()); }
      else if(!hurt() && np.size() < 250) { if(s) { CHECKV(s->kind, "stat-fails", "stat of the stored path %s reports %d", np.c_str(), st); }
        else if(!imp) CHECKV(st == EVFS_ERR_NO_FILE || st == EVFS_ERR_NO_PATH, "missing-status", "stat of the missing path %s reports %d instead of missing", np.c_str(), st); }
    }
  }
  void chdir() {
    if(choose(8) == 0) { // longer than any path may be
      std::string lp = (choose(2) ? "/" : "") + std::string(EVFS_MAX_PATH + choose(80), 'q'), c;
      for(auto &m : mounts) { mark(); int st = a_chdir(lp, m.c_str()); CHECKV(st < 0, "chdir-too-long", "changing to a directory of %zu characters succeeded", lp.size());
        st = a_getcwd(c, m.c_str()); CHECKV(st == EVFS_OK && c == cwd, "cwd", "a refused directory change moved the current directory from %s to %s", cwd.c_str(), c.c_str()); }
      return; }
    std::string p = pick(), sp = spell(p); if(sp.size() + cwd.size() >= 240) sp = p; std::string np = norm_abs(cwd, sp); const Stored *s = find(np); if(!s && implicit(np)) return;
    bool moved = false, stayed = false;
    for(auto &m : mounts) { mark(); int st = a_chdir(sp, m.c_str());
      if(st == EVFS_OK) { moved = true; CHECKV(s && s->dir, "chdir", "changing to %s succeeded although it is not a stored directory", np.c_str()); }
      else { stayed = true; CHECKV(hurt() || !(s && s->dir) || np.size() >= 250, "chdir", "changing to the stored directory %s reports %d", np.c_str(), st); } }
    if(moved && stayed) { CHECKV(faults, "mounts-differ", "one mount changes to %s", np.c_str()); for(auto &m : mounts) { mark(); int st = a_chdir(cwd, m.c_str()); if(st != EVFS_OK) { if(medium) medium->faults_stop(); CHECKV(a_chdir(cwd, m.c_str()) == EVFS_OK, "chdir", "cannot change back"); if(medium) medium->faults_on = true; } } }
    else if(moved) cwd = np;
    for(auto &m : mounts) { std::string c; int st = a_getcwd(c, m.c_str()); CHECKV(st == EVFS_OK && c == cwd, "cwd", "the current directory reads %s, expected %s", c.c_str(), cwd.c_str()); }
  }
  // ---- listings
  std::map<std::string, const Stored *> kids(const std::string &p) {
    std::map<std::string, const Stored *> o; std::string k = p == "/" ? p : p + "/";
    for(auto &e : *t) if(e.first.size() > k.size() && e.first.compare(0, k.size(), k) == 0 && e.first.find('/', k.size()) == std::string::npos) o[e.first.substr(k.size())] = &e.second;
    return o;
  }
  void open_dir() {
    std::string p = pick(), sp = spell(p); if(sp.size() + cwd.size() >= 240) sp = p; std::string np = norm_abs(cwd, sp); const Stored *s = find(np);
    L l; l.path = np; l.at_end = false; l.dots = dots; bool ok = false, bad = false;
    for(auto &m : mounts) { EvfsDir *d; mark(); int st = a_opendir(sp, &d, m.c_str());
      if(st == EVFS_OK) { ok = true; CHECKV(s && s->dir, "opendir", "listing %s succeeded although it is not a stored directory", np.c_str()); }
      else { bad = true; d = nullptr; CHECKV(hurt() || !(s && s->dir) || np.size() >= 250, "opendir", "listing the stored directory %s reports %d", np.c_str(), st); }
      l.d.push_back(d); l.seen.emplace_back(); }
    if(ok && bad) { CHECKV(faults, "mounts-differ", "%s lists on one mount only", np.c_str()); for(auto d : l.d) if(d) a_dirclose(d); }
    else if(ok) ls.push_back(l);
  }
  void check_ent(L &l, size_t i, const DirEnt &e, std::map<std::string, const Stored *> &k) {
    bool dot = e.name == "." || e.name == "..";
    CHECKV(l.seen[i].insert(e.name).second, "listing-duplicate", "listing %s delivers %s twice", l.path.c_str(), e.name.c_str());
    if(dot) { CHECKV(l.dots, "listing-dots", "listing %s delivers %s although that is switched off", l.path.c_str(), e.name.c_str()); CHECKV(e.dir, "listing-type", "%s is not listed as a directory", e.name.c_str()); return; }
    auto it = k.find(e.name); CHECKV(it != k.end(), "listing-extra", "listing %s delivers %s, which is not stored there", l.path.c_str(), e.name.c_str());
    CHECKV(e.dir == it->second->dir, "listing-type", "%s in %s is listed with the wrong type", e.name.c_str(), l.path.c_str());
    if(!e.dir && !it->second->kind) CHECKV(e.size == (evfs_off_t)it->second->data.size(), "listing-size", "%s in %s is listed with size %ld, stored are %zu bytes", e.name.c_str(), l.path.c_str(), (long)e.size, it->second->data.size());
  }
  void dir_op(size_t n) {
    L &l = ls[n]; auto k = kids(l.path);
    switch(weighted({12, 1, 2, 3})) {
    case 0: {
      for(size_t i = 0; i < l.d.size(); i++) {
        DirEnt e; mark(); int st = a_dirread(l.d[i], e);
        if(st == EVFS_OK) { check_ent(l, i, e, k); listed++; }
        else if(st == EVFS_DONE) { for(auto &x : k) CHECKV(l.seen[i].count(x.first), "listing-misses", "listing %s ends without %s", l.path.c_str(), x.first.c_str());
          if(l.dots) CHECKV(l.seen[i].count(".") && l.seen[i].count(".."), "listing-misses", "listing %s ends without the dot entries", l.path.c_str()); }
        else CHECKV(hurt(), "listing-fails", "listing %s reports %d although the image is readable", l.path.c_str(), st);
      }
      if(l.d.size() > 1 && !faults) CHECKV(l.seen[0] == l.seen[1], "mounts-differ", "the listing of %s differs", l.path.c_str());
      break; }
    case 1: for(size_t i = 0; i < l.d.size(); i++) { CHECKV(a_rewind(l.d[i]) == EVFS_OK, "rewind", "rewind failed"); l.seen[i].clear(); } l.dots = dots; break;
    case 2: for(auto d : l.d) CHECKV(a_dirclose(d) == EVFS_OK, "dir-close", "closing a listing failed"); ls.erase(ls.begin() + n); break;
    default: // to the end
      for(size_t i = 0; i < l.d.size(); i++) for(unsigned tries = 0; tries < 4 * k.size() + 40; tries++) {
        DirEnt e; mark(); int st = a_dirread(l.d[i], e);
        if(st == EVFS_OK) { check_ent(l, i, e, k); listed++; continue; }
        if(st < 0) { CHECKV(hurt(), "listing-fails", "listing %s reports %d although the image is readable", l.path.c_str(), st); continue; }
        for(auto &x : k) CHECKV(l.seen[i].count(x.first), "listing-misses", "listing %s ends without %s", l.path.c_str(), x.first.c_str());
        st = a_dirread(l.d[i], e); CHECKV(st == EVFS_DONE || hurt(), "listing-end", "reading past the end of a listing returned %d", st);
        break;
      }
    }
  }
  void bad_open() {
    static const int fl[] = {EVFS_WRITE, EVFS_RDWR, EVFS_RDWR | EVFS_APPEND, EVFS_RDWR | EVFS_OVERWRITE, EVFS_WRITE | EVFS_NO_EXIST, EVFS_OPEN_OR_NEW, EVFS_READ | EVFS_NO_EXIST, EVFS_READ | EVFS_OPEN_OR_NEW, EVFS_READ | EVFS_APPEND, EVFS_READ | EVFS_OVERWRITE};
    std::string p = pick(); int f = fl[choose(10)];
    for(auto &m : mounts) { EvfsFile *h; int st = a_open(p, &h, f, m.c_str()); if(st == EVFS_OK) { a_close(h); violate("write-open-accepted", "opening %s with flags %x succeeded on a read-only mount", p.c_str(), f); }
      if(choose(2)) { CHECKV(a_delete(p, m.c_str()) < 0, "delete-accepted", "deleting %s on a read-only mount succeeded", p.c_str()); }
      else if(choose(2)) { CHECKV(a_rename(p, p + "2", m.c_str()) < 0, "rename-accepted", "renaming %s on a read-only mount succeeded", p.c_str()); }
      else { CHECKV(a_mkdir(p + "9", m.c_str()) < 0, "mkdir-accepted", "creating a directory on a read-only mount succeeded"); } }
  }
  void step() {
    switch(weighted({4, 14, 3, cwd_ops ? 2u : 0u, listing ? 2u : 0u, listing ? 7u : 0u, refuse_ops ? 1u : 0u})) {
    case 0: if(hs.size() < max_open) { open(); break; } // fall through
    case 1: if(hs.size()) file_op(); else open(); break;
    case 2: stat(); break;
    case 3: chdir(); break;
    case 4: if(ls.size() < 3) { open_dir(); break; } // fall through
    case 5: if(ls.size()) dir_op(choose((uint32_t)ls.size())); else open_dir(); break;
    default: bad_open(); }
  }
  // read every stored file completely (no faults)
  void sweep() {
    for(auto &e : *t) if(!e.second.dir && !e.second.kind && e.first.size() < 250) for(auto &m : mounts) {
      EvfsFile *f; int st = a_open(e.first, &f, EVFS_READ, m.c_str()); CHECKV(st == EVFS_OK, "not-opened", "the stored file %s cannot be opened (%d)", e.first.c_str(), st);
      std::string got; ptrdiff_t r = a_read_all(f, got, e.second.data.size()); CHECKV(r >= 0, "read-fails", "reading %s failed (%td)", e.first.c_str(), r);
      CHECKV(got == e.second.data, "wrong-bytes", "%s does not read back as stored", e.first.c_str()); a_close(f); delivered += got.size(); }
    if(listing) for(auto &e : *t) if(e.second.dir) for(auto &m : mounts) {
      L l; l.path = e.first; l.dots = dots; l.seen.resize(1); EvfsDir *d; int st = a_opendir(e.first, &d, m.c_str()); CHECKV(st == EVFS_OK, "opendir", "listing %s failed (%d)", e.first.c_str(), st);
      auto k = kids(e.first); DirEnt x; while((st = a_dirread(d, x)) == EVFS_OK) check_ent(l, 0, x, k);
      CHECKV(st == EVFS_DONE, "listing-fails", "listing %s reports %d", e.first.c_str(), st); for(auto &y : k) CHECKV(l.seen[0].count(y.first), "listing-misses", "listing %s ends without %s", e.first.c_str(), y.first.c_str());
      a_dirclose(d); }
  }
  void close_all() {
    for(auto &h : hs) for(auto f : h.f) CHECKV(a_close(f) == EVFS_OK, "close", "close failed"); hs.clear();
    for(auto &l : ls) for(auto d : l.d) CHECKV(a_dirclose(d) == EVFS_OK, "dir-close", "closing a listing failed"); ls.clear();
  }
};
} // namespace sim
