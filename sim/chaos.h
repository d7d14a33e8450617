// A client that does anything at all, and checks nothing but that every call
// returns in an orderly way (api.h).
#pragma once
#include "env.h"
namespace sim {
struct Chaos { // anything at all; what the calls report is not looked at
  std::string V; bool chd = false, extra = false; bool careful = false; // FatFs: objects in use must not be removed, renamed or opened again, nor a directory moved into itself
  std::vector<EvfsFile *> fs; std::vector<EvfsDir *> ds; static int &in_use() { static int n; return n; } unsigned calls = 0, good = 0; bool have_x = false; std::string x;
  std::string path() {
    static const std::vector<std::string> P = {"/a", "/b", "/d/a", "/d/b", "/d", "/e/x", "a", "d/a", "d", "/", ".", "..", "../a", "", "//d//a", "/d/../b", "/a/x", "/none/none/x", "/d/e", "/file.txt"};
    switch(weighted({12, 1, 1, 1})) { case 0: return oneof(P); case 1: return "/" + std::string(range(230, 300), 'p'); case 2: { std::string s; unsigned n = range(60, 150); while(n--) s += "/q"; return s; } default: return std::string(range(1, 40), 'r') + "/" + std::string(range(1, 260), 's'); }
  }
  void did(long st) { calls++; if(st >= 0) good++; }
  void step() {
    const char *v = V.c_str(); std::string s; EvfsInfo i; StringRange r; char buf[EVFS_MAX_PATH + 40];
    switch(weighted({8, 14, 3, 2, 1, 2, 2, 4, 8, 2, chd ? 2u : 0u, 2, 1, extra ? 3u : 0u, 2})) {
    case 0: { if(fs.size() >= 4 || (careful && in_use())) break; EvfsFile *f; int fl = oneof<int>({EVFS_READ, EVFS_RDWR | EVFS_OPEN_OR_NEW, EVFS_WRITE | EVFS_OVERWRITE, EVFS_WRITE | EVFS_NO_EXIST, EVFS_APPEND, EVFS_RDWR, EVFS_WRITE}); int st = a_open(path(), &f, fl, v); did(st); if(st == EVFS_OK) { fs.push_back(f); in_use()++; } break; }
    case 1: { if(fs.empty()) break; size_t k = choose((uint32_t)fs.size()); EvfsFile *f = fs[k]; evfs_off_t o = range(0, 900); unsigned u = choose(2000);
      switch(choose(14)) {
      case 0: did(a_read(f, s, range(1, 400))); break; case 1: case 2: case 3: did(a_write(f, content(3, 0, range(1, 400)))); break;
      case 4: did(a_seek(f, o, oneof<EvfsSeekDir>({EVFS_SEEK_TO, EVFS_SEEK_REL, EVFS_SEEK_REV}))); break; case 5: did(a_trunc(f, o)); break; case 6: did(a_sync(f)); break; case 7: did(a_size(f)); break; case 8: did(a_tell(f)); a_eof(f); break;
      case 9: { evfs_off_t t = (evfs_off_t)u; a_fctrl(f, oneof<int>({EVFS_CMD_SET_ROTATE_TRIM, 12345}), &t); break; }
      case 10: did(api("printf", [&] { return evfs_file_printf(f, "%d %s", 12, "text"); })); break;
      case 11: { std::string p = path(); if(careful && in_use() > 1) break; did(api("copy", [&] { return evfs_copy_to_file_ex(p.c_str(), f, choose(2) ? buf : nullptr, sizeof buf, v); })); break; }
      default: in_use()--; did(a_close(f)); fs.erase(fs.begin() + k); } break; }
    case 2: did(a_stat(path(), &i, v)); break;
    case 3: if(careful && in_use()) break; did(a_delete(path(), v)); break;
    case 4: { std::string p = path(), q = path(); if(careful && (in_use() || !evfs_existing_file_ex(p.c_str(), v))) break; did(a_rename(p, q, v)); break; }
    case 5: did(a_mkdir(path(), v)); break;
    case 6: { std::string p = path(); did(api("make_path", [&] { return evfs_make_path_ex(p.c_str(), v); })); break; }
    case 7: { if(ds.size() >= 3) break; EvfsDir *d; int st = a_opendir(choose(2) ? "/" : path(), &d, v); did(st); if(st == EVFS_OK) { ds.push_back(d); in_use()++; } break; }
    case 8: { if(ds.empty()) break; size_t k = choose((uint32_t)ds.size()); DirEnt e; switch(choose(5)) { case 0: case 1: did(a_dirread(ds[k], e)); break; case 2: did(api("dir_find", [&] { return evfs_dir_find(ds[k], "*a*", &i); })); break; case 3: did(a_rewind(ds[k])); break; default: in_use()--; did(a_dirclose(ds[k])); ds.erase(ds.begin() + k); } break; }
    case 9: did(a_getcwd(s, v)); break;
    case 10: did(a_chdir(path(), v)); break;
    case 11: { std::string p = path(); r.start = buf; r.end = buf + (choose(2) ? 10 : EVFS_MAX_PATH); did(api("absolute", [&] { return evfs_path_absolute_ex(p.c_str(), &r, v); })); break; }
    case 12: { unsigned u = 0; evfs_vfs_ctrl_ex(oneof<int>({EVFS_CMD_GET_STAT_FIELDS, EVFS_CMD_GET_DIR_FIELDS, 4444}), &u, v); check_no_locks("ctrl"); break; }
    case 13: { if(have_x) { Evfs *w = evfs_find_vfs(x.c_str()); CHECKV(w, "lost", "a registered filesystem is not found"); did(api("unregister", [&] { return evfs_unregister(w); })); have_x = false; break; }
      int st; std::string sv = V; if(choose(2)) st = api("register jail", [&] { return evfs_register_jail(x.c_str(), sv.c_str(), "/", choose(2)); }); else { RotateConfig rc; memset(&rc, 0, sizeof rc); rc.chunk_size = 100; rc.max_chunks = 3; st = api("register rotate", [&] { return evfs_register_rotate(x.c_str(), sv.c_str(), &rc, false); }); } did(st); have_x = st == EVFS_OK; break; }
    default: evfs_find_vfs(oneof<std::string>({"nothing", V}).c_str()); evfs_default_vfs_name(); check_no_locks("find"); }
  }
  void close_all() { for(auto f : fs) a_close(f); for(auto d : ds) a_dirclose(d); in_use() -= (int)(fs.size() + ds.size()); fs.clear(); ds.clear(); if(have_x) { Evfs *w = evfs_find_vfs(x.c_str()); if(w) api("unregister", [&] { return evfs_unregister(w); }); have_x = false; } }
};

// What a failed call must leave as it was: memory, base handles, registrations.
struct Ledger {
  Env &e; uint64_t a0 = 0, f0 = 0; int h0 = 0; uint64_t checked = 0, failed_hit = 0; bool active = true;
  int handles() { return e.b.open_files + e.b.open_dirs + (int)e.h.files.size() + (int)e.h.dirs.size() + (e.bot == E_LFS ? g_lfs.files + g_lfs.dirs : 0); }
  explicit Ledger(Env &e) : e(e) {
    api_before() = [this](const char *) { a0 = allocs_live(); h0 = handles(); };
    api_after() = [this](const char *what, long long r) {
      alloc_faults_off(); lock_init_fault(0); if(!active) return;
      static const std::set<std::string> keeps = {"read", "write", "seek", "tell", "size", "eof", "sync", "truncate", "file_ctrl", "printf", "close", "dir_close", "unregister"};
      checked++; if(r < 0) failed_hit++; std::string w = what;
      if(w == "close" || w == "dir_close") { CHECKV(allocs_live() < a0, "not-released", "%s (%lld) releases no memory", what, r); return; }
      if(w == "open" || w == "opendir" || !strncmp(what, "register", 8) || !strncmp(what, "mount", 5)) { if(r >= 0) return; }
      if(w == "copy" && this->e.rotate) return; // the source may have opened another of its chunks
      if(keeps.count(w)) { if(r < 0 && w != "unregister" && !this->e.rotate) { CHECKV(allocs_live() <= a0, "call-leak", "a failed %s (%lld) leaves memory behind: %s", what, r, allocs_describe().c_str()); CHECKV(handles() <= h0, "call-leak", "a failed %s (%lld) leaves %d base handles behind", what, r, handles() - h0); } return; }
      if(r > 0 && w != "dir_read" && w != "dir_find") return;
      CHECKV(allocs_live() == a0, "call-leak", "%s (%lld) leaves %lld memory blocks more than before: %s", what, r, (long long)(allocs_live() - a0), allocs_describe().c_str());
      CHECKV(handles() == h0, "call-leak", "%s (%lld) leaves %d base handles more than before", what, r, handles() - h0);
    };
  }
  ~Ledger() { api_before() = nullptr; api_after() = nullptr; }
};
} // namespace sim
