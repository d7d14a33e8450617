// The host's C library as seen by the standard-library backend: every call the
// library makes is redirected into a private directory (a virtual "/") and can
// be made to fail the way a host call fails.
#pragma once
#include "simfs.h"
#include <cstdio>
namespace sim {
enum HostKind { H_FOPEN, H_FCLOSE, H_FREAD, H_FWRITE, H_FFLUSH, H_FSEEK, H_FTELL, H_FSTAT, H_FTRUNC, H_STAT, H_MKDIR, H_REMOVE, H_RENAME,
                H_OPENDIR, H_READDIR, H_CLOSEDIR, H_GETCWD, H_CHDIR, H_N };
extern const char *host_names[H_N];
class HostFs {
public:
  std::string root;            // real directory shown as "/"
  std::string cwd = "/";       // virtual
  bool active = false;         // library calls are redirected
  bool no_dtype = false;       // the host does not report types in listings
  bool record = false;         // note every call that could change the host
  std::vector<std::string> changing;
  uint32_t mean[H_N] = {0}, next[H_N] = {0}; bool faults_on = false;
  uint64_t fired = 0, fired_kind[H_N] = {0};
  std::vector<int> errs;       // errno values injected since last cleared
  uint64_t lost_on_close = 0;  // closes that failed with data pending
  std::set<void *> files, dirs; uint64_t bad_uses = 0;
  void start(const std::string &real_root);
  void arm(); void stop() { faults_on = false; }
  int pre(HostKind k);         // 0 or the errno to fail with
  std::string map(const char *p, int *err);
  // direct access
  std::string dump(); std::string raw(const std::string &p, bool *ok = nullptr);
  void put(const std::string &p, const std::string &d); void dir(const std::string &p);
  ~HostFs();
};
extern HostFs *g_host;
int host_code(int err);        // the status a host error stands for

// The same calls made directly on a twin directory (no stdio, no faults):
// what the host itself does.
class HostRef {
public:
  HostRef(const char *name, const std::string &real_root);
  ~HostRef();
  std::string name, root, cwd = "/"; int cwdfd = -1; Evfs vfs;
};
} // namespace sim
