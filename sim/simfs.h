// Simulated in-memory base filesystem behind the library's own Evfs interface.
#pragma once
#include "core.h"
#include <ctime>
extern "C" {
#include "evfs.h"
}
#include <memory>

namespace sim {

struct Node;
typedef std::shared_ptr<Node> NodeP;
struct Node {
  bool dir = false;
  std::map<std::string, NodeP> kids;
  std::string data, durable;   // volatile and durable content
  bool linked = true;          // still reachable from the tree
  time_t mtime = 0;
  int opens = 0;
};

enum OpKind { OP_OPEN, OP_STAT, OP_DELETE, OP_RENAME, OP_MKDIR, OP_OPENDIR, OP_GETCWD, OP_SETCWD,
              OP_READ, OP_WRITE, OP_TRUNC, OP_SYNC, OP_SEEK, OP_CLOSE, OP_SIZE, OP_DIRREAD, OP_DIRCLOSE, OP_REWIND, OP_CTRL, OP_NKINDS };
extern const char *op_names[OP_NKINDS];

struct FaultCfg {
  uint32_t mean[OP_NKINDS] = {0}; // 0 = never
  bool shorts = true;             // read/write faults may be short instead of failing
  bool full = false;              // disk capacity applies
};

class SimFs {
public:
  SimFs(const char *name, bool make_default = false);
  // ---- configuration
  std::string name;
  bool sep_both = false;       // '\\' separates too
  bool drive = false;          // DOS style "N:" root prefix accepted
  bool dots = false;           // list . and ..
  bool lifo = false;           // listing order
  bool close_durable = true;   // close makes data durable (embedded filesystems)
  uint32_t sector = 0;         // a power cut loses any subset of the changed blocks of this size
  bool ordered = false;        // every completed operation is durable in order
  uint64_t capacity = ~0ull;   // bytes
  FaultCfg faults; bool faults_on = false;
  bool record_paths = false; std::vector<std::string> paths; // as resolved, absolute
  bool record_calls = false; std::vector<std::string> calls; // abstract call log
  bool readonly_medium = false; std::vector<std::string> write_attempts;
  bool yields = true;
  bool quiet = false;          // no event log (bulk set-up)
  // ---- crash
  void crash_after(uint32_t ops) { crash_in = ops; }
  void power_cut();            // apply the loss of volatile state
  uint64_t ops = 0, muts = 0;
  uint32_t crash_in = 0;
  bool crash_on_mut_only = false;
  // ---- faults
  void arm();                  // draw first countdowns
  void faults_stop() { faults_on = false; }
  bool lossy_close = false; std::vector<NodeP> unsaved; uint64_t closes_failed = 0; // a failed close may drop what was not stored before: the files it hit
  uint64_t faults_fired = 0; int last_fault_kind = -1; int last_fault_code = 0;
  uint64_t faults_by_kind[OP_NKINDS] = {0};
  // ---- direct access for models and set-up (no events, no faults)
  NodeP root;
  std::string cwd = "/";
  NodeP find(const std::string &path);
  NodeP put_file(const std::string &path, const std::string &data);
  NodeP put_dir(const std::string &path);
  bool remove(const std::string &path);
  bool exists(const std::string &p) { return (bool)find(p); }
  std::string dump();          // canonical text of the whole tree
  uint64_t used();
  int open_files = 0, open_dirs = 0, bad_handle_uses = 0;
  void check_handles(const char *when); // violate if base handles leak
  void forget_handles();       // after a crash
  Evfs vfs;
  void fill();                 // prepare vfs without registering it
  void reg(bool make_default);
  void unreg();
  bool registered = false;
  // internals used by the C callbacks
  std::string resolve(const std::string &path);
  NodeP walk(const std::string &abs);
  int pre(OpKind k, const char *detail);  // crash, yield, fault; returns error code or 0
  unsigned early_end = 0; // 1 + the number of reads until every file seems to end early; 1: they do
  int fault_code = 0; // the code every fault reports, 0 for any
  int draw_fault_code(OpKind k);
  uint32_t next_fault[OP_NKINDS] = {0};
  void touch(Node &n, const std::string *old);
  uint64_t clock = 1000;
  uint64_t session = 1;
  std::set<void *> live;
  void do_crash(Node *inflight, const std::string &base_content, size_t base_len_written);
};

// The sequence of bytes used as file content everywhere: a function of a
// stream id and the offset, so any misplaced byte is recognisable.
inline unsigned char content_byte(uint64_t stream, uint64_t off) {
  uint64_t x = (off + 1) * 0x9E3779B97F4A7C15ull ^ (stream + 7) * 0xC2B2AE3D27D4EB4Full;
  x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
  return (unsigned char)x;
}
std::string content(uint64_t stream, uint64_t off, size_t n);
} // namespace sim
