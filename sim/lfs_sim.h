// Control of the littlefs stand-in.
#pragma once
#include "simfs.h"
#include "lfs_stub/lfs.h"
namespace sim {
enum LfsOp { L_FORMAT, L_MOUNT, L_REMOVE, L_RENAME, L_STAT, L_OPEN, L_CLOSE, L_SYNC, L_READ, L_WRITE, L_SEEK, L_TRUNC, L_TELL, L_SIZE, L_MKDIR, L_DIROPEN, L_DIRCLOSE, L_DIRREAD, L_DIRREWIND, L_N };
extern const char *lfs_op_names[L_N];
struct LfsCtl {
  uint32_t mean[L_N] = {0}, next[L_N] = {0}; bool on = false; uint64_t fired = 0, fired_kind[L_N] = {0}; int last = 0, last_op = 0;
  uint64_t muts = 0;           // calls that could change the volume
  bool dirty_calls = false; std::vector<std::string> changing;
  int files = 0, dirs = 0;     // open objects
  void arm() { on = true; for(int k = 0; k < L_N; k++) next[k] = geom(mean[k]); }
};
extern LfsCtl g_lfs;
int lfs_code(int err);         // the status a littlefs error stands for
// a volume in memory
struct RamDev { std::string mem; lfs_config cfg; lfs_t lfs; uint64_t progs = 0; RamDev(uint32_t blocks); };
} // namespace sim
