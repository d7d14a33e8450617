// Deterministic simulation core: choice sequence, event log, fibers, locks,
// allocation ledger, fault counters.  One run = one forked child = one seed.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

namespace sim {

// ---------- choices ----------
// Every decision of a run goes through these and is recorded.  0 is always the
// simplest outcome (no fault, no switch, first alternative) so that replaying a
// truncated list, or zeroing entries, simplifies the run.
uint32_t choose(uint32_t n);                 // uniform in [0,n)
bool     chance(uint32_t num, uint32_t den); // true with num/den
uint32_t geom(uint32_t mean);                // 0 = never, else >= 1
uint32_t range(uint32_t lo, uint32_t hi);    // inclusive; lo is simplest
uint32_t weighted(const std::vector<uint32_t> &w); // index, by weight
template<class T> const T &oneof(const std::vector<T> &v) { return v[choose((uint32_t)v.size())]; }

// ---------- event log ----------
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void tag(uint64_t v);          // contribute to the abstract state/schedule measure
void nontrivial();             // this run reached the situation the property is about
void sim_advance(uint64_t us); // advance simulated time
uint64_t sim_now();            // simulated microseconds
int64_t wall_clock();          // what time() tells the library, in seconds
void set_wall_clock(int64_t t);

// ---------- verdicts ----------
[[noreturn]] void violate(const char *klass, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECKV(cond, klass, ...) do { if(!(cond)) sim::violate(klass, __VA_ARGS__); } while(0)
[[noreturn]] void finish_ok(); // end run early, no violation
[[noreturn]] void harness_error(const char *fmt, ...);

// ---------- counters ----------
struct Counter { int idx; Counter(const char *name); void hit(uint64_t n = 1); };
#define PROBE(name) do { static sim::Counter c_("probe:" name); c_.hit(); } while(0)
#define FAULT(name) do { static sim::Counter c_("fault:" name); c_.hit(); } while(0)
void count_fault(const char *kind);   // dynamic name
void count_probe(const char *name);

// ---------- fibers ----------
int  spawn(const std::function<void()> &fn, const char *name);
void join_all();                   // run until every spawned fiber ended (or crash)
void yield_point(int weight = 1);  // possible preemption
int  cur_fiber();
void set_preempt(bool on, uint32_t mean_edges, uint32_t sync_weight);
bool preempt_on();
void step_budget(uint64_t steps);  // edges allowed before the run counts as hung
uint64_t steps_used();
[[noreturn]] void crash_now();     // abandon all workload fibers, resume the controller
bool crashed();                    // since last clear
void clear_crash();
struct NoPreempt { bool old; NoPreempt(); ~NoPreempt(); };

// ---------- locks (wrapped pthread/c11) ----------
int  locks_held_by_me();
int  locks_live();                 // initialised and not destroyed (heap)
int  locks_live_any();             // the library-wide one too
void locks_forget();               // after a simulated crash
void check_no_locks(const char *where);
void lock_init_fault(uint32_t countdown); uint64_t lock_init_faults_fired(); // creating a lock fails
extern uint64_t g_lock_ops;

// ---------- allocations (wrapped malloc family in library objects) ----------
struct AllocPlan { bool on = false; uint32_t next = 0; uint32_t burst = 0; };
void alloc_fault_next(uint32_t countdown, uint32_t burst); // 0 = off
void alloc_faults_off();
void alloc_limit(size_t n); // requests for this much or more fail, not counted as a fault; 0 = off
uint64_t allocs_live(); uint64_t alloc_bytes_live();
std::string allocs_describe();
uint64_t alloc_seq();          // number of allocations so far
uint64_t alloc_faults_fired();
void allocs_forget();
void alloc_checkpoint(std::set<void*> &out);

// ---------- run context ----------
struct RunCfg { std::string prop; std::string variant; uint64_t seed; uint64_t index; bool thorough; };
extern RunCfg g_cfg;
bool threaded_build();

struct Scenario { const char *prop; void (*fn)(); uint64_t step_budget; int wall_ms; const char *rule; };
void register_scenario(const Scenario &s);
struct Reg { Reg(const Scenario &s) { register_scenario(s); } };
#define SCENARIO(prop, fn, budget, rule) static sim::Reg reg_##fn(sim::Scenario{prop, fn, budget, 20000, rule})

// helpers
void run_atexit_hooks();       // the library's own shutdown hook(s)
std::string hexs(const std::string &s, size_t max = 32);
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string scratch_dir();     // per-run private directory (already created)
} // namespace sim
