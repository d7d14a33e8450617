#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <chrono>
#include <ucontext.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <grp.h>
#include <pthread.h>
#include <threads.h>

extern const char *sim_variant;
extern "C" {
void __sanitizer_start_switch_fiber(void **fake_stack_save, const void *bottom, size_t size);
void __sanitizer_finish_switch_fiber(void *fake_stack_save, const void **bottom_old, size_t *size_old);
void __asan_unpoison_memory_region(void const volatile *addr, size_t size);
const char *__asan_default_options() {
  return "exitcode=77:abort_on_error=0:detect_leaks=0:handle_abort=1:handle_sigfpe=1:"
         "detect_stack_use_after_return=0:allocator_may_return_null=1:max_malloc_fill_size=16777216:"
         "malloc_fill_byte=190:free_fill_byte=221:max_free_fill_size=1048576:quarantine_size_mb=16:"
         "print_stats=0:symbolize=0:fast_unwind_on_malloc=1:malloc_context_size=0:strict_string_checks=0:"
         "detect_odr_violation=0:check_initialization_order=0:print_legend=0:detect_stack_use_after_scope=1";
}
const char *__ubsan_default_options() { return "exitcode=77:print_stacktrace=0:halt_on_error=1:symbolize=0"; }
}

namespace sim {

RunCfg g_cfg;

// ---------------------------------------------------------------- shared result
enum { MAXCH = 1 << 18, MAXCNT = 512, LOGSZ = 1 << 20 };
struct Shared {
  int      status;          // 0 running, 1 ok, 2 violation, 4 harness error
  uint32_t nch;
  uint64_t evhash, evcount, taghash, steps, simtime, sched_switches, lockops;
  uint32_t nontrivial;
  char     klass[160];
  char     msg[1500];
  uint64_t cnt[MAXCNT];
  uint32_t ch[MAXCH];
  uint32_t loglen;          // only when tracing
  char     log[LOGSZ];
};
static Shared *g_sh;
static bool g_trace;
static char (*g_names)[64]; // shared counter names
static uint32_t *g_ncnt;

// ---------------------------------------------------------------- counters
static std::vector<std::string> &cnt_names() { static std::vector<std::string> v; return v; }
static int cnt_index(const char *name) {
  // Names live in shared memory so that counters first hit inside a child keep
  // one index for the whole worker.
  for(uint32_t i = 0; i < *g_ncnt; i++) if(!strcmp(g_names[i], name)) return (int)i;
  if(*g_ncnt >= MAXCNT) return MAXCNT - 1;
  snprintf(g_names[*g_ncnt], 64, "%s", name);
  return (int)(*g_ncnt)++;
}
Counter::Counter(const char *name) : idx(cnt_index(name)) {}
void Counter::hit(uint64_t n) { g_sh->cnt[idx] += n; }
static void count_named(const char *pre, const char *kind) {
  char b[64]; snprintf(b, sizeof b, "%s%s", pre, kind);
  g_sh->cnt[cnt_index(b)]++;
}
void count_fault(const char *kind) { count_named("fault:", kind); }
void count_probe(const char *name) { count_named("probe:", name); }

// ---------------------------------------------------------------- choices
static uint64_t s_rng[4];
static bool s_replay;
static std::vector<uint32_t> s_list;
static size_t s_pos;

static uint64_t splitmix(uint64_t &x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rng() {
  uint64_t r = rotl(s_rng[1] * 5, 7) * 9, t = s_rng[1] << 17;
  s_rng[2] ^= s_rng[0]; s_rng[3] ^= s_rng[1]; s_rng[1] ^= s_rng[2]; s_rng[0] ^= s_rng[3]; s_rng[2] ^= t; s_rng[3] = rotl(s_rng[3], 45);
  return r;
}
static void seed_rng(uint64_t s) { for(int i = 0; i < 4; i++) s_rng[i] = splitmix(s); }

static uint32_t record(uint32_t v) {
  if(g_sh->nch >= MAXCH) { finish_ok(); }
  g_sh->ch[g_sh->nch++] = v;
  return v;
}
static bool replay_next(uint32_t &v) {
  if(!s_replay) return false;
  v = s_pos < s_list.size() ? s_list[s_pos] : 0; s_pos++;
  return true;
}
uint32_t choose(uint32_t n) {
  if(n <= 1) return 0;
  uint32_t v;
  if(replay_next(v)) return record(v % n);
  return record((uint32_t)(rng() % n));
}
bool chance(uint32_t num, uint32_t den) {
  uint32_t v;
  if(replay_next(v)) return record(v ? 1 : 0);
  return record((rng() % den) < num ? 1 : 0);
}
uint32_t geom(uint32_t mean) {
  uint32_t v;
  if(replay_next(v)) return record(v);
  if(mean == 0) return record(0);
  // geometric with the given mean, >= 1
  double u = (double)((rng() >> 11) + 1) / 9007199254740993.0;
  double k = 1 + __builtin_log(u) / __builtin_log(1.0 - 1.0 / (mean < 2 ? 2.0 : (double)mean));
  if(k < 1) k = 1;
  if(k > 1e8) k = 1e8;
  return record((uint32_t)k);
}
uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
uint32_t weighted(const std::vector<uint32_t> &w) {
  uint32_t v, tot = 0;
  for(auto x : w) tot += x;
  if(replay_next(v)) { v %= w.size(); if(w[v] == 0) { v = 0; while(v + 1 < w.size() && !w[v]) v++; } return record(v); }
  uint32_t r = (uint32_t)(rng() % tot), i = 0;
  while(r >= w[i]) { r -= w[i]; i++; }
  return record(i);
}

// ---------------------------------------------------------------- events
uint64_t fnv(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *)p;
  for(size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
void ev(const char *fmt, ...) {
  char b[600];
  va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b - 2, fmt, a); va_end(a);
  if(n < 0) n = 0;
  if(n > (int)sizeof b - 3) n = sizeof b - 3;
  for(int i = 0; i < n; i++) if((unsigned char)b[i] < 32 || (unsigned char)b[i] > 126) b[i] = '?';
  b[n++] = '\n';
  g_sh->evhash = fnv(b, n, g_sh->evhash);
  g_sh->evcount++;
  if(g_trace && g_sh->loglen + n + 24 < LOGSZ)
    g_sh->loglen += snprintf(g_sh->log + g_sh->loglen, LOGSZ - g_sh->loglen, "[%d] %.*s", cur_fiber(), n, b);
}
void tag(uint64_t v) { g_sh->taghash = fnv(&v, sizeof v, g_sh->taghash); }
void nontrivial() { g_sh->nontrivial = 1; }
static uint64_t s_now;
static int64_t s_wall = 1600000000;
int64_t wall_clock() { return s_wall + (int64_t)(sim_now() / 1000000); }
void set_wall_clock(int64_t t) { s_wall = t - (int64_t)(sim_now() / 1000000); }
void sim_advance(uint64_t us) { s_now += us; g_sh->simtime += us; }
uint64_t sim_now() { return s_now; }

static uint64_t s_steps;
[[noreturn]] static void child_exit(int code) { g_sh->steps = s_steps; if(getenv("SIM_RU")) { struct rusage r; getrusage(RUSAGE_SELF, &r); dprintf(1, "flt %ld utime %ld stime %ld\n", r.ru_minflt, (long)r.ru_utime.tv_usec, (long)r.ru_stime.tv_usec); } _exit(code); }
void violate(const char *klass, const char *fmt, ...) {
  va_list a; va_start(a, fmt);
  vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, a);
  va_end(a);
  for(char *c = g_sh->msg; *c; c++) if((unsigned char)*c < 32 || (unsigned char)*c > 126) *c = '?';
  snprintf(g_sh->klass, sizeof g_sh->klass, "%s", klass);
  ev("VIOLATION %s: %s", klass, g_sh->msg);
  g_sh->status = 2;
  child_exit(3);
}
void finish_ok() { if(g_sh->status == 0) g_sh->status = 1; child_exit(0); }
void harness_error(const char *fmt, ...) {
  va_list a; va_start(a, fmt);
  vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, a);
  va_end(a);
  g_sh->status = 4;
  child_exit(4);
}
std::string strf(const char *fmt, ...) {
  char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b;
}
std::string hexs(const std::string &s, size_t max) {
  std::string o; char b[4];
  for(size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, 4, "%02x", (unsigned char)s[i]); o += b; }
  if(s.size() > max) o += "..";
  return o;
}

// ---------------------------------------------------------------- fibers
enum { STK = 512 * 1024, MAXF = 16 };
struct Fiber {
  ucontext_t ctx; char *stack = nullptr; std::function<void()> fn; std::string name;
  bool done = false, started = false; void *wait = nullptr; bool joining = false;
  void *fake = nullptr; int held = 0; bool dead = false;
};
static Fiber *s_f[MAXF]; static int s_nf, s_cur; static const void *s_main_bottom; static size_t s_main_size;
static bool s_pre, s_pre_cfg; static uint32_t s_mean, s_syncw; static int64_t s_count;
static uint64_t s_budget = ~0ull; static bool s_crashed; static bool s_in_sched;
int cur_fiber() { return s_cur; }
uint64_t steps_used() { return s_steps; }
void step_budget(uint64_t s) { s_budget = s_steps + s; }
bool preempt_on() { return s_pre; }

static void fiber_main() {
  Fiber *f = s_f[s_cur];
  __sanitizer_finish_switch_fiber(f->fake, s_cur == 0 ? nullptr : nullptr, nullptr);
  f->fn();
  f->done = true;
  // pick someone else
  for(;;) {
    std::vector<int> r;
    for(int i = 0; i < s_nf; i++) if(!s_f[i]->done && !s_f[i]->dead && !s_f[i]->wait && !s_f[i]->joining) r.push_back(i);
    bool others = false;
    for(int i = 1; i < s_nf; i++) if(!s_f[i]->done && !s_f[i]->dead) others = true;
    if(!others) { s_f[0]->joining = false; r.assign(1, 0); }
    if(r.empty()) { violate("deadlock", "no thread can run: every remaining thread waits for a lock"); }
    int n = r[choose((uint32_t)r.size())];
    int me = s_cur; s_cur = n; (void)me;
    Fiber *t = s_f[n];
    __sanitizer_start_switch_fiber(nullptr, t->stack ? t->stack : s_main_bottom, t->stack ? STK : s_main_size);
    setcontext(&t->ctx);
  }
}
static void switch_to(int n) {
  if(n == s_cur) return;
  Fiber *me = s_f[s_cur], *t = s_f[n];
  g_sh->sched_switches++;
  ev("switch %d->%d", s_cur, n);
  tag(0x5000 + n);
  int old = s_cur, er = errno; s_cur = n; // errno belongs to a thread
  __sanitizer_start_switch_fiber(&me->fake, t->stack ? t->stack : s_main_bottom, t->stack ? STK : s_main_size);
  swapcontext(&me->ctx, &t->ctx);
  __sanitizer_finish_switch_fiber(s_f[old]->fake, nullptr, nullptr);
  s_cur = old; errno = er;
}
static std::vector<int> runnable(bool include_me) {
  std::vector<int> r;
  if(include_me) r.push_back(s_cur);
  for(int i = 0; i < s_nf; i++)
    if(i != s_cur && !s_f[i]->done && !s_f[i]->dead && !s_f[i]->wait && !s_f[i]->joining) r.push_back(i);
  return r;
}
static void redraw() { s_count = s_pre ? (int64_t)geom(s_mean) : 0; if(s_count == 0) s_count = INT64_MAX / 2; }
void set_preempt(bool on, uint32_t mean, uint32_t syncw) {
  s_pre_cfg = on; s_mean = mean; s_syncw = syncw; s_pre = on;
  redraw();
}
NoPreempt::NoPreempt() : old(s_pre) { s_pre = false; }
NoPreempt::~NoPreempt() { s_pre = old; }

static void maybe_switch() {
  if(s_in_sched) return;
  s_in_sched = true;
  redraw();
  std::vector<int> r = runnable(false);
  if(!r.empty()) {
    int n = r[choose((uint32_t)r.size())];
    s_in_sched = false;
    switch_to(n);
    return;
  }
  s_in_sched = false;
}
void yield_point(int weight) {
  s_steps += 1;
  if(s_steps > s_budget) violate("hang", "the call did not finish within its step budget (livelock)");
  if(!s_pre || s_nf < 2) return;
  s_count -= (int64_t)weight * s_syncw;
  if(s_count <= 0) maybe_switch();
}
int spawn(const std::function<void()> &fn, const char *name) {
  if(s_nf >= MAXF) harness_error("too many fibers");
  // reuse slots of dead/finished fibers is not needed: runs are short
  Fiber *f = new Fiber; f->fn = fn; f->name = name;
  f->stack = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  __asan_unpoison_memory_region(f->stack, STK);
  getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = STK; f->ctx.uc_link = nullptr;
  makecontext(&f->ctx, fiber_main, 0);
  s_f[s_nf] = f;
  return s_nf++;
}
void join_all() {
  bool any = false;
  for(int i = 1; i < s_nf; i++) if(!s_f[i]->done && !s_f[i]->dead) any = true;
  if(!any) return;
  s_f[0]->joining = true;
  std::vector<int> r = runnable(false);
  if(r.empty()) violate("deadlock", "no thread can run");
  redraw();
  switch_to(r[choose((uint32_t)r.size())]);
  s_f[0]->joining = false;
  // drop finished fibers
  for(int i = 1; i < s_nf; i++) { if(s_f[i]->stack) munmap(s_f[i]->stack, STK); delete s_f[i]; }
  s_nf = 1;
}
void crash_now() {
  s_crashed = true;
  if(s_cur == 0) harness_error("crash_now on the controller");
  for(int i = 1; i < s_nf; i++) s_f[i]->dead = true;
  s_f[0]->joining = false;
  ev("CRASH");
  switch_to(0);
  harness_error("dead fiber resumed");
}
bool crashed() { return s_crashed; }
void clear_crash() { s_crashed = false; }

// ---------------------------------------------------------------- locks
struct LockInfo { int owner = -1; bool inited = false; bool destroyed = false; bool heap = false; };
static std::map<void *, LockInfo> *s_locks;
uint64_t g_lock_ops;
static std::map<void *, LockInfo> &L() { if(!s_locks) s_locks = new std::map<void *, LockInfo>; return *s_locks; }
int locks_held_by_me() { int n = 0; for(auto &k : L()) if(k.second.owner == s_cur) n++; return n; }
int locks_live() { int n = 0; for(auto &k : L()) if(k.second.inited && k.second.heap) n++; return n; }
int locks_live_any() { int n = 0; for(auto &k : L()) if(k.second.inited) n++; return n; }
void locks_forget() { L().clear(); }
void check_no_locks(const char *where) {
  if(locks_held_by_me()) violate("lock-held", "%s returned with %d library lock(s) still held", where, locks_held_by_me());
}
static bool is_heap(void *p);
static uint32_t s_lknext; static uint64_t s_lkfired;
void lock_init_fault(uint32_t countdown) { s_lknext = countdown; }
uint64_t lock_init_faults_fired() { return s_lkfired; }
static bool lk_init_fails() { if(!s_lknext || --s_lknext) return false; s_lkfired++; FAULT("lock-init"); ev("lock init fault"); return true; }
static void lk_init(void *m) { LockInfo li; li.inited = true; li.heap = is_heap(m); L()[m] = li; g_lock_ops++; }
static void lk_destroy(void *m) {
  auto it = L().find(m); g_lock_ops++;
  if(it != L().end()) {
    if(it->second.owner >= 0) violate("lock-destroy-held", "a lock was destroyed while held by thread %d", it->second.owner);
    if(it->second.destroyed) violate("lock-double-destroy", "a lock was destroyed twice");
    it->second.destroyed = true; it->second.inited = false;
  }
}
static int lk_lock(void *m, bool tryit) {
  g_lock_ops++; g_sh->lockops++;
  yield_point(4);
  for(;;) {
    LockInfo &li = L()[m];
    if(li.destroyed) violate("lock-after-destroy", "a destroyed lock was taken");
    if(!li.inited && li.owner < 0 && is_heap(m)) violate("lock-not-made", "a lock was taken that was never initialised");
    if(li.owner < 0) { li.owner = s_cur; ev("lock"); return 0; }
    if(tryit) return 1;
    if(li.owner == s_cur) violate("deadlock", "thread %d blocks forever on a lock it already holds", s_cur);
    PROBE("lock_contended");
    ev("blocked by %d", li.owner);
    s_f[s_cur]->wait = m;
    std::vector<int> r = runnable(false);
    if(r.empty()) violate("deadlock", "every thread waits for a lock");
    switch_to(r[choose((uint32_t)r.size())]);
  }
}
static int lk_unlock(void *m) {
  LockInfo &li = L()[m]; g_lock_ops++;
  if(li.owner != s_cur) violate("lock-bad-unlock", "thread %d released a lock it does not hold", s_cur);
  li.owner = -1;
  ev("unlock");
  for(int i = 0; i < s_nf; i++) if(s_f[i]->wait == m) s_f[i]->wait = nullptr;
  yield_point(4);
  return 0;
}
static void lk_freed(void *p, size_t n) {
  auto &l = L();
  for(auto it = l.lower_bound(p); it != l.end() && it->first < (char *)p + n;) {
    if(it->second.inited && !s_crashed) violate("lock-leak", "memory holding an initialised lock was freed without destroying the lock");
    it = l.erase(it);
  }
}
static std::set<void *> *s_once; static std::vector<void (*)()> *s_atexit;
static void once(void *flag, void (*fn)()) {
  if(!s_once) s_once = new std::set<void *>;
  yield_point(2);
  if(s_once->insert(flag).second) fn();
}
void run_atexit_hooks() { if(s_atexit) { auto v = *s_atexit; s_atexit->clear(); for(size_t i = v.size(); i-- > 0;) v[i](); } }

// ---------------------------------------------------------------- allocations
struct Al { size_t n; uint64_t seq; };
static std::map<void *, Al> *s_al; static uint64_t s_alseq, s_alfired, s_albytes;
static uint32_t s_alnext, s_alburst;
static std::map<void *, Al> &A() { if(!s_al) s_al = new std::map<void *, Al>; return *s_al; }
static bool is_heap(void *p) {
  auto it = A().upper_bound(p);
  if(it == A().begin()) return false;
  --it; return (char *)p < (char *)it->first + it->second.n;
}
void alloc_fault_next(uint32_t c, uint32_t burst) { s_alnext = c; s_alburst = burst; }
void alloc_faults_off() { s_alnext = 0; s_alburst = 0; }
static size_t s_allimit;
void alloc_limit(size_t n) { s_allimit = n; }
uint64_t allocs_live() { return A().size(); }
uint64_t alloc_bytes_live() { uint64_t t = 0; for(auto &a : A()) t += a.second.n; return t; }
uint64_t alloc_seq() { return s_alseq; }
uint64_t alloc_faults_fired() { return s_alfired; }
void allocs_forget() { A().clear(); }
void alloc_checkpoint(std::set<void *> &o) { o.clear(); for(auto &a : A()) o.insert(a.first); }
std::string allocs_describe() {
  std::string s; int k = 0;
  std::vector<std::pair<uint64_t, size_t>> v;
  for(auto &a : A()) v.push_back({a.second.seq, a.second.n});
  std::sort(v.begin(), v.end());
  for(auto &x : v) { if(k++ > 6) break; s += strf("#%llu(%zuB) ", (unsigned long long)x.first, x.second); }
  return s;
}
static bool al_fail(size_t n) {
  s_alseq++;
  if(s_allimit && n >= s_allimit) { FAULT("alloc_large"); ev("alloc of %zu refused", n); return true; }
  if(s_alnext && --s_alnext == 0) {
    s_alfired++;
    FAULT("alloc");
    ev("alloc fault at #%llu", (unsigned long long)s_alseq);
    if(s_alburst) { s_alburst--; s_alnext = 1; }
    return true;
  }
  return false;
}

bool threaded_build() { return g_cfg.variant != "nt"; }
static std::string s_scratch; static bool s_contained = true;
std::string scratch_dir() {
  if(!s_contained) harness_error("cannot drop privileges");
  if(s_scratch.empty()) harness_error("no scratch dir");
  return s_scratch;
}

// ---------------------------------------------------------------- scenarios
static std::vector<Scenario> &SC() { static std::vector<Scenario> v; return v; }
void register_scenario(const Scenario &s) { SC().push_back(s); }

} // namespace sim
using namespace sim;

// ---------------------------------------------------------------- wraps
extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
static bool s_wrap_on;
void *__wrap_malloc(size_t n) {
  if(!s_wrap_on) return __real_malloc(n);
  if(al_fail(n)) { errno = ENOMEM; return nullptr; }
  void *p = __real_malloc(n);
  if(p) A()[p] = Al{n, s_alseq};
  return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  if(!s_wrap_on) return __real_calloc(a, b);
  if(al_fail(a * b)) { errno = ENOMEM; return nullptr; }
  void *p = __real_calloc(a, b);
  if(p) A()[p] = Al{a * b, s_alseq};
  return p;
}
void *__wrap_realloc(void *o, size_t n) {
  if(!s_wrap_on) return __real_realloc(o, n);
  if(n && al_fail(n)) { errno = ENOMEM; return nullptr; }
  if(o) A().erase(o);
  void *p = __real_realloc(o, n);
  if(p) A()[p] = Al{n, s_alseq};
  return p;
}
void __wrap_free(void *p) {
  if(s_wrap_on && p) {
    auto it = A().find(p);
    if(it != A().end()) { lk_freed(p, it->second.n); A().erase(it); }
  }
  __real_free(p);
}
char *__wrap_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  char *p = (char *)__wrap_malloc(n);
  if(p) memcpy(p, s, n);
  return p;
}
char *__wrap_strndup(const char *s, size_t m) {
  size_t n = strnlen(s, m);
  char *p = (char *)__wrap_malloc(n + 1);
  if(p) { memcpy(p, s, n); p[n] = 0; }
  return p;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { if(lk_init_fails()) return EAGAIN; lk_init(m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { lk_destroy(m); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return lk_lock(m, false); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return lk_lock(m, true) ? EBUSY : 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return lk_unlock(m); }
int __wrap_pthread_once(pthread_once_t *f, void (*fn)(void)) { once(f, fn); return 0; }
int __wrap_mtx_init(mtx_t *m, int) { if(lk_init_fails()) return thrd_error; lk_init(m); return thrd_success; }
void __wrap_mtx_destroy(mtx_t *m) { lk_destroy(m); }
int __wrap_mtx_lock(mtx_t *m) { return lk_lock(m, false) ? thrd_error : thrd_success; }
int __wrap_mtx_trylock(mtx_t *m) { return lk_lock(m, true) ? thrd_busy : thrd_success; }
int __wrap_mtx_unlock(mtx_t *m) { return lk_unlock(m) ? thrd_error : thrd_success; }
void __wrap_call_once(once_flag *f, void (*fn)(void)) { once(f, fn); }
int __wrap_atexit(void (*fn)(void)) { if(!s_atexit) s_atexit = new std::vector<void (*)()>; s_atexit->push_back(fn); return 0; }
time_t __wrap_time(time_t *t) { time_t v = (time_t)sim::wall_clock(); if(t) *t = v; return v; }

// Edge callbacks inserted by -fsanitize-coverage=trace-pc-guard into the
// library objects only: every control-flow edge is a possible preemption point.
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
void __sanitizer_cov_trace_pc_guard(uint32_t *) {
  if(++s_steps > s_budget) violate("hang", "the call did not finish within its step budget (livelock)");
  if(s_pre && s_nf >= 2 && --s_count <= 0) maybe_switch();
}
}

// ---------------------------------------------------------------- driver
static const Scenario *find_scenario(const std::string &p) {
  for(auto &s : SC()) if(p == s.prop) return &s;
  return nullptr;
}
static void wipe_dir(const std::string &d) { // only ever called on our own scratch directory
  DIR *h = opendir(d.c_str());
  if(!h) return;
  while(dirent *e = readdir(h)) {
    if(!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    std::string p = d + "/" + e->d_name;
    struct stat st;
    if(lstat(p.c_str(), &st)) continue;
    if(S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0777); wipe_dir(p); rmdir(p.c_str()); }
    else unlink(p.c_str());
  }
  closedir(h);
}
static std::string s_base_scratch; static int s_errfd = -1;

static void run_child(const Scenario *sc) {
  // everything below happens in a forked child
  signal(SIGALRM, SIG_DFL);
  alarm((sc->wall_ms + 999) / 1000);
  if(s_errfd >= 0) { if(ftruncate(s_errfd, 0)) {} lseek(s_errfd, 0, SEEK_SET); dup2(s_errfd, 2); }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  s_scratch = s_base_scratch;
  if(chdir(s_scratch.c_str())) harness_error("chdir scratch");
  if(getuid() == 0) {
    // escaped file operations must not be able to touch anything real
    if(setgroups(0, nullptr)) {}
    if(setgid(65534) || setuid(65534)) s_contained = false;
  }
  umask(0);
  Fiber f0; f0.started = true; s_f[0] = &f0; s_nf = 1; s_cur = 0;
  s_budget = sc->step_budget;
  s_wrap_on = true;
  sc->fn();
  s_wrap_on = false;
  finish_ok();
}

struct RunOut { int status; std::string klass, msg; };
static uint64_t now_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ull + t.tv_nsec / 1000000; }

// Address- and layout-free classification of a sanitizer report or fatal signal
static std::string classify_abort(int wst, std::string &msg) {
  std::string err(8192, 0);
  if(s_errfd >= 0) {
    // sanitizer text is at the end of what the child printed
    off_t n = lseek(s_errfd, 0, SEEK_END), from = n > 65536 ? n - 65536 : 0;
    err.resize(n - from);
    ssize_t r = pread(s_errfd, &err[0], err.size(), from);
    err.resize(r > 0 ? r : 0);
  }
  size_t p;
  if((p = err.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
    std::string k = err.substr(p + 25, 60);
    k = k.substr(0, k.find_first_of(" \n("));
    msg = err.substr(p, 300);
    for(auto &c : msg) if(c == '\n') c = ' ';
    return "memory:" + k;
  }
  if((p = err.find("runtime error: ")) != std::string::npos) {
    msg = err.substr(p, 200); msg = msg.substr(0, msg.find('\n'));
    return "memory:ub";
  }
  if(WIFSIGNALED(wst)) {
    if(WTERMSIG(wst) == SIGALRM || WTERMSIG(wst) == SIGKILL) { msg = "the run did not terminate (wall limit)"; return "hang"; }
    msg = strf("killed by signal %d", WTERMSIG(wst));
    return strf("signal:%d", WTERMSIG(wst));
  }
  msg = strf("exit code %d: %s", WEXITSTATUS(wst), err.substr(0, 200).c_str());
  return "abort";
}

static void do_run(const Scenario *sc, bool replay, const std::vector<uint32_t> &list, uint64_t seed, uint64_t index, bool trace) {
  memset(g_sh, 0, offsetof(Shared, cnt));
  memset(g_sh->cnt, 0, sizeof g_sh->cnt);
  g_sh->loglen = 0;
  g_sh->evhash = 1469598103934665603ull; g_sh->taghash = 1469598103934665603ull;
  g_trace = trace; s_replay = replay; s_list = list; s_pos = 0;
  g_cfg.seed = seed; g_cfg.index = index;
  seed_rng(seed * 0x9E3779B97F4A7C15ull + index * 0xD1B54A32D192ED03ull + fnv(sc->prop, strlen(sc->prop)) + fnv(g_cfg.variant.data(), g_cfg.variant.size()));
  fflush(stdout);
  pid_t pid = fork();
  if(pid == 0) run_child(sc);
  int st = 0;
  while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if(g_sh->status == 0) {
    std::string msg, k = classify_abort(st, msg);
    g_sh->status = 2;
    snprintf(g_sh->klass, sizeof g_sh->klass, "%s", k.c_str());
    snprintf(g_sh->msg, sizeof g_sh->msg, "%s", msg.c_str());
    g_sh->evhash = fnv(k.data(), k.size(), g_sh->evhash);
  }
}
static bool s_dirty_scratch = true;
static void prep_scratch() { if(s_dirty_scratch) { wipe_dir(s_base_scratch); chmod(s_base_scratch.c_str(), 0777); } }

struct ReplayFile { std::string prop, variant, klass; bool thorough = false; uint64_t seed = 0, index = 0, hash = 0; std::vector<uint32_t> ch; };
static bool load_replay(const char *path, ReplayFile &r) {
  FILE *f = fopen(path, "r"); if(!f) return false;
  char line[1 << 16];
  while(fgets(line, sizeof line, f)) {
    char a[200]; unsigned long long x;
    if(sscanf(line, "property=%199s", a) == 1) r.prop = a;
    else if(sscanf(line, "variant=%199s", a) == 1) r.variant = a;
    else if(sscanf(line, "class=%199[^\n]", a) == 1) r.klass = a;
    else if(sscanf(line, "tier=%199s", a) == 1) r.thorough = !strcmp(a, "thorough");
    else if(sscanf(line, "seed=%llu", &x) == 1) r.seed = x;
    else if(sscanf(line, "index=%llu", &x) == 1) r.index = x;
    else if(sscanf(line, "hash=%llx", &x) == 1) r.hash = x;
    else if(!strncmp(line, "choices=", 8)) {
      char *p = line + 8;
      while(*p) { char *e; unsigned long v = strtoul(p, &e, 10); if(e == p) break; r.ch.push_back((uint32_t)v); p = e; while(*p == ',' || *p == ' ' || *p == '\n') p++; }
    } else if(!strncmp(line, "# ", 2)) continue;
    else if(!strncmp(line, "trace:", 6)) break;
  }
  fclose(f);
  return true;
}
static void save_replay(const char *path, const ReplayFile &r, bool with_log) {
  FILE *f = fopen(path, "w"); if(!f) { perror(path); exit(2); }
  fprintf(f, "# replay with: python3 /verif/run.py --replay %s\n", path);
  fprintf(f, "property=%s\nvariant=%s\ntier=%s\nclass=%s\nseed=%llu\nindex=%llu\nhash=%llx\n", r.prop.c_str(), r.variant.c_str(), r.thorough ? "thorough" : "quick", r.klass.c_str(), (unsigned long long)r.seed, (unsigned long long)r.index, (unsigned long long)r.hash);
  fprintf(f, "# message: %s\n", g_sh->msg);
  for(size_t i = 0; i < r.ch.size(); i++) { if(i % 4000 == 0) fprintf(f, "%schoices=", i ? "\n" : ""); fprintf(f, "%s%u", i % 4000 ? "," : "", r.ch[i]); }
  if(r.ch.empty()) fprintf(f, "choices=");
  fprintf(f, "\ntrace:\n");
  if(with_log) fwrite(g_sh->log, 1, g_sh->loglen, f);
  fclose(f);
}
static std::vector<uint32_t> cur_choices() { return std::vector<uint32_t>(g_sh->ch, g_sh->ch + std::min<uint32_t>(g_sh->nch, MAXCH)); }

static bool same_fail(const Scenario *sc, const std::vector<uint32_t> &l, const std::string &klass, uint64_t seed, uint64_t index) {
  prep_scratch();
  do_run(sc, true, l, seed, index, false);
  return g_sh->status == 2 && klass == g_sh->klass;
}
static std::vector<uint32_t> minimise(const Scenario *sc, std::vector<uint32_t> l, const std::string &klass, uint64_t seed, uint64_t index, int seconds) {
  uint64_t end = now_ms() + seconds * 1000ull;
  auto trim = [&](std::vector<uint32_t> &v) { while(!v.empty() && v.back() == 0) v.pop_back(); };
  trim(l);
  bool again = true;
  while(again && now_ms() < end) {
    again = false;
    // delete spans
    for(size_t span = std::max<size_t>(1, l.size() / 2); span >= 1; span /= 2) {
      for(size_t i = 0; i + span <= l.size() && now_ms() < end;) {
        std::vector<uint32_t> c(l.begin(), l.begin() + i); c.insert(c.end(), l.begin() + i + span, l.end());
        if(same_fail(sc, c, klass, seed, index)) { l = c; trim(l); again = true; } else i += span;
      }
      if(span == 1) break;
    }
    // zero spans, then single values
    for(size_t span = std::max<size_t>(1, l.size() / 4); span >= 1; span /= 2) {
      for(size_t i = 0; i + span <= l.size() && now_ms() < end; i += span) {
        std::vector<uint32_t> c = l; bool ch = false;
        for(size_t k = i; k < i + span; k++) if(c[k]) { c[k] = 0; ch = true; }
        if(ch && same_fail(sc, c, klass, seed, index)) { l = c; trim(l); again = true; }
      }
      if(span == 1) break;
    }
    // lower values
    for(size_t i = 0; i < l.size() && now_ms() < end; i++) {
      if(l[i] < 2) continue;
      for(uint32_t t : {1u, l[i] / 2, l[i] - 1}) {
        if(i >= l.size() || t >= l[i]) continue;
        std::vector<uint32_t> c = l; c[i] = t;
        if(same_fail(sc, c, klass, seed, index)) { l = c; trim(l); again = true; break; }
      }
    }
  }
  return l;
}

int main(int argc, char **argv) {
  int pers = personality(0xffffffff);
  if(!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
    if(personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
  }
  std::map<std::string, std::string> o;
  for(int i = 1; i < argc; i++) { std::string a = argv[i]; if(a.substr(0, 2) == "--") { if(i + 1 < argc && strncmp(argv[i + 1], "--", 2)) { o[a.substr(2)] = argv[i + 1]; i++; } else o[a.substr(2)] = "1"; } }
  g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_names = (char(*)[64])mmap(nullptr, MAXCNT * 64 + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_ncnt = (uint32_t *)((char *)g_names + MAXCNT * 64);
  { pthread_attr_t at; void *b; size_t n; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &b, &n); s_main_bottom = b; s_main_size = n; pthread_attr_destroy(&at); }
  g_cfg.variant = sim_variant;
  if(o.count("list")) { for(auto &s : SC()) printf("%s\t%s\n", s.prop, s.rule); return 0; }

  s_base_scratch = o.count("scratch") ? o["scratch"] : "";
  if(s_base_scratch.empty()) { fprintf(stderr, "need --scratch DIR\n"); return 2; }
  mkdir(s_base_scratch.c_str(), 0777); chmod(s_base_scratch.c_str(), 0777);
  s_errfd = open((s_base_scratch + ".err").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0666);

  ReplayFile rf;
  if(o.count("replay")) {
    if(!load_replay(o["replay"].c_str(), rf)) { fprintf(stderr, "cannot read replay\n"); return 2; }
    const Scenario *sc = find_scenario(rf.prop);
    if(!sc) { fprintf(stderr, "unknown property\n"); return 2; }
    g_cfg.prop = rf.prop; g_cfg.thorough = rf.thorough;
    prep_scratch();
    do_run(sc, true, rf.ch, rf.seed, rf.index, true);
    if(o.count("verbose")) fwrite(g_sh->log, 1, g_sh->loglen, stdout);
    printf("RESULT status=%d class=%s hash=%llx expected=%llx msg=%s\n", g_sh->status, g_sh->klass, (unsigned long long)g_sh->evhash, (unsigned long long)rf.hash, g_sh->msg);
    if(o.count("stderr")) { if(system(("cat " + s_base_scratch + ".err").c_str())) {} }
    if(o.count("update")) { rf.klass = g_sh->klass; rf.hash = g_sh->evhash; rf.ch = cur_choices(); save_replay(o["update"].c_str(), rf, true); }
    wipe_dir(s_base_scratch);
    return g_sh->status == 2 ? 1 : g_sh->status == 1 ? 0 : 2;
  }
  if(o.count("minimise")) {
    if(!load_replay(o["minimise"].c_str(), rf)) return 2;
    const Scenario *sc = find_scenario(rf.prop); if(!sc) return 2;
    g_cfg.prop = rf.prop; g_cfg.thorough = rf.thorough;
    int secs = o.count("seconds") ? atoi(o["seconds"].c_str()) : 30;
    // gate: same failure twice, same hash
    if(!same_fail(sc, rf.ch, rf.klass, rf.seed, rf.index)) { printf("GATE-FAIL first replay: status=%d class=%s\n", g_sh->status, g_sh->klass); return 5; }
    uint64_t h = g_sh->evhash;
    if(!same_fail(sc, rf.ch, rf.klass, rf.seed, rf.index) || g_sh->evhash != h) { printf("GATE-FAIL event log differs between two replays\n"); return 5; }
    std::vector<uint32_t> m = minimise(sc, rf.ch, rf.klass, rf.seed, rf.index, secs);
    prep_scratch();
    do_run(sc, true, m, rf.seed, rf.index, true);
    if(!(g_sh->status == 2 && rf.klass == g_sh->klass)) { m = rf.ch; prep_scratch(); do_run(sc, true, m, rf.seed, rf.index, true); }
    rf.ch = m; rf.hash = g_sh->evhash;
    save_replay(o["out"].c_str(), rf, true);
    printf("MINIMISED choices=%zu class=%s msg=%s\n", m.size(), g_sh->klass, g_sh->msg);
    wipe_dir(s_base_scratch);
    return 0;
  }

  // worker
  std::string prop = o["prop"];
  const Scenario *sc = find_scenario(prop);
  if(!sc) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  g_cfg.prop = prop; g_cfg.thorough = o["tier"] == "thorough";
  uint64_t seed = strtoull(o["seed"].c_str(), nullptr, 10), first = strtoull(o["first"].c_str(), nullptr, 10), stride = strtoull(o["stride"].c_str(), nullptr, 10);
  uint64_t maxruns = o.count("runs") ? strtoull(o["runs"].c_str(), nullptr, 10) : ~0ull;
  double secs = o.count("seconds") ? atof(o["seconds"].c_str()) : 10;
  uint64_t maxviol = o.count("maxviol") ? strtoull(o["maxviol"].c_str(), nullptr, 10) : 1;
  if(!stride) stride = 1;
  uint64_t t0 = now_ms(), end = t0 + (uint64_t)(secs * 1000), runs = 0, events = 0, steps = 0, simt = 0, nont = 0, viol = 0, switches = 0, lockops = 0, herr = 0;
  std::vector<uint64_t> tot(MAXCNT, 0), runs_with(MAXCNT, 0);
  std::unordered_set<uint64_t> ehs, tags, nth;
  std::vector<std::string> samples;
  FILE *out = fopen(o["out"].c_str(), "w");
  if(!out) { perror("out"); return 2; }
  std::set<std::string> known; uint64_t nknown = 0;
  { std::string k = o["known"], c; for(char x : k + ",") if(x == ',') { if(!c.empty()) known.insert(c); c.clear(); } else c += x; }
  uint64_t slowest = 0, slow_i = 0, most = 0; bool stable_check = true; uint64_t unstable = 0, stab = 0;
  for(uint64_t i = first; now_ms() < end && runs < maxruns; i += stride) {
    prep_scratch();
    uint64_t r0 = now_ms();
    do_run(sc, false, {}, seed, i, false);
    if(now_ms() - r0 > slowest) { slowest = now_ms() - r0; slow_i = i; } if(g_sh->status == 1) most = std::max<uint64_t>(most, g_sh->steps);
    if(g_sh->status == 4) { herr++; fprintf(out, "HARNESS %llu %s\n", (unsigned long long)i, g_sh->msg); fflush(out); if(herr > 3) break; continue; }
    runs++; events += g_sh->evcount; steps += g_sh->steps; simt += g_sh->simtime; switches += g_sh->sched_switches; lockops += g_sh->lockops;
    if(ehs.size() < 2000000) ehs.insert(g_sh->evhash);
    if(tags.size() < 2000000) tags.insert(g_sh->taghash);
    if(g_sh->nontrivial) { nont++; if(nth.size() < 2000000) nth.insert(g_sh->taghash ^ g_sh->evhash * 3); }
    for(uint32_t k = 0; k < *g_ncnt; k++) { tot[k] += g_sh->cnt[k]; if(g_sh->cnt[k]) runs_with[k]++; }
    if(samples.empty() && g_sh->nontrivial && g_sh->status == 1) {
      // write one case out: the same seed again, with its trace
      uint64_t h = g_sh->evhash;
      prep_scratch(); do_run(sc, false, {}, seed, i, true);
      std::string t(g_sh->log, std::min<size_t>(g_sh->loglen, 1500));
      for(char &c : t) if(c == '\n') c = ';'; else if(c == '\t' || (unsigned char)c < 32 || (unsigned char)c > 126) c = ' ';
      samples.push_back(strf("seed=%llu index=%llu choices=%u events=%llu hash=%llx trace: ", (unsigned long long)seed, (unsigned long long)i, g_sh->nch, (unsigned long long)g_sh->evcount, (unsigned long long)g_sh->evhash) + t);
      if(g_sh->evhash != h) fprintf(out, "UNSTABLE %llu\n", (unsigned long long)i);
    } else if(samples.size() < 3 && g_sh->nontrivial) samples.push_back(strf("seed=%llu index=%llu choices=%u events=%llu hash=%llx", (unsigned long long)seed, (unsigned long long)i, g_sh->nch, (unsigned long long)g_sh->evcount, (unsigned long long)g_sh->evhash));
    if(g_sh->status == 2 && known.count(g_sh->klass)) { nknown++; continue; }
    if(g_sh->status == 2) {
      ReplayFile r; r.prop = prop; r.variant = sim_variant; r.klass = g_sh->klass; r.thorough = g_cfg.thorough; r.seed = seed; r.index = i; r.hash = g_sh->evhash; r.ch = cur_choices();
      std::string p = o["out"] + strf(".viol%llu", (unsigned long long)viol);
      save_replay(p.c_str(), r, false);
      fprintf(out, "VIOL\t%s\t%s\t%llu\t%s\n", p.c_str(), g_sh->klass, (unsigned long long)i, g_sh->msg); fflush(out);
      if(++viol >= maxviol) break;
    } else if(stable_check && runs % 64 == 1) {
      // determinism self-check: the same seed must give the same event log
      uint64_t h = g_sh->evhash; uint32_t n = g_sh->nch; stab++;
      prep_scratch();
      do_run(sc, false, {}, seed, i, false);
      if(g_sh->evhash != h || g_sh->nch != n) { unstable++; fprintf(out, "UNSTABLE %llu\n", (unsigned long long)i); }
    }
  }
  wipe_dir(s_base_scratch); rmdir(s_base_scratch.c_str());
  fprintf(out, "STAT known %llu\nSTAT runs %llu\nSTAT events %llu\nSTAT steps %llu\nSTAT simtime_us %llu\nSTAT nontrivial_runs %llu\nSTAT wall_ms %llu\nSTAT switches %llu\nSTAT lockops %llu\nSTAT herr %llu\nSTAT determinism_checked %llu\nSTAT determinism_failed %llu\n",
          (unsigned long long)nknown, (unsigned long long)runs, (unsigned long long)events, (unsigned long long)steps, (unsigned long long)simt, (unsigned long long)nont, (unsigned long long)(now_ms() - t0), (unsigned long long)switches, (unsigned long long)lockops, (unsigned long long)herr, (unsigned long long)stab, (unsigned long long)unstable);
  for(uint32_t k = 0; k < *g_ncnt; k++) fprintf(out, "CNT\t%s\t%llu\t%llu\n", g_names[k], (unsigned long long)tot[k], (unsigned long long)runs_with[k]);
  fprintf(out, "SLOWEST\t%llu\t%llu\t%llu\n", (unsigned long long)slowest, (unsigned long long)slow_i, (unsigned long long)(most * 100 / sc->step_budget));
  for(auto &s : samples) fprintf(out, "SAMPLE\t%s\n", s.c_str());
  auto dump = [&](const char *sfx, const std::unordered_set<uint64_t> &s) { FILE *f = fopen((o["out"] + sfx).c_str(), "wb"); for(uint64_t h : s) fwrite(&h, 8, 1, f); fclose(f); };
  dump(".tags", tags); dump(".nth", nth);
  fprintf(out, "END\n");
  fclose(out);
  close(s_errfd); unlink((s_base_scratch + ".err").c_str());
  return 0;
}
