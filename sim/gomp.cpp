// The OpenMP runtime of the simulated system: threads are coroutines, a seeded scheduler decides every switch.
#include "seam.h"
#include "gomp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#include <cxxabi.h>
#include <map>
#include <set>
#include <vector>
#include <unordered_map>

namespace sim {

struct Ctx { void* sp; };
extern "C" void sim_switch(void** save, void* load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
   pushq %rbp
   pushq %rbx
   pushq %r12
   pushq %r13
   pushq %r14
   pushq %r15
   subq $8,%rsp
   stmxcsr (%rsp)
   fnstcw 4(%rsp)
   movq %rsp,(%rdi)
   movq %rsi,%rsp
   ldmxcsr (%rsp)
   fldcw 4(%rsp)
   addq $8,%rsp
   popq %r15
   popq %r14
   popq %r13
   popq %r12
   popq %rbx
   popq %rbp
   ret
.size sim_switch,.-sim_switch
)");

struct EhGlobals { void* caught; unsigned uncaught; };
extern "C" EhGlobals* cxa_globals() { return (EhGlobals*) abi::__cxa_get_globals(); }

enum TState { T_READY, T_BARRIER, T_LOCK, T_DONE, T_WAITWS };
struct Work { bool set; long start, end, incr, chunk, next; bool is_static; int entered, left; unsigned sections; void* copy; bool single_taken; bool copy_ready; };
struct Thread {
   void* sp;
   char* stack;
   TState state;
   void* lock;
   EhGlobals eh;
   long ws_index;     // work-sharing constructs passed so far
   long static_done;
   long sw_static_pos;
   int prio;
   uint64_t accesses;
   int nested;
};
#define nested_depth (th[cur].nested)
enum { MAXT = 64, STACK = 1 << 20 };
static Thread th[MAXT];
static int nthr = 1, cur = 0, barrier_count = 0;
static bool in_team = false;
static int cfg_threads = 1;
static void (*team_fn)(void*);
static void* team_data;
static std::map<long, Work>& works = *new std::map<long, Work>;
static std::map<void*, int>& locks = *new std::map<void*, int>;    // lock -> owner (-1 free)
static Rng sched_rng(1);
static int sched_mode = 0;            // 0 cooperative, 1 random pre-emption, 2 priorities with change points, 3 directed
static uint64_t sched_period = 64;
static uint64_t next_preempt = 0;
static std::set<uint64_t> change_points;
static std::unordered_map<uint64_t, int> hot_pcs;
static int hot_pct = 60;
uint64_t team_access_count = 0;
bool team_running = false;
static bool rec_races = false;
uint64_t regions = 0, multi_regions = 0;

static int pick_next(bool keep)
{
   // keep: the current thread may go on
   int run[MAXT], n = 0;
   for (int i = 0; i < nthr; i++)
      if (th[i].state == T_READY) run[n++] = i;
   if (!n) return -1;
   if (sched_mode == 2) {
      int b = run[0];
      for (int i = 1; i < n; i++)
         if (th[run[i]].prio > th[b].prio) b = run[i];
      return b;
   }
   (void) keep;
   return run[sched_rng.below(n)];
}
static void switch_to(int t)
{
   if (t == cur) return;
   int f = cur;
   S->switches++;
   uint64_t v[3] = {(uint64_t) f, (uint64_t) t, team_access_count};
   S->sched_hash = hash_bytes(v, sizeof v, S->sched_hash ? S->sched_hash : 1);
   EhGlobals* g = cxa_globals();
   th[f].eh = *g;
   *g = th[t].eh;
   cur = t;
   sim_switch(&th[f].sp, th[t].sp);
}
static void resched()   // current thread stays ready
{
   if (!in_team || nthr < 2) return;
   int t = pick_next(true);
   if (t >= 0) switch_to(t);
}
static void block()     // current thread cannot go on
{
   int t = pick_next(false);
   if (t < 0) {
      note("DEADLOCK of simulated threads");
      emit("deadlock", "1");
      _exit(83);
   }
   switch_to(t);
}
static void thread_main()
{
   team_fn(team_data);
   th[cur].state = T_DONE;
   // an implicit barrier ends the region; thread 0 checks for completion
   block();
   abort();
}

bool sim_threads_init(int n, uint64_t seed, int mode, const std::vector<str>& sched)
{
   cfg_threads = n < 1 ? 1 : (n > MAXT ? MAXT : n);
   sched_rng = Rng(seed + 77);
   sched_mode = mode;
   in_team = team_running = false;
   nthr = 1;
   cur = 0;
   regions = multi_regions = 0;
   sched_period = 1ull << (1 + sched_rng.below(9));
   next_preempt = 1 + sched_rng.below(sched_period);
   hot_pcs.clear();
   change_points.clear();
   rec_races = false;
   for (auto& s : sched) {
      if (s.compare(0, 3, "pc:") == 0) hot_pcs[strtoull(s.c_str() + 3, 0, 16)] = 1;
      else if (s.compare(0, 4, "hot:") == 0) hot_pct = atoi(s.c_str() + 4);
      else if (s == "record") rec_races = true;
      else if (s.compare(0, 7, "period:") == 0) {
         sched_period = atol(s.c_str() + 7);
         next_preempt = 1 + sched_rng.below(sched_period);
      } else if (s.compare(0, 6, "chpts:") == 0) {
         long k = atol(s.c_str() + 6), range = 20000;
         for (long i = 0; i < k; i++) change_points.insert(sched_rng.below(range));
      }
   }
   return true;
}

static int resolve_threads(unsigned n)
{
   if (in_team || !in_child()) return 1;
   int k = n ? (int) n : cfg_threads;
   return k > MAXT ? MAXT : (k < 1 ? 1 : k);
}

static void run_team(void (*fn)(void*), void* data, unsigned num)
{
   regions++;
   int n = resolve_threads(num);
   if (n == 1) {
      if (in_team) {                       // nested region: one thread
         int save_n = nthr;
         // thread number and team size as seen inside
         long sd = th[cur].static_done;
         nested_depth++;
         fn(data);
         nested_depth--;
         th[cur].static_done = sd;
         nthr = save_n;
         return;
      }
      works.clear();
      th[0].ws_index = 0;
      in_team = true;
      nthr = 1;
      cur = 0;
      th[0].state = T_READY;
      fn(data);
      in_team = false;
      works.clear();
      return;
   }
   multi_regions++;
   works.clear();
   locks.clear();
   barrier_count = 0;
   team_fn = fn;
   team_data = data;
   nthr = n;
   cur = 0;
   in_team = true;
   team_running = true;
   team_access_count = 0;
   next_preempt = 1 + sched_rng.below(sched_period);
   race_reset();
   for (int i = 0; i < n; i++) {
      th[i].state = T_READY;
      th[i].ws_index = 0;
      th[i].prio = (int) sched_rng.below(1000000) + 1000;
      th[i].accesses = 0;
      th[i].nested = 0;
      th[i].eh.caught = NULL;
      th[i].eh.uncaught = 0;
      if (i == 0) continue;
      if (!th[i].stack) {
         th[i].stack = (char*) mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
         if (th[i].stack == MAP_FAILED) abort();
      }
      uint64_t* sp = (uint64_t*) (th[i].stack + STACK - 64);
      *--sp = 0;                         // alignment / fake return address
      *--sp = (uint64_t) thread_main;    // ret target
      for (int k = 0; k < 6; k++) *--sp = 0;
      --sp;
      uint32_t mx;
      uint16_t cw;
      asm volatile("stmxcsr %0" : "=m"(mx));
      asm volatile("fnstcw %0" : "=m"(cw));
      ((uint32_t*) sp)[0] = mx;
      ((uint16_t*) sp)[2] = cw;
      th[i].sp = sp;
   }
   resched();                            // any thread may start first
   fn(data);
   // join: thread 0 waits for the others
   while (true) {
      bool all = true;
      for (int i = 1; i < n; i++)
         if (th[i].state != T_DONE) all = false;
      if (all) break;
      th[0].state = T_WAITWS;
      int t = pick_next(false);
      if (t < 0) {
         note("DEADLOCK of simulated threads");
         emit("deadlock", "1");
         _exit(83);
      }
      th[0].state = T_READY;
      // run others until they finish or block: thread 0 stays ready but yields
      int saved = th[0].prio;
      th[0].prio = -1;
      switch_to(t);
      th[0].prio = saved;
   }
   team_running = false;
   in_team = false;
   nthr = 1;
   cur = 0;
   if (rec_races) race_region_end();
}
int team_tid() { return nested_depth ? 0 : cur; }
int team_cur() { return cur; }
char* team_stack(int t) { return th[t].stack; }
size_t team_stack_size() { return STACK; }
bool team_recording() { return rec_races; }

// called for every instrumented memory access inside a multi-thread region
void access_point(uint64_t pc)
{
   team_access_count++;
   bool sw = false;
   if (sched_mode == 1) {
      if (--next_preempt == 0) {
         next_preempt = 1 + sched_rng.below(sched_period);
         sw = true;
      }
   } else if (sched_mode == 2) {
      if (change_points.count(team_access_count)) {
         th[cur].prio = (int) sched_rng.below(1000);
         sw = true;
      }
   } else if (sched_mode == 3) {
      if (hot_pcs.count(pc) && sched_rng.chance(hot_pct)) sw = true;
   }
   if (sw) resched();
}
static void lock_acquire(void* l)
{
   if (!in_team || nthr < 2) return;
   resched();
   while (locks.count(l) && locks[l] >= 0 && locks[l] != cur) {
      th[cur].state = T_LOCK;
      th[cur].lock = l;
      block();
   }
   locks[l] = cur;
}
static void wake(void* l)
{
   for (int i = 0; i < nthr; i++)
      if (th[i].state == T_LOCK && th[i].lock == l) th[i].state = T_READY;
}
// the first use of a function's static object: other threads wait for it, as they do in the C++ runtime
extern "C" int __cxa_guard_acquire(char* g)
{
   if (g[0]) return 0;
   while (g[1]) {
      if (!in_team || nthr < 2) { note("recursive initialisation of a static object"); abort(); }
      th[cur].state = T_LOCK;
      th[cur].lock = g;
      block();
      if (g[0]) return 0;
   }
   g[1] = 1;
   return 1;
}
extern "C" void __cxa_guard_release(char* g)
{
   g[0] = 1;
   g[1] = 0;
   if (in_team && nthr > 1) wake(g);
}
extern "C" void __cxa_guard_abort(char* g)
{
   g[1] = 0;
   if (in_team && nthr > 1) wake(g);
}
static void lock_release(void* l)
{
   if (!in_team || nthr < 2) return;
   locks[l] = -1;
   wake(l);
   resched();
}
static void barrier()
{
   if (!in_team || nthr < 2 || nested_depth) return;
   barrier_count++;
   if (barrier_count == nthr) {
      barrier_count = 0;
      race_barrier();
      for (int i = 0; i < nthr; i++)
         if (th[i].state == T_BARRIER) th[i].state = T_READY;
      resched();
      return;
   }
   th[cur].state = T_BARRIER;
   block();
}
static Work& ws_enter()
{
   long idx = nested_depth ? -(nested_depth * MAXT + cur) : th[cur].ws_index++;
   return works[idx];
}
static Work& ws_current()
{
   return works[nested_depth ? -(nested_depth * MAXT + cur) : th[cur].ws_index - 1];
}
static void ws_init(Work& w, long s, long e, long i, long c)
{
   if (w.set && !nested_depth) return;
   w = Work();
   w.set = true;
   w.start = w.next = s;
   w.end = e;
   w.incr = i;
   w.chunk = c;
}
static bool ws_next(Work& w, long* ps, long* pe)
{
   resched();
   if (w.chunk < 1) w.chunk = 1;
   if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
   *ps = w.next;
   long n = w.next + w.chunk * w.incr;
   if (w.incr > 0 ? n > w.end : n < w.end) n = w.end;
   *pe = n;
   w.next = n;
   return true;
}
// static schedules follow the thread number, like libgomp's
static bool static_iter(long s, long e, long inc, long chunk, long* ps, long* pe)
{
   int n = nested_depth ? 1 : nthr, t = team_tid();
   long total = inc > 0 ? (e - s + inc - 1) / inc : (s - e - inc - 1) / -inc;
   if (total <= 0) return false;
   if (chunk == 0) {
      if (th[cur].static_done) return false;
      long q = total / n, r = total % n;
      if (t < r) { q++; r = 0; }
      long b = q * t + r;
      th[cur].static_done = 1;
      if (q == 0) return false;
      *ps = s + b * inc;
      *pe = s + (b + q) * inc;
      return true;
   }
   long k = th[cur].static_done * n + t;
   long b = k * chunk;
   if (b >= total) return false;
   long q = b + chunk > total ? total - b : chunk;
   th[cur].static_done++;
   *ps = s + b * inc;
   *pe = s + (b + q) * inc;
   return true;
}
struct LoopInit { bool on; long s, e, i, c; bool is_static; };
static LoopInit pending;
}
using namespace sim;

extern "C" {
int omp_get_thread_num(void) { return in_team ? team_tid() : 0; }
int omp_get_num_threads(void) { return in_team && !nested_depth ? nthr : 1; }
int omp_get_max_threads(void) { return in_child() ? cfg_threads : 1; }
int omp_get_num_procs(void) { return in_child() ? cfg_threads : 1; }
void omp_set_num_threads(int n) { if (in_child() && n > 0) cfg_threads = n > MAXT ? MAXT : n; }
int omp_in_parallel(void) { return in_team && nthr > 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
int omp_get_level(void) { return in_team ? 1 : 0; }
int omp_get_active_level(void) { return in_team && nthr > 1 ? 1 : 0; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_get_team_size(int) { return omp_get_num_threads(); }
double omp_get_wtime(void) { return S ? S->sim_time_us * 1e-6 : 0; }
double omp_get_wtick(void) { return 1e-6; }
void omp_init_lock(void** l) { *l = NULL; }
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { lock_acquire(l); }
void omp_unset_lock(void** l) { lock_release(l); }
int omp_test_lock(void** l)
{
   if (!in_team || nthr < 2) return 1;
   if (locks.count(l) && locks[l] >= 0) return 0;
   locks[l] = cur;
   return 1;
}

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_team(fn, data, n); }
void GOMP_barrier(void) { barrier(); }
void GOMP_critical_start(void) { lock_acquire((void*) 1); }
void GOMP_critical_end(void) { lock_release((void*) 1); }
void GOMP_critical_name_start(void** p) { lock_acquire((void*) p); }
void GOMP_critical_name_end(void** p) { lock_release((void*) p); }
void GOMP_atomic_start(void) { lock_acquire((void*) 2); }
void GOMP_atomic_end(void) { lock_release((void*) 2); }
bool GOMP_single_start(void)
{
   if (!in_team || nested_depth) return true;
   resched();
   Work& w = ws_enter();
   if (w.single_taken) return false;
   w.single_taken = true;
   return true;
}
void* GOMP_single_copy_start(void)
{
   if (!in_team || nested_depth) return NULL;
   Work& w = ws_enter();
   if (!w.single_taken) {
      w.single_taken = true;
      return NULL;
   }
   resched();
   while (!w.copy_ready) {
      th[cur].state = T_LOCK;
      th[cur].lock = &w;
      block();
   }
   return w.copy;
}
void GOMP_single_copy_end(void* d)
{
   if (!in_team || nested_depth) return;
   Work& w = ws_current();
   w.copy = d;
   w.copy_ready = true;
   wake(&w);
   resched();
}
#define LOOP_START(name, STATIC) \
   bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* ps, long* pe) { \
      Work& w = ws_enter(); ws_init(w, s, e, i, c); w.is_static = STATIC; th[cur].static_done = 0; \
      return STATIC ? static_iter(s, e, i, c, ps, pe) : ws_next(w, ps, pe); } \
   bool GOMP_loop_##name##_next(long* ps, long* pe) { Work& w = ws_current(); \
      return w.is_static ? static_iter(w.start, w.end, w.incr, w.chunk, ps, pe) : ws_next(w, ps, pe); } \
   void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { \
      LoopInit save = pending; pending.on = true; pending.s = s; pending.e = e; pending.i = i; pending.c = c; pending.is_static = STATIC; \
      struct Tramp { static void go(void* p) { Tramp* t = (Tramp*) p; Work& w = ws_enter(); ws_init(w, t->s, t->e, t->i, t->c); \
         w.is_static = STATIC; th[cur].static_done = 0; t->fn(t->d); } void (*fn)(void*); void* d; long s, e, i, c; } t = {fn, d, s, e, i, c}; \
      run_team(Tramp::go, &t, n); pending = save; }
LOOP_START(static, true)
LOOP_START(dynamic, false)
LOOP_START(guided, false)
LOOP_START(nonmonotonic_dynamic, false)
LOOP_START(nonmonotonic_guided, false)
bool GOMP_loop_runtime_start(long s, long e, long i, long* ps, long* pe) { return GOMP_loop_dynamic_start(s, e, i, 1, ps, pe); }
bool GOMP_loop_runtime_next(long* ps, long* pe) { return GOMP_loop_dynamic_next(ps, pe); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* ps, long* pe) { return GOMP_loop_dynamic_start(s, e, i, 1, ps, pe); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* ps, long* pe) { return GOMP_loop_dynamic_next(ps, pe); }
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
unsigned GOMP_sections_start(unsigned count)
{
   Work& w = ws_enter();
   if (!w.set) { w.set = true; w.sections = count; w.next = 0; }
   resched();
   return w.next < (long) w.sections ? (unsigned) ++w.next : 0;
}
unsigned GOMP_sections_next(void)
{
   Work& w = ws_current();
   resched();
   return w.next < (long) w.sections ? (unsigned) ++w.next : 0;
}
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned)
{
   struct Tramp { static void go(void* p) { Tramp* t = (Tramp*) p; Work& w = ws_enter();
      if (!w.set) { w.set = true; w.sections = t->count; w.next = 0; } t->fn(t->d); } void (*fn)(void*); void* d; unsigned count; } t = {fn, d, count};
   run_team(Tramp::go, &t, n);
}
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long size, long align, bool, unsigned, void**, int, void*)
{
   if (cpyfn) {
      char* b = (char*) malloc(size + align);
      char* a = (char*) (((uintptr_t) b + align - 1) & ~(uintptr_t) (align - 1));
      cpyfn(a, data);
      fn(a);
      ::free(b);
   } else fn(data);
   resched();
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { resched(); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
void GOMP_ordered_start(void) { lock_acquire((void*) 3); }
void GOMP_ordered_end(void) { lock_release((void*) 3); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
}
