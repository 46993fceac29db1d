// Deterministic simulator for QDng: core interfaces.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

typedef std::string str;

// ------------------------------------------------------------------ PRNG (splitmix64; every choice comes from here)
struct Rng {
   uint64_t s;
   explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
   uint64_t next() {
      uint64_t z = (s += 0x9E3779B97F4A7C15ull);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      return z ^ (z >> 31);
   }
   uint64_t below(uint64_t n) { return n ? next() % n : 0; }
   long range(long a, long b) { return a + (long) below(b - a + 1); }
   bool chance(int pct) { return (int) below(100) < pct; }
   double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
   template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull);
inline uint64_t hash_str(const str& s, uint64_t h = 0xcbf29ce484222325ull) { return hash_bytes(s.data(), s.size(), h); }

// ------------------------------------------------------------------ events the simulator decides
enum Ev { E_OPEN, E_WRITE, E_READ, E_CLOSE, E_SEEK, E_STAT, E_TRUNC, E_MMAP, E_UNLINK, E_MKFIFO, E_MKSTEMP, E_RENAME,
          E_MKDIR, E_ALLOC, E_ENTROPY, E_CLOCK, E_SYSINFO, N_EV };
extern const char* ev_names[N_EV];
int ev_by_name(const str& s);   // -1: "any"

struct Fault {
   int op;        // scope: index of the operation (-1: any)
   int cls;       // event class, -1: any class
   int n;         // n-th event of that class inside the scope (0-based)
   str kind;      // fail short eintr full eio crash crashmid eof closelose jump ...
   long arg;
};

struct Plan {
   str prop;
   uint64_t seed = 0;
   std::map<str, str> cfg;
   std::vector<std::vector<str> > ops;
   std::vector<Fault> faults;

   str text() const;
   static bool parse(const str& text, Plan& p, str& err);
   long num(const str& k, long dflt = 0) const;
   str get(const str& k, const str& dflt = "") const;
   void set(const str& k, const str& v) { cfg[k] = v; }
   void set(const str& k, long v) { cfg[k] = std::to_string(v); }
   void op(std::initializer_list<str> l) { ops.push_back(std::vector<str>(l)); }
};

// ------------------------------------------------------------------ what a run leaves behind
struct OpCount { uint32_t n[N_EV]; uint32_t any; };
enum { MAX_OPS = 96, FAULT_KINDS = 40 };

struct Shared {                       // lives in shared memory; written by the simulated process
   volatile uint64_t hash;            // running hash of the event log
   volatile uint64_t events;
   volatile uint64_t sim_time_us;
   uint64_t start_time_us;
   OpCount cnt[MAX_OPS];
   volatile uint32_t fired[FAULT_KINDS];
   volatile uint32_t crashed;         // planned crash happened
   volatile uint32_t fault_any;       // number of injected faults so far
   volatile uint32_t switches;        // thread switches
   volatile uint64_t sched_hash;
   volatile uint64_t aligned_peak;    // most bytes handed out by posix_memalign at a time
   volatile uint32_t log_len;
   volatile uint32_t out_len;
   char log[1 << 20];
   char out[1 << 21];
};
extern Shared* S;

const char* fault_kind_name(int i);
int fault_kind_index(const str& kind);

// ------------------------------------------------------------------ process control (parent side)
struct ChildResult {
   enum How { EXIT, SIGNAL, HANG, CRASHED } how;   // CRASHED: the planned crash
   int code;                                       // exit status or signal
   uint64_t log_hash;
   str log;                                        // text of the event log (if verbose)
   std::vector<std::pair<str, str> > out;          // records emitted by the child
   OpCount cnt[MAX_OPS];
   uint32_t fault_any;
   uint32_t switches;
   uint64_t sched_hash;
   uint64_t aligned_peak;
   str get(const str& key, const str& dflt = "") const;
   bool has(const str& key) const;
   str how_text() const;
};
struct ChildOpts {
   std::vector<Fault> faults;
   uint64_t entropy = 1;         // seed of the simulated /dev/urandom
   uint64_t time0 = 1700000000ull * 1000000ull;
   uint64_t clock_seed = 0;      // 0: clock advances by a fixed amount
   uint64_t ram = 8ull << 30;    // simulated physical memory
   int fill = 0xA5;              // contents of fresh memory
   int cpu_limit = 40;           // seconds of CPU time before the run counts as hung
   int threads = 1;              // simulated OpenMP threads
   uint64_t sched_seed = 0;
   int sched_mode = 0;
   bool entropy_same = false;    // every read of the entropy source returns the same bytes
   long pid = 4242;               // process id the program sees
   std::vector<str> sched;       // schedule directives (C08)
   long max_events = 2000000;
};
// Runs fn in a forked child whose current directory is `dir`.
ChildResult run_child(const str& dir, const ChildOpts& o, const std::function<int()>& fn);

// scratch directory of this worker (removed at exit); fresh() empties and recreates a sub directory
str scratch();
void cleanup_scratch();
str fresh_dir(const str& name);
void copy_tree(const str& from, const str& to);
void remove_tree(const str& path);
std::map<str, str> read_tree(const str& dir);     // relative path -> content
bool read_file(const str& path, str& out);
bool write_file(const str& path, const str& data);

// ------------------------------------------------------------------ inside the simulated process
void op(int i);                                   // start of operation i (scope for faults and counters)
int op_current();
void emit(const str& key, const str& value);      // result record
void note(const char* fmt, ...);                  // line in the event log (hashed)
bool quiet_faults(bool q);                        // suspend the fault layer (oracle code inside the child)
struct Quiet { bool old; Quiet() : old(quiet_faults(true)) {} ~Quiet() { quiet_faults(old); } };
uint64_t now_us();
size_t aligned_live_bytes();                      // bytes handed out by posix_memalign and not freed
size_t aligned_live_blocks();
int open_fds();                                   // descriptors of simulated files still open
bool in_child();

// ------------------------------------------------------------------ properties
struct Outcome {
   str cls;          // empty: the property held; otherwise the violation class
   str detail;
   uint64_t hash = 0;
   uint64_t events = 0, sim_us = 0;
   uint32_t procs = 0, faults = 0, switches = 0;
   uint64_t state = 0;   // signature of the trace / final state for the distinct count
   bool nontrivial = true;
   OpCount cnt[MAX_OPS];
   str log;
   std::map<str, long> probes;
   Outcome() { for (auto& c : cnt) c = OpCount(); }
   void fail(const str& c, const str& d)
   {
      if (!cls.empty()) return;
      cls = c;
      detail = d;
      for (char& ch : detail)
         if ((unsigned char) ch < 32 || (unsigned char) ch > 126) ch = ch == '\n' ? '|' : '?';
   }
   void add(const ChildResult& r);
   void faultable(const ChildResult& r) { for (int i = 0; i < MAX_OPS; i++) cnt[i] = r.cnt[i]; }   // events faults may hit
};
struct Prop {
   const char* id;
   void (*gen)(Rng&, int tier, Plan&);                       // plan without faults
   Outcome (*exec)(const Plan&);
   void (*faults)(Rng&, int tier, Plan&, const Outcome& base);   // adds faults, knows the event counts of the fault-free run
   int fault_plans_quick, fault_plans_thorough;              // fault plans per base plan
   int seeds_quick, seeds_thorough;                          // base plans
};
extern std::vector<Prop>& props();
struct RegProp { RegProp(const Prop& p) { props().push_back(p); } };

extern bool verbose;
str fmt(const char* f, ...);
std::vector<str> split(const str& s, char c);
str hex(const void* p, size_t n);

// generic fault choice: picks `count` faults among the events of the base run
struct FaultMenu { int cls; const char* kind; long lo, hi; int weight; };
void add_faults(Rng& r, Plan& p, const Outcome& base, const std::vector<FaultMenu>& menu, int count, int op_lo = 0,
                int op_hi = MAX_OPS - 1);
}
