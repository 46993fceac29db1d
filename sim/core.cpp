// Plans, processes, faults, utilities.
#include "sim.h"
#include "seam.h"
#include "gomp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <set>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

namespace sim {

Shared* S = NULL;
bool verbose = false;
static bool g_child = false;
static bool g_quiet = true;
static int g_op = 0;
static OpCount g_all;
static std::vector<Fault>* g_faults = NULL;
static std::vector<int>* g_used = NULL;
static long g_max_events = 0;
State& st = *new State;   // never destroyed: used until the very end of exit()

const char* ev_names[N_EV] = {"open", "write", "read", "close", "seek", "stat", "trunc", "mmap", "unlink", "mkfifo",
                              "mkstemp", "rename", "mkdir", "alloc", "entropy", "clock", "sysinfo"};
static const char* kinds[FAULT_KINDS] = {"fail", "short", "eintr", "full", "eio", "crash", "crashmid", "eof", "closelose",
                                         "jump", "zero", "enomem", "same", "lie", "tear", NULL};

int ev_by_name(const str& s)
{
   for (int i = 0; i < N_EV; i++)
      if (s == ev_names[i]) return i;
   return -1;
}
const char* fault_kind_name(int i) { return i < FAULT_KINDS ? kinds[i] : NULL; }
int fault_kind_index(const str& k)
{
   for (int i = 0; i < FAULT_KINDS && kinds[i]; i++)
      if (k == kinds[i]) return i;
   return FAULT_KINDS - 1;
}

uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
   const unsigned char* c = (const unsigned char*) p;
   for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
   return h;
}

str fmt(const char* f, ...)
{
   char b[4096];
   va_list a;
   va_start(a, f);
   vsnprintf(b, sizeof b, f, a);
   va_end(a);
   return b;
}
std::vector<str> split(const str& s, char c)
{
   std::vector<str> r;
   str cur;
   for (char x : s) {
      if (x == c) {
         if (!cur.empty() || c != ' ') r.push_back(cur);
         cur.clear();
      } else cur += x;
   }
   if (!cur.empty()) r.push_back(cur);
   return r;
}
str hex(const void* p, size_t n)
{
   str r;
   char b[4];
   for (size_t i = 0; i < n; i++) {
      snprintf(b, sizeof b, "%02x", ((const unsigned char*) p)[i]);
      r += b;
   }
   return r;
}

// ------------------------------------------------------------------ plans
str Plan::text() const
{
   str t = "prop " + prop + "\nseed " + std::to_string(seed) + "\n";
   for (auto& c : cfg) t += "cfg " + c.first + " " + c.second + "\n";
   for (auto& o : ops) {
      t += "op";
      for (auto& w : o) t += " " + (w.empty() ? str("-") : w);
      t += "\n";
   }
   for (auto& f : faults)
      t += fmt("fault %d %s %d %s %ld\n", f.op, f.cls < 0 ? "any" : ev_names[f.cls], f.n, f.kind.c_str(), f.arg);
   return t;
}
bool Plan::parse(const str& text, Plan& p, str& err)
{
   p = Plan();
   for (auto& line : split(text, '\n')) {
      if (line.empty() || line[0] == '#') continue;
      std::vector<str> w = split(line, ' ');
      if (w[0] == "prop" && w.size() == 2) p.prop = w[1];
      else if (w[0] == "seed" && w.size() == 2) p.seed = strtoull(w[1].c_str(), 0, 10);
      else if (w[0] == "cfg" && w.size() >= 2) {
         size_t pos = 4 + w[1].size() + 1;
         p.cfg[w[1]] = line.size() > pos ? line.substr(pos) : "";
      } else if (w[0] == "op") p.ops.push_back(std::vector<str>(w.begin() + 1, w.end()));
      else if (w[0] == "fault" && w.size() == 6) {
         Fault f;
         f.op = atoi(w[1].c_str());
         f.cls = ev_by_name(w[2]);
         f.n = atoi(w[3].c_str());
         f.kind = w[4];
         f.arg = atol(w[5].c_str());
         p.faults.push_back(f);
      } else if (w[0] == "expect" || w[0] == "hash") continue;
      else {
         err = "bad line: " + line;
         return false;
      }
   }
   return true;
}
long Plan::num(const str& k, long d) const
{
   auto i = cfg.find(k);
   return i == cfg.end() ? d : atol(i->second.c_str());
}
str Plan::get(const str& k, const str& d) const
{
   auto i = cfg.find(k);
   return i == cfg.end() ? d : i->second;
}

// ------------------------------------------------------------------ files (parent side, never simulated)
bool read_file(const str& path, str& out)
{
   Quiet q;
   int fd = real_open(path.c_str(), O_RDONLY, 0);
   if (fd < 0) return false;
   out.clear();
   char b[65536];
   ssize_t n;
   while ((n = real_read(fd, b, sizeof b)) > 0) out.append(b, n);
   real_close(fd);
   return true;
}
bool write_file(const str& path, const str& data)
{
   Quiet q;
   int fd = real_open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
   if (fd < 0) return false;
   size_t d = 0;
   while (d < data.size()) {
      ssize_t n = real_write(fd, data.data() + d, data.size() - d);
      if (n <= 0) break;
      d += n;
   }
   real_close(fd);
   return d == data.size();
}
static void walk(const str& base, const str& rel, std::map<str, str>& out, bool load)
{
   DIR* d = opendir((base + "/" + rel).c_str());
   if (!d) return;
   std::vector<str> names;
   while (dirent* e = readdir(d)) {
      str n = e->d_name;
      if (n != "." && n != "..") names.push_back(n);
   }
   closedir(d);
   std::sort(names.begin(), names.end());
   for (auto& n : names) {
      str r = rel.empty() ? n : rel + "/" + n;
      struct stat sb;
      if (lstat((base + "/" + r).c_str(), &sb)) continue;
      if (S_ISDIR(sb.st_mode)) {
         walk(base, r, out, load);
         out[r + "/"] = "";
      } else if (S_ISREG(sb.st_mode)) {
         str c;
         if (load) read_file(base + "/" + r, c);
         out[r] = c;
      } else out[r] = S_ISFIFO(sb.st_mode) ? "<fifo>" : "<special>";
   }
}
std::map<str, str> read_tree(const str& dir)
{
   Quiet q;
   std::map<str, str> m;
   walk(dir, "", m, true);
   return m;
}
static str g_scratch;
static pid_t g_scratch_owner;
static bool inside_scratch(const str& p) { return !g_scratch.empty() && p.compare(0, g_scratch.size(), g_scratch) == 0; }
void remove_tree(const str& path)
{
   Quiet q;
   if (!inside_scratch(path)) return;
   std::map<str, str> m;
   walk(path, "", m, false);
   for (auto& e : m)
      if (e.first[e.first.size() - 1] != '/') real_unlink((path + "/" + e.first).c_str());
   for (auto i = m.rbegin(); i != m.rend(); ++i)
      if (i->first[i->first.size() - 1] == '/') rmdir((path + "/" + i->first).c_str());
   if (rmdir(path.c_str())) real_unlink(path.c_str());
}
void copy_tree(const str& from, const str& to)
{
   Quiet q;
   real_mkdir(to.c_str(), 0777);
   std::map<str, str> m = read_tree(from);
   for (auto& e : m)
      if (e.first[e.first.size() - 1] == '/') {
         // parents sort before children once the slash is dropped
         str d = to;
         for (auto& part : split(e.first, '/')) {
            if (part.empty()) continue;
            d += "/" + part;
            real_mkdir(d.c_str(), 0777);
         }
      }
   for (auto& e : m)
      if (e.first[e.first.size() - 1] != '/' && e.second != "<fifo>") write_file(to + "/" + e.first, e.second);
}
static void drop_scratch()
{
   if ((pid_t) syscall(SYS_getpid) == g_scratch_owner && !g_scratch.empty() && !(syscall(SYS_access, "/tmp/qdsim_keep", 0) == 0)) {
      if (chdir("/")) {}
      str s = g_scratch;
      remove_tree(s);
   }
}
void cleanup_scratch() { drop_scratch(); }
static void on_term(int) { drop_scratch(); _exit(99); }
str scratch()
{
   if (g_scratch.empty()) {
      const char* roots[] = {"/dev/shm", "/tmp", NULL};
      for (int i = 0; roots[i]; i++) {
         str t = str(roots[i]) + "/qdsim.XXXXXX";
         std::vector<char> b(t.begin(), t.end());
         b.push_back(0);
         if (mkdtemp_real(&b[0])) {
            g_scratch = &b[0];
            break;
         }
      }
      if (g_scratch.empty()) {
         fprintf(stderr, "no scratch directory\n");
         exit(3);
      }
      g_scratch_owner = (pid_t) syscall(SYS_getpid);
      atexit(drop_scratch);
      signal(SIGTERM, on_term);
      signal(SIGINT, on_term);
   }
   return g_scratch;
}
str fresh_dir(const str& name)
{
   str d = scratch() + "/" + name;
   remove_tree(d);
   real_mkdir(d.c_str(), 0777);
   return d;
}

// ------------------------------------------------------------------ inside the child

bool active() { return g_child && !g_quiet; }
bool in_child() { return g_child; }

bool quiet_faults(bool q)
{
   bool o = g_quiet;
   g_quiet = q;
   return o;
}
int op_current() { return g_op; }
void op(int i)
{
   if (i >= MAX_OPS) i = MAX_OPS - 1;
   g_op = i;
   st.full_op = false;
   st.bad_op.clear();
   note("op %d", i);
}
uint64_t now_us() { return S ? S->sim_time_us : 0; }

void note(const char* f, ...)
{
   if (!g_child) return;
   char b[1024];
   va_list a;
   va_start(a, f);
   int n = vsnprintf(b, sizeof b, f, a);
   va_end(a);
   if (n > (int) sizeof b - 2) n = sizeof b - 2;
   b[n++] = '\n';
   S->hash = hash_bytes(b, n, S->hash);
   uint32_t l = S->log_len;
   if (l + n < sizeof S->log) {
      memcpy(S->log + l, b, n);
      S->log_len = l + n;
   }
}
void emit(const str& key, const str& value)
{
   if (!g_child) return;
   uint32_t l = S->out_len, k = key.size(), v = value.size();
   if (l + 8 + k + v > sizeof S->out) {
      note("OUTPUT OVERFLOW");
      _exit(79);
   }
   memcpy(S->out + l, &k, 4);
   memcpy(S->out + l + 4, &v, 4);
   memcpy(S->out + l + 8, key.data(), k);
   memcpy(S->out + l + 8 + k, value.data(), v);
   S->out_len = l + 8 + k + v;
}
void crash_now(const char* where)
{
   note("CRASH at %s", where);
   S->crashed = 1;
   S->fault_any++;
   _exit(77);
}
void count_fault(const Fault* f)
{
   S->fired[fault_kind_index(f->kind)]++;
   S->fault_any++;
}
const Fault* event(Ev cls)
{
   if (!active()) return NULL;
   S->events++;
   if ((long) S->events > g_max_events) {
      note("EVENT LIMIT");
      _exit(78);
   }
   S->sim_time_us += st.clock_seed ? 1 + (hash_bytes((const void*) &S->events, 8, st.clock_seed) % 5000) : 100;
   OpCount& c = S->cnt[g_op];
   int n_op = c.n[cls]++, a_op = c.any++;
   int n_all = g_all.n[cls]++, a_all = g_all.any++;
   for (size_t i = 0; i < g_faults->size(); i++) {
      const Fault& f = (*g_faults)[i];
      if (f.cls >= 0 && f.cls != cls) continue;
      if (f.op >= 0 && f.op != g_op) continue;
      int at = f.op >= 0 ? (f.cls >= 0 ? n_op : a_op) : (f.cls >= 0 ? n_all : a_all);
      if (at != f.n) continue;
      if ((*g_used)[i]) continue;
      (*g_used)[i] = 1;
      if (f.kind == "crash") {
         S->fired[fault_kind_index(f.kind)]++;
         crash_now(ev_names[cls]);
      }
      return &f;
   }
   return NULL;
}
static void emit_exc(const str& w)
{
   emit("uncaught", w);
}
static void on_terminate()
{
   str w = "terminate";
   if (std::type_info* t = abi::__cxa_current_exception_type()) {
      int s;
      char* n = abi::__cxa_demangle(t->name(), 0, 0, &s);
      w += str(" after uncaught ") + (n ? n : t->name());
   }
   emit_exc(w);
   note("%s", w.c_str());
   _exit(80);
}

extern bool sim_threads_init(int n, uint64_t seed, int mode, const std::vector<str>& sched);

// uninitialised local variables of the program under test start with the fill byte, too
static __attribute__((noinline)) void fill_stack(int c)
{
   volatile char b[256 * 1024];
   for (size_t i = 0; i < sizeof b; i++) b[i] = c;
}
ChildResult run_child(const str& dir, const ChildOpts& o, const std::function<int()>& fn)
{
   scratch();
   if (!S) {
      S = (Shared*) mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (S == MAP_FAILED) {
         perror("mmap");
         exit(3);
      }
   }
   S->hash = 0xcbf29ce484222325ull;
   S->events = 0;
   S->sim_time_us = o.time0;
   S->start_time_us = o.time0;
   memset(S->cnt, 0, sizeof S->cnt);
   memset((void*) S->fired, 0, sizeof S->fired);
   S->crashed = S->fault_any = S->switches = S->log_len = S->out_len = 0;
   S->sched_hash = 0;
   S->aligned_peak = 0;
   fflush(stdout);
   fflush(stderr);
   pid_t pid = fork();
   if (pid < 0) {
      perror("fork");
      exit(3);
   }
   if (pid == 0) {
      signal(SIGTERM, SIG_DFL);
      signal(SIGINT, SIG_DFL);
      struct rlimit rl;
      rl.rlim_cur = rl.rlim_max = 0;
      setrlimit(RLIMIT_CORE, &rl);
      rl.rlim_cur = o.cpu_limit;
      rl.rlim_max = o.cpu_limit + 1;
      setrlimit(RLIMIT_CPU, &rl);
#ifndef QDSIM_TSAN
      rl.rlim_cur = rl.rlim_max = 6ull << 30;
      setrlimit(RLIMIT_AS, &rl);
#endif
      alarm(120 + 5 * o.cpu_limit);   // wall-clock backstop: only a run blocked outside the simulator meets it
      rl.rlim_cur = rl.rlim_max = 64ull << 20;
      setrlimit(RLIMIT_FSIZE, &rl);
      if (chdir(dir.c_str())) _exit(81);
      int fd = real_open("/dev/null", O_RDWR, 0);
      dup2(fd, 0);
      if (fd > 2) real_close(fd);
      fd = real_open("../stdout.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(fd, 1);
      dup2(fd, 2);
      if (fd > 2) real_close(fd);
      mallopt(M_PERTURB, o.fill);
      std::set_terminate(on_terminate);
      static std::vector<Fault> fl;
      static std::vector<int> used;
      fl = o.faults;
      used.assign(fl.size(), 0);
      g_faults = &fl;
      g_used = &used;
      g_max_events = o.max_events;
      memset(&g_all, 0, sizeof g_all);
      st = State();
      st.entropy = Rng(o.entropy);
      st.entropy_same = o.entropy_same;
      st.pid = o.pid;
      st.clock_seed = o.clock_seed;
      st.ram = o.ram;
      st.fill = o.fill;
      st.dir = dir;
      g_child = true;
      sim_threads_init(o.threads, o.sched_seed, o.sched_mode, o.sched);
      for (auto& x : o.sched)
         if (x == "record") atexit([]() { emit("race", racing_pcs()); });
      op(0);
      g_quiet = false;
      int rc;
      try {
         fill_stack(o.fill);
         rc = fn();
      } catch (std::exception& e) {
         emit_exc(str("std::exception ") + typeid(e).name() + ": " + e.what());
         rc = 82;
      } catch (...) {
         str w = "exception";
         if (std::type_info* t = abi::__cxa_current_exception_type()) w = t->name();
         emit_exc(w);
         rc = 82;
      }
      g_quiet = true;
      fflush(stdout);
      for (auto& x : o.sched)
         if (x == "record") emit("race", racing_pcs());
      _exit(rc);
   }
   ChildResult r;
   int status = 0;
   while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
   r.log_hash = S->hash;
   r.log.assign(S->log, S->log_len);
   memcpy(r.cnt, S->cnt, sizeof r.cnt);
   r.fault_any = S->fault_any;
   r.switches = S->switches;
   r.sched_hash = S->sched_hash;
   r.aligned_peak = S->aligned_peak;
   for (uint32_t i = 0; i + 8 <= S->out_len;) {
      uint32_t k, v;
      memcpy(&k, S->out + i, 4);
      memcpy(&v, S->out + i + 4, 4);
      r.out.push_back(std::make_pair(str(S->out + i + 8, k), str(S->out + i + 8 + k, v)));
      i += 8 + k + v;
   }
   r.code = 0;
   if (S->crashed && WIFEXITED(status) && WEXITSTATUS(status) == 77) r.how = ChildResult::CRASHED;
   else if (WIFEXITED(status) && WEXITSTATUS(status) == 78) r.how = ChildResult::HANG;
   else if (WIFEXITED(status) && WEXITSTATUS(status) == 80) {
      r.how = ChildResult::SIGNAL;
      r.code = SIGABRT;
   } else if (WIFEXITED(status)) {
      r.how = ChildResult::EXIT;
      r.code = WEXITSTATUS(status);
   } else {
      int sg = WTERMSIG(status);
      r.how = (sg == SIGXCPU || sg == SIGKILL || sg == SIGALRM) ? ChildResult::HANG : ChildResult::SIGNAL;
      r.code = sg;
   }
   return r;
}
str ChildResult::get(const str& key, const str& d) const
{
   for (auto& o : out)
      if (o.first == key) return o.second;
   return d;
}
bool ChildResult::has(const str& key) const
{
   for (auto& o : out)
      if (o.first == key) return true;
   return false;
}
str ChildResult::how_text() const
{
   switch (how) {
      case EXIT: return fmt("exit %d%s", code, has("uncaught") ? (": " + get("uncaught")).c_str() : "");
      case SIGNAL: return fmt("signal %d (%s)%s", code, strsignal(code), has("uncaught") ? (": " + get("uncaught")).c_str() : "");
      case HANG: return "hang";
      case CRASHED: return "planned crash";
   }
   return "?";
}
void Outcome::add(const ChildResult& r)
{
   hash = hash_bytes(&r.log_hash, 8, hash ? hash : 0xcbf29ce484222325ull);
   for (auto& o : r.out) hash = hash_str(o.second, hash_str(o.first, hash));
   int how[2] = {r.how, r.code};
   hash = hash_bytes(how, sizeof how, hash);
   events += S->events;
   sim_us += S->sim_time_us - S->start_time_us;
   faults += r.fault_any;
   switches += r.switches;
   procs++;
   for (int i = 0; i < FAULT_KINDS && kinds[i]; i++)
      if (S->fired[i]) probes[str("fault:") + kinds[i]] += S->fired[i];
   if (verbose) log += "--- process " + std::to_string(procs) + " (" + r.how_text() + ")\n" + r.log;
}

std::vector<Prop>& props()
{
   static std::vector<Prop> p;
   return p;
}

void add_faults(Rng& r, Plan& p, const Outcome& base, const std::vector<FaultMenu>& menu, int count, int lo, int hi)
{
   for (int k = 0; k < count; k++) {
      int total = 0;
      std::vector<std::pair<int, long> > cand;   // menu index, events available
      for (size_t m = 0; m < menu.size(); m++) {
         long n = 0;
         for (int o = lo; o <= hi && o < MAX_OPS; o++) n += menu[m].cls < 0 ? base.cnt[o].any : base.cnt[o].n[menu[m].cls];
         if (n > 0) {
            cand.push_back(std::make_pair((int) m, n));
            total += menu[m].weight;
         }
      }
      if (cand.empty()) return;
      long w = r.below(total);
      size_t c = 0;
      while (w >= menu[cand[c].first].weight) w -= menu[cand[c++].first].weight;
      const FaultMenu& m = menu[cand[c].first];
      long at = r.below(cand[c].second);
      // bias towards the last events of an operation: the commit points
      for (int o = lo; o <= hi && o < MAX_OPS; o++) {
         long n = m.cls < 0 ? base.cnt[o].any : base.cnt[o].n[m.cls];
         if (at < n) {
            if (r.chance(25)) at = n - 1;
            Fault f;
            f.op = o;
            f.cls = m.cls;
            f.n = at;
            f.kind = m.kind;
            f.arg = r.range(m.lo, m.hi);
            p.faults.push_back(f);
            break;
         }
         at -= n;
      }
   }
}
}
