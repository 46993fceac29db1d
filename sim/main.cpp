// Command line of the simulator.
#include "progs.h"
#include "seam.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/personality.h>
#include <set>
#include <algorithm>
using namespace sim;

static Prop* find(const str& id)
{
   for (auto& p : props())
      if (id == p.id) return &p;
   fprintf(stderr, "unknown property %s\n", id.c_str());
   exit(2);
}
static str one_line(str s)
{
   for (auto& c : s)
      if (c == '\n') c = '\x1f';
   return s;
}
static str jesc(const str& s)
{
   str r;
   char b[8];
   for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c == '\n') r += "\\n";
      else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += c;
   }
   return r;
}
struct Totals {
   uint64_t runs = 0, procs = 0, events = 0, sim_us = 0, faulted = 0, faults = 0, switches = 0, nontrivial = 0;
   std::map<str, long> probes;
   std::set<uint64_t> states;
   void add(const Outcome& o)
   {
      runs++;
      procs += o.procs;
      events += o.events;
      sim_us += o.sim_us;
      faults += o.faults;
      switches += o.switches;
      if (o.faults) faulted++;
      if (o.nontrivial) {
         nontrivial++;
         states.insert(o.state ? o.state : o.hash);
      }
      for (auto& p : o.probes) probes[p.first] += p.second;
   }
};
static bool same_class(const str& a, const str& b) { return a == b; }

// ddmin over plan lines, then numeric shrinking
static Plan shrink(Prop* pr, Plan p, const str& cls, int budget)
{
   int used = 0;
   auto fails = [&](const Plan& q) {
      if (used++ >= budget) return false;
      return same_class(pr->exec(q).cls, cls);
   };
   bool progress = true;
   while (progress && used < budget) {
      progress = false;
      for (size_t i = p.faults.size(); i-- > 0;) {
         Plan q = p;
         q.faults.erase(q.faults.begin() + i);
         if (fails(q)) { p = q; progress = true; }
      }
      for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1; chunk /= 2) {
         for (size_t i = 0; i + chunk <= p.ops.size();) {
            Plan q = p;
            q.ops.erase(q.ops.begin() + i, q.ops.begin() + i + chunk);
            bool ok = true;
            std::vector<Fault> nf;
            for (auto f : q.faults) {
               if (f.op >= (int) i + (int) chunk) f.op -= chunk;
               else if (f.op >= (int) i) { ok = false; }
               nf.push_back(f);
            }
            q.faults = nf;
            if (ok && fails(q)) { p = q; progress = true; }
            else i += chunk;
         }
         if (chunk == 1) break;
      }
      for (size_t i = 0; i < p.faults.size(); i++) {
         for (int what = 0; what < 2; what++) {
            long v = what ? p.faults[i].arg : p.faults[i].n;
            if (what && p.faults[i].kind == "fail") continue;
            for (long t : {0l, v / 2, v - 1}) {
               if (t >= v || t < 0) continue;
               Plan q = p;
               if (what) q.faults[i].arg = t; else q.faults[i].n = t;
               if (fails(q)) { p = q; progress = true; break; }
            }
         }
      }
      for (auto& c : std::map<str, str>(p.cfg)) {
         char* e;
         long v = strtol(c.second.c_str(), &e, 10);
         if (*e || c.second.empty() || v <= 0) continue;
         for (long t : {0l, 1l, v / 2}) {
            if (t >= v) continue;
            Plan q = p;
            q.set(c.first, t);
            if (fails(q)) { p = q; progress = true; break; }
         }
      }
   }
   return p;
}

static int real_main(int argc, char** argv);
int main(int argc, char** argv)
{
   int rc = real_main(argc, argv);
   fflush(stdout);
   cleanup_scratch();
   _exit(rc);   // static destructors of the simulated library belong to the simulated processes only
}
static int real_main(int argc, char** argv)
{
   if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("QDSIM_REEXEC")) {
      setenv("QDSIM_REEXEC", "1", 1);
      if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
   }
   // a fixed environment: nothing of the caller's reaches the simulated program
   clearenv();
   setenv("HOME", "/nonexistent", 1);
   setenv("PATH", "/usr/bin:/bin", 1);
   if (argc < 2) {
      fprintf(stderr, "usage: qdsim list | gen P SEED | worker P SEED TIER FIRST STRIDE COUNT DEADLINE | exec PLAN [-v] | shrink PLAN OUT BUDGET | twice P SEED N\n");
      return 2;
   }
   str mode = argv[1];
   if (mode == "list") {
      for (auto& p : props()) printf("%s %d %d %d %d\n", p.id, p.seeds_quick, p.fault_plans_quick, p.seeds_thorough, p.fault_plans_thorough);
      return 0;
   }
   if (mode == "gen") {
      Prop* p = find(argv[2]);
      Rng r(strtoull(argv[3], 0, 10));
      Plan q;
      q.prop = p->id;
      q.seed = strtoull(argv[3], 0, 10);
      p->gen(r, 0, q);
      printf("%s", q.text().c_str());
      return 0;
   }
   if (mode == "worker") {
      Prop* p = find(argv[2]);
      uint64_t base = strtoull(argv[3], 0, 10);
      int tier = atoi(argv[4]);
      long first = atol(argv[5]), stride = atol(argv[6]), count = atol(argv[7]), limit = atol(argv[8]);
      time_t t0 = real_time_now();
      Totals tot;
      long done = 0, fails = 0, cut = 0;
      for (long i = first; i < count; i += stride) {
         if (real_time_now() - t0 > limit) { cut = 1; break; }
         uint64_t seed = base * 1000003ull + i;
         Rng r(seed);
         Plan plan;
         plan.prop = p->id;
         plan.seed = seed;
         p->gen(r, tier, plan);
         Outcome b = p->exec(plan);
         tot.add(b);
         done++;
         auto report = [&](const Plan& q, const Outcome& o) {
            fails++;
            printf("FAIL %ld %s %016lx\t%s\t%s\n", i, o.cls.c_str(), (unsigned long) o.hash, one_line(o.detail).c_str(), one_line(q.text()).c_str());
            fflush(stdout);
         };
         if (!b.cls.empty()) report(plan, b);
         else if (p->faults) {
            int n = tier ? p->fault_plans_thorough : p->fault_plans_quick;
            for (int k = 0; k < n; k++) {
               Plan q = plan;
               Rng fr(seed * 7919 + k + 1);
               p->faults(fr, tier, q, b);
               if (q.faults.empty() && q.cfg == plan.cfg) continue;
               Outcome o = p->exec(q);
               tot.add(o);
               if (!o.cls.empty()) report(q, o);
               if (fails > 40) break;
            }
         }
         if (done <= 1 && first < 2) printf("SAMPLE %s\n", one_line(plan.text()).c_str());
         if (fails > 40) break;
      }
      printf("STATS {\"base_plans\":%ld,\"cut\":%ld,\"runs\":%lu,\"processes\":%lu,\"events\":%lu,\"sim_us\":%lu,\"faulted_runs\":%lu,\"faults\":%lu,\"switches\":%lu,\"nontrivial\":%lu,\"probes\":{", done, cut,
             tot.runs, tot.procs, tot.events, tot.sim_us, tot.faulted, tot.faults, tot.switches, tot.nontrivial);
      bool c = false;
      for (auto& pb : tot.probes) {
         printf("%s\"%s\":%ld", c ? "," : "", jesc(pb.first).c_str(), pb.second);
         c = true;
      }
      printf("}}\nSTATES");
      for (auto s : tot.states) printf(" %lx", (unsigned long) s);
      printf("\n");
      return 0;
   }
   if (mode == "exec" || mode == "shrink") {
      str text, err;
      Plan p;
      if (!read_file(argv[2], text) || !Plan::parse(text, p, err)) {
         fprintf(stderr, "cannot read plan %s %s\n", argv[2], err.c_str());
         return 2;
      }
      Prop* pr = find(p.prop);
      if (mode == "shrink") {
         Outcome o = pr->exec(p);
         if (o.cls.empty()) { printf("NOFAIL\n"); return 0; }
         Plan q = shrink(pr, p, o.cls, argc > 4 ? atoi(argv[4]) : 400);
         o = pr->exec(q);
         write_file(argv[3], q.text());
         printf("RESULT %s %016lx\t%s\n", o.cls.empty() ? "held" : o.cls.c_str(), (unsigned long) o.hash, one_line(o.detail).c_str());
         return 0;
      }
      verbose = argc > 3 && !strcmp(argv[3], "-v");
      Outcome o = pr->exec(p);
      if (verbose) {
         printf("%s\n", o.log.c_str());
         for (auto& pb : o.probes) printf("probe %s %ld\n", pb.first.c_str(), pb.second);
         printf("%s\n", o.detail.c_str());
      }
      printf("RESULT %s %016lx\t%s\n", o.cls.empty() ? "held" : o.cls.c_str(), (unsigned long) o.hash, one_line(o.detail).c_str());
      return 0;
   }
   if (mode == "inputs") {   // the input files of a plan of program runs, for use with the real programs
      str text, err;
      Plan p;
      if (argc < 4 || !read_file(argv[2], text) || !Plan::parse(text, p, err)) return 2;
      copy_tree(make_inputs(p, "in"), argv[3]);
      return 0;
   }
   if (mode == "hashes") {   // determinism self test: hash of every run
      Prop* p = find(argv[2]);
      uint64_t base = strtoull(argv[3], 0, 10);
      for (int i = 0; i < atoi(argv[4]); i++) {
         uint64_t seed = base * 1000003ull + i;
         Rng r(seed);
         Plan plan;
         plan.prop = p->id;
         plan.seed = seed;
         p->gen(r, 0, plan);
         Outcome b = p->exec(plan);
         printf("%d base %016lx %s\n", i, (unsigned long) b.hash, b.cls.c_str());
         if (b.cls.empty() && p->faults)
            for (int k = 0; k < 2; k++) {
               Plan q = plan;
               Rng fr(seed * 7919 + k + 1);
               p->faults(fr, 0, q, b);
               Outcome o = p->exec(q);
               printf("%d.%d %016lx %s\n", i, k, (unsigned long) o.hash, o.cls.c_str());
            }
      }
      return 0;
   }
   return 2;
}
