// C08: results do not depend on the number of worker threads and their interleaving.
#include "progs.h"
#include "omp_c08.h"
#include <math.h>
#include <string.h>
#include <stdlib.h>
using namespace sim;

static void gen(Rng& r, int tier, Plan& p)
{
   int mode = r.chance(tier ? 55 : 65) ? 0 : 1;   // the library's parallel operations, whole programs
   p.set("mode", mode);
   p.set("fill", r.below(256));
   p.set("scheds", r.range(2, 4));
   for (int i = 0; i < 4; i++) {
      p.set(fmt("threads%d", i), r.chance(70) ? r.range(2, 4) : r.range(5, 16));
      p.set(fmt("seed%d", i), r.below(1000000));
      p.set(fmt("period%d", i), 1l << r.range(0, 8));
   }
   if (mode == 1) {
      rand_program(r, 0, p, "pppeealcco");
      return;
   }
   auto N = [&](long a, long b) { return std::to_string(r.range(a, b)); };
   int n = r.range(2, 10);
   for (int i = 0; i < n; i++) {
      int k = r.below(20);
      if (k < 9) p.op({"prim", N(0, C08_PRIMS - 1), N(1, r.chance(80) ? 20 : 60), N(1, 3), N(1, 9999)});
      else if (k < 11) p.op({"view", N(0, 1023), N(1, 6), N(1, 6), N(1, 5), N(1, 9999)});
      else if (k < 17) p.op({"wf", N(0, C08_WFOPS - 1), rand_wf_spec(r, true, 40, "ug"), N(1, 9999)});
      else if (k < 19) p.op({"stokes", N(4, 9), N(1, 6), N(1, 9999)});
      else p.op({"log", N(1, 3)});
   }
}
static int body(const Plan& p)
{
   str res;
   for (int i = 0; i < (int) p.ops.size() && i < MAX_OPS; i++) {
      op(i);
      auto& w = p.ops[i];
      auto arg = [&](size_t n, long lo, long hi) { return std::max(lo, std::min(hi, w.size() > n ? atol(w[n].c_str()) : 0)); };
      std::vector<double> v;
      str err;
      if (w[0] == "prim") c08_prim(arg(1, 0, C08_PRIMS - 1), arg(2, 1, 200), arg(3, 1, 4), arg(4, 0, 100000), v);
      else if (w[0] == "view") c08_view(arg(1, 0, 1023), arg(2, 1, 8), arg(3, 1, 8), arg(4, 1, 8), arg(5, 0, 100000), v);
      else if (w[0] == "wf") err = c08_wf(arg(1, 0, C08_WFOPS - 1), w.size() > 2 && w[2].find(':') != str::npos ? w[2] : "grid:8/u/1", arg(3, 0, 100000), v);
      else if (w[0] == "stokes") err = c08_stokes(arg(1, 4, 12), arg(2, 1, 8) < 4 ? 1 : arg(2, 1, 8), arg(3, 0, 100000), v);
      else if (w[0] == "log") c08_log(i, arg(1, 1, 5), v);
      if (!err.empty()) emit(fmt("err%d", i), err);
      res += fmt("%zu ", v.size()) + hex(v.data(), v.size() * 8) + "\n";
   }
   Quiet q;
   write_file("results", res);
   return 0;
}
static std::vector<std::vector<double> > parse(const str& s)
{
   std::vector<std::vector<double> > r;
   auto dig = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
   for (auto& l : split(s, '\n')) {
      size_t k = l.find(' ');
      if (k == str::npos) continue;
      std::vector<double> v(atol(l.c_str()));
      unsigned char* b = (unsigned char*) v.data();
      for (size_t i = 0; i < v.size() * 8 && k + 2 + 2 * i < l.size(); i++) b[i] = dig(l[k + 1 + 2 * i]) << 4 | dig(l[k + 2 + 2 * i]);
      r.push_back(v);
   }
   return r;
}
// the log texts of the parallel flushes, in order of appearance
static str log_lines()
{
   str r;
   for (auto& l : split(stdout_text(), '\n'))
      if (l.find("of the parallel log") != str::npos) r += l + "\n";
   return r;
}
// the errors that the Chebychev propagator reports in its warnings
static std::vector<double> cheby_errors()
{
   std::vector<double> r;
   for (auto& l : split(stdout_text(), '\n')) {
      size_t k = l.find("Chebychev series not converged: ");
      if (k != str::npos) r.push_back(strtod(l.c_str() + k + 32, NULL));
   }
   return r;
}
static Outcome exec(const Plan& p)
{
   Outcome o;
   if (p.ops.empty()) return o;
   bool prog = p.num("mode") == 1;
   ChildOpts co;
   co.fill = p.num("fill", 0xa5);
   co.max_events = 400000;
   bool eigen = prog && (p.ops[0][0] == "lanczos" || p.ops[0][0] == "imag" || p.ops[0][0] == "ac");
   str in = prog ? make_inputs(p, "in") : "";
   auto run = [&](const str& name, int threads) {
      str d = fresh_dir(name);
      if (prog) copy_tree(in, d);
      ChildResult c = run_child(d, co, [&]() { return prog ? run_qdng({fmt("-p%d", threads), "in.xml"}) : body(p); });
      o.add(c);
      return c;
   };
   auto outs = [&](const str& d) {
      auto t = read_tree(d);
      for (auto n : {"wisdom", "in.xml", ".qdconfig"}) t.erase(n);
      return t;
   };
   auto errs = [](const ChildResult& c) {
      str s;
      for (auto& e : c.out)
         if (e.first != "race") s += e.first + " " + e.second + "\n";
      return s;
   };
   co.threads = 1;
   ChildResult ref = run("ref", 1);
   str rd = scratch() + "/ref", text;
   str wl = log_lines();
   auto we = cheby_errors();
   if (ref.how != ChildResult::EXIT || (ref.code && !prog)) {
      o.fail("reference-run-fails", ref.how_text());
      return o;
   }
   auto want = outs(rd);
   auto wv = prog ? std::vector<std::vector<double> >() : parse(want["results"]);
   o.state = ref.log_hash;
   str hot;
   std::map<int, std::map<str, str> > shaken;
   long n = std::max(1l, std::min(4l, p.num("scheds", 2)));
   for (long i = 0; i < n + 2 && o.cls.empty(); i++) {
      if (i >= n && hot.empty()) break;   // directed at the conflicting accesses seen before
      long k = i < n ? i : 0;
      int threads = std::max(2l, std::min(32l, p.num(fmt("threads%ld", k), 2)));
      co.threads = threads;
      co.sched_seed = p.num(fmt("seed%ld", k), 1) + (i >= n ? 500 + i : 0);
      co.sched.clear();
      if (i >= n) {
         co.sched_mode = 3;
         for (auto& h : split(hot, ' '))
            if (!h.empty()) co.sched.push_back("pc:" + h);
         co.sched.push_back(i == n ? "hot:50" : "hot:15");
      } else if (i == 1) {
         co.sched_mode = 2;
         co.sched.push_back(fmt("chpts:%ld", std::max(2l, std::min(2000l, 20000 / std::max(10l, p.num(fmt("period%ld", k), 16))))));
      } else {
         co.sched_mode = 1;
         co.sched.push_back(fmt("period:%ld", std::max(1l, std::min(4096l, p.num(fmt("period%ld", k), 16)))));
         if (i == 0) co.sched.push_back("record");
      }
      ChildResult c = run("par", threads);
      auto ge = cheby_errors();
      if (i == 0) hot = c.get("race");
      str what = fmt("%d threads, %s schedule %ld: ", threads, co.sched_mode == 1 ? "random" : co.sched_mode == 2 ? "priority" : "directed", i);
      if (verbose) o.log += what + fmt("%u switches, conflicts at %s\n", c.switches, hot.c_str());
      o.state = o.state * 31 + c.sched_hash;
      o.probes[co.sched_mode == 1 ? "random_schedules" : co.sched_mode == 2 ? "priority_schedules" : "directed_schedules"]++;
      if (c.switches) o.probes["schedules_with_switches"]++;
      if (c.how == ChildResult::HANG) o.fail("hang", what + c.how_text());
      else if (c.how == ChildResult::EXIT && c.code == 83) o.fail("deadlock", what + "the threads wait for each other");
      else if (c.how != ChildResult::EXIT || (c.code >= 77 && c.code != ref.code)) o.fail("crash", what + c.how_text());
      else if (c.code != ref.code) o.fail("result-differs", what + fmt("exit status %d, with one thread %d", c.code, ref.code));
      if (!o.cls.empty()) break;
      auto got = outs(scratch() + "/par");
      if (prog) {
         for (auto& e : want)
            if (!got.count(e.first)) o.fail("result-differs", what + e.first + " is missing");
         for (auto& e : got)
            if (!want.count(e.first)) o.fail("result-differs", what + e.first + " should not exist");
         if (o.cls.empty() && !ref.code) {
            double tol = p.num("zip") ? 1e-5 : 1e-8;
            str d = diff_values(want, got, rd, scratch() + "/par", tol, eigen);
            for (; !d.empty() && tol < 1; tol *= 100) {
               // Does the program itself amplify rounding errors that much?  Ask one thread with inputs changed in their last digits.
               str e;
               for (int k = 0; k < 3 && e.empty(); k++) {
                  str sd = scratch() + fmt("/shaken%d", k);
                  if (!shaken.count(k)) {
                     Plan q = p;
                     q.set("perturb", k + 1);
                     str i2 = make_inputs(q, "in2");
                     fresh_dir(fmt("shaken%d", k));
                     copy_tree(i2, sd);
                     ChildOpts c1;
                     c1.fill = co.fill;
                     c1.max_events = co.max_events;
                     run_child(sd, c1, [&]() { return run_qdng({"-p1", "in.xml"}); });
                     shaken[k] = outs(sd);
                  }
                  auto sh = shaken[k];
                  for (auto& x : read_tree(in)) sh.erase(x.first);   // (the inputs themselves were changed)
                  e = diff_values(want, sh, rd, sd, tol * 1e-3, eigen);
               }
               if (e.empty()) break;
               o.probes["ill_conditioned"]++;
               d = diff_values(want, got, rd, scratch() + "/par", tol * 100, eigen);
            }
            if (tol >= 1) d.clear();
            if (!d.empty()) o.fail("result-differs", what + d);
            else {
               for (size_t j = 0; j < std::max(ge.size(), we.size()) && o.cls.empty(); j++)
                  if (j >= ge.size() || j >= we.size() || !(fabs(ge[j] - we[j]) <= 1e-9 + 1e-3 * fabs(we[j])))
                     o.fail("result-differs", what + fmt("convergence warning %zu reports %g, with one thread %g", j, j < ge.size() ? ge[j] : NAN, j < we.size() ? we[j] : NAN));
            }
         }
         continue;
      }
      if (errs(c) != errs(ref)) o.fail("result-differs", what + "errors: " + errs(c) + " with one thread: " + errs(ref));
      auto gv = parse(got["results"]);
      for (size_t q = 0; q < wv.size() && o.cls.empty(); q++) {
         str w;
         for (auto& x : p.ops[q]) w += x + " ";
         if (q >= gv.size() || gv[q].size() != wv[q].size()) {
            o.fail("result-differs", what + w + "has another size");
            break;
         }
         double m = 1e-300;
         for (double x : wv[q])
            if (fabs(x) > m && fabs(x) < 1e300) m = fabs(x);
         for (size_t j = 0; j < wv[q].size(); j++) {
            double a = wv[q][j], b = gv[q][j];
            if (!memcmp(&a, &b, 8) || (a != a && b != b) || fabs(a - b) <= 1e-11 * m) continue;
            o.fail("result-differs", what + w + fmt("value %zu: %.15g, with one thread %.15g", j, b, a));
            break;
         }
      }
      if (log_lines() != wl) o.fail("log-differs", what + "log: " + log_lines() + "with one thread: " + wl);
   }
   o.probes[prog ? "programs" : "operations"]++;
   return o;
}
static void faults(Rng&, int, Plan&, const Outcome&) {}
static RegProp reg({"C08", gen, exec, faults, 0, 0, 2400, 100000});
