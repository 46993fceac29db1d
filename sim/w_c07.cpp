// C07: a program run that ends with success has delivered all its output completely.
#include "progs.h"
#include <string.h>
using namespace sim;

static void gen(Rng& r, int tier, Plan& p)
{
   rand_program(r, tier, p);
   p.set("stale", r.chance(25) ? 1 : 0);
   p.set("fill", r.below(256));
}
static void faults(Rng& r, int tier, Plan& p, const Outcome& b)
{
   static const std::vector<FaultMenu> menu = {
      {E_OPEN, "fail", 0, 0, 5}, {E_READ, "fail", 0, 0, 5}, {E_READ, "short", 1, 200, 3}, {E_READ, "eintr", 0, 0, 2}, {E_READ, "tear", 1, 200, 4}, {E_READ, "eof", 0, 0, 4},
      {E_READ, "eio", 0, 0, 3}, {E_WRITE, "fail", 0, 0, 6}, {E_WRITE, "short", 1, 300, 4}, {E_WRITE, "eintr", 0, 0, 2}, {E_WRITE, "full", 0, 600, 5},
      {E_WRITE, "eio", 0, 0, 3}, {E_CLOSE, "fail", 0, 0, 4}, {E_CLOSE, "closelose", 1, 200, 3}, {E_SEEK, "fail", 0, 0, 2}, {E_STAT, "fail", 0, 0, 3},
      {E_MKDIR, "fail", 0, 0, 1}, {E_RENAME, "fail", 0, 0, 2}, {E_UNLINK, "fail", 0, 0, 1}, {E_TRUNC, "fail", 0, 0, 1}, {E_MMAP, "fail", 0, 0, 1}, {E_ALLOC, "enomem", 0, 0, 3},
      {E_SYSINFO, "fail", 0, 0, 1}};
   add_faults(r, p, b, menu, r.chance(70) ? 1 : r.range(2, 3));
}
static Outcome exec(const Plan& p)
{
   Outcome o;
   if (p.ops.empty()) return o;
   str in = make_inputs(p, "in");
   auto ti = read_tree(in);
   ChildOpts co;
   co.fill = p.num("fill", 0xa5);
   auto run = [&](const str& name, const std::vector<Fault>& f) {
      str d = fresh_dir(name);
      if (p.num("stale")) {   // leftovers of another, longer run
         Plan q = p;
         q.set("vals", p.num("vals") + 1);
         for (auto& op : q.ops)
            for (auto& w : op)
               if (w.compare(0, 6, "steps=") == 0) w = fmt("steps=%ld", std::min(60l, atol(w.c_str() + 6) + 3));
         str in2 = make_inputs(q, "in2");
         copy_tree(in2, d);
         run_child(d, co, []() { return run_qdng({"-p1", "in.xml"}); });
         for (auto& e : read_tree(in2)) remove_tree(d + "/" + e.first);   // the input files are this run's own
         remove_tree(d + "/wisdom");
      }
      copy_tree(in, d);
      co.faults = f;
      ChildResult c = run_child(d, co, []() { return run_qdng({"-p1", "in.xml"}); });
      co.faults.clear();
      o.add(c);
      return c;
   };
   ChildResult h = run("healthy", {});
   str ht = stdout_text();
   auto tail = [](const str& t) { return t.size() > 160 ? t.substr(t.size() - 160) : t; };
   if (h.how != ChildResult::EXIT) {
      o.fail(h.how == ChildResult::HANG ? "healthy-run-hangs" : "healthy-run-crashes", h.how_text() + " " + tail(ht));
      return o;
   }
   if (h.code) {
      if (h.code == 1 && meaningless_input(ht)) o.probes["invalid_programs"]++;
      else o.fail("valid-input-rejected", tail(ht));
      return o;
   }
   auto want = outputs(read_tree(scratch() + "/healthy"), ti);
   o.state = h.log_hash;
   o.faultable(h);
   o.probes[p.ops[0][0] + "_runs"]++;
   if (p.num("stale")) {   // the healthy run itself must not depend on leftovers
      Plan q = p;
      str d = fresh_dir("clean");
      copy_tree(in, d);
      run_child(d, co, []() { return run_qdng({"-p1", "in.xml"}); });
      want = outputs(read_tree(d), ti);
      auto got = read_tree(scratch() + "/healthy");
      for (auto& e : want) {
         auto i = got.find(e.first);
         if (i == got.end()) o.fail("leftovers-change-output", e.first + " is missing");
         else if (i->second != e.second) o.fail("leftovers-change-output", e.first + fmt(" differs (%zu bytes, expected %zu)", i->second.size(), e.second.size()));
      }
   }
   if (p.faults.empty() || !o.cls.empty()) return o;

   std::vector<Fault> fs;   // (an empty configuration file is a valid one)
   for (auto& x : p.faults)
      if (x.kind != "eof" || !p.num("config")) fs.push_back(x);
   ChildResult f = run("run", fs);
   str t = stdout_text();
   o.state = f.log_hash;
   o.nontrivial = f.fault_any > 0;
   if (verbose) o.log += f.log + t;
   if (f.how == ChildResult::HANG) o.fail("run-hangs", f.how_text() + " " + tail(t));
   else if (f.how != ChildResult::EXIT) o.fail("run-crashes", f.how_text() + " " + tail(t));
   else if (f.code) {
      o.probes["error_exit"]++;
      if (f.code >= 77 && f.code <= 83) o.fail("run-crashes", f.how_text() + " " + tail(t));
      else if (t.find("rror") == str::npos && t.find("failed") == str::npos) o.fail("error-without-message", fmt("exit status %d ", f.code) + tail(t));
      else {
         bool hard = false;   // partial transfers must be continued
         for (auto& x : p.faults)
            if (x.kind != "short") hard = true;   // (stdio reports EINTR as a clean read error)
         if (!hard) o.fail("partial-transfer-fails-run", tail(t));
      }
   } else {
      o.probes[f.fault_any ? "success_despite_fault" : "fault_not_reached"]++;
      auto got = read_tree(scratch() + "/run");
      for (auto& e : want) {
         auto i = got.find(e.first);
         if (i == got.end()) o.fail("success-without-output", e.first + " is missing");
         else if (i->second != e.second) o.fail("success-with-wrong-output", e.first + fmt(" differs (%zu bytes, expected %zu)", i->second.size(), e.second.size()));
      }
   }
   return o;
}
static RegProp reg({"C07", gen, exec, faults, 4, 10, 3200, 30000});
