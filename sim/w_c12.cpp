// C12: whole-program results do not depend on the memory budget of the wave function buffers.
#include "progs.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace sim;

static const char* dirs[] = {"", "tmp", "./tmp/", "missing", "tmp/a"};
static void gen(Rng& r, int tier, Plan& p)
{
   rand_program(r, tier, p, "ooolllaaccppe");
   for (auto& w : p.ops) {
      if (w[0] == "lanczos") w.push_back(fmt("order=%ld", r.range(4, 9)));
      else if (r.chance(55)) {   // the propagators that keep a basis
         bool arn = p.get("sys") != "gdip" && p.get("sys") != "mdip";
         w.push_back(arn && r.chance(40) && w[0] != "oct" ? "U=Arnoldi" : "U=SIL");
         w.push_back(fmt("order=%ld", r.range(4, 9)));
      }
   }
   p.set("limits", r.range(1, 3));
   for (int i = 0; i < 3; i++) {
      p.set(fmt("lim%d", i), r.range(1, r.chance(60) ? 7 : 16));
      p.set(fmt("add%d", i), r.chance(50) ? 0 : r.range(0, 120));
   }
   p.set("tdir", r.chance(50) ? 0 : r.range(1, 4));
   p.set("leftover", r.chance(25));
   p.set("fill", r.below(256));
}
static void faults(Rng& r, int tier, Plan& p, const Outcome& b)
{
   static const std::vector<FaultMenu> menu = {{E_OPEN, "fail", 0, 0, 4}, {E_READ, "fail", 0, 0, 4}, {E_READ, "short", 0, 200, 4}, {E_READ, "eintr", 0, 0, 3}, {E_READ, "tear", 1, 200, 3}, {E_READ, "eof", 0, 0, 3},
      {E_READ, "eio", 0, 0, 2}, {E_WRITE, "fail", 0, 0, 4}, {E_WRITE, "short", 0, 200, 4}, {E_WRITE, "eintr", 0, 0, 3}, {E_WRITE, "full", 0, 600, 4}, {E_WRITE, "eio", 0, 0, 2},
      {E_CLOSE, "fail", 0, 0, 3}, {E_STAT, "fail", 0, 0, 2}, {E_UNLINK, "fail", 0, 0, 1}, {E_ENTROPY, "fail", 0, 0, 2}, {E_ALLOC, "enomem", 0, 0, 2},
      {-1, "crash", 0, 0, 5}, {E_WRITE, "crashmid", 0, 200, 2}};
   // the run under the tightest limit that worked
   add_faults(r, p, b, menu, r.chance(75) ? 1 : 2, 0, 0);
}
static str tail(const str& t) { return t.size() > 200 ? t.substr(t.size() - 200) : t; }
static Outcome exec(const Plan& p)
{
   Outcome o;
   if (p.ops.empty()) return o;
   str td = dirs[std::max(0l, std::min(4l, p.num("tdir")))];
   ChildOpts co;
   co.fill = p.num("fill", 0xa5);
   auto prepare = [&](const Plan& q, const str& name) {
      str in = make_inputs(q, "in");
      str d = fresh_dir(name);
      copy_tree(in, d);
      mkdir((d + "/tmp").c_str(), 0700);
      mkdir((d + "/tmp/a").c_str(), 0700);
      return d;
   };
   auto run = [&](const str& d) {
      ChildResult c = run_child(d, co, []() { return run_qdng({"-p1", "in.xml"}); });
      o.add(c);
      return c;
   };
   auto outs = [&](const str& d) {
      auto t = read_tree(d);
      for (auto n : {"wisdom", "in.xml", ".qdconfig"}) t.erase(n);
      return t;
   };
   auto files = [](const std::map<str, str>& t) {   // paging files
      str s;
      for (auto& e : t)
         if (e.first.find("QDNG_WFBUFFER_") != str::npos || e.first.find("QDng_tmp_") != str::npos) s = e.first;
      return s;
   };
   // plenty of memory
   Plan q = p;
   q.set("maxbuf", "");
   str d = prepare(q, "ample");
   ChildResult a = run(d);
   if (a.how != ChildResult::EXIT || a.code) {
      // (a stored propagation with fewer steps than its write cycle has nothing to analyse)
      if (a.how == ChildResult::EXIT && a.code == 1 && meaningless_input(stdout_text())) o.probes["invalid_programs"]++;
      else o.fail("ample-run-fails", a.how_text() + " " + tail(stdout_text()));
      return o;
   }
   auto want = outs(d);
   o.state = a.log_hash;
   o.probes[p.ops[0][0] + "_programs"]++;

   auto compare = [&](const str& cls, const std::map<str, str>& got, const str& dir, const str& what) {
      for (auto& e : want) {
         auto i = got.find(e.first);
         if (i == got.end()) {
            o.fail(cls, what + e.first + " is missing");
            continue;
         }
         if (e.second != i->second) o.probes["rounding_differs"]++;
      }
      if (o.cls.empty()) {
         str df = diff_values(want, got, d, dir, p.num("zip") ? 1e-5 : 1e-9);
         if (!df.empty()) o.fail(cls, what + df);
      }
      for (auto& e : got)
         if (!want.count(e.first)) o.fail("file-left-behind", what + e.first);
   };
   long n = std::max(4l, std::min(64l, p.num("n", 8)));
   str sys = p.get("sys", "grid");
   long pts = sys == "level" || sys == "mdip" ? std::min(n, 12l) : sys == "grid2" ? 4 * std::max(3l, n / 3) : sys == "multi" ? 2 * n : n;
   struct Lim { long bytes; bool ok; };
   std::vector<Lim> lims;
   Plan best = p;
   bool have = false;
   for (int i = 0; i < std::max(1l, std::min(3l, p.num("limits", 1))) && o.cls.empty(); i++) {
      long bytes = std::max(1l, p.num(fmt("lim%d", i), 3)) * pts * 16 + std::max(0l, p.num(fmt("add%d", i)));
      q = p;
      q.set("maxbuf", fmt("%ld", bytes));
      if (!td.empty()) q.set("tmpdir", td);
      str dd = prepare(q, "tight");
      co.max_events = 3000000;
      ChildResult c = run(dd);
      str t = stdout_text();
      str what = fmt("limit %ld bytes (%ld per element), temporary directory '%s': ", bytes, pts * 16, td.c_str());
      auto got = outs(dd);
      o.state = o.state * 31 + c.log_hash;
      if (verbose) o.log += what + t;
      bool paged = c.cnt[0].n[E_UNLINK] > a.cnt[0].n[E_UNLINK] || c.cnt[0].n[E_OPEN] > a.cnt[0].n[E_OPEN];
      if (c.how == ChildResult::HANG) o.fail("run-hangs", what + c.how_text());
      else if (c.how != ChildResult::EXIT || (c.code >= 77 && c.code <= 83)) o.fail("run-crashes", what + c.how_text() + " " + tail(t));
      else if (c.code) {
         bool mem = t.find("buffer space exceeded") != str::npos || t.find("buffer space execeeded") != str::npos || t.find("MaxBufferSize") != str::npos;
         bool dirmissing = td == "missing" && (t.find("missing/") != str::npos || t.find("rror") != str::npos);
         if (!mem && !dirmissing) o.fail("unclean-error", what + tail(t));
         if (!files(got).empty()) o.fail("file-left-behind", what + files(got));
         o.probes[mem ? "memory_error" : "directory_error"]++;
      } else {
         o.probes[paged ? "paged_runs" : "unpaged_runs"]++;
         compare("memory-budget-changes-result", got, dd, what);
         if (paged && !have) {
            best = q;
            have = true;
            o.faultable(c);
         }
      }
      if (td != "missing") lims.push_back({bytes, c.code == 0});
   }
   for (auto& x : lims)
      for (auto& y : lims)
         if (x.bytes < y.bytes && x.ok && !y.ok) o.fail("more-memory-fails", fmt("%ld bytes suffice, %ld bytes do not", x.bytes, y.bytes));
   if (p.faults.empty() || !o.cls.empty() || !have) return o;

   str dd = prepare(best, "tight");
   co.faults = p.faults;
   co.entropy_same = p.num("leftover") > 0;   // names may repeat after a crash
   ChildResult c = run(dd);
   co.faults.clear();
   str t = stdout_text();
   o.state = o.state * 31 + c.log_hash;
   o.nontrivial = c.fault_any > 0;
   if (verbose) o.log += c.log + t;
   if (c.how == ChildResult::CRASHED) {   // a new run over what is left
      auto left = outs(dd);
      if (!files(left).empty()) o.probes["killed_with_paging_files"]++;
      else o.probes["killed"]++;
      ChildResult g = run(dd);
      str gt = stdout_text();
      if (g.how != ChildResult::EXIT || g.code) o.fail("rerun-fails", g.how_text() + " " + tail(gt));
      else {
         auto got = outs(dd);
         for (auto& e : left)   // paging files of the killed process may stay
            if (!want.count(e.first) && files({{e.first, ""}}) == e.first) got.erase(e.first);
         for (auto& e : left)
            if (e.first.find(".tmp") != str::npos) got.erase(e.first);
         compare("leftovers-change-result", got, dd, "after a crash: ");
      }
      return o;
   }
   if (c.how == ChildResult::HANG) o.fail("run-hangs", c.how_text() + tail(t));
   else if (c.how != ChildResult::EXIT || (c.code >= 77 && c.code <= 83)) o.fail("run-crashes", c.how_text() + " " + tail(t));
   else {
      auto got = outs(dd);
      bool unl = false;
      for (auto& f : p.faults) unl |= f.cls == E_UNLINK || f.cls == E_STAT;
      if (c.code) {
         o.probes["error_exit"]++;
         if (t.find("rror") == str::npos && t.find("failed") == str::npos) o.fail("error-without-message", tail(t));
         if (!unl && !files(got).empty()) o.fail("file-left-behind", files(got) + " after: " + tail(t));
      } else {
         o.probes[c.fault_any ? "success_despite_fault" : "fault_not_reached"]++;
         if (unl)
            for (str f = files(got); !f.empty(); f = files(got)) got.erase(f);
         compare("fault-changes-result", got, dd, "");
      }
   }
   return o;
}
static RegProp reg({"C12", gen, exec, faults, 4, 10, 2600, 60000});
