// C06: a propagation killed at any instant leaves only complete, trustworthy output.
#include "progs.h"
#include <string.h>
using namespace sim;

static void gen(Rng& r, int tier, Plan& p)
{
   rand_system(r, tier, p);
   p.ops.push_back(rand_node(r, tier, p, 'p', "o0"));
   p.set("stale", r.chance(30) ? r.range(1, 3) : 0);
   p.set("fill", r.below(256));
   p.set("attempts", r.chance(65) ? 1 : r.range(2, 3));
}
static void faults(Rng& r, int tier, Plan& p, const Outcome& b)
{
   static const std::vector<FaultMenu> kill = {{-1, "crash", 0, 0, 6}, {E_WRITE, "crash", 0, 0, 2}, {E_WRITE, "crashmid", 0, 400, 6}, {E_OPEN, "crash", 0, 0, 2},
      {E_CLOSE, "crash", 0, 0, 2}, {E_RENAME, "crash", 0, 0, 2}, {E_UNLINK, "crash", 0, 0, 1}};
   static const std::vector<FaultMenu> fail = {{E_WRITE, "fail", 0, 0, 3}, {E_WRITE, "full", 0, 900, 4}, {E_OPEN, "fail", 0, 0, 2}, {E_CLOSE, "fail", 0, 0, 2},
      {E_RENAME, "fail", 0, 0, 3}, {E_WRITE, "eio", 0, 0, 2}, {E_ALLOC, "enomem", 0, 0, 1}, {E_UNLINK, "fail", 0, 0, 1}};
   int n = std::max(1l, std::min(4l, p.num("attempts", 1)));
   for (int a = 0; a < n; a++) {
      size_t at = p.faults.size();
      add_faults(r, p, b, r.chance(80) ? kill : fail, 1, 0, 0);
      if (p.faults.size() > at) p.faults[at].op = a;
   }
}
static long index_of(const str& name, const str& base)   // o0/WF_3.wf, o0/WF-1_3.wf, o0/WF_3.meta
{
   if (name.compare(0, base.size(), base)) return -1;
   size_t u = name.rfind('_'), d = name.rfind('.');
   if (d != str::npos && name.substr(d) == ".meta") return 0;   // the description the members of a raw series share
   if (u == str::npos || d == str::npos || d < u + 2 || u < base.size()) return -1;
   if (u != base.size() && name[base.size()] != '-') return -1;
   for (size_t i = u + 1; i < d; i++)
      if (name[i] < '0' || name[i] > '9') return -1;
   return atol(name.c_str() + u + 1);
}
static Outcome exec(const Plan& p)
{
   Outcome o;
   if (p.ops.empty() || p.ops[0][0] != "propa") return o;
   Plan q0 = p;
   q0.ops.resize(1);
   Words w(p.ops[0]);
   long steps = w.num("steps", 4, 1, 400), wc = w.num("wcycle", 1, 1, 400);
   str dir = p.num("gdir") ? "base/" : w.get("dir").empty() ? "" : w.get("dir") + "/";
   str base = dir + (w.get("fname").empty() ? str("WF") : w.get("fname")), meta = dir + "Propagation.meta";
   str in = make_inputs(q0, "in");
   auto ti = read_tree(in);
   ChildOpts co;
   co.fill = p.num("fill", 0xa5);
   auto run = [&](const str& d) { return run_child(d, co, []() { return run_qdng({"-p1", "in.xml"}); }); };

   // an undisturbed run
   str d = fresh_dir("clean");
   copy_tree(in, d);
   ChildResult h = run(d);
   o.add(h);
   o.state = h.log_hash;
   o.faultable(h);
   if (h.how != ChildResult::EXIT || h.code) {
      o.fail("undisturbed-run-fails", h.how_text());
      return o;
   }
   auto want = outputs(read_tree(d), ti);
   std::map<long, std::vector<str> > files;
   for (auto& e : want) {
      long k = index_of(e.first, base);
      if (k >= 0) files[k].push_back(e.first);
      if (e.first.find(".tmp") != str::npos) o.fail("undisturbed-run-leaves-temporary-files", e.first);
   }
   for (long k = 0; k <= steps / wc; k++)
      if (!files.count(k)) o.fail("missing-write-cycle", fmt("no wave function file for write cycle %ld of %ld", k, steps / wc));
   if (!files.empty() && files.rbegin()->first != steps / wc) o.fail("extra-write-cycle", fmt("wave function file %ld, steps/wcycle is %ld", files.rbegin()->first, steps / wc));
   // the description as it must look after n steps
   str full = want[meta];
   auto field = [](const str& m, const str& k) -> str {
      for (auto& l : split(m, '\n'))
         if (l.compare(0, k.size(), k) == 0 && l.find('=') != str::npos) {
            str v = l.substr(l.find('=') + 1);
            while (!v.empty() && v[0] == ' ') v.erase(0, 1);
            return v;
         }
      return "";
   };
   if (field(full, "Nt") != fmt("%ld", steps) || field(full, "Wcycle") != fmt("%ld", wc) || dir + field(full, "WFBaseName") != base || field(full, "CLASS") != "Propagation")
      o.fail("wrong-description", full);
   if (!o.cls.empty()) return o;
   auto without_nt = [](const str& m) {
      str r;
      for (auto& l : split(m, '\n'))
         if (l.compare(0, 2, "Nt") != 0) r += l + "\n";
      return r;
   };

   if (p.faults.empty() && !p.num("stale")) return o;
   d = fresh_dir("run");
   if (p.num("stale")) {   // leftovers of another run, possibly longer, other values, other format
      Plan s = q0;
      long k = p.num("stale");
      s.set("vals", p.num("vals") + 1);
      if (k == 2) s.set("stream", !p.num("stream"));
      if (k == 3) s.set("zip", p.num("zip") ? 0 : 1);
      for (auto& x : s.ops[0])
         if (x.compare(0, 6, "steps=") == 0) x = fmt("steps=%ld", steps + (k == 1 ? 4 : 0));
      str in2 = make_inputs(s, "in2");
      copy_tree(in2, d);
      run(d);
      for (auto& e : read_tree(in2)) remove_tree(d + "/" + e.first);
   }
   auto before = read_tree(d);   // the old output, if any
   copy_tree(in, d);
   auto check = [&](int attempt, const ChildResult& c) {
      auto now = read_tree(d);
      str at = fmt("attempt %d (%s): ", attempt, c.how_text().c_str());
      // files of finished cycles: everything the description claims ...
      auto m = now.find(meta);
      long claimed = -1;
      if (m != now.end()) {
         bool stale_ok = before.count(meta) && before[meta] == m->second;
         for (auto& e : before)
            if (index_of(e.first, base) >= 0) stale_ok = stale_ok && now.count(e.first) && now[e.first] == e.second;
         if (!stale_ok) {   // (killed before it started to write: still the intact old output)
            long nt = atol(field(m->second, "Nt").c_str());
            if (without_nt(m->second) != without_nt(full) || nt < 1 || nt > steps || m->second.empty() || m->second[m->second.size() - 1] != '\n')
               o.fail("incomplete-description", at + m->second);
            claimed = nt / wc;
            o.probes["described"]++;
         }
      } else o.probes["not_described"]++;
      for (auto& f : files)
         for (auto& n : f.second) {
            bool later = false;   // ... and, in a fresh directory, every cycle before the last one begun
            if (!p.num("stale") && attempt == 0)
               for (auto& g : files)
                  if (g.first > f.first)
                     for (auto& x : g.second) later |= now.count(x) > 0;
            if (f.first > claimed && !later) continue;
            auto i = now.find(n);
            if (i == now.end()) o.fail("finished-cycle-missing", at + n + fmt(" is missing, %ld cycles are described", claimed));
            else if (i->second != want[n]) o.fail("finished-cycle-damaged", at + n + fmt(" differs (%zu bytes, expected %zu), %ld cycles are described", i->second.size(), want[n].size(), claimed));
         }
   };
   int n = std::max(1l, std::min(4l, p.num("attempts", 1)));
   if (!p.faults.empty())
      for (int a = 0; a < n && o.cls.empty(); a++) {
         co.faults.clear();
         for (auto f : p.faults)
            if (f.op == a) {
               f.op = 0;
               co.faults.push_back(f);
            }
         if (co.faults.empty()) continue;
         ChildResult c = run(d);
         co.faults.clear();
         o.add(c);
         o.state = o.state * 31 + c.log_hash;
         o.nontrivial = c.fault_any > 0;
         if (verbose) o.log += c.log;
         if (c.how == ChildResult::CRASHED) o.probes["killed"]++;
         else if (c.how == ChildResult::EXIT && c.code) o.probes["failed"]++;
         else if (c.how != ChildResult::EXIT) {
            o.fail("run-crashes", c.how_text());
            break;
         } else o.probes["completed"]++;
         check(a, c);
      }
   if (!o.cls.empty()) return o;
   ChildResult c = run(d);
   o.add(c);
   if (c.how != ChildResult::EXIT || c.code) {
      str t = stdout_text();
      o.fail("rerun-fails", c.how_text() + " " + (t.size() > 160 ? t.substr(t.size() - 160) : t));
      return o;
   }
   auto got = outputs(read_tree(d), ti);
   if (!p.num("stale")) {
      str df = diff_trees(want, got);
      if (!df.empty()) o.fail("rerun-differs", df);
   } else
      for (auto& e : want) {
         auto i = got.find(e.first);
         if (i == got.end()) o.fail("rerun-differs", e.first + " is missing");
         else if (i->second != e.second) o.fail("rerun-differs", e.first + " differs");
      }
   return o;
}
static RegProp reg({"C06", gen, exec, faults, 6, 14, 1500, 20000});
