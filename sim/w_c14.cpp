// C14: the compression tool keeps every wave function, whatever goes wrong.
#include "progs.h"
#include <math.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include <set>
using namespace QDLIB;
using namespace sim;

static void gen(Rng& r, int tier, Plan& p)
{
   int nn = r.chance(25) ? 2 : 1;
   std::vector<std::pair<str, bool> > names;
   for (int k = 0; k < nn; k++) {
      str name = fmt("%c%s", 'a' + k, r.chance(20) ? "b_c" : "wf");
      bool series = r.chance(65);
      names.push_back({name, series});
      int members = series ? r.range(1, tier ? 5 : 4) : 1;
      SaveCfg c = rand_cfg(r, name, true, 24);
      while (c.spec.find("/s/") != str::npos) c = rand_cfg(r, name, true, 24);
      bool mixed = series && c.format != "binary" && r.chance(25);
      for (int i = 0; i < members; i++) {
         SaveCfg m = c;
         if (mixed) {
            m = rand_cfg(r, name, true, 24);
            if (m.format == "binary" || m.spec.find("/s/") != str::npos) m = c;
         }
         m.seq = series ? i : -1;
         m.spec = m.spec.substr(0, m.spec.rfind('/') + 1) + fmt("%d", 8 * (int) r.below(40));   // same grid, other values
         std::vector<str> w = m.words();
         w.insert(w.begin(), "put");
         p.ops.push_back(w);
      }
   }
   int nq = r.range(1, tier ? 4 : 3);
   static const char* tols[] = {"-", "0", "1e-6", "1e-3", "0.02", "0.2", "-1e-3"};
   for (int i = 0; i < nq; i++) {
      auto& n = names[r.below(names.size())];
      if (r.chance(20)) p.op({r.chance(70) ? "cut" : "gone", n.first, fmt("%ld", n.second ? r.range(0, 3) : -1), fmt("%ld", r.range(0, 99))});
      p.op({"qdz", n.first, n.second ? "1" : "0", r.chance(45) ? "1" : "0", tols[r.below(7)], r.chance(50) ? "-" : r.chance(70) ? "z" : "j",
            r.chance(60) ? "-" : fmt("%ld", r.range(1, 9))});
   }
   p.set("fill", r.below(256));
   p.set("conf", r.chance(70) ? 0 : r.range(1, 3));   // configuration file: raw output, compression by default
}
static void faults(Rng& r, int tier, Plan& p, const Outcome& b)
{
   static const std::vector<FaultMenu> kill = {{-1, "crash", 0, 0, 6}, {E_WRITE, "crash", 0, 0, 2}, {E_WRITE, "crashmid", 0, 600, 6}, {E_OPEN, "crash", 0, 0, 2},
      {E_CLOSE, "crash", 0, 0, 2}, {E_RENAME, "crash", 0, 0, 3}, {E_STAT, "crash", 0, 0, 1}};
   static const std::vector<FaultMenu> fail = {{E_WRITE, "fail", 0, 0, 3}, {E_WRITE, "short", 0, 100, 2}, {E_WRITE, "full", 0, 900, 4}, {E_OPEN, "fail", 0, 0, 4}, {E_CLOSE, "fail", 0, 0, 2},
      {E_RENAME, "fail", 0, 0, 3}, {E_WRITE, "eio", 0, 0, 2}, {E_ALLOC, "enomem", 0, 0, 2}, {E_UNLINK, "fail", 0, 0, 1}, {E_STAT, "fail", 0, 0, 3},
      {E_READ, "fail", 0, 0, 3}, {E_READ, "tear", 1, 100, 3}, {E_READ, "short", 0, 100, 1}, {E_SEEK, "fail", 0, 0, 2}};
   std::vector<int> q;
   for (size_t i = 0; i < p.ops.size(); i++)
      if (p.ops[i][0] == "qdz") q.push_back(i);
   if (q.empty()) return;
   int k = r.chance(75) ? 1 : 2;
   for (int i = 0; i < k; i++) {
      int op = q[r.below(q.size())];
      add_faults(r, p, b, r.chance(50) ? kill : fail, 1, op, op);
   }
}
static str at(const std::vector<str>& v, size_t i) { return i < v.size() && v[i] != "-" ? v[i] : ""; }   // (- stands for nothing)
static std::vector<str> qdz_args(const std::vector<str>& w)
{
   std::vector<str> a;
   if (at(w, 2) == "1") a.push_back("-s");
   if (at(w, 3) == "1") a.push_back("-d");
   if (!at(w, 4).empty()) { a.push_back("-t"); a.push_back(at(w, 4)); }
   if (!at(w, 5).empty()) { a.push_back("-m"); a.push_back(at(w, 5)); }
   if (!at(w, 6).empty()) { a.push_back("-l"); a.push_back(at(w, 6)); }
   a.push_back(at(w, 1));
   return a;
}
struct Check { std::vector<str> before, after, diff; };   // per member: description or "error ..."; "" if the values agree
// loads the members of `name` from two trees and compares the values
static Check compare(Outcome& o, const std::map<str, str>& b, const std::map<str, str>& a, const str& name, bool series, bool exact, double tol)
{
   str d = fresh_dir("chk");
   for (auto x : {"/A", "/B"}) mkdir((d + x).c_str(), 0700);
   for (auto& e : b) write_file(d + "/B/" + e.first, e.second);
   for (auto& e : a) write_file(d + "/A/" + e.first, e.second);
   ChildOpts co;
   ChildResult c = run_child(d, co, [&]() {
      Quiet q;
      for (int i = 0; i < (series ? 8 : 1); i++) {
         Loaded x, y;
         SaveCfg s;
         s.seq = series ? i : -1;
         s.spec = "grid:4/u/1";
         s.name = "B/" + name;
         str e = load_obj(s, "meta", NULL, x), dx, dy, df;
         dx = e.empty() ? describe(x.wf) : "error " + e;
         s.name = "A/" + name;
         e = load_obj(s, "meta", NULL, y);
         dy = e.empty() ? describe(y.wf) : "error " + e;
         if (x.wf && y.wf) {
            std::vector<double> vx, vy;
            str sx = describe_values(x.wf, vx), sy = describe_values(y.wf, vy);
            if (sx != sy) df = sx + " became " + sy;
            else if (vx.size() != vy.size()) df = "size";
            else if (exact) {
               for (size_t k = 0; k < vx.size(); k++)
                  if (memcmp(&vx[k], &vy[k], 8)) df = fmt("value %zu: %.17g became %.17g", k, vx[k], vy[k]);
            } else df = compare_lossy(x.wf, y.wf, tol);
         }
         emit("b", dx);
         emit("a", dy);
         emit("d", df);
      }
      return 0;
   });
   o.add(c);
   Check r;
   for (auto& e : c.out) (e.first == "b" ? r.before : e.first == "a" ? r.after : r.diff).push_back(e.second);
   if (c.how != ChildResult::EXIT || c.code) o.fail("stored-data-not-loadable", c.how_text());
   return r;
}
static Outcome exec(const Plan& p)
{
   Outcome o;
   // the stored data
   str in = fresh_dir("in");
   ChildOpts co;
   co.fill = p.num("fill", 0xa5);
   ChildResult c = run_child(in, co, [&]() {
      Quiet q;
      for (auto& w : p.ops) {
         if (w[0] != "put" || w.size() < 7) continue;
         SaveCfg s = SaveCfg::from(w, 1);
         if (!is_wf(s.spec)) continue;
         if (s.seq >= 8) continue;
         WaveFunction* wf = make_wf(s.spec);
         AnyObj none;
         save_obj(s, wf, none, NULL);
         DELETE_WF(wf);
      }
      return 0;
   });
   o.add(c);
   if (p.num("conf")) write_file(in + "/.qdconfig", str(p.num("conf") & 1 ? "wf_format = binary\n" : "") + (p.num("conf") & 2 ? "compress = true\ncompmethod = BZIP\n" : ""));
   str run = fresh_dir("run");
   copy_tree(in, run);
   o.nontrivial = p.faults.empty();
   for (size_t i = 0; i < p.ops.size() && o.cls.empty(); i++) {
      const std::vector<str>& w = p.ops[i];
      if (w[0] == "cut" || w[0] == "gone") {
         auto t = read_tree(run);
         long k = atol(at(w, 2).c_str());
         str s = k >= 0 ? fmt("_%ld", k) : "";
         for (auto n : {at(w, 1) + s + ".wf", at(w, 1) + "-0" + s + ".wf"})
            if (t.count(n)) {
               if (w[0] == "gone") remove_tree(run + "/" + n);
               else write_file(run + "/" + n, t[n].substr(0, t[n].size() * std::max(0l, std::min(99l, atol(at(w, 3).c_str()))) / 100));
            }
         continue;
      }
      if (w[0] != "qdz") continue;
      str name = at(w, 1);
      bool series = at(w, 2) == "1", inflate = at(w, 3) == "1";
      double tol = at(w, 4).empty() ? 1e-5 : fabs(atof(at(w, 4).c_str()));
      std::vector<str> args = qdz_args(w);
      str what = "qdz";
      for (auto& a : args) what += " " + a;
      auto B = read_tree(run);
      auto files = [&](const std::map<str, str>& t, int k) {   // does member k exist, in whatever form
         str s = series ? fmt("_%d", k) : "";
         return t.count(name + s + ".wf") || t.count(name + "-0" + s + ".wf");
      };
      int n = 0;   // members the tool has to process
      while (n < (series ? 8 : 1) && files(B, n)) n++;
      auto target = [&](int k) { return name + (series ? fmt("_%d", k) : "") + ".wf"; };

      // on a healthy system
      str okd = fresh_dir("ok");
      copy_tree(run, okd);
      str txt;
      auto tool = [&](const str& d, const std::vector<Fault>& f) {
         ChildOpts x = co;
         x.faults = f;
         x.max_events = 300000;
         ChildResult r = run_child(d, x, [&]() {
            op(i);
            return run_qdz(args);
         });
         o.add(r);
         o.state = o.state * 31 + r.log_hash;
         remove_tree(d + "/wisdom");   // (the tuning file of the transforms is no data)
         if (verbose) o.log += r.log;
         txt = stdout_text();
         return r;
      };
      ChildResult h = tool(okd, {});
      str htxt = txt;
      o.cnt[i] = h.cnt[i];
      auto A = read_tree(okd);
      Check v = compare(o, B, A, name, series, inflate, tol);
      if (!o.cls.empty()) break;
      int bad = n;   // first member that was damaged before
      for (int k = 0; k < n; k++)
         if (v.before[k].compare(0, 6, "error ") == 0) {
            bad = k;
            break;
         }
      bool intact = n > 0 && bad == n;
      if (h.how != ChildResult::EXIT) o.fail("tool-crashes", what + ": " + h.how_text());
      else if (intact && h.code) o.fail("tool-fails-on-intact-data", what + ": " + h.how_text() + " " + (htxt.size() > 200 ? htxt.substr(htxt.size() - 200) : htxt));
      else if (!intact && !h.code) o.fail("damage-not-reported", what + ": " + (n ? fmt("member %d is damaged: ", bad) + v.before[bad] : str("no file")));
      else if (h.code && htxt.find("problematic error") == str::npos) o.fail("no-message", what + ": " + h.how_text());
      o.probes[intact ? "whole" : "damaged"]++;
      o.probes["members"] += n;
      for (int k = 0; k < n && o.cls.empty(); k++) {
         if (k == bad || (k > bad)) {
            auto x = B.find(target(k)), y = A.find(target(k));
            if ((x == B.end()) != (y == A.end()) || (x != B.end() && x->second != y->second)) o.fail("touched-after-damage", what + ": " + target(k));
            continue;
         }
         if (v.after[k].compare(0, 6, "error ") == 0) o.fail("data-lost", what + fmt(": member %d: ", k) + v.after[k]);
         else if (!v.diff[k].empty()) o.fail("data-changed", what + fmt(": member %d: ", k) + v.diff[k]);
      }
      for (auto& e : A) {   // nothing else is touched
         bool t = false;
         for (int k = 0; k < n; k++) t |= e.first == target(k);
         auto x = B.find(e.first);
         if (!t && (x == B.end() || x->second != e.second)) o.fail("other-file-touched", what + ": " + e.first);
      }
      for (auto& e : B)
         if (!A.count(e.first)) o.fail("file-removed", what + ": " + e.first);
      if (!o.cls.empty()) break;
      if (intact) {   // every member is in the requested form now, a second run has nothing to do
         std::map<str, str> keep = A;
         ChildResult g = tool(okd, {});
         auto A2 = read_tree(okd);
         if (g.how != ChildResult::EXIT || g.code) o.fail("second-run-fails", what + ": " + g.how_text());
         Check u = compare(o, keep, A2, name, series, inflate, 1e-9);
         for (int k = 0; k < n && o.cls.empty(); k++)
            if (u.after[k].compare(0, 6, "error ") == 0 || !u.diff[k].empty()) o.fail("second-run-changes-data", what + fmt(": member %d: ", k) + u.after[k] + " " + u.diff[k]);
         if (!o.cls.empty()) break;
      }
      // with faults
      std::vector<Fault> fs;
      bool leftover_ok = false;
      for (auto& f : p.faults)
         if (f.op == (int) i) {
            fs.push_back(f);
            if (f.cls == E_UNLINK || f.cls < 0) leftover_ok = true;
         }
      if (fs.empty()) {
         remove_tree(run);
         run = fresh_dir("run");
         for (auto& e : A) write_file(run + "/" + e.first, e.second);
         continue;
      }
      ChildResult f = tool(run, fs);
      o.nontrivial |= f.fault_any > 0;
      auto F = read_tree(run);
      bool killed = f.how == ChildResult::CRASHED, failed = f.how == ChildResult::EXIT && f.code;
      o.probes[killed ? "killed" : failed ? "failed" : "survived"]++;
      if (!killed && f.how != ChildResult::EXIT) o.fail("tool-crashes", what + ": " + f.how_text());
      if (failed && txt.find("problematic error") == str::npos && txt.find("terminate") == str::npos) o.fail("no-message", what + ": " + f.how_text());
      std::set<str> mine;
      bool all_new = true, seen_old = false;
      for (int k = 0; k < n && o.cls.empty(); k++) {
         mine.insert(target(k));
         auto x = B.find(target(k)), y = A.find(target(k)), z = F.find(target(k));
         bool is_old = x == B.end() ? z == F.end() : z != F.end() && z->second == x->second;
         bool is_new = y == A.end() ? z == F.end() : z != F.end() && z->second == y->second;
         if (!is_old && !is_new) o.fail("member-damaged", what + " (" + f.how_text() + "): " + target(k) + (z == F.end() ? " is gone" : fmt(" has %zu bytes, was %zu, should become %zu", z->second.size(), x == B.end() ? 0 : x->second.size(), y == A.end() ? 0 : y->second.size())));
         if (is_new && !is_old && seen_old) o.fail("out-of-order", what + " (" + f.how_text() + "): " + target(k));
         if (!is_new) {
            all_new = false;
            seen_old = true;
         }
      }
      if (f.how == ChildResult::EXIT && !f.code && o.cls.empty() && (!all_new || !intact)) o.fail("success-but-not-done", what + ": a member was not processed, but the tool reports success");
      for (auto& e : F) {
         if (mine.count(e.first)) continue;
         auto x = B.find(e.first);
         if (x != B.end() && x->second == e.second) continue;
         bool tmp = x == B.end();
         if (tmp && (killed || leftover_ok)) continue;
         o.fail(tmp ? "temporary-file-left" : "other-file-touched", what + " (" + f.how_text() + "): " + e.first);
      }
      for (auto& e : B)
         if (!F.count(e.first)) o.fail("file-removed", what + " (" + f.how_text() + "): " + e.first);
      if (!o.cls.empty()) break;
      // and once more without faults
      ChildResult g = tool(run, {});
      auto G = read_tree(run);
      Check u = compare(o, B, G, name, series, inflate, tol);
      if (!o.cls.empty()) break;
      if (g.how != ChildResult::EXIT || (g.code == 0) != intact) o.fail("rerun-fails", what + ": " + g.how_text());
      for (int k = 0; k < bad && o.cls.empty(); k++)
         if (u.after[k].compare(0, 6, "error ") == 0 || !u.diff[k].empty()) o.fail("rerun-loses-data", what + fmt(": member %d: ", k) + u.after[k] + " " + u.diff[k]);
      for (auto& e : G)
         if (!A.count(e.first)) o.fail("rerun-leaves-temporary-file", what + ": " + e.first);
   }
   return o;
}
static RegProp reg({"C14", gen, exec, faults, 5, 12, 2400, 20000});
