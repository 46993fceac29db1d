// C16: a run continued from its stored output ends with the output of an undisturbed run.
#include "progs.h"
#include <math.h>
#include <stdlib.h>
using namespace sim;

static void gen(Rng& r, int tier, Plan& p)
{
   rand_system(r, tier, p);
   p.set("zip", 0L);   // (compression is lossy: the continued run starts from other values)
   bool eig = r.chance(35);
   if (eig && (p.get("sys") == "gdip" || p.get("sys") == "mdip" || r.chance(30))) p.set("sys", r.chance(70) ? "grid" : "level");   // (the eigenfunctions of a moment)
   std::vector<str> w = rand_node(r, tier, p, eig ? 'e' : 'p', "o0");
   if (eig) {
      w.push_back(fmt("Nef=%ld", r.range(2, 5)));
      w.push_back(fmt("diag=%d", r.chance(40) ? 1 : 0));
   } else {
      w.push_back(fmt("steps=%ld", r.range(2, tier ? 30 : 14)));
      w.push_back("nfile=1");
      w.push_back("spectrum=0");   // these are sums over, or relative to, the whole run
      w.push_back("proj0=0");
      auto cut = [&](const str& k) {
         str v = Words(w).get(k);
         if (!v.empty())
            for (auto& c : v)
               if (c == 'h' || c == 'i') c = "abce"[r.below(4)];
         if (!v.empty()) w.push_back(k + "=" + v);
      };
      cut("pre");
      cut("post");
   }
   p.ops.push_back(w);
   int legs = r.chance(70) ? 1 : r.range(2, 3);
   p.set("legs", legs);
   p.set("kill", r.chance(60));
   for (int i = 0; i < legs; i++) p.set(fmt("leg%d", i), r.range(1, 30));
   p.set("fill", r.below(256));
   p.set("back", r.chance(30) ? r.range(1, 3) : 0);   // continue some members earlier than necessary
}
static void faults(Rng& r, int tier, Plan& p, const Outcome& b)
{
   if (!p.num("kill")) return;
   static const std::vector<FaultMenu> kill = {{-1, "crash", 0, 0, 8}, {E_WRITE, "crash", 0, 0, 3}, {E_WRITE, "crashmid", 0, 400, 6}, {E_OPEN, "crash", 0, 0, 2}, {E_CLOSE, "crash", 0, 0, 2}, {E_RENAME, "crash", 0, 0, 3}};
   static const std::vector<FaultMenu> fail = {{E_WRITE, "fail", 0, 0, 3}, {E_WRITE, "full", 0, 2500, 4}, {E_OPEN, "fail", 0, 0, 2}, {E_CLOSE, "fail", 0, 0, 2},
      {E_RENAME, "fail", 0, 0, 3}, {E_WRITE, "eio", 0, 0, 2}, {E_ALLOC, "enomem", 0, 0, 1}};
   for (int a = 0; a < std::max(1l, std::min(3l, p.num("legs", 1))); a++) {
      size_t at = p.faults.size();
      add_faults(r, p, b, r.chance(70) ? kill : fail, 1, 0, 0);
      if (p.faults.size() > at) p.faults[at].op = a;
   }
}
static str set_word(std::vector<str>& op, const str& k, const str& v)
{
   op.push_back(k + "=" + v);   // later words win
   return "";
}
static std::vector<str> rows(const str& t, str* head = NULL)   // lines of a table that start with a number
{
   std::vector<str> o;
   for (auto& l : split(t, '\n')) {
      size_t i = l.find_first_not_of(" \t");
      if (i != str::npos && (isdigit((unsigned char) l[i]) || l[i] == '-') && l.find("step done") == str::npos) o.push_back(l);
      else if (head && head->empty()) *head = l;
   }
   return o;
}
static str join(const std::vector<str>& v, size_t from)
{
   str s;
   for (size_t i = from; i < v.size(); i++) s += v[i] + "\n";
   return s;
}
static str tail(const str& t) { return t.size() > 200 ? t.substr(t.size() - 200) : t; }
static Outcome exec(const Plan& p)
{
   Outcome o;
   if (p.ops.empty() || (p.ops[0][0] != "propa" && p.ops[0][0] != "imag")) return o;
   bool eig = p.ops[0][0] == "imag";
   Plan q0 = p;
   q0.ops.resize(1);
   q0.set("zip", 0L);
   Words w(q0.ops[0]);
   if (!eig)
      for (auto k : {"nfile", "spectrum", "proj0"}) set_word(q0.ops[0], k, k[0] == 'n' ? "1" : "0");
   long steps = w.num("steps", 4, 1, 400), wc = w.num("wcycle", 1, 1, 400), nef = w.num("Nef", 2, 1, 8);
   str dir = p.num("gdir") ? "base/" : w.get("dir").empty() || w.get("dir") == "-" ? "" : w.get("dir") + "/";
   str base = w.get("fname");
   auto outs = [&](const str& d) {
      auto t = read_tree(d);
      for (auto n : {"wisdom", "in.xml", ".qdconfig"}) t.erase(n);
      return t;
   };
   ChildOpts co;
   co.fill = p.num("fill", 0xa5);
   auto prepare = [&](const Plan& q, const str& d) { copy_tree(make_inputs(q, "in"), d); };
   auto input = [&](const Plan& q, const str& d) {   // only the input file (the stored inputs stay)
      str t;
      read_file(make_inputs(q, "in") + "/in.xml", t);
      write_file(d + "/in.xml", t);
   };
   auto run = [&](const str& d) {
      ChildResult c = run_child(d, co, []() { return run_qdng({"-p1", "in.xml"}); });
      o.add(c);
      o.state = o.state * 31 + c.log_hash;
      if (verbose) o.log += c.log + stdout_text();
      return c;
   };
   // undisturbed
   str rd = fresh_dir("whole");
   prepare(q0, rd);
   ChildResult h = run(rd);
   if (h.how != ChildResult::EXIT || h.code) {
      if (h.how == ChildResult::EXIT && meaningless_input(stdout_text())) o.probes["invalid_programs"]++;
      else o.fail("undisturbed-run-fails", h.how_text() + " " + tail(stdout_text()));
      return o;
   }
   auto want = outs(rd);
   o.faultable(h);
   bool kill = p.num("kill") != 0;
   if (kill && p.faults.empty()) return o;

   str d = fresh_dir("run");
   prepare(q0, d);
   Plan q = q0;   // the input of the next leg
   auto nt = [&](const str& m) {
      for (auto& l : split(m, '\n'))
         if (l.compare(0, 2, "Nt") == 0 && l.find('=') != str::npos) return atol(l.c_str() + l.find('=') + 1);
      return -1l;
   };
   // how much of the run is there: number of the last usable member, -1: nothing
   auto have = [&]() {
      auto t = read_tree(d);
      if (!eig) {
         auto m = t.find(dir + "Propagation.meta");
         return m == t.end() ? -1l : nt(m->second) / wc;
      }
      long k = -1;   // "the index of the last obtained eigenfunction"
      while (t.count(dir + (base.empty() ? "ef" : base) + fmt("_%ld.wf", k + 1))) k++;
      return k;
   };
   long k = -1, done = 0;   // done: the leg that ended normally started here
   auto next = [&](long upto, bool last) {   // the input that continues from what is stored; stops at `upto`
      q = q0;
      std::vector<str>& op = q.ops[0];
      k = have();
      if (k > 0) k = std::max(0l, k - (last ? std::max(0l, std::min(3l, p.num("back"))) : 0));
      if (eig) {
         k = std::min(k, nef - 1);
         if (k > 0) set_word(op, "start", fmt("%ld", k));
         else k = 0;
         if (!last) set_word(op, "Nef", fmt("%ld", std::max(k + 1, std::min(nef, upto)))), set_word(op, "diag", "0");
      } else {
         if (k * wc >= steps) k = (steps - 1) / wc;
         if (k >= 0) {
            set_word(op, "start", fmt("%ld", k + 1));
            set_word(op, "file", dir + (base.empty() ? "WF" : base) + fmt("_%ld", k));
            set_word(op, "wf", q0.get("sys") == "multi" && q0.num("stream") == 2 ? "states" : "plain");
            set_word(op, "init", "");
         } else k = 0;
         if (!last) set_word(op, "steps", fmt("%ld", std::max(k * wc + 1, std::min(steps, upto))));
      }
      done = k;
   };
   int legs = std::max(1l, std::min(3l, p.num("legs", 1)));
   long at = 0;
   for (int i = 0; i < legs && o.cls.empty(); i++) {
      co.faults.clear();
      if (kill)
         for (auto f : p.faults)
            if (f.op == i) {
               f.op = 0;
               co.faults.push_back(f);
            }
      if (kill && co.faults.empty()) continue;
      at += std::max(1l, p.num(fmt("leg%d", i), 1));
      next(eig ? 1 + at % nef : at, kill);
      if (eig && kill) set_word(q.ops[0], "diag", "0");   // (diagonalisation replaces the functions)
      input(q, d);
      ChildResult c = run(d);
      co.faults.clear();
      o.nontrivial |= !kill || c.fault_any > 0;
      if (c.how == ChildResult::CRASHED) o.probes["killed"]++;
      else if (c.how == ChildResult::EXIT && c.code) {
         o.probes["failed"]++;
         if (!c.fault_any) o.fail("continued-run-fails", fmt("from member %ld: ", k) + c.how_text() + " " + tail(stdout_text()));
      } else if (c.how != ChildResult::EXIT) o.fail("run-crashes", c.how_text() + " " + tail(stdout_text()));
      else o.probes["first_legs"]++;
   }
   if (!o.cls.empty()) return o;
   next(0, true);
   bool fresh = eig ? k == 0 : Words(q.ops[0]).num("start", 0, 0, 400) == 0;
   input(q, d);
   ChildResult c = run(d);
   str what = fmt("continued from member %ld: ", k);
   o.probes[fresh ? "started_again" : eig ? "continued_eigenfunctions" : "continued_propagations"]++;
   if (!fresh && wc > 1 && !eig) o.probes["continued_write_cycles"]++;
   if (c.how != ChildResult::EXIT || c.code) {
      o.fail("continued-run-fails", what + c.how_text() + " " + tail(stdout_text()));
      return o;
   }
   auto got = outs(d);
   std::map<str, str> a, b;
   for (auto& e : want) {
      auto i = got.find(e.first);
      if (i == got.end()) {
         o.fail("output-missing", what + e.first);
         return o;
      }
      str x = e.second, y = i->second;
      bool table = !eig && e.first.size() > 4 && e.first.substr(e.first.size() - 4) == ".dat";
      if (table) {   // a continued table starts where the run was continued
         if (e.first.find("init") != str::npos) continue;
         str hx, hy;
         auto rx = rows(x, &hx), ry = rows(y, &hy);
         size_t rest = steps - done * wc;
         if (!fresh && (rx.size() != (size_t) steps || ry.size() != rest)) {
            o.fail("wrong-number-of-rows", what + e.first + fmt(" has %zu rows for %zu steps", ry.size(), rest));
            return o;
         }
         if (!fresh) {
            x = hx + "\n" + join(rx, rx.size() - rest);
            y = hy + "\n" + join(ry, 0);
         }
      }
      a[e.first] = x;
      b[e.first] = y;
   }
   if (!eig)
      for (auto& e : got)
         if (!want.count(e.first) && e.first.find(".tmp") == str::npos) o.fail("extra-file", what + e.first);
   double tol = 1e-9;
   str diff = diff_values(a, b, rd, d, tol, eig);
   for (; !diff.empty() && tol < 1; tol *= 100) {   // does the program itself amplify rounding errors that much?
      str e;
      for (int s = 0; s < 3 && e.empty(); s++) {
         Plan z = q0;
         z.set("perturb", s + 1);
         str sd = fresh_dir("shaken");
         prepare(z, sd);
         run(sd);
         e = diff_values(want, outs(sd), rd, sd, tol * 1e-3, eig);
      }
      if (e.empty()) break;
      o.probes["ill_conditioned"]++;
      diff = diff_values(a, b, rd, d, tol * 100, eig);
   }
   if (!diff.empty() && tol < 1) o.fail("continued-run-differs", what + diff);
   return o;
}
static RegProp reg({"C16", gen, exec, faults, 6, 14, 1500, 20000});
