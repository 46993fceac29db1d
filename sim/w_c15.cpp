// C15: programs that share a process or an input file do not influence each other.
#include "progs.h"
#include <sstream>
#include <sys/stat.h>
#include "CmdHandler.h"
#include "IACmds.pb.h"
using namespace QDLIB;
using namespace sim;

static void gen(Rng& r, int tier, Plan& p)
{
   rand_system(r, 0, p);
   p.set("gdir", 0);
   p.set("fill", r.below(256));
   p.set("defs", r.below(3));
   p.set("udefs", r.chance(50));
   p.set("mode", r.chance(60) ? 0 : 1);   // one input file, one interactive session
   p.set("loadops", r.below(2));          // session: the shared operators come from LOAD_OP
   bool las = p.get("sys") == "gdip" || p.get("sys") == "mdip";
   int n = r.chance(60) ? 2 : r.range(3, 4);
   int seen = -1;   // a propagation whose wave functions a filter can read
   for (int i = 0; i < n; i++) {
      str dir = fmt("o%d", i);
      str kinds = las ? str("ppeac") : str("pppeealcc");
      if (las && (i == n - 1 || !p.num("defs"))) kinds += "oo";   // (it changes the laser, which later programs share with opdefs)
      if (p.get("sys") != "level" && p.get("sys") != "mdip") kinds += "bb";
      if (seen >= 0) kinds += "ff";
      if (r.chance(5)) kinds = "x";
      char k = kinds[r.below(kinds.size())];
      if (k == 'f') {
         std::vector<str> w = {"filter", fmt("path=o%d", seen), "dir=" + dir, "def="};
         str fn = Words(p.ops[seen]).get("fname");
         if (!fn.empty()) w.push_back("fname=" + fn);
         for (int j = r.range(1, 3); j > 0; j--) w[3] += "abcdefghi"[r.below(9)];
         p.ops.push_back(w);
      } else if (k == 'x') p.op({"bad", std::to_string(r.below(4))});
      else {
         p.ops.push_back(rand_node(r, tier, p, k, dir));
         if (!las && r.chance(25)) p.ops.back().push_back(fmt("dtx=%d", r.chance(50) ? 1 : 4));
         Words w(p.ops.back());
         if (k == 'p' && w.num("wcycle", 1, 1, 400) <= w.num("steps", 1, 1, 400)) seen = i;
      }
   }
   if (p.num("mode") == 1)
      for (int i = 0; i <= n; i++) p.set(fmt("between%d", i), r.chance(40) ? r.range(1, 7) : 0);
}
static void faults(Rng& r, int tier, Plan& p, const Outcome& b)
{
   static const std::vector<FaultMenu> menu = {
      {E_OPEN, "fail", 0, 0, 3}, {E_READ, "fail", 0, 0, 3}, {E_READ, "tear", 1, 200, 3}, {E_READ, "short", 1, 200, 4}, {E_READ, "eintr", 0, 0, 1}, {E_WRITE, "fail", 0, 0, 4},
      {E_WRITE, "short", 1, 300, 4}, {E_WRITE, "eintr", 0, 0, 1}, {E_WRITE, "full", 0, 900, 4}, {E_WRITE, "eio", 0, 0, 2}, {E_CLOSE, "fail", 0, 0, 3},
      {E_STAT, "fail", 0, 0, 2}, {E_MKDIR, "fail", 0, 0, 2}, {E_ALLOC, "enomem", 0, 0, 3}, {-1, "crash", 0, 0, 6}, {E_WRITE, "crashmid", 1, 300, 3}};
   add_faults(r, p, b, menu, 1);
}
static str node_text(const Plan& p, int i, bool alone)
{
   Plan q = p;
   q.ops = {p.ops[i]};
   if (alone) q.set("defs", 0);
   if (p.ops[i][0] == "bad") {
      static const char* bad[] = {"<nonsense/>", "<propa steps=\"3\"/>", "<filter path=\"nowhere\" dir=\"oo\"><filterdef><expeconly name=\"Scalar\" value=\"1\"/></filterdef></filter>",
                                  "<propa dt=\"1\" steps=\"2\" dir=\"oo\"><propagator name=\"Cheby\"><hamiltonian name=\"Sum\"><A name=\"HermitianMatrix\" file=\"absent\"/></hamiltonian></propagator><wf file=\"f0\"/></propa>"};
      q.ops.clear();
      str s = prog_xml(q);
      size_t k = s.rfind("</qdng>");
      return s.substr(0, k) + bad[std::max(0l, std::min(3l, p.ops[i].size() > 1 ? atol(p.ops[i][1].c_str()) : 0))] + s.substr(k);
   }
   return prog_xml(q);
}
static str whole_text(const Plan& p)
{
   Plan q = p;
   q.ops.clear();
   str s = prog_xml(q), body;
   for (int i = 0; i < (int) p.ops.size(); i++) {
      Plan e = p;
      e.set("nodefs", 1);
      str t = node_text(e, i, false);
      size_t a = t.find(">\n"), b = t.rfind("</qdng>");
      body += t.substr(a + 2, b - a - 2) + "\n";
   }
   size_t k = s.rfind("</qdng>");
   return s.substr(0, k) + body + s.substr(k);
}
static str frame(const Command& c)
{
   str s;
   c.SerializePartialToString(&s);
   uint32_t n = s.size();
   return str((char*) &n, 4) + s;
}
// commands between the programs: some succeed, some fail, none may matter
static str between(long k)
{
   Command c;
   str s;
   auto load = [&](const str& x) {
      c.Clear();
      c.set_cmd(Command_command_t_LOAD_OP);
      c.set_xml(x);
      s += frame(c);
   };
   static int id;
   if (k & 1) {
      c.set_cmd(Command_command_t_GET_GLOBAL_PARAMS);
      s += frame(c);
      load("<op name=\"NoSuchThing\" key=\"zz\"/>");
   }
   if (k & 2) {
      load(fmt("<op name=\"Scalar\" value=\"0.5\" key=\"zz%d\"/>", id++));
      c.Clear();
      c.set_cmd(Command_command_t_READ_WF);
      c.set_param_s1("absent");
      s += frame(c);
   }
   if (k & 4) {
      load(fmt("<op name=\"Sum\" key=\"zz%d\"><T name=\"GridNablaSq\" mass=\"500\"/><V name=\"GridPotential\" file=\"absent\"/></op>", id++));
      c.Clear();
      c.set_cmd(Command_command_t_RUN_PROG);
      s += frame(c);
   }
   return s;
}
static Outcome exec(const Plan& p0)
{
   Outcome o;
   if (p0.ops.empty()) return o;
   Plan p = p0;
   if (p.ops.size() > 6) p.ops.resize(6);
   p.set("gdir", 0);
   if (p.num("mode") == 1) p.set("simple", 0);
   int n = p.ops.size();
   for (int i = 0; i < n; i++) {   // (the shrinker drops nodes)
      if (p.ops[i].empty()) return o;
      if (p.ops[i][0] == "oct" && i + 1 < n) p.set("defs", 0);
   }
   ChildOpts co;
   co.fill = p.num("fill", 0xa5);
   co.max_events = 400000;
   auto dir_of = [&](int i) { return Words(p.ops[i]).get("dir"); };
   auto part = [&](const std::map<str, str>& t, int i) {
      std::map<str, str> r;
      str d = dir_of(i) + "/";
      if (d.size() > 1)
         for (auto& e : t)
            if (e.first.compare(0, d.size(), d) == 0) r.insert(e);
      return r;
   };
   // each program alone, in a process of its own, with its operators written out
   std::vector<int> code(n, -1);
   str why;
   auto alone = [&](const Plan& q, const str& name, int upto, bool account) -> std::map<str, str> {
      str in = make_inputs(q, name + "_in");
      for (int i = 0; i <= upto; i++) {
         str d = fresh_dir(name);
         copy_tree(in, d);
         write_file(d + "/in.xml", node_text(q, i, true));
         ChildResult c = run_child(d, co, []() { return run_qdng({"-p1", "in.xml"}); });
         if (account) {
            o.add(c);
            o.state = o.state * 31 + c.log_hash;
            code[i] = c.how == ChildResult::EXIT ? c.code : 255;
            if (code[i]) {
               why = stdout_text();
               if (code[i] > 1) o.fail("program-crashes", fmt("program %d: ", i) + c.how_text());
               break;
            }
         }
         for (auto& e : part(read_tree(d), i)) {
            size_t k = e.first.rfind('/');
            mkdir((in + "/" + e.first.substr(0, k)).c_str(), 0700);
            write_file(in + "/" + e.first, e.second);
         }
      }
      std::map<str, str> all;
      for (auto& e : read_tree(in))
         if (e.first.find('/') != str::npos) all.insert(e);
      return all;
   };
   auto want = alone(p, "alone", n - 1, true);
   if (!o.cls.empty()) return o;
   int fails = -1;   // the first program that fails by itself
   for (int i = 0; i < n; i++)
      if (code[i] != 0) { fails = i; break; }
   if (fails >= 0 && p.ops[fails][0] != "bad") {
      if (meaningless_input(why)) {
         o.probes["invalid_programs"]++;
         return o;
      }
      o.fail("valid-input-rejected", fmt("program %d: ", fails) + (why.size() > 160 ? why.substr(why.size() - 160) : why));
      return o;
   }
   str in = make_inputs(p, "in");
   bool session = p.num("mode") == 1;
   if (!session && !p.num("simple")) write_file(in + "/in.xml", whole_text(p));
   if (!session && p.num("simple") && fails >= 0) write_file(in + "/in.xml", whole_text(p));
   str wd = scratch() + "/alone_in";
   auto run = [&](const str& name, const std::vector<Fault>& f) {
      str d = fresh_dir(name);
      copy_tree(in, d);
      ChildOpts c1 = co;
      c1.faults = f;
      return run_child(d, c1, [&]() {
         if (!session) return run_qdng({"-p1", "in.xml"});
         str cmds;
         {
            Quiet q;
            Plan e = p;
            if (p.num("defs") && p.num("loadops")) {
               Plan z = p;
               z.ops.clear();
               str s = prog_xml(z);
               auto def = [&](size_t from) { return std::min(s.find("<opdef ", from), s.find("<udef ", from)); };
               size_t a = def(0);
               while (a != str::npos) {
                  size_t b = def(a + 1), x = b == str::npos ? s.find("</opdefs>", a) : b;
                  Command c;
                  c.set_cmd(Command_command_t_LOAD_OP);
                  c.set_xml(s.substr(a, x - a));
                  cmds += frame(c);
                  a = b;
               }
               e.set("nodefs", 1);
            }
            for (int i = 0; i < n; i++) {
               cmds += between(p.num(fmt("between%d", i)));
               Command c;
               c.set_cmd(Command_command_t_RUN_PROG);
               c.set_xml(node_text(e, i, false));
               cmds += frame(c);
               if (p.num("defs")) e.set("nodefs", 1);
            }
            cmds += between(p.num(fmt("between%d", n)));
            Command c;
            c.set_cmd(Command_command_t_QUIT);
            cmds += frame(c);
         }
         std::istringstream is(cmds);
         std::ostringstream os;
         str x = guarded([&]() {
            CmdHandler h(is, os);
            h.RunInteractive("");
         });
         Quiet q;
         if (!x.empty()) {
            emit("end", x);
            return 1;
         }
         return 0;
      });
   };
   auto compare = [&](int i, const std::map<str, str>& got, const str& d, const str& what) {
      auto w = part(want, i), g = part(got, i);
      if (w == g) return;
      for (auto& e : w)
         if (!g.count(e.first)) {
            o.fail("program-influences-program", what + e.first + " is missing");
            return;
         }
      for (auto& e : g)
         if (!w.count(e.first)) {
            o.fail("program-influences-program", what + e.first + " should not exist");
            return;
         }
      bool eigen = p.ops[i][0] == "lanczos" || p.ops[i][0] == "imag" || p.ops[i][0] == "ac";
      double tol = p.num("zip") ? 1e-5 : 1e-9;
      str diff = diff_values(w, g, wd, d, tol, eigen);
      for (; !diff.empty() && tol < 1; tol *= 100) {   // does the program itself amplify rounding errors that much?
         str e;
         for (int k = 0; k < 3 && e.empty(); k++) {
            Plan q = p;
            q.set("perturb", k + 1);
            auto sh = alone(q, "shaken", i, false);
            e = diff_values(w, part(sh, i), wd, scratch() + "/shaken_in", tol * 1e-3, eigen);
         }
         if (e.empty()) break;
         o.probes["ill_conditioned"]++;
         diff = diff_values(w, g, wd, d, tol * 100, eigen);
      }
      if (!diff.empty() && tol < 1) o.fail("program-influences-program", what + diff);
   };
   str kind = session ? "session, " : "input file, ";
   ChildResult h = run("healthy", {});
   o.add(h);
   o.faultable(h);
   o.state = o.state * 31 + h.log_hash;
   str ht = stdout_text();
   o.probes[session ? "sessions" : "input_files"]++;
   if (p.num("defs")) o.probes["shared_operators"]++;
   if (h.how != ChildResult::EXIT || h.code > 1) {
      o.fail("combination-crashes", kind + h.how_text() + " " + h.get("end"));
      return o;
   }
   if ((h.code != 0) != (fails >= 0)) {
      if (h.code) o.fail("combination-fails", kind + "although each program alone succeeds: " + h.get("end") + (ht.size() > 160 ? ht.substr(ht.size() - 160) : ht));
      else o.fail("failure-not-reported", kind + fmt("program %d fails", fails));
      return o;
   }
   int upto = fails < 0 ? n : fails;
   auto got = read_tree(scratch() + "/healthy");
   for (int i = 0; i < n && o.cls.empty(); i++) {
      if (i < upto) compare(i, got, scratch() + "/healthy", kind + fmt("program %d %s: ", i, p.ops[i][0].c_str()));
      else if (!part(got, i).empty()) o.fail("runs-after-failure", kind + fmt("program %d has output although program %d failed", i, fails));
   }
   if (p.faults.empty() || !o.cls.empty()) return o;

   ChildResult f = run("run", p.faults);
   o.add(f);
   o.state = f.log_hash;
   o.nontrivial = f.fault_any > 0;
   if (verbose) o.log += f.log + stdout_text();
   bool killed = f.how == ChildResult::CRASHED;
   if (!killed && (f.how != ChildResult::EXIT || f.code >= 77)) {
      o.fail("combination-crashes", kind + f.how_text() + " " + f.get("end"));
      return o;
   }
   got = read_tree(scratch() + "/run");
   int last = -1;
   for (int i = 0; i < upto; i++)
      if (!part(got, i).empty()) last = i;
   if (!killed && f.code == 0) last = upto;
   o.probes[killed ? "killed" : f.code ? "failed" : "survived"]++;
   if (last > 0) o.probes["complete_before_fault"] += last;
   for (int i = 0; i < last && o.cls.empty(); i++)
      compare(i, got, scratch() + "/run", kind + fmt("fault while program %d runs, program %d %s: ", last, i, p.ops[i][0].c_str()));
   return o;
}
static RegProp reg({"C15", gen, exec, faults, 2, 4, 1200, 30000});
