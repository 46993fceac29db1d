// C09: clocks, random names, reported memory, tuning files and leftovers never influence results.
#include "progs.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace sim;

// what a variant changes; 0 is always the environment of the reference run
static const char* dims[] = {"fill", "clock", "time", "ent", "pid", "ram", "wis", "left"};
static const int vals[] = {256, 1000, 5, 1000, 3, 5, 10, 6};
static void gen(Rng& r, int tier, Plan& p)
{
   rand_program(r, tier, p, "pppppeealccoo");
   if (r.chance(30)) {
      p.set("maxbuf", fmt("%ld", r.range(200, 6000)));
      p.set("tdir", r.chance(50));
   }
   if (r.chance(25)) p.set("wname", r.range(1, 3));
   p.set("variants", r.range(1, 3));
   for (int v = 0; v < 3; v++) {
      int one = r.chance(40) ? (int) r.below(8) : -1;   // a single difference or several
      for (int i = 0; i < 8; i++)
         p.set(fmt("%s%d", dims[i], v), (one < 0 ? r.chance(50) : one == i) ? r.range(1, vals[i] - 1) : 0);
   }
   p.set("at", r.below(1000));
   p.set("cut", r.below(1000));
}
static void faults(Rng& r, int tier, Plan& p, const Outcome& b)
{
   static const std::vector<FaultMenu> menu = {{E_CLOCK, "jump", 0, 0, 6}, {E_ENTROPY, "same", 0, 0, 2}, {E_ENTROPY, "eintr", 0, 0, 2}, {E_ENTROPY, "short", 0, 7, 2},
      {E_ENTROPY, "fail", 0, 0, 1}, {E_SYSINFO, "fail", 0, 0, 2}};
   add_faults(r, p, b, menu, r.range(1, 3), 0, 0);
}
static str tail(const str& t) { return t.size() > 200 ? t.substr(t.size() - 200) : t; }
static Outcome exec(const Plan& p0)
{
   Outcome o;
   if (p0.ops.empty()) return o;
   Plan p = p0;
   long wn = std::max(0l, std::min(3l, p.num("wname")));
   static const char* wnames[] = {"wisdom", "tune/w", "w2", "wisdom"};
   str wfile = wnames[wn], wsave = wn == 3 ? "w3" : "wisdom";
   if (wn) p.set("wisdom", wfile);
   if (wn == 3) p.set("wisdomsave", wsave);
   if (p.num("tdir")) p.set("tmpdir", "tmp/");
   str in = make_inputs(p, "in");
   auto prepare = [&](const str& name) {
      str d = fresh_dir(name);
      copy_tree(in, d);
      mkdir((d + "/tmp").c_str(), 0700);
      mkdir((d + "/tune").c_str(), 0700);
      return d;
   };
   auto prog = []() { return run_qdng({"-p1", "in.xml"}); };
   auto outs = [&](const str& d) {
      auto t = read_tree(d);
      for (str n : {str("in.xml"), str(".qdconfig"), wfile, wsave}) t.erase(n);
      return t;
   };
   ChildOpts base;
   str d = prepare("ref");
   ChildResult a = run_child(d, base, prog);
   o.add(a);
   if (a.how != ChildResult::EXIT || a.code) {
      str t = stdout_text();
      bool invalid = a.how == ChildResult::EXIT && a.code == 1 && (meaningless_input(t) || t.find("MaxBufferSize") != str::npos ||
         t.find("Not enough memory for WFbuffer") != str::npos);
      if (invalid) o.probes["invalid_programs"]++;
      else o.fail("reference-run-fails", a.how_text() + " " + tail(t));
      return o;
   }
   o.faultable(a);
   o.state = a.log_hash;
   auto want = outs(d);
   str wisdom;
   read_file(d + "/" + wsave, wisdom);
   o.nontrivial = true;

   auto judge = [&](ChildResult& c, const str& dd, const str& what, bool may_fail) {
      str t = stdout_text();
      o.add(c);
      o.state = o.state * 31 + c.log_hash;
      if (verbose) o.log += what + "\n" + t;
      if (c.how == ChildResult::HANG) o.fail("run-hangs", what + c.how_text());
      else if (c.how != ChildResult::EXIT || (c.code >= 77 && c.code <= 83)) o.fail("run-crashes", what + c.how_text() + " " + tail(t));
      else if (c.code) {
         o.probes["clean_error"]++;
         if (!may_fail) o.fail("environment-fails-run", what + tail(t));
         else if (t.find("rror") == str::npos && t.find("emory") == str::npos) o.fail("error-without-message", what + tail(t));
      } else {
         auto got = outs(dd);
         str df;
         for (auto& e : want)
            if (!got.count(e.first)) df = e.first + " is missing";
         if (df.empty()) df = diff_values(want, got, d, dd, p.num("zip") ? 1e-5 : 1e-9);
         if (!df.empty()) o.fail("environment-changes-result", what + df);
         o.probes["same_result"]++;
      }
   };
   for (int v = 0; v < std::max(1l, std::min(3l, p.num("variants", 1))) && o.cls.empty(); v++) {
      ChildOpts co;
      int x[8];
      str what;
      for (int i = 0; i < 8; i++) {
         x[i] = std::max(0l, std::min((long) vals[i] - 1, p.num(fmt("%s%d", dims[i], v))));
         if (x[i]) {
            what += str(dims[i]) + fmt("=%d ", x[i]);
            o.probes[str("vary_") + dims[i]]++;
         }
      }
      if (x[0]) co.fill = x[0] == 165 ? 0 : x[0];
      co.clock_seed = x[1];
      static const uint64_t t0[] = {1700000000ull, 0, 2147483646ull, 4294967294ull, 999999999ull};
      co.time0 = t0[x[2]] * 1000000ull;
      co.entropy = 1 + x[3];
      static const long pids[] = {4242, 1, 4194303};
      co.pid = pids[x[4]];
      static const uint64_t rams[] = {8ull << 30, 1ull << 40, 512ull << 20, 1ull << 20, 60000};
      co.ram = rams[x[5]];
      str dd = prepare("var");
      if (x[7]) {
         str da = prepare("left");
         Plan q = p;
         ChildOpts lo;
         if (x[7] == 2) {   // of a run with other stored inputs
            q.set("vals", p.num("vals") + 1);
            make_inputs(q, "left");
         }
         if (x[7] >= 3) {   // of a killed run
            Fault f;
            f.op = 0;
            f.cls = -1;
            f.n = a.cnt[0].any * std::max(0l, std::min(999l, p.num("at"))) / 1000;
            f.kind = "crash";
            f.arg = 0;
            lo.faults.push_back(f);
            lo.entropy = co.entropy;
            lo.pid = co.pid;
         }
         ChildResult l = run_child(da, lo, prog);
         o.add(l);
         auto left = outs(da);
         auto ins = read_tree(in);
         for (auto& e : left) {
            if (ins.count(e.first)) continue;
            size_t k = e.first.rfind('/');
            for (size_t s = 0; k != str::npos && (s = e.first.find('/', s)) != str::npos; s++) mkdir((dd + "/" + e.first.substr(0, s)).c_str(), 0700);
            str c = e.second;
            if (x[7] == 4) c = c.substr(0, c.size() * std::max(0l, std::min(999l, p.num("cut"))) / 1000);
            if (x[7] == 5) c += str(300, 'x');
            write_file(dd + "/" + e.first, c);
         }
      }
      str w = wisdom, path = dd + "/" + wfile;
      long cut = std::max(0l, std::min(999l, p.num("cut")));
      switch (x[6]) {
         case 1: write_file(path, w); break;
         case 2: write_file(path, "(fftw-3.3.10-sim\n  dft1i:3 2\n  dft-1i:3 2\n)\n"); break;
         case 3: write_file(path, "\x7f" "ELF garbage\n((((" + str(50, '\0')); break;
         case 4: write_file(path, w.substr(0, w.size() * cut / 1000)); break;
         case 5: mkdir(path.c_str(), 0700); break;
         case 6: write_file(path, ""); break;
         case 7: write_file(path, "(fftw-2.1.5-old\n" + w.substr(std::min(w.size(), (size_t) 17))); break;
         case 8: if (symlink("/dev/full", path.c_str())) {} break;
         case 9: if (symlink("/nonexistent/dir/w", path.c_str())) {} break;
      }
      ChildResult c = run_child(dd, co, prog);
      judge(c, dd, what + ": ", x[5] >= 3);
   }
   if (p.faults.empty() || !o.cls.empty()) return o;
   ChildOpts co;
   co.faults = p.faults;
   str dd = prepare("var");
   ChildResult c = run_child(dd, co, prog);
   bool may = false;
   str what = "faults: ";
   for (auto& f : p.faults) {
      may |= f.cls == E_ENTROPY && f.kind != "same";
      what += f.kind + " ";
   }
   judge(c, dd, what + ": ", may);
   return o;
}
static RegProp reg({"C09", gen, exec, faults, 2, 5, 2000, 40000});
