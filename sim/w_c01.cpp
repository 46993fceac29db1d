// C01: a save that reports success has put the whole object on disk.
#include "store.h"
using namespace QDLIB;
using namespace sim;

static void gen(Rng& r, int tier, Plan& p)
{
   int n = r.range(1, tier ? 6 : 4);
   int maxn = r.chance(12) ? 2500 : r.chance(40) ? 200 : 24;
   p.set("fill", r.below(256));
   p.set("retry", r.chance(40));
   for (int i = 0; i < n; i++) {
      SaveCfg c = rand_cfg(r, "f" + std::to_string(r.below(n + 1)), false, maxn);
      if (maxn > 300 && c.lossy()) c = rand_cfg(r, c.name, false, 60);
      std::vector<str> w = {"save", r.chance(50) ? "new" : "w" + std::to_string(r.below(2))};
      for (auto& x : c.words()) w.push_back(x);
      static const char* routes[] = {"meta", "meta", "into", "resize"};
      w.push_back(routes[r.below(4)]);
      p.ops.push_back(w);
   }
}
static void faults(Rng& r, int tier, Plan& p, const Outcome& b)
{
   static const std::vector<FaultMenu> menu = {
      {E_OPEN, "fail", 0, 0, 2}, {E_WRITE, "fail", 0, 0, 4}, {E_WRITE, "full", 0, 200, 5}, {E_WRITE, "short", 1, 60, 5},
      {E_WRITE, "eintr", 0, 0, 3}, {E_WRITE, "eio", 0, 0, 3}, {E_CLOSE, "fail", 0, 0, 4}, {E_CLOSE, "closelose", 1, 64, 3}};
   add_faults(r, p, b, menu, 1 + (r.chance(35) ? r.below(3) : 0), 0, (int) p.ops.size() - 1);
}
static bool continuable(const Plan& p, int op)
{
   for (auto& f : p.faults)
      if ((f.op == op || f.op < 0) && f.kind != "short" && f.kind != "eintr") return false;
   return true;
}
static Outcome exec(const Plan& p)
{
   Outcome o;
   str dir = fresh_dir("w");
   ChildOpts co;
   co.faults = p.faults;
   co.fill = p.num("fill", 0xa5);
   ChildResult w = run_child(dir, co, [&]() {
      std::unique_ptr<FileWF> slot[2];
      for (size_t i = 0; i < p.ops.size(); i++) {
         const std::vector<str>& q = p.ops[i];
         op(i);
         SaveCfg c = SaveCfg::from(q, 2);
         WaveFunction* wf = NULL;
         AnyObj ob;
         FileWF* f = NULL;
         str before;
         {
            Quiet z;
            if (is_wf(c.spec)) wf = make_wf(c.spec);
            else ob = make_obj(c.spec);
            before = wf ? describe(wf) : describe(ob);
            if (wf && q[1][0] == 'w') {
               int s = (q[1][1] - '0') & 1;
               if (!slot[s]) slot[s].reset(new FileWF());
               f = slot[s].get();
            }
         }
         str e = save_obj(c, wf, ob, f);
         if (!e.empty() && p.num("retry")) e = save_obj(c, wf, ob, f);   // with the same writer
         Quiet z;
         emit("s" + std::to_string(i), e.empty() ? "ok" : e);
         str after = wf ? describe(wf) : describe(ob);
         if (after != before) emit("changed" + std::to_string(i), before + " -> " + after);
      }
      op(MAX_OPS - 1);
      return 0;
   });
   o.add(w);
   o.faultable(w);
   if (w.how != ChildResult::EXIT || w.code) {
      o.fail(w.how == ChildResult::HANG ? "save-hangs" : "save-crashes", "save process: " + w.how_text() + " at op " + std::to_string(w.out.size()));
      return o;
   }
   std::map<str, int> last;
   for (size_t i = 0; i < p.ops.size(); i++) {
      SaveCfg c = SaveCfg::from(p.ops[i], 2);
      str e = w.get("s" + std::to_string(i));
      if (e != "ok") o.probes["save_reported_error"]++;
      else o.probes["save_ok"]++;
      if (w.has("changed" + std::to_string(i))) { o.fail("object-changed-by-save", w.get("changed" + std::to_string(i))); return o; }
      if (e != "ok" && continuable(p, i)) {
         o.fail("save-fails-on-healthy-disk", "op " + std::to_string(i) + ": " + e);
         return o;
      }
      // names share files: name, name-<state>, name_<index>; a later save under the same base name may replace parts
      last[c.name] = i;
   }
   ChildOpts ro;
   ro.fill = 255 - co.fill;
   ChildResult rd = run_child(dir, ro, [&]() {
      for (auto& l : last) {
         const std::vector<str>& q = p.ops[l.second];
         SaveCfg c = SaveCfg::from(q, 2);
         op(l.second);
         if (w.get("s" + std::to_string(l.second)) != "ok") continue;
         Loaded g;
         str e = load_obj(c, q.back(), NULL, g);
         Quiet z;
         str m = e.empty() ? compare_obj(c, g) : "load error " + e;
         emit("l" + std::to_string(l.second), m.empty() ? "same" : m);
      }
      return 0;
   });
   o.add(rd);
   if (rd.how != ChildResult::EXIT || rd.code) {
      o.fail("load-after-save-crashes", "reader: " + rd.how_text());
      return o;
   }
   for (auto& l : last) {
      str k = "l" + std::to_string(l.second);
      if (w.get("s" + std::to_string(l.second)) == "ok" && rd.get(k) != "same")
         o.fail("saved-object-not-returned", "op " + std::to_string(l.second) + ": save reported success; " + rd.get(k));
   }
   o.state = w.log_hash;
   return o;
}
static RegProp reg({"C01", gen, exec, faults, 6, 12, 6000, 60000});
