// C02: damaged, short or unreadable stored data is never returned as a result.
#include "store.h"
#include <unistd.h>
using namespace QDLIB;
using namespace sim;

static void gen(Rng& r, int tier, Plan& p)
{
   SaveCfg c = rand_cfg(r, "f", false, r.chance(10) ? 1200 : r.chance(30) ? 120 : 12);
   if (c.lossy() && r.chance(60)) c.tol = 0;
   if (c.lossy() && spec_elems(c.spec) > 300) c = rand_cfg(r, "f", false, 40);
   p.set("fill", r.below(256));
   p.set("reuse", r.below(2));
   std::vector<str> w = {"save"};
   for (auto& x : c.words()) w.push_back(x);
   p.ops.push_back(w);
   if (r.chance(40)) {   // what lay under that name before, in the two-file format
      SaveCfg d = c;
      do {
         d = rand_cfg(r, "f", is_wf(c.spec), 12);
      } while (is_wf(d.spec) != is_wf(c.spec));
      d.name = c.name;
      d.seq = c.seq;
      d.format = "binary";
      w = {"prior"};
      for (auto& x : d.words()) w.push_back(x);
      p.ops.push_back(w);
   }
   int n = r.range(2, tier ? 8 : 5);
   static const char* routes[] = {"meta", "meta", "into", "resize"};
   for (int i = 0; i < n; i++) {
      str route = routes[r.below(4)];
      switch (r.below(9)) {
         case 0: case 1: p.op({"load", route}); break;
         case 2: p.op({"remove", route, std::to_string(r.below(5))}); break;
         case 3: p.op({"empty", route, std::to_string(r.below(5))}); break;
         case 8: {   // data of a smaller object under the description of this one, as an interrupted overwrite leaves it
            str s = c.spec;
            if (c.format != "binary" || !is_wf(s)) break;
            size_t slash = s.find('/'), colon = s.rfind(':', slash);
            int m = atoi(s.substr(colon + 1, slash - colon - 1).c_str());
            if (m < 2) break;
            SaveCfg d = c;
            d.spec = s.substr(0, colon + 1) + std::to_string(r.range(1, m - 1)) + "/" + str(1, "ugz"[r.below(3)]) + "/" + std::to_string(8 * r.below(1000));
            if (r.chance(60)) d.comp = r.chance(50) ? "zlib" : "bzip";
            std::vector<str> w2 = {"mixed", route};
            for (auto& x : d.words()) w2.push_back(x);
            p.ops.push_back(w2);
            break;
         }
         case 4:   // the last bytes, one by one
            p.op({"cut", route, std::to_string(r.below(5)), std::to_string(-r.range(1, 16)), "1", "8"});
            break;
         default:
            p.op({"cut", route, std::to_string(r.below(5)), std::to_string(r.below(r.chance(50) ? 64 : 4000)), std::to_string(r.chance(70) ? 1 : r.range(2, 40)),
                  std::to_string(r.range(4, tier ? 40 : 16))});
      }
   }
}
static void faults(Rng& r, int tier, Plan& p, const Outcome& b)
{
   static const std::vector<FaultMenu> menu = {
      {E_OPEN, "fail", 0, 0, 3}, {E_READ, "fail", 0, 0, 6}, {E_READ, "short", 1, 40, 4}, {E_READ, "eintr", 0, 0, 2},
      {E_READ, "tear", 1, 64, 5}, {E_READ, "eof", 0, 0, 4}, {E_READ, "eio", 0, 0, 3}, {E_SEEK, "fail", 0, 0, 2}, {E_CLOSE, "fail", 0, 0, 1}};
   std::vector<int> loads;
   for (size_t i = 1; i < p.ops.size(); i++)
      if (p.ops[i][0] == "load") loads.push_back(i);
   if (loads.empty()) return;
   int o = loads[r.below(loads.size())];
   add_faults(r, p, b, menu, 1 + (r.chance(30) ? 1 : 0), o, o);
}
static Outcome exec(const Plan& p)
{
   Outcome o;
   str dir = fresh_dir("w");
   if (p.ops.empty() || p.ops[0][0] != "save") return o;
   SaveCfg c = SaveCfg::from(p.ops[0], 1);
   ChildOpts co;
   bool prior = p.ops.size() > 1 && p.ops[1][0] == "prior";
   if (prior) {
      SaveCfg d = SaveCfg::from(p.ops[1], 1);
      ChildResult w = run_child(dir, co, [&]() {
         WaveFunction* wf = NULL;
         AnyObj ob;
         if (is_wf(d.spec)) wf = make_wf(d.spec);
         else ob = make_obj(d.spec);
         emit("save", save_obj(d, wf, ob, NULL));
         return 0;
      });
      if (w.get("save") != "") {
         o.fail("save-fails-on-healthy-disk", w.how_text() + " " + w.get("save"));
         return o;
      }
   }
   std::map<str, str> old = read_tree(dir);
   ChildResult w = run_child(dir, co, [&]() {
      WaveFunction* wf = NULL;
      AnyObj ob;
      if (is_wf(c.spec)) wf = make_wf(c.spec);
      else ob = make_obj(c.spec);
      str e = save_obj(c, wf, ob, NULL);
      emit("save", e.empty() ? "ok" : e);
      emit("bytes", std::to_string(is_wf(c.spec) && !dynamic_cast<WFMultistate*>(wf) ? wf->sizeBytes() : 0));
      return 0;
   });
   o.add(w);
   if (w.get("save") != "ok") {
      o.fail("save-fails-on-healthy-disk", w.how_text() + " " + w.get("save"));
      return o;
   }
   std::map<str, str> tree = read_tree(dir);
   std::vector<str> data, all;
   for (auto& f : tree) {
      if (old.count(f.first) && old[f.first] == f.second) continue;   // left over from the older object
      all.push_back(f.first);
      if (f.first.size() < 5 || f.first.substr(f.first.size() - 5) != ".meta") data.push_back(f.first);
   }
   if (data.empty()) return o;
   std::map<size_t, std::map<str, str> > mixed;   // smaller objects, stored in full
   for (size_t i = 1; i < p.ops.size(); i++) {
      if (p.ops[i][0] != "mixed") continue;
      SaveCfg d = SaveCfg::from(p.ops[i], 2);
      str dir2 = fresh_dir("x");
      ChildResult s = run_child(dir2, co, [&]() {
         AnyObj ob;
         emit("save", save_obj(d, make_wf(d.spec), ob, NULL));
         return 0;
      });
      if (s.get("save") == "" && s.how == ChildResult::EXIT) mixed[i] = read_tree(dir2);
   }
   co.faults = p.faults;
   co.fill = p.num("fill", 0xa5);
   co.max_events = 200000;
   ChildResult rd = run_child(dir, co, [&]() {
      std::unique_ptr<FileWF> keep;
      AnyObj kept;   // operators and laser fields bring their own reader
      if (p.num("reuse")) keep.reset(new FileWF());
      auto attempt = [&](const str& key, const str& route) {
         Loaded g;
         if (p.num("reuse")) g.o = kept;
         str e = load_obj(c, route, keep.get(), g);
         kept = g.o;
         Quiet z;
         str m = !e.empty() ? "error " + e : compare_obj(c, g);
         emit(key, m.empty() ? "same" : m.compare(0, 6, "error ") == 0 ? m : "WRONG " + m);
         if (g.wf) DELETE_WF(g.wf);
      };
      for (size_t i = 1; i < p.ops.size(); i++) {
         const std::vector<str>& q = p.ops[i];
         op(i);
         str key = q[0] + " " + std::to_string(i);
         if (q[0] == "load") {
            attempt(key, q[1]);
            op(MAX_OPS - 1);
            attempt("again " + std::to_string(i), q[1]);
            continue;
         }
         if (q[0] == "prior" || (q[0] == "mixed" && !mixed.count(i))) continue;
         std::vector<str>& set = q[0] == "remove" ? all : data;
         const str& f = set[q[0] == "mixed" ? 0 : atol(q[2].c_str()) % set.size()];
         long size = tree[f].size();
         auto damaged = [&](const str& k) {
            attempt(k, q[1]);
            { Quiet z; write_file(f, tree[f]); }
            attempt("again " + std::to_string(i), q[1]);
         };
         if (q[0] == "mixed") {
            size_t sz = 0;
            {
               Quiet z;
               for (auto& x : mixed[i])
                  if (tree.count(x.first) && (x.first.size() < 5 || x.first.substr(x.first.size() - 5) != ".meta")) {
                     write_file(x.first, x.second);
                     sz++;
                  }
            }
            if (!sz) continue;
            attempt("damaged mixed " + q[3], q[1]);
            { Quiet z; for (auto& x : tree) write_file(x.first, x.second); }
            attempt("again " + std::to_string(i), q[1]);
         } else if (q[0] == "remove") {
            if (prior && !(f.size() > 5 && f.compare(f.size() - 5, 5, ".meta") == 0)) continue;   // nothing tells that the older object is not the one to be read
            { Quiet z; unlink(f.c_str()); }
            damaged("damaged remove " + f);
         } else if (q[0] == "empty") {
            { Quiet z; write_file(f, ""); }
            damaged("damaged empty " + f);
         } else if (q[0] == "cut") {
            long pos = atol(q[3].c_str()), step = atol(q[4].c_str()), n = atol(q[5].c_str());
            pos = pos < 0 ? std::max(0l, size + pos) : size ? pos % size : 0;
            for (long k = 0; k < n && pos < size; k++, pos += step) {
               { Quiet z; write_file(f, tree[f].substr(0, pos)); }
               bool rawsize = c.format == "binary" && c.comp != "none" && (size_t) pos == atol(w.get("bytes").c_str());
               damaged(fmt("damaged cut%s %s to %ld of %ld", rawsize ? "-to-raw-size" : "", f.c_str(), pos, size));
            }
         }
      }
      return 0;
   });
   o.add(rd);
   o.faultable(rd);
   if (rd.how != ChildResult::EXIT || rd.code) {
      str last = rd.out.empty() ? "" : rd.out.back().first;
      o.fail(rd.how == ChildResult::HANG ? "load-hangs" : "load-crashes", rd.how_text() + " after " + last);
      return o;
   }
   for (auto& e : rd.out) {
      std::vector<str> k = split(e.first, ' ');
      str what = e.first + ": " + e.second;
      bool err = e.second.compare(0, 6, "error ") == 0;
      o.probes[k[0] + (err ? "_error" : e.second == "same" ? "_same" : "_wrong")]++;
      if (e.second.compare(0, 6, "WRONG ") == 0) o.fail("wrong-object-returned", what);
      if (k[0] == "damaged" && e.second == "same") o.fail("damaged-data-accepted", what);   // a prefix cannot hold the object
      if (k[0] == "again" && e.second != "same") o.fail("intact-object-not-returned", what);
      if (k[0] == "load" && err) {
         bool ok = false;
         for (auto& f : p.faults)
            if ((f.op < 0 || f.op == atoi(k[1].c_str())) && f.kind != "short" && f.kind != "eintr" && !(f.cls == E_CLOSE)) ok = true;
         if (!ok) o.fail("intact-object-not-returned", what);
      }
      if (err && e.second.compare(0, 10, "error std:") == 0 ) o.fail("foreign-exception", what);
   }
   o.state = rd.log_hash;
   return o;
}
static RegProp reg({"C02", gen, exec, faults, 5, 10, 6000, 100000});
