// C03: any history of saves and loads behaves like a store of whole objects.
#include "store.h"
#include <set>
#include <sstream>
using namespace QDLIB;
using namespace sim;

// names: a b c = single files (any wave function), s t = numbered series (one shape each), o p = other objects
static SaveCfg cfg_for(Rng& r, const str& name, const std::map<str, SaveCfg>& proto, int maxn)
{
   SaveCfg c = rand_cfg(r, name, true, maxn);
   if (name == "o" || name == "p") {
      do c = rand_cfg(r, name, false, maxn);
      while (is_wf(c.spec));
      if (proto.count(name)) {   // the class of an operator or laser is chosen by the program that reads it
         SaveCfg k = proto.at(name);
         str kind = k.spec.substr(0, k.spec.find_first_of(":/"));
         for (int i = 0; i < 50 && c.spec.compare(0, kind.size() + 1, kind + ":"); i++) {
            c = rand_cfg(r, name, false, maxn);
            if (is_wf(c.spec)) c.spec = "x";
         }
         if (c.spec.compare(0, kind.size() + 1, kind + ":")) c.spec = k.spec, c.format = k.format;
      }
      c.seq = -1;
   } else if (name == "s" || name == "t") {
      if (proto.count(name)) {
         const str& sp = proto.at(name).spec;
         c.spec = sp.substr(0, sp.find('/')) + "/" + str(1, "ugz"[r.below(3)]) + "/" + std::to_string(8 * r.below(1000) + (atoi(sp.substr(sp.rfind('/') + 1).c_str()) % 8));
      }
      c.seq = r.below(6);
   } else c.seq = -1;
   return c;
}
static void gen(Rng& r, int tier, Plan& p)
{
   int n = r.range(3, tier ? 40 : 22);
   int maxn = r.chance(10) ? 300 : r.chance(40) ? 60 : 12;
   p.set("fill", r.below(256));
   static const std::vector<str> names = {"a", "b", "c", "s", "s", "t", "o", "p"};
   std::map<str, SaveCfg> proto;
   int uniform = r.below(3);   // series written with one format and compression, as the programs do
   auto save = [&](const str& nm) {
      SaveCfg c = cfg_for(r, nm, proto, maxn);
      if ((nm == "s" || nm == "t") && proto.count(nm) && uniform) {
         SaveCfg& k = proto[nm];
         c.format = k.format;
         if (uniform == 1) { c.comp = k.comp; c.tol = k.tol; }
      }
      if (!proto.count(nm)) proto[nm] = c;
      return c;
   };
   auto put = [](std::vector<str> w, const SaveCfg& c) {
      for (auto& x : c.words()) w.push_back(x);
      return w;
   };
   static const char* routes[] = {"meta", "meta", "into", "resize", "keep", "other", "keep"};
   std::vector<str> have;
   for (int i = 0; i < n; i++) {
      str slot = r.chance(35) ? "new" : "f" + std::to_string(r.below(3));
      int k = have.empty() ? 0 : (int) r.below(10);
      if (k < 4) {
         str nm = r.pick(names);
         p.ops.push_back(put({"save", slot}, save(nm)));
         have.push_back(nm);
      } else if (k == 7) {   // read by one reader, stored again by a writer under another name and format
         p.op({"copy", slot, r.pick(have), std::to_string(r.below(6)), r.chance(50) ? "new" : "f" + std::to_string(r.below(3)), str(1, "abc"[r.below(3)]), r.chance(50) ? "stream" : "binary"});
      } else if (k < 8) {
         str nm = r.chance(93) ? r.pick(have) : str("nofile");
         p.op({"load", slot, nm, std::to_string(r.below(7)), routes[r.below(7)]});
      } else if (k == 8) {   // stepping through a series
         str nm = r.chance(50) ? "s" : "t";
         if (r.chance(40)) {
            SaveCfg c = save(nm);
            c.seq = r.below(6);
            std::vector<str> w = put({"wseries", slot, std::to_string(r.range(2, 5))}, c);
            w.push_back(std::to_string(r.chance(50) ? 1 : r.chance(50) ? -1 : r.range(2, 3)));   // stepping
            p.ops.push_back(w);
            have.push_back(nm);
         } else p.op({"series", slot, nm, std::to_string(r.below(6)), r.chance(50) ? "forward" : "reverse", std::to_string(r.range(2, 7)), r.chance(50) ? "meta" : "keep", std::to_string(r.chance(70) ? 1 : r.range(2, 3))});
      } else {
         std::vector<str> w = {"pack", slot, r.chance(50) ? "one" : "many"};
         int m = r.range(2, 4);
         for (int j = 0; j < m; j++) {
            SaveCfg c = rand_cfg(r, "q", r.chance(70), std::min(maxn, 40));
            c.format = "stream";
            c.seq = -1;
            for (auto& x : c.words()) w.push_back(x);
         }
         p.ops.push_back(w);
      }
   }
}
static void faults(Rng& r, int tier, Plan& p, const Outcome& b)
{
   static const std::vector<FaultMenu> menu = {{E_WRITE, "short", 1, 60, 4}, {E_WRITE, "eintr", 0, 0, 3}, {E_READ, "short", 1, 40, 4}, {E_READ, "eintr", 0, 0, 2}};
   static const std::vector<FaultMenu> hard = {{E_WRITE, "fail", 0, 0, 4}, {E_OPEN, "fail", 0, 0, 3}, {E_CLOSE, "fail", 0, 0, 2}, {E_READ, "fail", 0, 0, 4}, {E_READ, "tear", 1, 64, 2}, {E_READ, "eof", 0, 0, 2}, {E_CLOSE, "closelose", 1, 64, 1},
      {E_UNLINK, "fail", 0, 0, 1}, {E_RENAME, "fail", 0, 0, 1}};
   bool h = r.chance(50);   // operations that fail must not disturb the others
   add_faults(r, p, b, h ? hard : menu, 1 + r.below(h ? 2 : 4), 0, (int) p.ops.size() - 1);
}
static str shape_of(const str& spec) { return spec.substr(0, spec.find('/')); }
// the first function of a set is also reachable through the set itself
static str check_views(WaveFunction* wf)
{
   WFMultistate* m = dynamic_cast<WFMultistate*>(wf);
   if (!m) return "";
   for (int i = 0; i < m->States(); i++) {
      if (m->begin(i) != m->State(i)->begin(0)) return "state " + std::to_string(i) + " of the set points elsewhere";
   }
   return "";
}
static Outcome exec(const Plan& p)
{
   Outcome o;
   str dir = fresh_dir("w");
   ChildOpts co;
   co.faults = p.faults;
   co.fill = p.num("fill", 0xa5);
   ChildResult w = run_child(dir, co, [&]() {
      std::unique_ptr<FileWF> slots[3];
      std::map<str, WaveFunction*> kept;
      std::map<str, SaveCfg> model;   // key -> what was saved last
      auto slot = [&](const str& s) -> FileWF* {
         Quiet z;
         if (s[0] != 'f') return NULL;
         std::unique_ptr<FileWF>& f = slots[(s[1] - '0') % 3];
         if (!f) f.reset(new FileWF());
         return f.get();
      };
      long ok = 0, errs = 0, kept_n = 0;
      std::set<str> unknown;          // keys a failed save may have touched
      auto faulty = [&](size_t i) {
         for (auto& f : p.faults)
            if (f.op == (int) i && f.kind != "short" && f.kind != "eintr") return true;
         return false;
      };
      auto failed_save = [&](const SaveCfg& c) {
         if (c.seq >= 0 && c.format == "binary") {   // the members share one description
            for (auto& m : model)
               if (m.second.name == c.name) unknown.insert(m.first);
         }
         unknown.insert(c.key());
         if (!model.count(c.key())) model[c.key()] = c;
      };
      auto bad = [&](size_t i, const char* cls, const str& d) { emit("bad", str(cls) + " op " + std::to_string(i) + ": " + d); };
      auto judge = [&](size_t i, const str& key, const str& route, const str& e, Loaded& g, bool must) {
         Quiet z;
         if (unknown.count(key)) return;
         if (!model.count(key)) {
            if (e.empty()) bad(i, "load-of-nothing", "load of " + key + " which was never saved succeeded");
            errs++;
            return;
         }
         if (!e.empty()) {
            errs++;
            if (must && !faulty(i)) bad(i, "stored-object-not-returned", "load of " + key + " (" + route + "): " + e);
            else if (e.compare(0, 4, "std:") == 0) bad(i, "foreign-exception", e);
            return;
         }
         str m = compare_obj(model[key], g);
         if (m.empty()) m = check_views(g.wf);
         if (!m.empty()) bad(i, "wrong-object-returned", "load of " + key + " (" + route + "): " + m);
         ok++;
      };
      for (size_t i = 0; i < p.ops.size(); i++) {
         const std::vector<str>& q = p.ops[i];
         op(i);
         str before_dir;
         FileWF* f = slot(q[1]);
         if (q[0] == "save" || q[0] == "wseries") {
            int cnt = q[0] == "wseries" ? atoi(q[2].c_str()) : 1;
            SaveCfg c = SaveCfg::from(q, q[0] == "wseries" ? 3 : 2);
            int step = q[0] == "wseries" && q.size() > 9 ? std::max(-1, std::min(4, atoi(q[9].c_str()))) : 1;
            if (step == 0) step = 1;
            if (cnt > 1 && c.seq < 0) continue;
            if (step < 0) cnt = std::min(cnt, c.seq + 1);
            std::unique_ptr<FileWF> own;
            if (cnt > 1 && !f) {
               Quiet z;
               own.reset(new FileWF());
               f = own.get();
            }
            size_t sl = c.spec.rfind('/');
            uint64_t seed = strtoull(c.spec.substr(sl + 1).c_str(), 0, 10);
            if (f) f->ActivateSequence(step);
            for (int k = 0; k < cnt; k++) {
               SaveCfg m = c;
               m.spec = c.spec.substr(0, sl + 1) + std::to_string(seed + 8 * k);
               m.seq = c.seq >= 0 ? c.seq + k * step : -1;
               WaveFunction* wf = NULL;
               AnyObj ob;
               {
                  Quiet z;
                  if (is_wf(m.spec)) wf = make_wf(m.spec);
                  else ob = make_obj(m.spec);
               }
               str e;
               if (k == 0) e = save_obj(m, wf, ob, f);
               else e = guarded([&]() { *f << wf; });   // the counter advances by itself
               if (!e.empty() && faulty(i) && f && wf) {   // once more with the same writer
                  { Quiet z; failed_save(m); }
                  if (m.seq >= 0) f->Counter(m.seq);
                  e = guarded([&]() { *f << wf; });
               }
               Quiet z;
               if (!e.empty() && !faulty(i)) bad(i, "save-fails-on-healthy-disk", e);
               if (!e.empty()) failed_save(m);
               else {
                  model[m.key()] = m;
                  unknown.erase(m.key());
               }
               if (wf) DELETE_WF(wf);
               if (!e.empty()) break;
            }
            if (f) f->ForwardSequence();
         } else if (q[0] == "copy") {
            str key = q[2] + ((q[2] == "s" || q[2] == "t") ? "_" + q[3] : "");
            if (!model.count(key) || unknown.count(key) || model[key].spec.compare(0, 3, "pot") == 0) continue;
            Loaded g;
            bool wfs = is_wf(model[key].spec);
            str e = load_obj(model[key], wfs ? "meta" : "into", f, g);
            judge(i, key, "copy", e, g, true);
            if (!e.empty()) continue;
            SaveCfg c = model[key], m = c;
            m.name = c.name = wfs ? q[5] : "o";
            m.format = c.format = q[6];
            m.seq = c.seq = -1;
            c.comp = "none";
            e = save_obj(c, g.wf, g.o, slot(q[4]));
            Quiet z;
            if (!e.empty()) {
               if (!faulty(i)) bad(i, "save-fails-on-healthy-disk", e);
               failed_save(c);
               if (g.wf) DELETE_WF(g.wf);
               continue;
            }
            unknown.erase(c.key());
            model[c.key()] = m;   // whatever was lost when the original was compressed
            if (g.wf) DELETE_WF(g.wf);
         } else if (q[0] == "load") {
            SaveCfg c;
            c.name = q[2];
            c.seq = (q[2] == "s" || q[2] == "t") ? atoi(q[3].c_str()) : -1;
            c.spec = "grid:4/u/1";
            bool have = model.count(c.key());
            if (have) c = model[c.key()];
            else if (q[2] == "o" || q[2] == "p") continue;
            str route = q[4];
            bool must = have;
            Loaded g;
            std::map<str, str> before;
            bool reads_only = i % 4 == 0;
            if (reads_only) { Quiet z; before = read_tree("."); }
            str e;
            str kk = "k" + q[1];
            if (!is_wf(c.spec) || route == "meta" || route == "resize" || route == "into") e = load_obj(c, is_wf(c.spec) ? route : "into", f, g);
            else {
               if (route == "other") {   // an object of another kind or shape: exact or an error
                  Quiet z;
                  static const char* os[] = {"grid:7/u/3", "level:3/u/3", "multi:2:5/u/3", "mlevel:3:2/u/3", "grid2:3:4/u/1"};
                  g.wf = make_wf(os[(i + c.spec.size()) % 5]);
                  must = false;
               } else {
                  Quiet z;
                  if (!kept.count(kk)) kept[kk] = make_wf("grid:6/u/5");
                  g.wf = kept[kk];
                  must = false;
                  kept_n++;
               }
               std::unique_ptr<FileWF> own;
               if (!f) { Quiet z; own.reset(new FileWF()); f = own.get(); }
               e = guarded([&]() {
                  f->Name(c.name);
                  if (c.seq >= 0) { f->ActivateSequence(); f->Counter(c.seq); }
                  else f->StopSequence();
                  *f >> g.wf;
               });
            }
            judge(i, c.key(), route, e, g, must);
            Quiet z;
            if (reads_only && before != read_tree(".")) bad(i, "read-changes-store", "load of " + c.key());
            if (g.wf) {
               if (route == "meta" && e.empty()) {
                  if (kept.count(kk)) DELETE_WF(kept[kk]);
                  kept[kk] = g.wf;
               } else if (!kept.count(kk) || kept[kk] != g.wf) DELETE_WF(g.wf);
               else if (!e.empty()) { kept.erase(kk); DELETE_WF(g.wf); }
            }
         } else if (q[0] == "series") {
            int at = atoi(q[3].c_str()), n = atoi(q[5].c_str()), dir = q[4] == "reverse" ? -1 : q.size() > 7 ? std::max(1, atoi(q[7].c_str())) : 1;
            std::unique_ptr<FileWF> own;
            if (!f) { Quiet z; own.reset(new FileWF()); f = own.get(); }
            f->Name(q[2]);
            f->ActivateSequence(dir);
            f->Counter(at);
            WaveFunction* keep = NULL;
            for (int k = 0; k < n; k++, at += dir) {
               Loaded g;
               str key = q[2] + "_" + std::to_string(at);
               bool have = model.count(key);
               str route = q[6];
               if (route == "keep" && keep) g.wf = keep;
               else route = "meta";
               str e = guarded([&]() {
                  if (route == "meta") *f >> &g.wf;
                  else *f >> g.wf;
               });
               judge(i, key, "step " + q[4] + " " + route, e, g, have);
               if (!e.empty() || !have || unknown.count(key)) break;
               keep = g.wf;
            }
            f->ForwardSequence();
         } else if (q[0] == "pack") {
            std::stringstream ss;
            std::vector<SaveCfg> cs;
            for (size_t k = 3; k + 5 < q.size(); k += 6) cs.push_back(SaveCfg::from(q, k));
            std::unique_ptr<FileWF> one(new FileWF());
            typedef FileSingle<WaveFunction> FW;
            typedef FileSingle<Serializiable> FS;
            for (auto& c : cs) {
               str e;
               if (is_wf(c.spec)) {
                  WaveFunction* wf;
                  { Quiet z; wf = make_wf(c.spec); }
                  std::unique_ptr<FileWF> fresh(new FileWF());
                  FileWF* g = q[2] == "one" ? one.get() : fresh.get();
                  e = guarded([&]() {
                     g->FormatOut(FW::stream);
                     g->Compression(c.comp == "zlib" ? FW::ZLIB : c.comp == "bzip" ? FW::BZIP : FW::UNCOMPRESSED);
                     g->CompressionTolerance(c.tol);
                     g->SetOutputStream(ss);
                     *g << wf;
                  });
               } else {
                  AnyObj ob;
                  { Quiet z; ob = make_obj(c.spec); }
                  FS g;
                  e = guarded([&]() {
                     g.FormatOut(FS::stream);
                     g.Compression(c.comp == "zlib" ? FS::ZLIB : c.comp == "bzip" ? FS::BZIP : FS::UNCOMPRESSED);
                     g.SetOutputStream(ss);
                     auto other = [&](auto& h, auto* x) {
                        typedef typename std::remove_reference<decltype(h)>::type T;
                        h.FormatOut(T::stream);
                        h.Compression(c.comp == "zlib" ? T::ZLIB : c.comp == "bzip" ? T::BZIP : T::UNCOMPRESSED);
                        h.SetOutputStream(ss);
                        h.WriteSingleFileToStream(x);
                     };
                     if (ob.pot) g.WriteSingleFileToStream(dynamic_cast<Serializiable*>(ob.pot));
                     else if (ob.mat) other(*ob.mat->File(), ob.mat);
                     else other(ob.laser->File(), ob.laser);
                  });
               }
               if (!e.empty()) bad(i, "pack-fails", e);
            }
            one.reset(new FileWF());
            for (size_t k = 0; k <= cs.size(); k++) {
               SaveCfg c = k < cs.size() ? cs[k] : cs[0];
               Loaded g;
               str e;
               if (is_wf(c.spec)) {
                  std::unique_ptr<FileWF> fresh(new FileWF());
                  FileWF* r = q[2] == "one" ? one.get() : fresh.get();
                  e = guarded([&]() {
                     r->Format(FW::stream);
                     r->SetInputStream(ss);
                     *r >> &g.wf;
                  });
               } else {
                  FS r;
                  g.o = empty_obj(c.spec);
                  e = guarded([&]() {
                     r.Format(FS::stream);
                     r.SetInputStream(ss);
                     auto other = [&](auto& h, auto* x) {
                        typedef typename std::remove_reference<decltype(h)>::type T;
                        h.Format(T::stream);
                        h.SetInputStream(ss);
                        h.ReadSingleFileFromStream(x);
                     };
                     if (g.o.pot) r.ReadSingleFileFromStream(dynamic_cast<Serializiable*>(g.o.pot));
                     else if (g.o.mat) other(*g.o.mat->File(), g.o.mat);
                     else other(g.o.laser->File(), g.o.laser);
                  });
               }
               Quiet z;
               if (k == cs.size()) {
                  if (e.empty()) bad(i, "read-past-end", "object returned after the last one in the stream");
                  break;
               }
               str m = e.empty() ? compare_obj(c, g) : "error " + e;
               if (!m.empty()) bad(i, "packed-object-not-returned", std::to_string(k) + " of " + std::to_string(cs.size()) + " " + c.spec + ": " + m);
               ok++;
               if (!e.empty()) break;
            }
         }
      }
      // the complete store at the end, read by new readers
      op(MAX_OPS - 1);
      for (auto& m : model) {
         Loaded g;
         str e = load_obj(m.second, is_wf(m.second.spec) ? "meta" : "into", NULL, g);
         judge(p.ops.size(), m.first, "final", e, g, true);
         if (g.wf) DELETE_WF(g.wf);
      }
      emit("ok", std::to_string(ok));
      emit("errs", std::to_string(errs));
      emit("kept", std::to_string(kept_n));
      return 0;
   });
   o.add(w);
   o.faultable(w);
   if (w.how != ChildResult::EXIT || w.code) {
      o.fail(w.how == ChildResult::HANG ? "store-hangs" : "store-crashes", w.how_text());
      return o;
   }
   o.probes["loads_exact"] += atol(w.get("ok").c_str());
   o.probes["loads_error"] += atol(w.get("errs").c_str());
   o.probes["reloads_into_used_object"] += atol(w.get("kept").c_str());
   if (w.has("bad")) {
      str b = w.get("bad");
      o.fail(b.substr(0, b.find(' ')), b.substr(b.find(' ') + 1));
   }
   o.state = w.log_hash;
   return o;
}
static RegProp reg({"C03", gen, exec, faults, 2, 4, 8000, 100000});
