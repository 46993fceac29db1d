// C04: the wave function buffer behaves like a plain array under any memory limit.
#include "store.h"
#include <deque>
#include <set>
#include <stdlib.h>
#include "qdlib/WFBuffer.h"
using namespace QDLIB;
using namespace sim;

static str value_spec(const str& shape, long seed) { return shape + "/u/" + std::to_string(8 * seed); }
static void gen(Rng& r, int tier, Plan& p)
{
   p.set("fill", r.below(256));
   int nb = r.chance(30) ? 2 : 1;
   for (int b = 0; b < nb; b++) {
      int k = r.below(8);
      str shape = k < 3 ? "level:" + std::to_string(r.range(1, 12)) : k < 6 ? "grid:" + std::to_string(r.range(2, 24)) : k == 6 ? fmt("multi:%ld:%ld", r.range(1, 3), r.range(2, 9)) : fmt("mlevel:%ld:%ld", r.range(1, 3), r.range(1, 5));
      p.set(fmt("shape%d", b), shape);
      p.set(fmt("slots%d", b), r.chance(10) ? 0 : r.chance(20) ? 100 : r.range(1, 9));   // capacity in wave functions, 100: plenty
      p.set(fmt("odd%d", b), r.chance(50) ? 0 : r.below(16));                          // limit not a multiple of the size
      p.set(fmt("init%d", b), r.chance(80));
      p.set(fmt("window%d", b), r.chance(30) ? -1 : r.below(4));
   }
   p.set("tmpdir", r.below(10) < 7 ? 0 : r.below(3));
   p.set("buffers", nb);
   p.set("far", r.chance(65) ? 0 : 1L << (4 * r.range(1, 3)));   // sparse buffer: every second position lies this far out
   int n = r.range(4, tier ? 80 : 50);
   int span = r.range(2, 12);
   for (int i = 0; i < n; i++) {
      str b = std::to_string(r.below(nb));
      str pos = std::to_string(r.below(span));
      str seed = std::to_string(r.below(1000));
      int k = r.below(34);
      if (k < 9) p.op({"set", b, pos, seed});
      else if (k < 11) p.op({"add", b, seed});
      else if (k < 20) p.op({"get", b, pos});
      else if (k < 23) p.op({"poke", b, pos, seed});
      else if (k < 25) p.op({"late", b, std::to_string(r.below(4)), seed});
      else if (k < 27) p.op({"lock", b, pos});
      else if (k < 29) p.op({"unlock", b, pos});
      else if (k == 29) p.op({"autolock", b, std::to_string(r.below(5))});
      else if (k == 30) p.op({"resize", b, std::to_string(r.chance(15) ? 0 : r.below(span + 3))});
      else if (k == 31) p.op({r.chance(60) ? "setfrom" : "clear", b, pos, std::to_string(r.below(span))});
      else if (k == 32) p.op({"save", b, "ser" + std::to_string(r.below(2))});
      else p.op({"read", b, "ser" + std::to_string(r.below(2)), std::to_string(r.below(3)), std::to_string(r.chance(50) ? -1 : r.range(1, 5)), std::to_string(r.chance(60) ? 1 : r.range(1, 3))});
   }
}
static void faults(Rng& r, int tier, Plan& p, const Outcome& b)
{
   static const std::vector<FaultMenu> menu = {
      {E_OPEN, "fail", 0, 0, 3}, {E_WRITE, "fail", 0, 0, 4}, {E_WRITE, "full", 0, 100, 4}, {E_WRITE, "short", 1, 60, 3},
      {E_WRITE, "eintr", 0, 0, 2}, {E_WRITE, "eio", 0, 0, 2}, {E_CLOSE, "fail", 0, 0, 2}, {E_CLOSE, "closelose", 1, 64, 2},
      {E_READ, "fail", 0, 0, 4}, {E_STAT, "fail", 0, 0, 1}, {E_READ, "short", 1, 40, 3}, {E_READ, "tear", 1, 64, 3}, {E_READ, "eof", 0, 0, 3}, {E_READ, "eintr", 0, 0, 2}};
   add_faults(r, p, b, menu, 1 + (r.chance(50) ? r.below(3) : 0), 0, (int) p.ops.size() - 1);
}
namespace {
struct Val : std::vector<double> {   // compared bit by bit
   bool operator==(const Val& o) const { return size() == o.size() && (empty() || !memcmp(data(), o.data(), 8 * size())); }
   bool operator!=(const Val& o) const { return !(*this == o); }
};
struct Entry {
   bool known = false, alt = false;   // alt: a failed Set may or may not have taken effect
   Val v, v2;
};
struct Model {
   std::vector<Entry> e;
   std::deque<std::pair<size_t, WaveFunction*> > win;   // last accessed, newest first (NULL: that access failed)
   std::map<size_t, WaveFunction*> locks;               // explicitly locked (pointer if it was seen)
   size_t W = 2;
   bool inited = false;
};
}
static Val values(WaveFunction* w)
{
   Val v;
   describe_values(w, v);
   return v;
}
static void assign(WaveFunction* to, WaveFunction* from) { *to = from; }

static Outcome exec(const Plan& p)
{
   Outcome o;
   str dir = fresh_dir("w");
   ChildOpts co;
   co.faults = p.faults;
   co.fill = p.num("fill", 0xa5);
   ChildResult w = run_child(dir, co, [&]() {
      int nb = std::max(1L, std::min(2L, p.num("buffers", 1)));
      std::unique_ptr<WFBuffer> buf[2];
      Model m[2];
      str shape[2];
      size_t size[2], limit[2], base[2];
      std::map<str, std::pair<str, std::vector<Entry> > > series;
      size_t far = std::max(0L, std::min(4096L, p.num("far")));
      auto place = [far](const str& s) {
         size_t k = strtoul(s.c_str(), 0, 10);
         return far ? k / 2 + k % 2 * far : k;
      };
      long counts[6] = {0};
      {
         Quiet z;
         ParamContainer& gp = GlobalParams::Instance();
         int td = p.num("tmpdir");
         if (td) {
            gp.SetValue("tmpdir", str("td"));
            if (system("mkdir td")) return 1;
         }
         for (int b = 0; b < nb; b++) {
            shape[b] = p.get(fmt("shape%d", b));
            WaveFunction* x = make_wf(value_spec(shape[b], 1));
            size[b] = 0;
            { Val v = values(x); size[b] = v.size() * 8; }
            limit[b] = size[b] * p.num(fmt("slots%d", b), 3) + p.num(fmt("odd%d", b));
            if (limit[b] == 0) limit[b] = 1;
            gp.SetValue("MaxBufferSize", std::to_string(limit[b]));
            buf[b].reset(new WFBuffer());
            str e = p.num(fmt("init%d", b), 1) ? guarded([&]() { buf[b]->Init(x); }) : "not inited";
            if (e.empty()) {
               m[b].e.resize(1);
               m[b].inited = true;
            }
            int W = p.num(fmt("window%d", b), -1);
            if (W >= 0) {
               buf[b]->AutoLock(W);
               m[b].W = W;
            }
            DELETE_WF(x);
         }
      }
      size_t base_used = Memory::Instance().CurrentSizeUsed();
      for (int b = 0; b < nb; b++)
         if (m[b].inited) base_used -= size[b];
      bool over = false;
      size_t extra = 0;   // memory held by the harness itself
      auto bad = [&](size_t i, const char* cls, const str& d) { emit("bad", str(cls) + " op " + std::to_string(i) + ": " + d); };
      auto settle = [&](size_t i, Entry& e, const Val& got, size_t pos) {
         if (!e.known) {
            e.known = true;
            e.v = got;
         } else if (got == e.v || (e.alt && got == e.v2)) {
            e.v = got;
         } else {
            size_t k = 0;
            while (k < got.size() && k < e.v.size() && !memcmp(&got[k], &e.v[k], 8)) k++;
            bad(i, "wrong-content", fmt("position %zu: value %zu is %.17g, last stored %.17g (%zu of %zu values)", pos, k, k < got.size() ? got[k] : 0.0, k < e.v.size() ? e.v[k] : 0.0, got.size(), e.v.size()));
         }
         e.alt = false;
      };
      auto need = [&](int b, size_t pos) {   // wave functions that have to be in memory together
         std::set<size_t> s;
         s.insert(0);
         s.insert(pos);
         for (auto& x : m[b].win) s.insert(x.first);
         for (auto& x : m[b].locks) s.insert(x.first);
         return s.size();
      };
      auto push = [&](int b, size_t pos, WaveFunction* ptr) {
         if (m[b].W) m[b].win.push_front(std::make_pair(pos, ptr));
         while (m[b].win.size() > m[b].W) m[b].win.pop_back();
      };
      auto legit = [&](size_t i, int b, size_t pos, const str& e, const char* what) {
         bool fault = false;
         for (auto& f : p.faults)
            if (f.op == (int) i && f.kind != "short" && f.kind != "eintr") fault = true;
         if (fault) return;
         bool any = m[b].inited;
         for (auto& t : m[b].e) any = any || t.known;
         if (!any && str(what) == "get") return;   // nothing has ever been stored
         size_t n = need(b, pos) + 1;
         if (n * size[b] <= limit[b] && !over) bad(i, "operation-fails", fmt("%s %zu with room for %zu (needs %zu): ", what, pos, limit[b] / size[b], n) + e);
      };
      for (size_t i = 0; i < p.ops.size(); i++) {
         const std::vector<str>& q = p.ops[i];
         op(i);
         int b = atoi(q[1].c_str()) % nb;
         Model& M = m[b];
         WFBuffer& B = *buf[b];
         size_t pos = q.size() < 3 ? 0 : q[0] == "late" || q[0] == "autolock" ? strtoul(q[2].c_str(), 0, 10) : place(q[2]);
         if (q[0] == "set" || q[0] == "add" || q[0] == "setfrom") {
            bool add = q[0] == "add", from = q[0] == "setfrom";
            if (add) pos = M.e.size();
            WaveFunction* x = NULL;
            Val v;
            if (from) {   // copy one entry to another place, as the propagators do
               size_t src = place(q[3]);
               if (src >= M.e.size() || M.W < 1 || src == pos || (pos >= M.e.size())) continue;
               str e = guarded([&]() { x = B.Get(src); });
               if (!e.empty()) {
                  legit(i, b, src, e, "get");
                  push(b, src, NULL);
                  continue;
               }
               Quiet z;
               settle(i, M.e[src], values(x), src);
               push(b, src, x);
               v = M.e[src].v;
            } else {
               Quiet z;
               x = make_wf(value_spec(shape[b], strtol(q[add ? 2 : 3].c_str(), 0, 10)));
               v = values(x);
               if (M.e.empty() && !M.inited) {   // the first element fixes the type
               }
            }
            str e = guarded([&]() { add ? B.Add(x) : B.Set(pos, x); });
            Quiet z;
            if (!from) DELETE_WF(x);
            if (pos >= M.e.size() && B.Size() > pos) M.e.resize(pos + 1);
            if (e.empty()) {
               M.e[pos].known = true;
               M.e[pos].alt = false;
               M.e[pos].v = v;
               counts[0]++;
            } else {
               legit(i, b, pos, e, "set");
               if (pos < M.e.size()) {
                  if (M.e[pos].known && !M.e[pos].alt) {
                     M.e[pos].alt = true;
                     M.e[pos].v2 = v;
                  } else M.e[pos].known = false;
               }
               counts[1]++;
            }
         } else if (q[0] == "get" || q[0] == "poke") {
            WaveFunction* x = NULL;
            str e = guarded([&]() { x = B.Get(pos); });
            Quiet z;
            if (pos >= M.e.size()) {
               if (e.empty()) bad(i, "invalid-position-accepted", "get " + q[2]);
               continue;
            }
            push(b, pos, x && e.empty() ? x : NULL);
            if (!e.empty()) {
               bool any = M.inited;
               for (auto& t : M.e) any = any || t.known;
               if (any) legit(i, b, pos, e, "get");
               counts[3]++;
            } else {
               settle(i, M.e[pos], values(x), pos);
               counts[2]++;
               if (q[0] == "poke") {
                  if (M.W < 1 && !M.locks.count(pos)) continue;
                  WaveFunction* y = make_wf(value_spec(shape[b], strtol(q[3].c_str(), 0, 10) + 5000));
                  assign(x, y);
                  M.e[pos].v = values(y);
                  DELETE_WF(y);
               }
               if (M.locks.count(pos)) M.locks[pos] = x;
            }
         } else if (q[0] == "late") {   // change an entry through a pointer obtained earlier
            Quiet z;
            size_t k = pos;
            if (k < M.win.size() && M.win[k].second) {
               WaveFunction* y = make_wf(value_spec(shape[b], strtol(q[3].c_str(), 0, 10) + 9000));
               assign(M.win[k].second, y);
               M.e[M.win[k].first].v = values(y);
               M.e[M.win[k].first].known = true;
               M.e[M.win[k].first].alt = false;
               DELETE_WF(y);
               counts[4]++;
            }
         } else if (q[0] == "lock") {
            WaveFunction* x = NULL;
            bool in = false;   // the pointer has to be valid when it is locked
            for (auto& t : M.win)
               if (t.first == pos && t.second) { x = t.second; in = true; }
            if (!in || pos >= M.e.size()) continue;
            str e = guarded([&]() { B.Lock(pos); });
            Quiet z;
            if (e.empty()) M.locks[pos] = x;
            else legit(i, b, pos, e, "lock");
         } else if (q[0] == "unlock") {
            if (pos >= M.e.size()) continue;
            B.UnLock(pos);
            M.locks.erase(pos);
         } else if (q[0] == "autolock") {
            B.AutoLock(pos);
            M.W = pos;
            while (M.win.size() > M.W) M.win.pop_back();
         } else if (q[0] == "resize") {
            str e = guarded([&]() { B.ResizeBuffer(pos); });
            if (!e.empty()) bad(i, "operation-fails", "resize: " + e);
            bool shrink = pos < M.e.size();
            M.e.resize(pos);
            if (shrink) {
               M.win.clear();
               M.locks.clear();
            }
            if (pos == 0) M.inited = false;
         } else if (q[0] == "clear") {
            B.Clear();
            M.e.clear();
            M.win.clear();
            M.locks.clear();
            M.inited = false;
         } else if (q[0] == "save") {
            bool all = !M.e.empty() && M.e.size() <= 64, any = M.inited;   // positions never written are saved, with any content
            for (auto& t : M.e) {
               all = all && !t.alt;
               any = any || t.known;
            }
            if (!all || !any) continue;
            str e = guarded([&]() { B.SaveToFiles(q[2]); });
            Quiet z;
            M.win.clear();   // which pointers survived is not known to the model
            if (!e.empty()) {
               series.erase(q[2]);
               for (size_t k = 0; k < M.W && k < M.e.size(); k++) M.win.push_back(std::make_pair(k, (WaveFunction*) NULL));   // the whole window may be filled
               legit(i, b, M.e.size(), e, "save");
               M.win.clear();
               for (size_t k = 0; k < M.W + 1; k++) M.win.push_back(std::make_pair(~k, (WaveFunction*) NULL));   // positions not known
               while (M.win.size() > M.W) M.win.pop_back();
            } else {
               std::vector<Entry> vs = M.e;
               series[q[2]] = std::make_pair(shape[b], vs);
               for (size_t k = 0; k < M.W && k < M.e.size(); k++) M.win.push_back(std::make_pair(M.e.size() - 1 - k, (WaveFunction*) NULL));
               if (system(fmt("rm -f $(seq -f '%s_%%.0f.wf' %zu %zu)", q[2].c_str(), vs.size(), vs.size() + 300).c_str())) {}   // older, longer series
               counts[5]++;
            }
         } else if (q[0] == "read") {
            if (!series.count(q[2]) || series[q[2]].first != shape[b]) continue;
            std::vector<Entry>& vs = series[q[2]].second;
            int begin = atoi(q[3].c_str()), num = atoi(q[4].c_str()), step = q.size() > 5 ? std::max(1, atoi(q[5].c_str())) : 1;
            if (begin >= (int) vs.size() || (num > 0 && begin + (num - 1) * step >= (int) vs.size())) continue;
            str e = guarded([&]() { B.ReadFromFiles(q[2], begin, step, num); });
            Quiet z;
            M.win.clear();
            M.locks.clear();
            M.e.clear();
            M.inited = false;
            if (!e.empty()) {
               legit(i, b, 1, e, "read");
               B.Clear();
            } else {
               size_t n = num > 0 ? num : (vs.size() - begin + step - 1) / step;
               if (B.Size() != n) bad(i, "series-incomplete", fmt("%zu of %zu wave functions read", B.Size(), n));
               M.e.resize(B.Size());
               for (size_t k = 0; k < M.e.size() && begin + k * step < vs.size(); k++) M.e[k] = vs[begin + k * step];
               M.inited = true;
               counts[5]++;
            }
         }
         Quiet z;
         if (B.Size() != M.e.size()) {
            bad(i, "wrong-size", fmt("%zu instead of %zu", B.Size(), M.e.size()));
            M.e.resize(B.Size());
         }
         // pointers that have to be valid still show the current contents
         for (int c = 0; c < nb; c++) {
            for (auto& t : m[c].win)
               if (t.second && m[c].e[t.first].known && !m[c].e[t.first].alt && values(t.second) != m[c].e[t.first].v)
                  bad(i, "pointer-lost", fmt("buffer %d: a pointer to position %zu (one of the last %zu accessed) no longer shows its contents", c, t.first, m[c].W));
            for (auto& t : m[c].locks)
               if (t.second && m[c].e[t.first].known && !m[c].e[t.first].alt && values(t.second) != m[c].e[t.first].v)
                  bad(i, "pointer-lost", fmt("buffer %d: the pointer to the locked position %zu no longer shows its contents", c, t.first));
         }
         size_t used = Memory::Instance().CurrentSizeUsed() - base_used - extra, lim = 0;
         for (int c = 0; c < nb; c++) lim += std::max(limit[c], size[c]) * (shape[c][0] == 'g' || shape[c].compare(0, 5, "multi") == 0 ? 2 : 1);   // grid functions may carry a transform buffer
         over = used > lim;
         if (over) bad(i, "limit-exceeded", fmt("%zu bytes of buffered wave functions in memory, limit %zu", used, lim));
      }
      // everything once more
      op(MAX_OPS - 1);
      for (int b = 0; b < nb; b++) {
         { Quiet z; guarded([&]() { for (size_t k = 0; k < m[b].e.size(); k++) buf[b]->UnLock(k); }); buf[b]->AutoLock(1); m[b].W = 1; m[b].locks.clear(); while (m[b].win.size() > 1) m[b].win.pop_back(); }
         for (size_t k = 0; k < m[b].e.size(); k++) {
            if (!m[b].e[k].known) continue;
            WaveFunction* x = NULL;
            str e = guarded([&]() { x = buf[b]->Get(k); });
            Quiet z;
            push(b, k, NULL);
            if (!e.empty()) {
               legit(MAX_OPS - 1, b, k, e, "final get");
               continue;
            }
            settle(p.ops.size(), m[b].e[k], values(x), k);
         }
      }
      static const char* names[] = {"set_ok", "set_error", "get_ok", "get_error", "late_change", "series_io"};
      for (int k = 0; k < 6; k++) emit(names[k], std::to_string(counts[k]));
      return 0;
   });
   o.add(w);
   o.faultable(w);
   if (w.how != ChildResult::EXIT || w.code) {
      o.fail(w.how == ChildResult::HANG ? "buffer-hangs" : "buffer-crashes", w.how_text());
      return o;
   }
   for (const char* k : {"set_ok", "set_error", "get_ok", "get_error", "late_change", "series_io"}) o.probes[k] += atol(w.get(k).c_str());
   if (w.has("bad")) {
      str b = w.get("bad");
      o.fail(b.substr(0, b.find(' ')), b.substr(b.find(' ') + 1));
   }
   o.state = w.log_hash;
   return o;
}
static RegProp reg({"C04", gen, exec, faults, 3, 6, 10000, 400000});
