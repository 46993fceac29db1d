// C10: the memory limit is respected and exhaustion is a clean error.
#include "progs.h"
#include "w_c10.h"
#include <memory>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "linalg/LapackDiag.h"
#include "tools/Collector.h"
using namespace QDLIB;
using namespace sim;

static void gen(Rng& r, int tier, Plan& p)
{
   int m = r.below(10);
   int mode = m < 6 ? 0 : m < 8 ? 1 : 2;   // objects, the manager of a release build, whole programs
   p.set("mode", mode);
   p.set("fill", r.below(256));
   if (mode == 2) {
      rand_program(r, tier, p, "pppeealcco");
      p.set("limits", r.range(1, 3));
      for (int i = 0; i < 3; i++) p.set(fmt("pct%d", i), r.chance(15) ? r.range(1000, 3000) : r.range(1, 200));
      return;
   }
   int n = r.range(4, tier ? 80 : 45), ns = r.range(1, 6);
   auto I = [&]() { return std::to_string(r.below(ns)); };
   auto N = [&](long a, long b) { return std::to_string(r.range(a, b)); };
   p.set("limit", r.chance(30) ? 0 : r.chance(20) ? 1024 * r.range(1, mode ? 60 : 9) : r.range(200, mode ? 60000 : 9000));
   p.set("spell", r.below(30));
   for (int i = 0; i < n; i++) {
      int k = r.below(40);
      str s = N(1, 999);
      if (mode == 1) {
         if (k < 22) p.op({"align", I(), r.chance(60) ? N(1, 9000) : N(1, 4) + "096"});
         else if (k < 34) p.op({"free", I()});
         else if (k < 37) p.op({"cleanup"});
         else p.op({"limit", r.chance(20) ? "0" : r.chance(30) ? std::to_string(1024 * r.range(1, 60)) : N(0, 60000)});
         continue;
      }
      if (k < 5) p.op({"vec", I(), N(1, 60), N(1, 4), s});
      else if (k < 8) p.op({"mat", I(), N(1, 9), N(1, 9), s});
      else if (k < 15) p.op({"wf", I(), rand_wf_spec(r, true, 40, "u")});
      else if (k < 17) p.op({"resize", I(), N(1, 80), N(1, 4), s});
      else if (k < 20) p.op({"clone", I(), I()});
      else if (k < 22) p.op({"copy", I(), I()});
      else if (k < 25) p.op({"retire", I()});
      else if (k < 29) p.op({"reaquire", I(), s});
      else if (k < 31) p.op({"space", I()});
      else if (k == 31) p.op({"save", I(), N(0, 3)});
      else if (k < 34) p.op({"load", I(), N(0, 3)});
      else if (k == 34) p.op({"diag", N(1, 6), N(0, 4)});
      else if (k < 38) p.op({"del", I()});
      else p.op({"limit", r.chance(40) ? "0" : r.chance(20) ? std::to_string(1024 * r.range(1, 9)) : N(100, 9000)});
   }
}
static void faults(Rng& r, int tier, Plan& p, const Outcome& b)
{
   static const std::vector<FaultMenu> menu = {{E_ALLOC, "enomem", 0, 0, 8}, {E_READ, "fail", 0, 0, 1}, {E_WRITE, "fail", 0, 0, 1}, {E_READ, "eof", 0, 0, 1}};
   static const std::vector<FaultMenu> only = {{E_ALLOC, "enomem", 0, 0, 8}};
   add_faults(r, p, b, p.num("mode") == 0 ? menu : only, 1 + (r.chance(50) ? r.below(3) : 0), 0, MAX_OPS - 1);
}
static str tail(const str& t) { return t.size() > 200 ? t.substr(t.size() - 200) : t; }

// the limit as the configuration file may spell it; 0 stands for plenty
static str spell(size_t& limit, int how)
{
   if (!limit) limit = how % 3 ? (size_t) 1 << 30 : (size_t) 1 << 40;
   static const char units[] = {0, 'K', 'M', 'G', 'T'};
   int u = 0;
   size_t n = limit;
   while (u < how % 5 && n && n % 1024 == 0) {
      n /= 1024;
      u++;
   }
   str t = std::to_string(n);
   if (u) t += units[u];
   return how / 5 % 2 ? t + "B" : t;
}
// ------------------------------------------------------------------ the manager of a release build
static int body_release(const Plan& p)
{
   ParamContainer& gp = GlobalParams::Instance();
   size_t limit = std::max(0l, p.num("limit"));
   gp.SetValue("MaxMem", spell(limit, (int) p.num("spell")));
   release_reconfigure();
   struct Blk { char* p; size_t n; int seed; } b[6] = {};
   size_t peak = 0;
   bool bad = false;
   auto fail = [&](const str& c, const str& d) {
      if (!bad) emit("fail", c + "\t" + d);
      bad = true;
   };
   auto blocks = [](size_t n) { return (n + 4095) / 4096 * 4096; };
   for (int i = 0; i < (int) p.ops.size() && i < MAX_OPS && !bad; i++) {
      op(i);
      auto& w = p.ops[i];
      auto arg = [&](size_t n, long d, long lo, long hi) { return std::max(lo, std::min(hi, w.size() > n ? atol(w[n].c_str()) : d)); };
      str desc;
      for (auto& x : w) desc += x + " ";
      size_t live0 = aligned_live_bytes();
      uint32_t f0 = S->fault_any;
      if (w[0] == "align") {
         Blk& x = b[arg(1, 0, 0, 5)];
         if (x.p) {
            release_free(x.p);
            x.p = NULL;
            live0 = aligned_live_bytes();
         }
         size_t need = 0, n = arg(2, 1, 1, 100000);
         for (auto& y : b)
            if (y.p) need += blocks(y.n);
         void* q = NULL;
         str err = guarded([&]() { q = release_align(n); });
         if (err.empty()) {
            if (!q || (size_t) q % 16) fail("bad-block", desc);
            if (aligned_live_bytes() > std::max(limit, live0)) fail("limit-exceeded", desc + fmt("%zu bytes in use, limit %zu", aligned_live_bytes(), limit));
            if (need + n > std::max(limit, live0)) fail("limit-exceeded", desc + fmt("%zu bytes handed out, limit %zu", need + n, limit));
            x.p = (char*) q;
            x.n = n;
            x.seed = i;
            memset(x.p, i + 1, n);
         } else {
            if (err.compare(0, 8, "EMemory:")) fail("wrong-error", desc + err);
            if (need + blocks(n) <= limit && S->fault_any == f0) fail("fitting-request-refused", desc + fmt("%zu bytes handed out, limit %zu, %zu held", need, limit, live0));
         }
      } else if (w[0] == "free") {
         Blk& x = b[arg(1, 0, 0, 5)];
         if (x.p) release_free(x.p);
         x.p = NULL;
      } else if (w[0] == "cleanup") release_cleanup();
      else if (w[0] == "limit") {
         limit = arg(1, 0, 0, 100000);
         gp.SetValue("MaxMem", spell(limit, (int) p.num("spell") + i));
         release_reconfigure();
      }
      for (auto& x : b)
         for (size_t k = 0; x.p && k < x.n; k++)
            if (x.p[k] != (char) (x.seed + 1)) {
               fail("data-changed", desc + fmt("byte %zu of a block of %zu", k, x.n));
               break;
            }
      if (release_used() != aligned_live_bytes()) fail("wrong-usage", desc + fmt("%zu reported, %zu allocated", release_used(), aligned_live_bytes()));
      peak = std::max(peak, aligned_live_bytes());
      if (release_peak() < peak || release_peak() > S->aligned_peak) fail("wrong-peak", desc + fmt("%zu reported, %zu reached", release_peak(), peak));
      if (release_max() != limit) fail("wrong-limit", desc + fmt("%zu reported, %zu set", release_max(), limit));
      size_t av = limit > release_used() ? limit - release_used() : 0;
      if (release_avail() != av) fail("wrong-usage", desc + fmt("%zu available, expected %zu", release_avail(), av));
   }
   for (auto& x : b)
      if (x.p) release_free(x.p);
   release_cleanup();
   if (release_used() || aligned_live_bytes()) fail("leak", fmt("%zu bytes reported, %zu allocated at the end", release_used(), aligned_live_bytes()));
   return 0;
}
// ------------------------------------------------------------------ vectors, matrices, wave functions
namespace {
struct Slot {
   int kind = 0;   // 1 vector, 2 matrix, 3 wave function
   std::unique_ptr<cVec> v;
   std::unique_ptr<cMat> m;
   WaveFunction* w = NULL;
   bool known = false, retired = false;
   str want;
   void clear()
   {
      v.reset();
      m.reset();
      if (w) DELETE_WF(w);
      w = NULL;
      kind = 0;
      known = retired = false;
   }
};
}
static str print(Slot& s)
{
   str t;
   if (s.kind == 1) {
      t = fmt("vector %d %d ", (int) s.v->size(), (int) s.v->strides());
      for (int k = 0; k < s.v->strides(); k++) t += hex(s.v->begin(k), s.v->sizeBytes());
   } else if (s.kind == 2) t = fmt("matrix %d %d ", (int) s.m->rows(), (int) s.m->cols()) + hex(s.m->begin(), s.m->sizeBytes());
   else if (s.kind == 3) t = describe(s.w);
   return t;
}
static void refill(Slot& s, long seed)
{
   Rng r(seed);
   auto put = [&](dcomplex* q, size_t n) {
      for (size_t i = 0; i < n; i++) q[i] = dcomplex(r.unit() - 0.5, r.unit());
   };
   if (s.kind == 1)
      for (int k = 0; k < s.v->strides(); k++) put(s.v->begin(k), s.v->sizeBytes() / 16);
   else if (s.kind == 2) put(s.m->begin(), s.m->sizeBytes() / 16);
   else if (s.kind == 3) {
      for (int i = 0; i < s.w->size(); i++) (*s.w)[i] = dcomplex(r.unit() - 0.5, r.unit());
   }
   s.known = true;
   s.want = print(s);
}
static int body_objects(const Plan& p)
{
   ParamContainer& gp = GlobalParams::Instance();
   Memory& mem = Memory::Instance();
   size_t limit;
   int spelled = 0;
   auto set_limit = [&](size_t n) {
      limit = n;
      gp.SetValue("MaxMem", spell(limit, (int) p.num("spell") + spelled++));
      mem.Reconfigure();
   };
   set_limit(std::max(0l, p.num("limit")));
   Slot s[6];
   bool bad = false;
   auto fail = [&](const str& c, const str& d) {
      if (!bad) emit("fail", c + "\t" + d);
      bad = true;
   };
   std::map<str, str> stored;   // file -> description
   size_t base = aligned_live_bytes();
   for (int i = 0; i < (int) p.ops.size() && i < MAX_OPS && !bad; i++) {
      op(i);
      auto& w = p.ops[i];
      auto arg = [&](size_t n, long d, long lo, long hi) { return std::max(lo, std::min(hi, w.size() > n ? atol(w[n].c_str()) : d)); };
      str desc, err;
      for (auto& x : w) desc += x + " ";
      Slot& a = s[arg(1, 0, 0, 5)];
      uint32_t f0 = S->fault_any;
      bool io = false, exact = true;
      size_t need = 0;   // what a fitting request needs (exact) or is certainly satisfied with
      str what = w[0];
      if (what == "limit") set_limit(arg(1, 0, 0, 100000));
      if (what == "vec" || what == "mat" || what == "wf" || what == "del") a.clear();
      size_t live0 = aligned_live_bytes(), avail = limit > live0 ? limit - live0 : 0;
      if (what == "vec") {
         long n = arg(2, 1, 1, 200), st = arg(3, 1, 1, 4);
         n = (n + st - 1) / st * st;
         need = n * 16;
         err = guarded([&]() { a.v.reset(new cVec(n, st)); });
         if (err.empty()) {
            a.kind = 1;
            refill(a, arg(4, 1, 0, 100000));
         }
      } else if (what == "mat") {
         need = arg(2, 1, 1, 20) * arg(3, 1, 1, 20) * 16;
         err = guarded([&]() { a.m.reset(new cMat(arg(2, 1, 1, 20), arg(3, 1, 1, 20))); });
         if (err.empty()) {
            a.kind = 2;
            refill(a, arg(4, 1, 0, 100000));
         }
      } else if (what == "wf") {
         str spec = w.size() > 2 ? w[2] : "level:2/u/1";
         if (!is_wf(spec)) spec = "level:2/u/1";
         need = spec_elems(spec) * 16 * 3 + 1000;
         exact = false;
         err = guarded([&]() { a.w = make_wf(spec); });
         if (err.empty()) {
            a.kind = 3;
            a.known = true;
            a.want = print(a);
         }
      } else if (what == "resize") {
         if (a.kind != 1 && a.kind != 2) continue;
         exact = false;
         long n = arg(2, 1, 1, 200), st = arg(3, 1, 1, 4);
         n = (n + st - 1) / st * st;
         need = (n + 40) * 16;
         err = guarded([&]() {
            if (a.kind == 1) a.v->newsize(n, st);
            else a.m->newsize(1 + n / 8, st);
         });
         if (err.empty()) {
            if (a.retired) {
               str e2 = guarded([&]() { if (a.kind == 1) a.v->ReaquireStorage(); });
               if (!e2.empty()) {
                  a.known = false;
                  continue;
               }
               a.retired = false;
            }
            refill(a, arg(4, 1, 0, 100000));
         } else {   // an empty object is left
            a.known = false;
            if (a.kind == 1 && a.v->size() != 0) fail("inconsistent-object", desc + fmt("refused, but the vector has %d elements", (int) a.v->size()));
            if (a.kind == 2 && a.m->rows() * a.m->cols() != 0) fail("inconsistent-object", desc + "refused, but the matrix has elements");
            a.clear();
         }
      } else if (what == "clone" || what == "copy") {
         Slot& b = s[arg(2, 0, 0, 5)];
         if (&a == &b || !b.known || b.retired || !b.kind) continue;
         exact = false;
         need = 16 * 3 * 4000;
         if (what == "clone") {
            a.clear();
            live0 = aligned_live_bytes();
            avail = limit > live0 ? limit - live0 : 0;
            err = guarded([&]() {
               if (b.kind == 1) a.v.reset(new cVec(*b.v));
               else if (b.kind == 2) {
                  a.m.reset(new cMat());
                  *a.m = *b.m;
               } else {
                  a.w = b.w->NewInstance();
                  *a.w = b.w;
               }
            });
            if (!err.empty()) a.clear();
            else a.kind = b.kind;
         } else {
            if (a.kind != b.kind || a.retired) continue;
            if (a.kind == 3 && (typeid(*a.w) != typeid(*b.w) || !a.known || a.want.substr(0, a.want.find('#')) != b.want.substr(0, b.want.find('#')))) continue;
            err = guarded([&]() {
               if (b.kind == 1) *a.v = *b.v;
               else if (b.kind == 2) *a.m = *b.m;
               else *a.w = b.w;
            });
            if (!err.empty()) a.known = false;
            if (!err.empty()) a.clear();
         }
         if (err.empty()) {
            a.known = true;
            a.want = b.want;
         }
      } else if (what == "retire") {
         if ((a.kind != 1 && a.kind != 3) || (!a.known && !a.retired)) continue;
         err = guarded([&]() {
            if (a.kind == 1) a.v->RetireStorage();
            else a.w->Retire();
         });
         a.retired = true;
         a.known = false;
         if (a.kind == 1 && aligned_live_bytes() > live0 - (live0 ? 1 : 0) && a.v->size() && live0 && 0) fail("not-released", desc);
      } else if (what == "reaquire") {
         if (!a.retired) continue;
         exact = false;
         need = 16 * 3 * 4000;
         err = guarded([&]() {
            if (a.kind == 1) a.v->ReaquireStorage();
            else a.w->Reaquire();
         });
         if (err.empty()) {
            a.retired = false;
            refill(a, arg(2, 1, 0, 100000));
         }
      } else if (what == "space") {
         if (a.kind != 3 || !a.known || a.retired) continue;
         exact = false;
         need = 16 * 4000;
         err = guarded([&]() { a.w->GetSpaceBuffer(); });
      } else if (what == "save" || what == "load") {
         exact = false;
         io = true;
         need = 8 << 20;
         long z = arg(2, 0, 0, 3);
         SaveCfg c;
         c.name = fmt("f%ld", z);
         c.spec = "level:2/u/1";
         c.format = z == 3 ? "binary" : "stream";
         c.comp = z == 1 ? "zlib" : z == 2 ? "bzip" : "none";
         c.tol = 0;
         if (what == "save") {
            if (a.kind != 3 || !a.known || a.retired) continue;
            AnyObj none;
            str d = a.want;
            err = save_obj(c, a.w, none, NULL);
            stored.erase(c.name);
            if (err.empty() && z != 1 && z != 2) stored[c.name] = d;
            else if (err.empty()) stored[c.name] = d.substr(0, d.find('#'));
            if (S->fault_any == f0 && err.empty()) {}
            else if (!err.empty()) stored.erase(c.name);
         } else {
            if (!stored.count(c.name)) continue;
            a.clear();
            live0 = aligned_live_bytes();
            avail = limit > live0 ? limit - live0 : 0;
            Loaded l;
            err = load_obj(c, "meta", NULL, l);
            if (err.empty()) {
               a.kind = 3;
               a.w = l.wf;
               a.known = true;
               a.want = print(a);
               str d = stored[c.name];
               if (a.want.compare(0, d.size(), d)) fail("data-changed", desc + "loaded " + a.want + " stored " + d);
            } else if (l.wf) fail("leak", desc + "failed load returned an object");
         }
      } else if (what == "diag") {
         exact = false;
         long n = arg(1, 1, 1, 8), kind = arg(2, 0, 0, 4);
         need = (20 * n * n + 40 * n) * 16;
         err = guarded([&]() {
            if (kind == 0) {
               dMat m(n, n);
               dVec e;
               for (int x = 0; x < n; x++)
                  for (int y = 0; y < n; y++) m(x, y) = x == y ? x + 1 : 0.1;
               LAPACK::FullDiagHermitian(&m, &e);
            } else {
               cMat m(n, n);
               for (int x = 0; x < n; x++)
                  for (int y = 0; y < n; y++) m(x, y) = x == y ? dcomplex(x + 1, 0) : dcomplex(0.1, y > x ? 0.02 : -0.02);
               if (kind == 1) {
                  dVec e;
                  LAPACK::FullDiagHermitian(&m, &e);
               } else if (kind == 2) {
                  dVec d(n), sub(n);
                  dMat ev;
                  for (int x = 0; x < n; x++) {
                     d[x] = x + 1;
                     sub[x] = 0.1;
                  }
                  LAPACK::TriDiagHermitian(&d, &sub, &ev, n);
               } else if (kind == 3) LAPACK::InvertGeneral(&m);
               else {
                  cVec e;
                  cMat l, r;
                  e.newsize(n);
                  LAPACK::DiagGeneral(&m, &e, &l, &r);
               }
            }
         });
         if (aligned_live_bytes() != live0) fail("leak", desc + fmt("%zu bytes: ", aligned_live_bytes() - live0) + err);
      }
      bool hit = S->fault_any != f0;
      size_t live = aligned_live_bytes();
      if (err.empty()) {
         if (exact && need > avail) fail("limit-exceeded", desc + fmt("%zu bytes granted, %zu available", need, avail));
      } else {
         bool memerr = err.compare(0, 8, "EMemory:") == 0;
         if (!memerr && !(io && hit)) fail("wrong-error", desc + err);
         if (!hit && need <= avail) fail("fitting-request-refused", desc + fmt("%zu bytes needed, %zu available: ", need, avail) + err);
         if (what != "reaquire" && what != "save" && live > live0) fail("leak", desc + fmt("%zu bytes more in use after: ", live - live0) + err);
      }
      for (int k = 0; k < 6; k++)
         if (s[k].kind && s[k].known && !s[k].retired && print(s[k]) != s[k].want) fail("data-changed", desc + fmt("object %d", k));
      if (mem.CurrentSizeUsed() != live - base) fail("wrong-usage", desc + fmt("%zu reported, %zu allocated", mem.CurrentSizeUsed(), live - base));
      if (live > std::max(limit, live0) + base) fail("limit-exceeded", desc + fmt("%zu bytes in use, limit %zu", live, limit));
      if (mem.MaximumSizeUsed() != S->aligned_peak - base) fail("wrong-peak", desc + fmt("%zu reported, %zu reached", mem.MaximumSizeUsed(), (size_t) S->aligned_peak - base));
      size_t av = limit > mem.CurrentSizeUsed() ? limit - mem.CurrentSizeUsed() : 0;
      if (mem.CurrentSizeAvail() != av) fail("wrong-usage", desc + fmt("%zu available, expected %zu", mem.CurrentSizeAvail(), av));
      if (mem.MaximumSize() != limit) fail("wrong-limit", desc);
   }
   for (auto& x : s) x.clear();
   Collector<WaveFunction>::Instance()->Delete();
   if (mem.CurrentSizeUsed() || aligned_live_bytes() != base) fail("leak", fmt("%zu bytes reported, %zu allocated after everything was released", mem.CurrentSizeUsed(), aligned_live_bytes() - base));
   // what was refused works now
   set_limit(0);
   op(MAX_OPS - 1);
   return 0;
}
static Outcome programs(const Plan& p)
{
   Outcome o;
   str in = make_inputs(p, "in");
   auto prog = []() { return run_qdng({"-p1", "in.xml"}); };
   auto prepare = [&](const Plan& q, const str& name) {
      str i = make_inputs(q, "in");
      str d = fresh_dir(name);
      copy_tree(i, d);
      return d;
   };
   auto outs = [&](const str& d) {
      auto t = read_tree(d);
      for (str n : {"in.xml", ".qdconfig", "wisdom"}) t.erase(n);
      return t;
   };
   ChildOpts co;
   co.fill = p.num("fill", 0xa5);
   str d = prepare(p, "ref");
   ChildResult a = run_child(d, co, prog);
   o.add(a);
   if (a.how != ChildResult::EXIT || a.code) {
      if (!meaningless_input(stdout_text())) o.fail("reference-run-fails", a.how_text() + " " + tail(stdout_text()));
      return o;
   }
   auto want = outs(d);
   o.state = a.log_hash;
   size_t peak = a.aligned_peak;
   Plan q = p;
   bool have = false;
   for (int i = 0; i < std::max(1l, std::min(3l, p.num("limits", 1))) + (p.faults.empty() ? 0 : 1) && o.cls.empty(); i++) {
      long pct = i < 3 ? std::max(1l, std::min(5000l, p.num(fmt("pct%d", i), 100))) : 100;
      size_t limit = std::max((size_t) 1, peak * pct / 100);
      bool faulted = !p.faults.empty() && i == std::max(1l, std::min(3l, p.num("limits", 1)));
      if (faulted) limit = peak * 20;
      q.set("maxmem", std::to_string(limit));
      str dd = prepare(q, "tight");
      if (faulted) co.faults = p.faults;
      ChildResult c = run_child(dd, co, prog);
      str t = stdout_text();
      o.add(c);
      o.state = o.state * 31 + c.log_hash;
      if (verbose) o.log += t;
      str what = fmt("limit %zu bytes, peak without a limit %zu: ", limit, peak);
      if (!faulted && !have && c.how == ChildResult::EXIT && c.code == 0) o.faultable(c);
      if (c.aligned_peak > limit) o.fail("limit-exceeded", what + fmt("%zu bytes in use", (size_t) c.aligned_peak));
      if (c.how == ChildResult::HANG) o.fail("run-hangs", what + c.how_text());
      else if (c.how != ChildResult::EXIT || (c.code >= 77 && c.code <= 83)) o.fail("run-crashes", what + c.how_text() + " " + tail(t));
      else if (c.code) {
         o.probes["memory_error"]++;
         if (t.find("emory") == str::npos && t.find("MaxBufferSize") == str::npos) o.fail("error-without-reason", what + tail(t));
         if (!faulted && pct >= 1000) o.fail("fitting-request-refused", what + tail(t));
      } else {
         o.probes["success_under_limit"]++;
         auto got = outs(dd);
         for (auto& e : want)
            if (!got.count(e.first)) o.fail("limit-changes-result", what + e.first + " is missing");
         if (o.cls.empty()) {
            str df = diff_values(want, got, d, dd, p.num("zip") ? 1e-5 : 1e-9);
            if (!df.empty()) o.fail("limit-changes-result", what + df);
         }
      }
   }
   return o;
}
static Outcome exec(const Plan& p)
{
   if (p.ops.empty()) return Outcome();
   if (p.num("mode") == 2) return programs(p);
   Outcome o;
   ChildOpts co;
   co.fill = p.num("fill", 0xa5);
   co.faults = p.faults;
   co.max_events = 400000;
   ChildResult r = run_child(fresh_dir("run"), co, [&]() { return p.num("mode") == 1 ? body_release(p) : body_objects(p); });
   o.add(r);
   o.faultable(r);
   o.state = r.log_hash;
   o.nontrivial = p.faults.empty() || r.fault_any > 0;
   if (verbose) o.log += r.log;
   if (r.has("fail")) {
      auto w = split(r.get("fail"), '\t');
      o.fail(w[0], w.size() > 1 ? w[1] : "");
   } else if (r.how == ChildResult::HANG) o.fail("hang", r.how_text());
   else if (r.how != ChildResult::EXIT || r.code) o.fail("crash", r.how_text() + " " + tail(stdout_text()));
   o.probes[p.num("mode") == 1 ? "release_manager" : "objects"]++;
   return o;
}
static RegProp reg({"C10", gen, exec, faults, 3, 8, 14000, 60000});
