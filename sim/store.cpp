#include "store.h"
#include <math.h>
#include <complex>
#include "modules/ModuleLoader.h"
using namespace QDLIB;
namespace sim {
std::vector<str> SaveCfg::words() const { return {name, spec, format, comp, fmt("%.17g", tol), std::to_string(seq)}; }
SaveCfg SaveCfg::from(const std::vector<str>& w, size_t at)
{
   SaveCfg c;
   c.name = w.at(at);
   c.spec = w.at(at + 1);
   c.format = w.at(at + 2);
   c.comp = w.at(at + 3);
   c.tol = atof(w.at(at + 4).c_str());
   c.seq = atoi(w.at(at + 5).c_str());
   return c;
}
template<class F> static void setup_out(F& f, const SaveCfg& c)
{
   typedef typename std::remove_reference<decltype(f)>::type T;
   f.Name(c.name);
   if (c.format == "binary") f.FormatOut(T::binary);
   else if (c.format == "stream") f.FormatOut(T::stream);
   else f.FormatOut(T::autodetect);
   f.Compression(c.comp == "zlib" ? T::ZLIB : c.comp == "bzip" ? T::BZIP : T::UNCOMPRESSED);
   if (c.seq >= 0) {
      f.ActivateSequence();
      f.Counter(c.seq);
   } else f.StopSequence();
}
template<class F> static void setup_in(F& f, const SaveCfg& c)
{
   f.Name(c.name);
   if (c.seq >= 0) {
      f.ActivateSequence();
      f.Counter(c.seq);
   } else f.StopSequence();
}
str save_obj(const SaveCfg& c, WaveFunction* wf, AnyObj& o, FileWF* reuse)
{
   return guarded([&]() {
      if (wf) {
         std::unique_ptr<FileWF> own;
         if (!reuse) {
            own.reset(new FileWF());
            reuse = own.get();
         }
         setup_out(*reuse, c);
         reuse->CompressionTolerance(c.tol);
         *reuse << wf;
      } else if (o.pot) {
         FileSingle<Serializiable> f;   // the way the command server stores grid operators
         f.Suffix(BINARY_O_SUFFIX);
         setup_out(f, c);
         f.WriteSingleFileToStream(dynamic_cast<Serializiable*>(o.pot));
      } else if (o.mat) {
         auto& f = *o.mat->File();
         f.Suffix(BINARY_O_SUFFIX);
         setup_out(f, c);
         f << o.mat;
      } else {
         Laser::FileLaser& f = o.laser->File();
         f.Suffix(BINARY_O_SUFFIX);
         setup_out(f, c);
         f << o.laser;
      }
   });
}
str load_obj(const SaveCfg& c, const str& route, FileWF* reuse, Loaded& out)
{
   if (!is_wf(c.spec)) {
      if (!out.o.pot && !out.o.mat && !out.o.laser) out.o = empty_obj(c.spec);
   }
   else if (route != "meta") {
      Quiet q;
      str s = c.spec;
      if (route == "resize") {   // same class and number of states, other extent
         size_t slash = s.find('/'), colon = s.rfind(':', slash);
         int n = atoi(s.substr(colon + 1, slash - colon - 1).c_str());
         s = s.substr(0, colon + 1) + std::to_string(n + 3) + "/u/7";
      } else s = s.substr(0, s.find('/')) + "/u/5";
      out.wf = make_wf(s);
   }
   return guarded([&]() {
      if (is_wf(c.spec)) {
         std::unique_ptr<FileWF> own;
         if (!reuse) {
            own.reset(new FileWF());
            reuse = own.get();
         }
         setup_in(*reuse, c);
         if (route == "meta") {
            out.wf = NULL;
            *reuse >> &out.wf;
         } else *reuse >> out.wf;
      } else if (out.o.pot) {
         OGridSystem::FileOGrid& f = *out.o.pot->File();
         f.Suffix(BINARY_O_SUFFIX);
         setup_in(f, c);
         f >> (OGridSystem*) out.o.pot;
      } else if (out.o.mat) {
         auto& f = *out.o.mat->File();
         f.Suffix(BINARY_O_SUFFIX);
         setup_in(f, c);
         f >> out.o.mat;
      } else {
         Laser::FileLaser& f = out.o.laser->File();
         f.Suffix(BINARY_O_SUFFIX);
         setup_in(f, c);
         f >> out.o.laser;
      }
   });
}
// largest modulus of the multi-dimensional discrete Fourier transform
static double dft_max(WFGridSystem* g, const double* v)
{
   int n = g->size(), d = g->Dim();
   double best = 0;
   std::vector<int> sz(d);
   for (int i = 0; i < d; i++) sz[i] = g->DimSize(i);
   for (int k = 0; k < n; k++) {
      std::complex<double> s = 0;
      for (int x = 0; x < n; x++) {
         double ph = 0;
         int kk = k, xx = x;
         for (int i = 0; i < d; i++) {
            ph += double((long) (kk % sz[i]) * (xx % sz[i]) % sz[i]) / sz[i];
            kk /= sz[i];
            xx /= sz[i];
         }
         s += std::complex<double>(v[2 * x], v[2 * x + 1]) * std::polar(1.0, -2 * M_PI * ph);
      }
      best = std::max(best, std::abs(s));
   }
   return best;
}
str compare_lossy(WaveFunction* a, WaveFunction* b, double tol)
{
   WFMultistate *ma = dynamic_cast<WFMultistate*>(a), *mb = dynamic_cast<WFMultistate*>(b);
   if (ma) {
      for (int i = 0; i < ma->States(); i++) {
         str s = compare_lossy(ma->State(i), mb->State(i), tol);
         if (!s.empty()) return "state " + std::to_string(i) + ": " + s;
      }
      return "";
   }
   std::vector<double> va, vb;
   describe_values(a, va);
   describe_values(b, vb);
   double d2 = 0, n2 = 0, mx = 0;
   for (size_t i = 0; i < va.size(); i++) {
      double d = va[i] - vb[i];
      if (!(d == d)) return "not a number";
      d2 += d * d;
      n2 += va[i] * va[i];
      mx = std::max(mx, fabs(va[i]));
   }
   int n = a->size();
   double bound;
   WFGridSystem* g = dynamic_cast<WFGridSystem*>(a);
   if (g) bound = sqrt(2.0) * tol * dft_max(g, &va[0]);
   else bound = sqrt(2.0 * n) * tol * std::max(sqrt(n2), n2) / n;
   bound = bound * 1.000001 + 1e-12 * sqrt(n2) + 1e-300;
   if (sqrt(d2) > bound) return fmt("differs by %g, allowed %g (tolerance %g, norm %g)", sqrt(d2), bound, tol, sqrt(n2));
   return "";
}
str compare_obj(const SaveCfg& c, Loaded& got)
{
   if (!is_wf(c.spec)) {
      AnyObj o = make_obj(c.spec);
      str a = describe(o), b = describe(got.o);
      return a == b ? "" : "saved " + a + " loaded " + b;
   }
   WaveFunction* w = make_wf(c.spec);
   std::vector<double> va, vb;
   str a = describe_values(w, va), b = describe_values(got.wf, vb);
   if (a != b) return "saved " + a + " loaded " + b;
   if (va.size() != vb.size()) return "size";
   if (!c.lossy()) {
      for (size_t i = 0; i < va.size(); i++)
         if (memcmp(&va[i], &vb[i], 8)) return fmt("%s: value %zu of %zu: saved %.17g loaded %.17g", a.c_str(), i, va.size(), va[i], vb[i]);
      return "";
   }
   return compare_lossy(w, got.wf, c.tol);
}
SaveCfg rand_cfg(Rng& r, const str& name, bool wf_only, int maxn)
{
   SaveCfg c;
   c.name = name;
   int k = r.below(10);
   c.comp = k < 5 ? "none" : k < 8 ? "zlib" : "bzip";
   int f = r.below(8);
   c.format = f < 4 ? "stream" : f < 7 ? "binary" : "auto";
   if (wf_only || r.below(3)) c.spec = rand_wf_spec(r, true, maxn, c.comp == "none" ? "ugzs" : "ugz");
   else c.spec = rand_obj_spec(r, maxn);
   if (c.spec.compare(0, 3, "pot") == 0) c.format = "stream";   // the only way the programs write grid operators
   static const double tols[] = {0, 1e-6, 1e-3, 0.02, 0.2};
   c.tol = tols[r.below(5)];
   c.seq = r.chance(30) ? r.below(4) : -1;
   return c;
}
}
