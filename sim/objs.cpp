#include "objs.h"
#include <math.h>
#include <string.h>
#include <typeinfo>
using namespace QDLIB;
namespace sim {

void values_of(const str& pattern, uint64_t seed, size_t n, double* o)
{
   Rng r(seed * 2654435761ull + 99);
   char p = pattern.empty() ? 'u' : pattern[0];
   for (size_t i = 0; i < n; i++) {
      switch (p) {
         case 'u': o[i] = (r.unit() - 0.5) * 3.7; break;
         case 'g': o[i] = exp(-pow((i + 0.5) / n * 6 - 3, 2)) * cos(0.1 * i + (seed % 17)) * (1 + (double) (seed % 1000) / 500); break;
         case 'z': o[i] = r.below(8) == 0 ? r.unit() - 0.3 : 0; break;
         case 's': {
            uint64_t k = r.below(10);
            o[i] = k == 0 ? -0.0 : k == 1 ? 4.9e-324 : k == 2 ? 1.7976931348623157e308 : k == 3 ? -2.2250738585072014e-308 : k == 4 ? 1.0 / 3 : r.unit() - 0.5;
            break;
         }
         default: o[i] = (double) (seed % 100000) + i * 0.5;
      }
   }
}
static void parse(const str& spec, str& kind, std::vector<int>& n, str& pat, uint64_t& seed)
{
   std::vector<str> a = split(spec, '/');
   std::vector<str> k = split(a[0], ':');
   kind = k[0];
   for (size_t i = 1; i < k.size(); i++) n.push_back(atoi(k[i].c_str()));
   if (n.empty()) n.push_back(4);
   pat = a.size() > 1 ? a[1] : "u";
   seed = a.size() > 2 ? strtoull(a[2].c_str(), 0, 10) : 1;
}
bool is_wf(const str& s) { return s.compare(0, 4, "grid") == 0 || s.compare(0, 5, "level") == 0 || s.compare(0, 5, "multi") == 0 || s.compare(0, 6, "mlevel") == 0; }

static WaveFunction* one(const str& kind, const std::vector<int>& n, const str& pat, uint64_t seed)
{
   WaveFunction* w;
   std::unique_ptr<WaveFunction> own;   // (its memory may be refused)
   ParamContainer p;
   if (kind == "level") {
      WFLevel* l = new WFLevel();
      own.reset(l);
      p.SetValue("size", n[0]);
      l->Init(p);
      w = l;
   } else {
      WFGridCartesian* g = new WFGridCartesian();
      own.reset(g);
      p.SetValue("dims", (int) n.size());
      for (size_t i = 0; i < n.size(); i++) {
         str c = std::to_string(i);
         p.SetValue("N" + c, n[i]);
         p.SetValue("xmin" + c, -5.0 - 0.25 * (seed % 4) - (double) i);
         p.SetValue("xmax" + c, 5.0 + 0.125 * (seed % 8));
      }
      g->Init(p);
      w = g;
   }
   std::vector<double> v(2 * w->size() + 2);
   values_of(pat, seed, 2 * w->size(), &v[0]);
   for (int i = 0; i < w->size(); i++) (*w)[i] = dcomplex(v[2 * i], v[2 * i + 1]);
   return own.release();
}
WaveFunction* make_wf(const str& spec)
{
   str kind, pat;
   std::vector<int> n;
   uint64_t seed;
   parse(spec, kind, n, pat, seed);
   if (kind == "multi" || kind == "mlevel") {
      WFMultistate* m = new WFMultistate();
      std::unique_ptr<WaveFunction> own(m);
      std::vector<int> rest(n.begin() + 1, n.end());
      if (rest.empty()) rest.push_back(4);
      for (int i = 0; i < n[0]; i++) m->Add(one(kind == "multi" ? "grid" : "level", rest, pat, seed * 31 + (i ? 0 : 0) + i * 8), i);
      ParamContainer p;
      p.SetValue("states", n[0]);
      m->Init(p);
      own.release();
      return m;
   }
   return one(kind == "grid2" || kind == "grid3" ? "grid" : kind, n, pat, seed);
}
static str dbl(double d) { return hex(&d, 8); }
str describe_values(WaveFunction* wf, std::vector<double>& vals)
{
   if (!wf) return "null";
   WFMultistate* m = dynamic_cast<WFMultistate*>(wf);
   if (m) {
      str s = "multi[" + std::to_string(m->States()) + "]";
      for (int i = 0; i < m->States(); i++) s += "(" + (m->State(i) ? describe_values(m->State(i), vals) : str("null")) + ")";
      return s;
   }
   str s = wf->Name();
   s += " n=" + std::to_string(wf->size()) + " strides=" + std::to_string(wf->strides());
   WFGridSystem* g = dynamic_cast<WFGridSystem*>(wf);
   if (g) {
      s += " dims=" + std::to_string(g->Dim());
      for (int i = 0; i < g->Dim(); i++) s += " " + std::to_string(g->DimSize(i)) + ":" + dbl(g->Xmin(i)) + ":" + dbl(g->Xmax(i));
      s += g->IsKspace() ? " K" : "";
   }
   for (int i = 0; i < wf->size(); i++) {
      vals.push_back((*wf)[i].real());
      vals.push_back((*wf)[i].imag());
   }
   return s;
}
str describe(WaveFunction* wf)
{
   std::vector<double> v;
   str s = describe_values(wf, v);
   return s + " #" + fmt("%016lx", (unsigned long) hash_bytes(v.data(), v.size() * 8));
}
AnyObj make_obj(const str& spec)
{
   str pat;
   std::vector<int> n;
   uint64_t seed;
   AnyObj o;
   parse(spec, o.kind, n, pat, seed);
   ParamContainer p;
   if (o.kind == "pot" || o.kind == "pot2") {
      o.pot = new OGridPotential();
      p.SetValue("dims", (int) n.size());
      for (size_t i = 0; i < n.size(); i++) {
         str c = std::to_string(i);
         p.SetValue("N" + c, n[i]);
         p.SetValue("xmin" + c, -5.0 - 0.25 * (seed % 4) - (double) i);
         p.SetValue("xmax" + c, 5.0 + 0.125 * (seed % 8));
      }
      o.pot->Init(p);
      std::vector<double> v(o.pot->size() + 1);
      values_of(pat, seed, o.pot->size(), &v[0]);
      for (int i = 0; i < o.pot->size(); i++) (*o.pot)[i] = v[i];
   } else if (o.kind == "mat") {
      o.mat = new OHermitianMatrix();
      p.SetValue("size", n[0]);
      o.mat->Init(p);
      std::vector<double> v(n[0] * n[0] + 1);
      values_of(pat, seed, n[0] * n[0], &v[0]);
      for (int i = 0; i < n[0]; i++)
         for (int k = 0; k <= i; k++) (*o.mat)(i, k) = (*o.mat)(k, i) = v[i * n[0] + k];
   } else {
      o.laser = new Laser();
      p.SetValue("Nt", n[0]);
      p.SetValue("dt", 0.125 * (1 + seed % 16));
      o.laser->Init(p);
      std::vector<double> v(n[0] + 1);
      values_of(pat, seed, n[0], &v[0]);
      for (int i = 0; i < n[0]; i++) (*o.laser)[i] = v[i];
   }
   return o;
}
AnyObj empty_obj(const str& spec)
{
   AnyObj o;
   o.kind = split(split(spec, '/')[0], ':')[0];
   if (o.kind == "pot" || o.kind == "pot2") o.pot = new OGridPotential();
   else if (o.kind == "mat") o.mat = new OHermitianMatrix();
   else o.laser = new Laser();
   return o;
}
str describe(AnyObj& o)
{
   str s;
   std::vector<double> v;
   if (o.pot) {
      s = "pot dims=" + std::to_string(o.pot->Dim());
      for (int i = 0; i < o.pot->Dim(); i++) s += " " + std::to_string(o.pot->DimSize(i)) + ":" + dbl(o.pot->Xmin(i)) + ":" + dbl(o.pot->Xmax(i));
      for (int i = 0; i < o.pot->size(); i++) v.push_back((*o.pot)[i]);
   } else if (o.mat) {
      s = "mat " + std::to_string(o.mat->rows()) + "x" + std::to_string(o.mat->cols());
      for (int i = 0; i < o.mat->rows(); i++)
         for (int k = 0; k < o.mat->cols(); k++) v.push_back((*o.mat)(i, k));
   } else {
      s = "laser Nt=" + std::to_string(o.laser->Nt()) + " dt=" + dbl(o.laser->Dt());
      for (int i = 0; i < o.laser->size(); i++) v.push_back((*o.laser)[i]);
   }
   return s + " n=" + std::to_string(v.size()) + " #" + fmt("%016lx", (unsigned long) hash_bytes(v.data(), v.size() * 8));
}
long spec_elems(const str& spec)
{
   long n = 1;
   std::vector<str> w = split(spec.substr(0, spec.find('/')), ':');
   for (size_t i = 1; i < w.size(); i++) n *= std::max(1, atoi(w[i].c_str()));
   return n;
}
str guarded(const std::function<void()>& f)
{
   try {
      f();
   } catch (EMemory& e) {
      return "EMemory: " + str(e.GetMessage());
   } catch (EMemError& e) {
      return "EMemError: " + str(e.GetMessage());
   } catch (EIOError& e) {
      return "EIOError: " + str(e.GetMessage());
   } catch (Exception& e) {
      return "Exception: " + str(e.GetMessage());
   } catch (std::exception& e) {
      return str("std: ") + typeid(e).name() + " " + e.what();
   }
   return "";
}
str rand_wf_spec(Rng& r, bool multi, int maxn, const char* patterns)
{
   int k = r.below(multi ? 7 : 5);
   str s;
   switch (k) {
      case 0: case 1: s = "grid:" + std::to_string(r.range(1, maxn)); break;
      case 2: s = "grid2:" + std::to_string(r.range(1, 8)) + ":" + std::to_string(r.range(1, 9)); break;
      case 3: s = "level:" + std::to_string(r.range(1, maxn / 2 + 1)); break;
      case 4: s = "grid3:" + std::to_string(r.range(1, 4)) + ":" + std::to_string(r.range(1, 4)) + ":" + std::to_string(r.range(1, 4)); break;
      case 5: s = "multi:" + std::to_string(r.range(1, 4)) + ":" + std::to_string(r.range(1, maxn / 2 + 1)); break;
      default: s = "mlevel:" + std::to_string(r.range(1, 4)) + ":" + std::to_string(r.range(1, 9)); break;
   }
   s += "/";
   s += patterns[r.below(strlen(patterns))];
   return s + "/" + std::to_string(r.range(1, 99999));
}
str rand_obj_spec(Rng& r, int maxn)
{
   int k = r.below(4);
   str s = k == 0 ? "pot:" + std::to_string(r.range(1, maxn)) : k == 1 ? "pot2:" + std::to_string(r.range(1, 8)) + ":" + std::to_string(r.range(1, 8)) : k == 2 ? "mat:" + std::to_string(r.range(1, 9)) : "laser:" + std::to_string(r.range(1, maxn));
   const char* pats = "ugzs";
   s += "/";
   s += pats[r.below(4)];
   return s + "/" + std::to_string(r.range(1, 99999));
}
}
