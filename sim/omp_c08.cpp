// C08: the parallel regions of the library, called directly.  Compiled like the QDng sources (threads, memory-access hooks).
#include "objs.h"
#include "omp_c08.h"
#include "math/VectorPrimitives.h"
#include "math/VectorView.h"
#include "qdlib/WFGridSystem.h"
#include "qdlib/OGridGStokes.h"
#include "qdlib/OGridsystem.h"
#include "qdlib/OGridNablaSq.h"
#include "qdlib/OGridPotential.h"
#include "qdlib/OSum.h"
#include "qdlib/OCheby.h"
#include "tools/QDClock.h"
#include "tools/Logger.h"
#include <memory>
#include <stdlib.h>
#include <unistd.h>
using namespace QDLIB;
using namespace sim;

typedef std::vector<double> Vals;
static void put(Vals& o, dcomplex c) { o.push_back(c.real()); o.push_back(c.imag()); }
static void put(Vals& o, cVec& v)
{
   for (int k = 0; k < v.strides(); k++)
      for (int i = 0; i < v.lsize(); i++) put(o, v.begin(k)[i]);
}
static void put(Vals& o, dVec& v)
{
   for (int k = 0; k < v.strides(); k++)
      for (int i = 0; i < v.lsize(); i++) o.push_back(v.begin(k)[i]);
}
static void fill(cVec& v, Rng& r)
{
   for (int k = 0; k < v.strides(); k++)
      for (int i = 0; i < v.lsize(); i++) v.begin(k)[i] = dcomplex(r.unit() * 2 - 1, r.unit() * 2 - 1);
}
static void fill(dVec& v, Rng& r)
{
   for (int k = 0; k < v.strides(); k++)
      for (int i = 0; i < v.lsize(); i++) v.begin(k)[i] = r.unit() * 2 - 1;
}
// every elementwise primitive
void c08_prim(int k, long size, long strides, long seed, Vals& o)
{
   Rng r(seed);
   long n = size * strides;
   cVec A((lint) n, (lint) strides), B(n, strides), C(n, strides);
   dVec D((lint) n, (lint) strides);
   fill(A, r);
   fill(B, r);
   fill(C, r);
   fill(D, r);
   double d = r.unit() * 2 - 1;
   dcomplex c(r.unit(), r.unit());
   switch (k) {
      case 0: Abs(&D, &A); break;
      case 1: AddElements(&A, &B); break;
      case 2: AddElements(&A, &B, c); break;
      case 3: AddElements(&A, &B, d); break;
      case 4: AddElementsEq(&C, &A, &B); break;
      case 5: ExpElements(&A, &B, c); break;
      case 6: ExpElements(&A, &D, c); break;
      case 7: Im(&A); break;
      case 8: Im(&A, &B); break;
      case 9: MultElementsAdd(&A, &B, &D); break;
      case 10: MultElementsAdd(&A, &B, &D, d); break;
      case 11: MultElementsAdd(&A, &B, c); break;
      case 12: MultElementsAdd(&A, &B, d); break;
      case 13: MultElements(&A, &B); break;
      case 14: MultElements(&A, &B, &D); break;
      case 15: MultElements(&A, &B, &D, d); break;
      case 16: MultElements(&A, &B, d); break;
      case 17: MultElements(&A, &D); break;
      case 18: MultElements(&A, &D, c); break;
      case 19: MultElements(&A, &D, d); break;
      case 20: MultElements(&A, c); break;
      case 21: MultElements(&A, d); break;
      case 22: MultElementsComplex(&C, &A, &D, d); break;
      case 23: MultElementsComplex(&A, &B, d); break;
      case 24: MultElementsComplex(&A, &D, d); break;
      case 25: MultElementsComplexEq(&C, &A, &D, d); break;
      case 26: MultElementsConjugate(&C, &A, &B, d); break;
      case 27: MultElementsConjugate(&A, &B, d); break;
      case 28: MultElementsCopy(&C, &A, &B); break;
      case 29: MultElementsCopy(&C, &A, &B, d); break;
      case 30: MultElementsCopy(&A, &B, &D); break;
      case 31: MultElementsCopy(&A, &B, &D, d); break;
      case 32: MultElementsCopy(&A, &B, c); break;
      case 33: MultElementsCopy(&A, &B, d); break;
      case 34: MultElements(&D, d); break;
      case 35: Re(&A); break;
      case 36: Re(&A, &B); break;
      case 37: A = B; break;
      case 38: A.FastCopy(B); break;
      case 39: A = c; break;
      case 40: A *= c; break;
      case 41: { cVec E(A); C = E; break; }
      case 42: D = d; break;
      case 43: D *= d; break;
      case 44: { cVec E(n, c); put(o, E); break; }
      case 45: A.swap(B); break;
   }
   put(o, A);
   put(o, B);
   put(o, C);
   put(o, D);
}
void c08_view(int k, long n0, long n1, long n2, long seed, Vals& o)
{
   Rng r(seed);
   int dims[3] = {(int) n0, (int) n1, (int) n2};
   dVec V(n0 * n1 * n2);
   fill(V, r);
   VectorView<double> view(V, 3, dims);
   for (int s = 0; s < 3; s++) {
      int d = (k + s * (k & 8 ? 1 : 2)) % 3;   // each dimension at most once: a view does not support more
      dVec x(dims[d]);
      fill(x, r);
      view.ActiveDim(d);
      int w = (k >> (6 + s)) % 3;
      if (w == 0) view = x;
      else if (w == 1) view *= x;
      else view += x;
      if (s == 0 && !(k & 512)) break;   // one or three dimensions
   }
   put(o, V);
}
static void values(WaveFunction* w, Vals& o) { describe_values(w, o); }
str c08_wf(int k, const str& spec, long seed, Vals& o)
{
   Rng r(seed);
   std::unique_ptr<WaveFunction> a(make_wf(spec)), b(make_wf(spec));
   for (int i = 0; i < a->size(); i++) {
      (*a)[i] = dcomplex(r.unit() - 0.3, r.unit());
      (*b)[i] = dcomplex(r.unit(), r.unit() - 0.5);
   }
   WFGridSystem* g = dynamic_cast<WFGridSystem*>(a.get());
   switch (k) {
      case 0: put(o, *a * b.get()); break;
      case 1: o.push_back(a->Norm()); break;
      case 2: if (g) put(o, g->Integral()); break;
      case 3: a->Normalize(); break;
      case 4: if (a->Name() == "WFMultistate") break;
              { WaveFunction* q = a->Reduce(r.unit() * 1.2);
                if (q) {
                   values(q, o);
                   b->Restore(q);
                   if (q != a.get()) DELETE_WF(q);
                }
                break; }
      case 5: *a = b.get(); break;
      case 6: *a += b.get(); break;
      case 7: *a *= r.unit(); break;
      case 8: *a *= dcomplex(r.unit(), 1); break;
      case 9: { std::unique_ptr<WaveFunction> c(*a + b.get()); values(c.get(), o); break; }
      case 10: if (g) a->DirectProductConjugate(b.get()); break;
      case 11: *a -= b.get(); break;
      case 12: if (g) { a->IsKspace(true); put(o, *(cVec*) a.get()); a->IsKspace(false); } break;
      case 13: { std::unique_ptr<WaveFunction> c(a->NewInstance()); *c = a.get(); put(o, *c * b.get()); break; }
   }
   values(a.get(), o);
   values(b.get(), o);
   return "";
}
// one Chebychev step of a grid, multistate-free Hamiltonian built in place
str c08_stokes(long n0, long n1, long seed, Vals& o)
{
   Rng r(seed);
   int dim = n1 > 1 ? 2 : 1;
   std::unique_ptr<WaveFunction> a(make_wf(dim == 2 ? fmt("grid2:%ld:%ld/g/%ld", n0, n1, seed) : fmt("grid:%ld/g/%ld", n0, seed)));
   std::unique_ptr<WaveFunction> b(a->NewInstance());
   GridSystem* gs = dynamic_cast<GridSystem*>(a.get());
   if (!gs) return "no grid";
   for (int i = 0; i < dim; i++)
      for (int j = 0; j < dim; j++) {
         std::unique_ptr<OGridPotential> p(new OGridPotential());
         *((GridSystem*) p.get()) = *gs;
         p->newsize(gs->Size());
         for (int q = 0; q < gs->Size(); q++) p->begin(0)[q] = r.unit() + 1;
         FileSingle<Serializiable> f;
         f.Suffix(BINARY_O_SUFFIX);
         f.Compression(FileSingle<Serializiable>::UNCOMPRESSED);
         f.Name(fmt("gn_%d%d", i, j));
         f.WriteSingleFileToStream(dynamic_cast<Serializiable*>(p.get()));
      }
   ParamContainer pm;
   pm.SetValue("eta", "0.1");
   pm.SetValue("R", "0.2");
   pm.SetValue("dims", dim);
   pm.SetValue("gnng", "gn");
   OGridGStokes* s = new OGridGStokes();
   QDClock* clk = new QDClock(10, 0.1);
   str e = guarded([&]() {
      s->Init(pm);
      s->Clock(clk);
      s->Init(a.get());
      s->Apply(b.get(), a.get());
   });
   values(a.get(), o);
   if (e.empty()) values(b.get(), o);
   DELETE_OP(s);
   return e;
}
// text that is flushed while a parallel region runs appears once
void c08_log(int n, int texts, Vals& o)
{
   Logger& log = Logger::InstanceRef();
   for (int i = 0; i < texts; i++) {
      log.cout() << "text " << n << "-" << i << " of the parallel log\n";
#pragma omp parallel
      log.flush();
   }
   o.push_back(texts);
}
