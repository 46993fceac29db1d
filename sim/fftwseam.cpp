// FFTW's planner measures run times, so which plan it picks (and the last bits of results) depends on the clock.
// Planning is therefore a stub: every plan is an ESTIMATE plan.  What the stub keeps of a measuring planner is
// what callers can observe: both arrays are overwritten, a WISDOM_ONLY request fails unless the problem was
// planned before at that effort (in this process or through an imported wisdom file), and wisdom travels through
// files.  Executing plans, including with threads, is the real library.
#include "seam.h"
#include "fftw3.h"
#include <string.h>
#include <stdio.h>
#include <map>
#include <sstream>
using namespace sim;

static std::map<str, int>& wisdom() { static std::map<str, int>* w = new std::map<str, int>; return *w; }
static int level(unsigned f) { return f & FFTW_ESTIMATE ? 0 : f & FFTW_PATIENT ? 2 : f & FFTW_EXHAUSTIVE ? 3 : 1; }
// returns 0: plan it, 1: WISDOM_ONLY request that must fail
static int consult(const str& key, unsigned flags, void* a, void* b, size_t bytes)
{
   int want = level(flags);
   std::map<str, int>::iterator i = wisdom().find(key);
   if (flags & FFTW_WISDOM_ONLY) return i == wisdom().end() || i->second < want;
   if (i != wisdom().end() && i->second >= want) return 0;
   wisdom()[key] = want;
   if (want > 0) {
      memset(a, 0, bytes);
      if (b != a) memset(b, 0, bytes);
   }
   return 0;
}
static unsigned estimate(unsigned f) { return (f & ~(FFTW_PATIENT | FFTW_EXHAUSTIVE | FFTW_WISDOM_ONLY)) | FFTW_ESTIMATE; }

extern "C" {
fftw_plan __real_fftw_plan_dft(int, const int*, fftw_complex*, fftw_complex*, int, unsigned);
fftw_plan __real_fftw_plan_dft_1d(int, fftw_complex*, fftw_complex*, int, unsigned);
fftw_plan __real_fftw_plan_guru_dft(int, const fftw_iodim*, int, const fftw_iodim*, fftw_complex*, fftw_complex*, int, unsigned);

fftw_plan __wrap_fftw_plan_dft(int rank, const int* n, fftw_complex* in, fftw_complex* out, int sign, unsigned flags)
{
   str k = "dft" + std::to_string(sign) + (in == out ? "i" : "o");
   size_t sz = 1;
   for (int i = 0; i < rank; i++) {
      k += ":" + std::to_string(n[i]);
      sz *= n[i];
   }
   if (consult(k, flags, in, out, sz * sizeof(fftw_complex))) return NULL;
   return __real_fftw_plan_dft(rank, n, in, out, sign, estimate(flags));
}
fftw_plan __wrap_fftw_plan_dft_1d(int n, fftw_complex* in, fftw_complex* out, int sign, unsigned flags)
{
   return __wrap_fftw_plan_dft(1, &n, in, out, sign, flags);
}
fftw_plan __wrap_fftw_plan_guru_dft(int rank, const fftw_iodim* d, int hr, const fftw_iodim* h, fftw_complex* in, fftw_complex* out, int sign, unsigned flags)
{
   str k = "guru" + std::to_string(sign) + (in == out ? "i" : "o");
   size_t sz = 1;
   for (int i = 0; i < rank; i++) {
      k += fmt(":%d/%d/%d", d[i].n, d[i].is, d[i].os);
      sz *= d[i].n;
   }
   for (int i = 0; i < hr; i++) {
      k += fmt(",%d/%d/%d", h[i].n, h[i].is, h[i].os);
      sz *= h[i].n;
   }
   if (consult(k, flags, in, out, sz * sizeof(fftw_complex))) return NULL;
   return __real_fftw_plan_guru_dft(rank, d, hr, h, in, out, sign, estimate(flags));
}
int __wrap_fftw_import_wisdom_from_file(FILE* f)
{
   str all;
   char b[4096];
   size_t n;
   while (all.size() < 1000000 && (n = fread(b, 1, sizeof b, f)) > 0) all.append(b, n);
   std::istringstream in(all);
   str head, key, end;
   if (!(in >> head) || head != "(fftw-3.3.10-sim") return 0;
   std::map<str, int> got;
   int v;
   while (in >> key && key != ")") {
      if (!(in >> v)) return 0;
      got[key] = v;
   }
   if (key != ")") return 0;
   for (auto& e : got) wisdom()[e.first] = std::max(wisdom()[e.first], e.second);
   return 1;
}
void __wrap_fftw_export_wisdom_to_file(FILE* f)
{
   fprintf(f, "(fftw-3.3.10-sim\n");
   for (auto& e : wisdom()) fprintf(f, "  %s %d\n", e.first.c_str(), e.second);
   fprintf(f, ")\n");
}
}
