// Memory-access hooks of the instrumented build (compiler inserted), used as pre-emption points.
#include "seam.h"
#include "gomp.h"
#include <stdio.h>
#include <stdlib.h>
#include <unordered_map>
#include <set>
#include <map>

namespace sim {
// Conflict recording guides the scheduler (which program points to pre-empt at).  It is never an oracle.
struct Cell { uint64_t wpc, rpc; int16_t wt, rt, wepoch, repoch; };
static std::unordered_map<uint64_t, Cell>* shadow;
static std::set<uint64_t>* racing;
static int epoch;
void race_reset()
{
   epoch = 0;
   if (team_recording()) {
      if (!shadow) shadow = new std::unordered_map<uint64_t, Cell>();
      if (!racing) racing = new std::set<uint64_t>();
      shadow->clear();
   }
}
void race_barrier() { epoch++; }
void race_region_end() {}
str racing_pcs()
{
   str r;
   if (racing)
      for (auto p : *racing) r += fmt("%lx ", (unsigned long) p);
   return r;
}
static bool busy;
#ifdef QDSIM_TSAN
static inline void record(uint64_t pc, uint64_t a, int size, bool w)
{
   int t = team_cur();
   for (uint64_t k = a >> 3; k <= (a + size - 1) >> 3; k++) {
      auto ins = shadow->insert(std::make_pair(k, Cell{0, 0, -1, -1, 0, 0}));
      Cell& c = ins.first->second;
      if (c.wt >= 0 && c.wt != t && c.wepoch == epoch) { racing->insert(pc); racing->insert(c.wpc); }
      if (w && c.rt >= 0 && c.rt != t && c.repoch == epoch) { racing->insert(pc); racing->insert(c.rpc); }
      if (w) { c.wt = t; c.wpc = pc; c.wepoch = epoch; }
      else { c.rt = t; c.rpc = pc; c.repoch = epoch; }
   }
}
static inline void access(void* pc, void* a, int size, bool w)
{
   if (__builtin_expect(!team_running, 1) || busy) return;
   char* st = team_stack(team_cur());
   if (st && (char*) a >= st && (char*) a < st + team_stack_size()) return;
   if (team_recording()) {
      busy = true;
      record((uint64_t) pc, (uint64_t) a, size, w);
      busy = false;
   }
   access_point((uint64_t) pc);
}
}
using namespace sim;
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void* a) { access(RA, a, n, false); } void __tsan_write##n(void* a) { access(RA, a, n, true); } \
   void __tsan_unaligned_read##n(void* a) { access(RA, a, n, false); } void __tsan_unaligned_write##n(void* a) { access(RA, a, n, true); } \
   void __tsan_volatile_read##n(void* a) { access(RA, a, n, false); } void __tsan_volatile_write##n(void* a) { access(RA, a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { access(RA, a, n > 64 ? 64 : (int) n, false); }
void __tsan_write_range(void* a, unsigned long n) { access(RA, a, n > 64 ? 64 : (int) n, true); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define AT(bits, T) \
   T __tsan_atomic##bits##_load(const volatile T* a, int) { access(RA, (void*) a, bits / 8, false); return *a; } \
   void __tsan_atomic##bits##_store(volatile T* a, T v, int) { access(RA, (void*) a, bits / 8, true); *a = v; } \
   T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { access(RA, (void*) a, bits / 8, true); T o = *a; *a = v; return o; } \
   T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { access(RA, (void*) a, bits / 8, true); T o = *a; *a = o + v; return o; } \
   T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { access(RA, (void*) a, bits / 8, true); T o = *a; *a = o - v; return o; } \
   T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { access(RA, (void*) a, bits / 8, true); T o = *a; *a = o & v; return o; } \
   T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { access(RA, (void*) a, bits / 8, true); T o = *a; *a = o | v; return o; } \
   T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { access(RA, (void*) a, bits / 8, true); T o = *a; *a = o ^ v; return o; } \
   int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access(RA, (void*) a, bits / 8, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
   int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, m, f); } \
   T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access(RA, (void*) a, bits / 8, true); T o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
#else
}
#endif
