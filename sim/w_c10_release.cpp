// The memory manager as a release build (NDEBUG) compiles it: block-wise, with cached free slots.
#define NDEBUG
#define Memory MemoryRelease
#include "tools/Memory.cpp"
#undef Memory
#include "w_c10.h"
namespace sim {
static QDLIB::MemoryRelease& mem() { return QDLIB::MemoryRelease::Instance(); }
void* release_align(size_t n)
{
   void* p = NULL;
   mem().Align(&p, n);
   return p;
}
void release_free(void* p) { mem().Free(p); }
void release_cleanup() { mem().Cleanup(); }
void release_reconfigure() { mem().Reconfigure(); }
size_t release_used() { return mem().CurrentSizeUsed(); }
size_t release_avail() { return mem().CurrentSizeAvail(); }
size_t release_max() { return mem().MaximumSize(); }
size_t release_peak() { return mem().MaximumSizeUsed(); }
}
