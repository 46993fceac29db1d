#pragma once
#include <stddef.h>
namespace sim {
void* release_align(size_t n);
void release_free(void* p);
void release_cleanup();
void release_reconfigure();
size_t release_used();
size_t release_avail();
size_t release_max();
size_t release_peak();
}
