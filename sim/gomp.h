#pragma once
#include <stdint.h>
#include <stddef.h>
#include "sim.h"
namespace sim {
void race_reset();
void race_barrier();
void race_region_end();
void access_point(uint64_t pc);
int team_cur();
char* team_stack(int t);
size_t team_stack_size();
bool team_recording();
str racing_pcs();
extern bool team_running;
extern uint64_t team_access_count, regions, multi_regions;
}
