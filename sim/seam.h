// Internal: state of the fault layer and access to the real libc.
#pragma once
#include "sim.h"
#include <sys/types.h>
#include <time.h>
#include <set>
namespace sim {
struct State {
   Rng entropy = Rng(1);
   bool entropy_same = false;
   long pid = 4242;
   uint64_t clock_seed = 0;
   uint64_t ram = 8ull << 30;
   int fill = 0xA5;
   str dir;
   bool full_run = false, full_op = false;      // disk full
   long full_left = 0;                          // bytes still accepted
   std::set<str> bad_run, bad_op;               // paths with a persistent I/O error
   long clock_jump_us = 0;
};
extern State& st;
bool active();
const Fault* event(Ev cls);
void count_fault(const Fault* f);
void crash_now(const char* where);
int real_open(const char* p, int fl, int mode);
ssize_t real_read(int fd, void* b, size_t n);
ssize_t real_write(int fd, const void* b, size_t n);
int real_close(int fd);
int real_unlink(const char* p);
int real_mkdir(const char* p, int mode);
char* mkdtemp_real(char* t);
time_t real_time_now();
}
