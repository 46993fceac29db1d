#pragma once
#include "sim.h"
enum { C08_PRIMS = 46, C08_WFOPS = 14 };
void c08_prim(int k, long size, long strides, long seed, std::vector<double>& o);
void c08_view(int k, long n0, long n1, long n2, long seed, std::vector<double>& o);
sim::str c08_wf(int k, const sim::str& spec, long seed, std::vector<double>& o);
sim::str c08_stokes(long n0, long n1, long seed, std::vector<double>& o);
void c08_log(int n, int texts, std::vector<double>& o);
