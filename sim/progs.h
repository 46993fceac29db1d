// Whole QDng program runs (propagation, eigenfunctions, filter, correlation function, optimal control) as generated inputs.
#pragma once
#include "store.h"

namespace sim {
// A plan describes one input file: cfg holds the system and the global parameters, every op is one program node:
//   {"propa", "U=cheby", "steps=4", ...}
struct Words {                      // reads k=v words of an op
   std::map<str, str> m;
   explicit Words(const std::vector<str>& w);
   str get(const str& k, const str& d = "") const;
   long num(const str& k, long d, long lo, long hi) const;
};
// system and global parameters
void rand_system(Rng& r, int tier, Plan& p);
// kinds: letters p propagation, e eigen imag, a eigen ac, l eigen lanczos, f filter, c correlation function, o optimal control
std::vector<str> rand_node(Rng& r, int tier, const Plan& p, char kind, const str& dir);
void rand_program(Rng& r, int tier, Plan& p, const char* kinds = "ppppeealcco");   // system and one or two nodes
str prog_xml(const Plan& p);                        // the whole input file
str input_spec(const Plan& p, const str& name);     // what the stored input f0 ef_1 pot1 mat1 holds
void write_inputs(const Plan& p);                   // stored objects and in.xml (inside a simulated process)
str make_inputs(const Plan& p, const str& name);    // the same in a process of its own; returns the directory
int run_qdng(const std::vector<str>& args);         // the real main program; normally it does not return
int run_qdz(const std::vector<str>& args);
// files of `now` that are not inputs, without the transform-tuning file
std::map<str, str> outputs(const std::map<str, str>& now, const std::map<str, str>& inputs);
str stdout_text();
bool meaningless_input(const str& text);   // ended by an input that has no result (and not by a fault)                                  // what the last simulated process printed
str diff_trees(const std::map<str, str>& want, const std::map<str, str>& got);   // "" if equal
// "" if equal number by number within rel * (largest value of the file); compressed wave functions are loaded for it
str diff_values(const std::map<str, str>& want, const std::map<str, str>& got, const str& want_dir, const str& got_dir, double rel, bool phase = false);

}
