// Saving, loading and comparing stored objects through the real QDng file classes.
#pragma once
#include "objs.h"
#include <memory>

namespace sim {
struct SaveCfg {
   str name, spec, format, comp;   // format: stream binary auto; comp: none zlib bzip
   double tol = 0;
   int seq = -1;                   // >= 0: member of a numbered sequence
   std::vector<str> words() const;
   static SaveCfg from(const std::vector<str>& w, size_t at);
   str key() const { return name + (seq >= 0 ? "_" + std::to_string(seq) : ""); }
   bool lossy() const { return comp != "none" && is_wf(spec); }
};
// long-lived file objects (one per writer slot), as a program keeps them between operations
struct Files {
   std::unique_ptr<QDLIB::FileWF> wf;
   ~Files() {}
};
struct Loaded {
   QDLIB::WaveFunction* wf = NULL;
   AnyObj o;
};
// each returns "" or the description of the error the library reported
str save_obj(const SaveCfg& c, QDLIB::WaveFunction* wf, AnyObj& o, QDLIB::FileWF* reuse);
// route: meta (class taken from the file) | into (existing object of the right shape) | resize (existing object of another size)
str load_obj(const SaveCfg& c, const str& route, QDLIB::FileWF* reuse, Loaded& out);
// "" if `got` is what saving `c` promises to give back
str compare_obj(const SaveCfg& c, Loaded& got);
// "" if b is a within the cut-off tolerance of one lossy compression
str compare_lossy(QDLIB::WaveFunction* a, QDLIB::WaveFunction* b, double tol);
SaveCfg rand_cfg(Rng& r, const str& name, bool wf_only, int maxn);
}
