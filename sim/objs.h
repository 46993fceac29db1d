// Stored objects: creation from a specification, description, comparison.
#pragma once
#include "sim.h"
#include "qdlib/WaveFunction.h"
#include "qdlib/WFGridCartesian.h"
#include "qdlib/WFLevel.h"
#include "qdlib/WFMultistate.h"
#include "qdlib/OGridPotential.h"
#include "qdlib/OGridDipole.h"
#include "qdlib/OHermitianMatrix.h"
#include "qdlib/Laser.h"
#include "qdlib/FileWF.h"
#include "tools/FileSingle.h"
#include "tools/Exception.h"
#include "tools/GlobalParams.h"
#include "tools/Memory.h"

namespace sim {
// spec: kind[:n[:n2..]]  e.g. grid:32  grid2:8:6  level:5  multi:2:16  mlevel:3:4  pot:16  dip:12 mat:4 laser:20
//       pattern letter and value seed follow after '/' : grid:32/u/17
str describe(QDLIB::WaveFunction* wf);                  // class, shape, hash of the raw values
str describe_values(QDLIB::WaveFunction* wf, std::vector<double>& vals);
QDLIB::WaveFunction* make_wf(const str& spec);
bool is_wf(const str& spec);
long spec_elems(const str& spec);                       // product of the numbers in the spec (upper bound of the elements)
struct AnyObj {                                         // non-wave function objects
   QDLIB::OGridPotential* pot = NULL;
   QDLIB::OHermitianMatrix* mat = NULL;
   QDLIB::Laser* laser = NULL;
   str kind;
};
AnyObj make_obj(const str& spec);
AnyObj empty_obj(const str& spec);
str describe(AnyObj& o);
void values_of(const str& pattern, uint64_t seed, size_t n, double* out);

// runs f and returns "" or a description of the exception that left it
str guarded(const std::function<void()>& f);
str rand_wf_spec(Rng& r, bool allow_multi, int maxn, const char* patterns = "ugzs");
str rand_obj_spec(Rng& r, int maxn);
}
