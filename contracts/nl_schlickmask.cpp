// vc-sources: sources/core/params.cpp sources/core/common.cpp sources/core/function.cpp
#include "nl.h"
#include "nl_save.h"
#include "sources/plugins/nonlinear_shadowing_schlick/function.cpp"
typedef schlick_masking F;
CONTRACT(P05_schlickmask) { F f(nl_par(6, params::CARTESIAN)); vec q = nl_set(f, 0.0); nl_jacobian(f, q, nl_updirs()); }
CONTRACT(P07_schlickmask) { F f(nl_par(6, params::CARTESIAN)); nl_params(f); }
// --- value: the published formula
CONTRACT(P09_schlickmask) {
  F f(nl_par(6, params::CARTESIAN)); vec q = nl_set(f, 0.0); vec x = nl_updirs(); nonlinear_function& g = f;
  vec r = g.value(x); const int nY = g.parametrization().dimY();
  vc_check_ieq(r.size(), nY, "one value per output channel");

  for (int c = 0; c < nY; ++c) { const double* p = &q[c * 1]; vc_check_eq(r[c], (x[2] / (x[2] + p[0]*(1.0 - x[2]))) * (x[5] / (x[5] + p[0]*(1.0 - x[5]))), "Schlick masking term"); }
}
// --- saved and loaded
CONTRACT(P20_schlickmask) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_saved(f, g, nl_dirs()); }
// --- the starting point of a fit
CONTRACT(P28_schlickmask) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_start(f, g, arguments()); }
CONTRACT(P28_schlickmask_given) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p); nl_given(f, arguments()); }
CONTRACT(P28_schlickmask_file) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_given_file(f, g, arguments()); }
CONTRACT(P28_schlickmask_no_file) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_no_file(f, g, arguments()); }
