// vc-sources: sources/core/params.cpp sources/core/common.cpp sources/core/function.cpp
#include "nl.h"
#include "nl_save.h"
#include "sources/plugins/nonlinear_function_retroyoo/function.cpp"
typedef yoo_function F;
CONTRACT(P05_retroyoo) { F f(nl_par(6, params::CARTESIAN)); vec q = nl_set(f, 0.0); nl_jacobian(f, q, nl_dirs()); }
CONTRACT(P07_retroyoo) { F f(nl_par(6, params::CARTESIAN)); nl_params(f); }
// --- value: the published formula
CONTRACT(P09_retroyoo) {
  F f(nl_par(6, params::CARTESIAN)); vec q = nl_set(f, 0.0); vec x = nl_dirs(); nonlinear_function& g = f;
  vec r = g.value(x); const int nY = g.parametrization().dimY();
  vc_check_ieq(r.size(), nY, "one value per output channel");
  const double k = 2.0*M_PI*x[0]/633.0;
  for (int c = 0; c < nY; ++c) { const double* p = &q[c * 2]; vc_check_eq(r[c], p[0] * 3.0/(16.0*M_PI) * (2.4 + 1.0/(1.0 + k*p[1]*p[1])) * (1.0 + (1.0 - exp(-1.4*k*p[1]) / (k*p[1]))), "retro Yoo lobe"); }
}
// --- saved and loaded
CONTRACT(P20_retroyoo) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_saved(f, g, nl_dirs()); }
// --- the starting point of a fit
CONTRACT(P28_retroyoo) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_start(f, g, arguments()); }
CONTRACT(P28_retroyoo_given) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p); nl_given(f, arguments()); }
CONTRACT(P28_retroyoo_file) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_given_file(f, g, arguments()); }
CONTRACT(P28_retroyoo_no_file) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_no_file(f, g, arguments()); }
