// vc-sources: sources/core/params.cpp sources/core/common.cpp sources/core/function.cpp
#include "nl.h"
#include "nl_save.h"
#include "sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp"
typedef schlick F;
CONTRACT(P05_normschlick) { F f(nl_par(6, params::CARTESIAN)); vec q = nl_set(f, 0.0); nl_jacobian(f, q, nl_dirs()); }
CONTRACT(P07_normschlick) { F f(nl_par(6, params::CARTESIAN)); nl_params(f); }
// --- value: the published formula
CONTRACT(P09_normschlick) {
  F f(nl_par(6, params::CARTESIAN)); vec q = nl_set(f, 0.0); vec x = nl_dirs(); nonlinear_function& g = f;
  vec r = g.value(x); const int nY = g.parametrization().dimY();
  vc_check_ieq(r.size(), nY, "one value per output channel");
  double h[3] = {x[0] + x[3], x[1] + x[4], x[2] + x[5]}; const double nrm = sqrt(h[0]*h[0] + h[1]*h[1] + h[2]*h[2]); for (int k = 0; k < 3; ++k) h[k] /= nrm;
  double d = x[0]*h[0] + x[1]*h[1] + x[2]*h[2]; if (d < 0.0) d = 0.0; if (d > 1.0) d = 1.0;
  for (int c = 0; c < nY; ++c) { const double* p = &q[c * 1]; vc_check_eq(r[c], 1.0 + (1.0/p[0] - 1.0) * (1.0-d)*(1.0-d)*(1.0-d)*(1.0-d)*(1.0-d), "normalized Schlick term"); }
}
// --- saved and loaded
CONTRACT(P20_normschlick) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_saved(f, g, nl_dirs()); }
// --- the starting point of a fit
CONTRACT(P28_normschlick) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_start(f, g, arguments()); }
CONTRACT(P28_normschlick_given) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p); nl_given(f, arguments()); }
CONTRACT(P28_normschlick_file) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_given_file(f, g, arguments()); }
CONTRACT(P28_normschlick_no_file) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_no_file(f, g, arguments()); }
