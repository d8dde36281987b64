// vc-sources: sources/core/params.cpp sources/core/common.cpp sources/core/function.cpp
#include "nl.h"
#include "nl_save.h"
#include "sources/plugins/nonlinear_shadowing_smith/function.cpp"
typedef smith F;
CONTRACT(P05_smith) { F f(nl_par(6, params::CARTESIAN)); vec q = nl_set(f, 0.0); nl_jacobian(f, q, nl_updirs()); }
CONTRACT(P07_smith) { F f(nl_par(6, params::CARTESIAN)); nl_params(f); }
// --- value: the published formula
CONTRACT(P09_smith) {
  F f(nl_par(6, params::CARTESIAN)); vec q = nl_set(f, 0.0); vec x = nl_updirs(); nonlinear_function& g = f;
  vec r = g.value(x); const int nY = g.parametrization().dimY();
  vc_check_ieq(r.size(), nY, "one value per output channel");
  const double mu = x[5] / sqrt(x[3]*x[3] + x[4]*x[4]);
  for (int c = 0; c < nY; ++c) { const double* p = &q[c * 1]; vc_check_eq(r[c], x[2] == 1.0 ? 1.0 : 1.0 / (1.0 + (exp(-0.5*(mu/p[0])*(mu/p[0])) / (sqrt(2.0*M_PI)*(mu/p[0])) - 0.5*(1.0 - erf(mu/p[0]/sqrt(2.0))))), "Smith shadowing term"); }
}
// --- saved and loaded
CONTRACT(P20_smith) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_saved(f, g, nl_dirs()); }
// --- the starting point of a fit
CONTRACT(P28_smith) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_start(f, g, arguments()); }
CONTRACT(P28_smith_given) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p); nl_given(f, arguments()); }
CONTRACT(P28_smith_file) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_given_file(f, g, arguments()); }
CONTRACT(P28_smith_no_file) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_no_file(f, g, arguments()); }
