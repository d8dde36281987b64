// vc-sources: sources/core/params.cpp sources/core/common.cpp sources/core/function.cpp
#include "nl.h"
#include "nl_save.h"
#include "sources/plugins/nonlinear_shadowing_walter_smith/function.cpp"
typedef WalterSmith F;
// both directions are in front of the half vector (always so above the horizon; stated to spare the solver)
static void front(const vec& x) {
  double h[3] = {x[0] + x[3], x[1] + x[4], x[2] + x[5]}; const double n = sqrt(h[0]*h[0] + h[1]*h[1] + h[2]*h[2]);
  for (int k = 0; k < 3; ++k) h[k] /= n;
  vc_assume((x[0]*h[0] + x[1]*h[1] + x[2]*h[2]) / x[2] > 0.0 && (x[3]*h[0] + x[4]*h[1] + x[5]*h[2]) / x[5] > 0.0);
}
CONTRACT(P05_walter) { F f(nl_par(6, params::CARTESIAN)); vec q = nl_set(f, 0.0); vec x = nl_updirs(); front(x); nl_jacobian(f, q, x); }
CONTRACT(P07_walter) { F f(nl_par(6, params::CARTESIAN)); nl_params(f); }
// --- value: the published formula
static double walter_g1(double z, double a) {
  const double t = sqrt(1.0 - z*z) / z, u = 1.0 / (a * t);
  return u >= 1.6 ? 1.0 : (3.535*u + 2.181*u*u) / (1.0 + 2.276*u + 2.577*u*u);
}
CONTRACT(P09_walter) {
  F f(nl_par(6, params::CARTESIAN)); vec q = nl_set(f, 0.0); vec x = nl_updirs(); nonlinear_function& g = f; front(x);
  vec r = g.value(x); const int nY = g.parametrization().dimY();
  vc_check_ieq(r.size(), nY, "one value per output channel");

  for (int c = 0; c < nY; ++c) { const double* p = &q[c * 1]; vc_check_eq(r[c], walter_g1(x[2], p[0]) * walter_g1(x[5], p[0]), "Walter approximation of the Smith term"); }
}
// --- saved and loaded
CONTRACT(P20_walter) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_saved(f, g, nl_dirs()); }
// --- the starting point of a fit
CONTRACT(P28_walter) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_start(f, g, arguments()); }
CONTRACT(P28_walter_given) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p); nl_given(f, arguments()); }
CONTRACT(P28_walter_file) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_given_file(f, g, arguments()); }
CONTRACT(P28_walter_no_file) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_no_file(f, g, arguments()); }
