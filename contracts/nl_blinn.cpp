// vc-sources: sources/core/params.cpp sources/core/common.cpp sources/core/function.cpp
#include "nl.h"
#include "nl_save.h"
#include "sources/plugins/nonlinear_function_blinn/function.cpp"
typedef blinn_function F;
CONTRACT(P05_blinn) { F f(nl_par(1, params::COS_TH)); vec q = nl_set(f, 0.0); nl_jacobian(f, q, nl_x1()); }
CONTRACT(P07_blinn) { F f(nl_par(1, params::COS_TH)); nl_params(f); }
// --- value: the published formula
CONTRACT(P09_blinn) {
  F f(nl_par(1, params::COS_TH)); vec q = nl_set(f, 0.0); vec x = nl_x1(); nonlinear_function& g = f;
  vec r = g.value(x); const int nY = g.parametrization().dimY();
  vc_check_ieq(r.size(), nY, "one value per output channel");

  for (int c = 0; c < nY; ++c) { const double* p = &q[c * 2]; vc_check_eq(r[c], x[0] > 0.0 ? p[0] * pow(x[0], p[1]) : 0.0, "Blinn-Phong lobe"); }
}
// --- saved and loaded
CONTRACT(P20_blinn) { const alta::parameters p = nl_par(1, params::COS_TH); F f(p), g(p); nl_saved(f, g, nl_x1()); }
// --- the starting point of a fit
CONTRACT(P28_blinn) { const alta::parameters p = nl_par(1, params::COS_TH); F f(p), g(p); nl_start(f, g, arguments()); }
CONTRACT(P28_blinn_given) { const alta::parameters p = nl_par(1, params::COS_TH); F f(p); nl_given(f, arguments()); }
CONTRACT(P28_blinn_file) { const alta::parameters p = nl_par(1, params::COS_TH); F f(p), g(p); nl_given_file(f, g, arguments()); }
CONTRACT(P28_blinn_no_file) { const alta::parameters p = nl_par(1, params::COS_TH); F f(p), g(p); nl_no_file(f, g, arguments()); }
