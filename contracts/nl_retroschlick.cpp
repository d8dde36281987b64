// vc-sources: sources/core/params.cpp sources/core/common.cpp sources/core/function.cpp
#include "nl.h"
#include "nl_save.h"
#include "sources/plugins/nonlinear_fresnel_retroschlick/function.cpp"
typedef retro_schlick F;
CONTRACT(P05_retroschlick) { F f(nl_par(6, params::CARTESIAN)); vec q = nl_set(f, 0.0); nl_jacobian(f, q, nl_dirs()); }
CONTRACT(P07_retroschlick) { F f(nl_par(6, params::CARTESIAN)); nl_params(f); }
// --- value: the published formula
CONTRACT(P09_retroschlick) {
  F f(nl_par(6, params::CARTESIAN)); vec q = nl_set(f, -1e6), x = nl_dirs(); nonlinear_function& g = f; vec r = g.value(x);
  const double k[3] = {x[3] - x[0], x[4] - x[1], x[2] + x[5]}, n = sqrt(k[0]*k[0] + k[1]*k[1] + k[2]*k[2]);
  const double d = (x[2]*k[2] - x[0]*k[0] - x[1]*k[1]) / n, e = 1.0 - d;
  for (int c = 0; c < r.size(); ++c) vc_check_eq(r[c], q[c] + (1.0 - q[c]) * e*e*e*e*e, "retro Schlick Fresnel term");
}
// --- saved and loaded
CONTRACT(P20_retroschlick) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_saved(f, g, nl_dirs()); }
// --- the starting point of a fit
CONTRACT(P28_retroschlick) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_start(f, g, arguments()); }
CONTRACT(P28_retroschlick_given) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p); nl_given(f, arguments()); }
CONTRACT(P28_retroschlick_file) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_given_file(f, g, arguments()); }
CONTRACT(P28_retroschlick_no_file) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_no_file(f, g, arguments()); }
