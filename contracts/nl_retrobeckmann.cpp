// vc-sources: sources/core/params.cpp sources/core/common.cpp sources/core/function.cpp
#include "nl.h"
#include "nl_save.h"
#include "sources/plugins/nonlinear_function_retrobeckmann/function.cpp"
typedef beckmann_function F;
static void mode(F& f) { arguments a; if (vc_bool("retro")) a.update("retro", "1"); f.bootstrap(ptr<data>(), a); }
CONTRACT(P05_retrobeckmann) { F f(nl_par(6, params::CARTESIAN)); mode(f); vec q = nl_set(f, 0.0); nl_jacobian(f, q, nl_dirs()); }
CONTRACT(P07_retrobeckmann) { F f(nl_par(6, params::CARTESIAN)); mode(f); nl_params(f); }
CONTRACT(P09_retrobeckmann) {
  F f(nl_par(6, params::CARTESIAN)); arguments a; const int retro = vc_bool("retro"); if (retro) a.update("retro", "1"); f.bootstrap(ptr<data>(), a);
  vec q = nl_set(f, 0.0), x = nl_dirs(), r = f.value(x);
  double d;
  if (retro) d = x[0]*x[3] + x[1]*x[4] + x[2]*x[5];
  else { const double k[3] = {x[0] - x[3], x[1] - x[4], x[2] + x[5]}; d = k[2] / sqrt(k[0]*k[0] + k[1]*k[1] + k[2]*k[2]); }
  for (int c = 0; c < r.size(); ++c) { const double* p = &q[2 * c];
    vc_check_eq(r[c], d > 0.0 ? p[0] / (4.0*M_PI*p[1]*p[1]*d*d*d*d) * exp((d*d - 1.0) / (p[1]*p[1]*d*d)) : 0.0, "retro Beckmann lobe"); }
}
// --- saved and loaded
CONTRACT(P20_retrobeckmann) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); mode(f); mode(g); nl_saved(f, g, nl_dirs()); }
// --- the starting point of a fit
CONTRACT(P28_retrobeckmann) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); arguments a; if (vc_bool("retro")) a.update("retro", "1"); nl_start(f, g, a); }
CONTRACT(P28_retrobeckmann_given) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p); arguments a; if (vc_bool("retro")) a.update("retro", "1"); nl_given(f, a); }
CONTRACT(P28_retrobeckmann_file) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); arguments a; if (vc_bool("retro")) a.update("retro", "1"); nl_given_file(f, g, a); }
CONTRACT(P28_retrobeckmann_no_file) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); arguments a; if (vc_bool("retro")) a.update("retro", "1"); nl_no_file(f, g, a); }
