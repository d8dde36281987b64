// vc-sources: sources/core/params.cpp sources/core/common.cpp sources/core/function.cpp
#include "nl.h"
#include "nl_save.h"
#include "sources/plugins/nonlinear_function_diffuse/function.cpp"
typedef diffuse_function F;
CONTRACT(P05_diffuse) { F f(nl_par(6, params::CARTESIAN)); vec q = nl_set(f, 0.0); nl_jacobian(f, q, nl_dirs()); }
CONTRACT(P07_diffuse) { F f(nl_par(6, params::CARTESIAN)); nl_params(f); }
// --- value: the published formula
CONTRACT(P09_diffuse) {
  F f(nl_par(6, params::CARTESIAN)); vec x = nl_dirs(), y = nl_dirs();
  vec r = f.value(x), s = f.value(y);
  vc_check_ieq(r.size(), f.parametrization().dimY(), "one value per output channel");
  for (int c = 0; c < r.size(); ++c) { vc_check_eq(r[c], s[c], "the diffuse lobe does not depend on the directions"); vc_check_eq(r[c], 0.0, "a diffuse lobe starts at zero"); }
}
// --- saved and loaded
CONTRACT(P20_diffuse) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_saved(f, g, nl_dirs()); }
