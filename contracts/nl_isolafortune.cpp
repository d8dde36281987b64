// vc-sources: sources/core/params.cpp sources/core/common.cpp sources/core/function.cpp
#include "nl.h"
#include "nl_save.h"
#include "sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp"
typedef isotropic_lafortune_function F;
CONTRACT(P05_isolafortune) { F f(nl_par(6, params::CARTESIAN)); vec q = nl_set(f, -1e6); nl_jacobian(f, q, nl_dirs()); }
CONTRACT(P07_isolafortune) { F f(nl_par(6, params::CARTESIAN)); nl_params(f); }
// --- value: the published formula
static void isolafortune(int n) {
  F f(nl_par(6, params::CARTESIAN)); f.setNbLobes(n); vec q = nl_set(f, -1e6); vec x = nl_dirs(); nonlinear_function& g = f;
  const int nY = g.parametrization().dimY();
  vc_check_ieq(f.nbParameters(), 3 * n * nY, "three parameters per lobe and channel");
  vec r = f.value(x), t = f.value(x, q);
  for (int c = 0; c < nY; ++c) {
    double s = 0.0;
    for (int k = 0; k < n; ++k) {
      const double* p = &q[3 * (k * nY + c)];
      const double d = p[0]*(x[0]*x[3] + x[1]*x[4]) + p[1]*x[2]*x[5];
      if (d > 0.0) s += pow(d, p[2]);
    }
    vc_check_eq(r[c], s, "isotropic Lafortune lobes");
    vc_check_eq(t[c], s, "isotropic Lafortune lobes of given parameters");
  }
}
CONTRACT(P09_isolafortune1) { isolafortune(1); }
CONTRACT_BOUNDED(P09_isolafortune_lobes, "2 lobes") { isolafortune(2); }
CONTRACT_BOUNDED(P05_isolafortune_lobes, "2 lobes") {
  F f(nl_par(6, params::CARTESIAN)); f.setNbLobes(2); vec q = nl_set(f, -1e6); nl_jacobian(f, q, nl_dirs());
}
CONTRACT_BOUNDED(P07_isolafortune_lobes, "2 and 3 lobes") { F f(nl_par(6, params::CARTESIAN)); f.setNbLobes(vc_enum_in("lobes", 2, 3)); nl_params(f); }
// --- saved and loaded
CONTRACT(P20_isolafortune) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_saved(f, g, nl_dirs()); }
CONTRACT_BOUNDED(P20_isolafortune_lobes, "up to 3 lobes") {
  const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); arguments a; static const char* const n[4] = {0, "1", "2", "3"}; const char* w = n[vc_enum_in("lobes", 0, 3)];
  if (w) a.update("lobes", w);
  f.bootstrap(ptr<data>(), a); nl_saved(f, g, nl_dirs());
}
// --- the starting point of a fit
CONTRACT_BOUNDED(P28_isolafortune, "up to 3 lobes") { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); static const char* const n[3] = {"1", "2", "3"}; arguments a; a.update("lobes", n[vc_enum_in("lobes", 0, 2)]); if (vc_bool("spread")) a.update("bootstrap", ""); nl_start(f, g, a); }
CONTRACT_BOUNDED(P28_isolafortune_given, "up to 3 lobes") { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p); static const char* const n[3] = {"1", "2", "3"}; arguments a; a.update("lobes", n[vc_enum_in("lobes", 0, 2)]); if (vc_bool("spread")) a.update("bootstrap", ""); nl_given(f, a); }
CONTRACT_BOUNDED(P28_isolafortune_file, "up to 3 lobes") { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); static const char* const n[3] = {"1", "2", "3"}; arguments a; a.update("lobes", n[vc_enum_in("lobes", 0, 2)]); if (vc_bool("spread")) a.update("bootstrap", ""); nl_given_file(f, g, a); }
