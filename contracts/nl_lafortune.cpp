// vc-sources: sources/core/params.cpp sources/core/common.cpp sources/core/function.cpp
// vc-native-sources: sources/core/data.cpp sources/core/data_storage.cpp sources/core/vertical_segment.cpp
#include "nl.h"
#include "nl_save.h"
#include "sources/plugins/nonlinear_function_lafortune/function.cpp"
typedef lafortune_function F;
CONTRACT(P05_lafortune) { F f(nl_par(6, params::CARTESIAN)); vec q = nl_set(f, -1e6); nl_jacobian(f, q, nl_dirs()); }
CONTRACT(P07_lafortune) { F f(nl_par(6, params::CARTESIAN)); nl_params(f); }
// --- value: the published formula
static void lafortune(int n) {
  F f(nl_par(6, params::CARTESIAN)); f.setNbLobes(n); vec q = nl_set(f, -1e6); vec x = nl_dirs(); nonlinear_function& g = f;
  const int nY = g.parametrization().dimY();
  vc_check_ieq(f.nbParameters(), 4 * n * nY, "four parameters per lobe and channel");
  vec r = f.value(x);
  for (int c = 0; c < nY; ++c) {
    double s = 0.0;
    for (int k = 0; k < n; ++k) {
      const double* p = &q[4 * (k * nY + c)];
      const double d = p[0]*x[0]*x[3] + p[1]*x[1]*x[4] + p[2]*x[2]*x[5];
      if (d > 0.0) s += pow(d, p[3]);
    }
    vc_check_eq(r[c], s, "Lafortune lobes");
  }
}
CONTRACT(P09_lafortune1) { lafortune(1); }
CONTRACT_BOUNDED(P09_lafortune_lobes, "2 lobes") { lafortune(2); }
CONTRACT_BOUNDED(P05_lafortune_lobes, "2 lobes") {
  F f(nl_par(6, params::CARTESIAN)); f.setNbLobes(2); vec q = nl_set(f, -1e6); nl_jacobian(f, q, nl_dirs());
}
CONTRACT_BOUNDED(P07_lafortune_lobes, "2 and 3 lobes") { F f(nl_par(6, params::CARTESIAN)); f.setNbLobes(vc_enum_in("lobes", 2, 3)); nl_params(f); }
// --- saved and loaded
// the diffuse component of a model is the smallest value of the data it was prepared for
struct two_samples : data {
  vec s[2];
  two_samples(const alta::parameters& p) : data(p, 2) { for (int i = 0; i < 2; ++i) { s[i] = vec(6 + p.dimY()); for (int k = 0; k < s[i].size(); ++k) s[i][k] = vc_real("s"); } }
  vec get(int i) const { return s[i]; }
  void set(int, const vec&) {}
  vec value(const vec& x) const { return x; }
};
CONTRACT(P20_lafortune) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); nl_saved(f, g, nl_dirs()); }
CONTRACT_BOUNDED(P20_lafortune_lobes, "up to 3 lobes, diffuse component from 2 samples") {
  const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); arguments a; static const char* const n[4] = {0, "1", "2", "3"}; const char* w = n[vc_enum_in("lobes", 0, 3)];
  if (w) a.update("lobes", w);
  f.bootstrap(ptr<data>(new two_samples(p.set_input(6, params::CARTESIAN))), a); nl_saved(f, g, nl_dirs());
}
// --- the starting point of a fit
CONTRACT_BOUNDED(P28_lafortune, "up to 3 lobes, diffuse component from 2 samples") { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); static const char* const n[3] = {"1", "2", "3"}; arguments a; a.update("lobes", n[vc_enum_in("lobes", 0, 2)]); nl_start(f, g, a, ptr<data>(new two_samples(p.set_input(6, params::CARTESIAN)))); }
CONTRACT_BOUNDED(P28_lafortune_given, "up to 3 lobes, diffuse component from 2 samples") { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p); static const char* const n[3] = {"1", "2", "3"}; arguments a; a.update("lobes", n[vc_enum_in("lobes", 0, 2)]); nl_given(f, a, ptr<data>(new two_samples(p.set_input(6, params::CARTESIAN)))); }
CONTRACT_BOUNDED(P28_lafortune_file, "up to 3 lobes, diffuse component from 2 samples") { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); static const char* const n[3] = {"1", "2", "3"}; arguments a; a.update("lobes", n[vc_enum_in("lobes", 0, 2)]); nl_given_file(f, g, a, ptr<data>(new two_samples(p.set_input(6, params::CARTESIAN)))); }
CONTRACT_BOUNDED(P28_lafortune_no_file, "up to 3 lobes, diffuse component from 2 samples") { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); static const char* const n[3] = {"1", "2", "3"}; arguments a; a.update("lobes", n[vc_enum_in("lobes", 0, 2)]); nl_no_file(f, g, a, ptr<data>(new two_samples(p.set_input(6, params::CARTESIAN)))); }
