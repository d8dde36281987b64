// vc-sources: sources/core/params.cpp sources/core/common.cpp sources/core/function.cpp
#include "nl.h"
#include "nl_save.h"
#include "sources/plugins/nonlinear_function_spherical_gaussian/function.cpp"
typedef spherical_gaussian_function F;
static int type(F& f) {
  const int t = vc_enum_in("type", 0, 5);
  static const char* const n[5] = {"mirror", "half", "back", "retro", "moment"};
  arguments a; if (t < 5) a.update("sg-type", n[t]);
  f.bootstrap(ptr<data>(), a);
  return t;
}
CONTRACT(P05_spherical_gaussian) { F f(nl_par(6, params::CARTESIAN)); type(f); vec q = nl_set(f, 0.0); nl_jacobian(f, q, nl_updirs()); }
CONTRACT(P07_spherical_gaussian) { F f(nl_par(6, params::CARTESIAN)); type(f); nl_params(f); }
CONTRACT(P09_spherical_gaussian) {
  F f(nl_par(6, params::CARTESIAN)); const int t = type(f); vec q = nl_set(f, 0.0), x = nl_updirs(), r = f.value(x);
  const double h[3] = {x[0] + x[3], x[1] + x[4], x[2] + x[5]}, k[3] = {x[0] - x[3], x[1] - x[4], x[2] + x[5]};
  double d;
  if (t == 1) d = h[2] / sqrt(h[0]*h[0] + h[1]*h[1] + h[2]*h[2]);
  else if (t == 2) d = k[2] / sqrt(k[0]*k[0] + k[1]*k[1] + k[2]*k[2]);
  else if (t == 3) d = x[0]*x[3] + x[1]*x[4] + x[2]*x[5];
  else if (t == 4) { double s[4]; s[0] = acos(x[5]); s[1] = atan2(x[4], x[3]); d = -sin(s[0]) * (cos(q[q.size()-1]*s[1])*x[0] + sin(q[q.size()-1]*s[1])*x[1]) + x[2]*x[5]; }
  else d = x[2]*x[5] - x[0]*x[3] - x[1]*x[4];
  for (int c = 0; c < r.size(); ++c) vc_check_eq(r[c], q[2*c] * exp(q[2*c+1] * (d - 1.0)), "spherical Gaussian lobe");
}
// --- saved and loaded
CONTRACT(P20_spherical_gaussian) { const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p); type(f); type(g); nl_saved(f, g, nl_dirs()); }
// --- the starting point of a fit
CONTRACT(P28_spherical_gaussian) {
  const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p);
  static const char* const n[6] = {"mirror", "half", "back", "retro", "moment", 0}; const char* w = n[vc_enum_in("type", 0, 5)]; arguments a; if (w) a.update("sg-type", w); nl_start(f, g, a);
}
CONTRACT(P28_spherical_gaussian_given) {
  const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p);
  static const char* const n[6] = {"mirror", "half", "back", "retro", "moment", 0}; const char* w = n[vc_enum_in("type", 0, 5)]; arguments a; if (w) a.update("sg-type", w); nl_given(f, a);
}
CONTRACT(P28_spherical_gaussian_file) {
  const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p);
  static const char* const n[6] = {"mirror", "half", "back", "retro", "moment", 0}; const char* w = n[vc_enum_in("type", 0, 5)]; arguments a; if (w) a.update("sg-type", w); nl_given_file(f, g, a);
}
CONTRACT(P28_spherical_gaussian_no_file) {
  const alta::parameters p = nl_par(6, params::CARTESIAN); F f(p), g(p);
  static const char* const n[6] = {"mirror", "half", "back", "retro", "moment", 0}; const char* w = n[vc_enum_in("type", 0, 5)]; arguments a; if (w) a.update("sg-type", w); nl_no_file(f, g, a);
}
