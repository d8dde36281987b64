// vc-sources: sources/core/params.cpp sources/core/common.cpp sources/core/function.cpp 
#include "nl.h"
#include "sources/plugins/nonlinear_function_sgd/function.cpp"
typedef shifted_gamma_function F;
// The derivative with respect to the diffuse albedo (parameter 8 of each channel): the
// simplest of the eleven; all are 0 in the code (known finding).
CONTRACT(P05_sgd) {
  F f(alta::parameters(6, 1, params::CARTESIAN, params::INV_STERADIAN)); vec q = nl_set(f, 0.0); vec x = nl_updirs();
  vec r = f.value(x), j = ((nonlinear_function&)f).parametersJacobian(x);
  vc_check_eq(j[8], vc_deriv(r[0], q[8]), "shifted gamma: derivative with respect to the diffuse albedo");
}
CONTRACT(P07_sgd) { F f(nl_par(6, params::CARTESIAN)); nl_params(f); }
// --- value: the published formula
CONTRACT(P09_sgd) {
  F f(nl_par(6, params::CARTESIAN)); vec q = nl_set(f, 0.0); vec x = nl_dirs(); nonlinear_function& g = f;
  const int n = g.parametrization().dimY(); vec r = g.value(x);
  double h[3] = {x[0] + x[3], x[1] + x[4], x[2] + x[5]}; const double nrm = sqrt(h[0]*h[0] + h[1]*h[1] + h[2]*h[2]); for (int k = 0; k < 3; ++k) h[k] /= nrm;
  const double vh = x[3]*h[0] + x[4]*h[1] + x[5]*h[2], t2 = (1.0 - h[2]*h[2]) / (h[2]*h[2]), ip = 0.31830988618;
  for (int c = 0; c < n; ++c) {
    #define Q(k) q[c + (k) * n]
    double gl = acos(x[2]) - Q(1), gv = acos(x[5]) - Q(1); if (gl < 0.0) gl = 0.0; if (gv < 0.0) gv = 0.0;
    const double G1l = 1.0 + Q(3) * (1.0 - exp(Q(0) * pow(gl, Q(2)))), G1v = 1.0 + Q(3) * (1.0 - exp(Q(0) * pow(gv, Q(2))));
    const double a = Q(10) + t2 / Q(10), D = ip * Q(7) * exp(-a) / (pow(a, Q(4)) * h[2]*h[2]*h[2]*h[2]);
    const double e = 1.0 - vh, Fr = Q(5) - vh * Q(6) + (1.0 - Q(5)) * e*e*e*e*e;
    vc_check_eq(r[c], x[2] < 0.0 ? 0.0 : ip * (Q(8) + Q(9) * D * G1l * G1v * Fr), "shifted gamma distribution");
    #undef Q
  }
}
// --- the starting point of a fit
CONTRACT(P28_sgd_given) { F f(nl_par(6, params::CARTESIAN)); nl_given(f, arguments()); }
