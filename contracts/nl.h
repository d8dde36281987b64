// Shared contracts of the nonlinear function models.
#pragma once
#include "vc.h"
#include <core/function.h>
#include <core/params.h>
#include <core/common.h>
#include <core/args.h>
#include <core/data.h>
#include <cmath>
#include <algorithm>
#include <fstream>
#include <sstream>
using namespace alta;

// scalar and RGB outputs (every output parametrization the library names has one of these dimensions)
inline alta::parameters nl_par(int dimX, params::input in) {
  if (vc_bool("rgb")) return alta::parameters(dimX, 3, in, params::RGB_COLOR);
  return alta::parameters(dimX, 1, in, params::INV_STERADIAN);
}
// arbitrary parameter values, installed in the model
inline vec nl_set(nonlinear_function& f, double lo) {
  vec q(f.nbParameters());
  for (int i = 0; i < q.size(); ++i) q[i] = lo > -1e5 ? vc_real_above("p", lo) : vc_real("p");
  f.setParameters(q);
  return q;
}
// view and light: any unit vectors whose half vector is above the horizon (pairs opposed to within 1e-5 excluded)
inline vec nl_dirs() {
  vec x(6); vc_unit3("v", &x[0]); vc_unit3("l", &x[3]);
  vc_assume(x[2] + x[5] > 1e-5);
  return x;
}
// both directions above the horizon
inline vec nl_updirs() {
  vec x(6); vc_unit3("v", &x[0]); vc_unit3("l", &x[3]);
  vc_assume(x[2] > 0.0 && x[5] > 0.0 && x[2] + x[5] > 1e-5);
  return x;
}
inline vec nl_x1() { vec x(1); x[0] = vc_real("x"); return x; }
// the Jacobian holds, for output channel y and parameter p, d value[y] / d p at [y*nbParameters() + p]
inline void nl_jacobian(nonlinear_function& f, const vec& q, const vec& x) {
  vec r = f.value(x);
  vec j = f.parametersJacobian(x);
  const int nY = f.parametrization().dimY(), n = f.nbParameters();
  vc_check_ieq(r.size(), nY, "value has one entry per output channel");
  vc_check_ieq(j.size(), nY * n, "Jacobian has one entry per output channel and parameter");
  for (int y = 0; y < nY; ++y)
    for (int p = 0; p < n; ++p)
      vc_check_eq(j[y * n + p], vc_deriv(r[y], q[p]), "Jacobian entry is the partial derivative of the value");
}
// the parameter vector interface
inline void nl_params(nonlinear_function& f) {
  const int n = f.nbParameters();
  vec q(n); for (int i = 0; i < n; ++i) q[i] = vc_real("p");
  f.setParameters(q);
  vc_check_ieq(f.nbParameters(), n, "setParameters does not change the number of parameters");
  vec r = f.parameters();
  vc_check_ieq(r.size(), n, "parameters() has nbParameters() entries");
  for (int i = 0; i < n; ++i) vc_check_eq(r[i], q[i], "parameters() returns what setParameters() was given");
  vec lo = f.getParametersMin(), hi = f.getParametersMax();
  vc_check_ieq(lo.size(), n, "getParametersMin() has nbParameters() entries");
  vc_check_ieq(hi.size(), n, "getParametersMax() has nbParameters() entries");
  for (int i = 0; i < n; ++i) vc_check_le(lo[i], hi[i], "lower parameter bounds do not exceed upper bounds");
}

// without a starting point of the user's, a fit starts from the model's own: whatever the parameters were before, they all get a value, and one within their bounds
inline void nl_start(nonlinear_function& f, nonlinear_function& g, const arguments& a, ptr<data> d = ptr<data>()) {
  nl_set(f, -1e6); nl_set(g, -1e6); f.bootstrap(d, a); g.bootstrap(d, a);
  const int n = f.nbParameters(); vc_check_ieq(g.nbParameters(), n, "the options decide how many parameters a model has");
  vec p = f.parameters(), q = g.parameters(), lo = f.getParametersMin(), hi = f.getParametersMax();
  vc_check_ieq(p.size(), n, "every parameter has a starting value"); vc_check_ieq(q.size(), n, "every parameter has a starting value"); vc_check_ieq(lo.size(), n, "every parameter has a lower bound"); vc_check_ieq(hi.size(), n, "every parameter has an upper bound");
  for (int i = 0; i < n; ++i) { vc_check_same(q[i], p[i], "the starting value does not depend on what the parameter was before"); vc_check_le(lo[i], p[i], "the starting value is not below the lower bound"); vc_check_le(p[i], hi[i], "the starting value is not above the upper bound"); }
}
// the user's starting point: a vector of numbers on the command line
inline void nl_given(nonlinear_function& f, arguments a, ptr<data> d = ptr<data>()) {
  f.bootstrap(d, a); const int n = f.nbParameters(); double q[64]; vc_check(n <= 64, "the contract has room for the parameters");
  std::ostringstream o; o.precision(17); o << "["; for (int i = 0; i < n; ++i) { q[i] = vc_real("given"); if (i) o << ","; o << q[i]; }
  o << "]"; a.update("bootstrap", o.str()); f.bootstrap(d, a);
  vc_check_ieq(f.nbParameters(), n, "the starting values do not change how many parameters a model has"); vec p = f.parameters(); vc_check_ieq(p.size(), n, "every parameter has a starting value");
  for (int i = 0; i < n; ++i) vc_check_same(p[i], q[i], "the fit starts from the parameters given by the user, in order");
}
// ... or a model that was saved: h is any model of the same kind
inline void nl_given_file(nonlinear_function& f, nonlinear_function& h, arguments a, ptr<data> d = ptr<data>()) {
  h.bootstrap(d, a); const int n = h.nbParameters(); vec q(n); for (int i = 0; i < n; ++i) q[i] = vc_real("saved"); h.setParameters(q);
  ((const function&)h).save("saved.func", arguments::create_arguments("--func libmodel.so"));
  a.update("bootstrap", "saved.func"); f.bootstrap(d, a);
  vc_check_ieq(f.nbParameters(), n, "the number of parameters is the one of the saved model"); vec p = f.parameters(); vc_check_ieq(p.size(), n, "every parameter has a starting value");
  for (int i = 0; i < n; ++i) vc_check_same(p[i], q[i], "the fit starts from the parameters of the saved model");
}
// a starting point that cannot be read leaves the model's own
inline void nl_no_file(nonlinear_function& f, nonlinear_function& g, arguments a, ptr<data> d = ptr<data>()) {
  nl_set(f, -1e6); nl_set(g, -1e6); f.bootstrap(d, a); a.update("bootstrap", "missing.func"); g.bootstrap(d, a);
  const int n = f.nbParameters(); vc_check_ieq(g.nbParameters(), n, "the number of parameters is the model's own"); vec p = f.parameters(), q = g.parameters();
  vc_check_ieq(p.size(), n, "every parameter has a starting value"); vc_check_ieq(q.size(), n, "every parameter has a starting value"); for (int i = 0; i < n; ++i) vc_check_same(q[i], p[i], "the fit starts from the model's own parameters");
}
