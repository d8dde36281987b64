// The dispatch of the conversions, over abstract to_cartesian and from_cartesian
// (their own contracts are in params_conv.cpp and params_def.cpp).
#include "vc.h"
#include <core/params.h>
using namespace alta;
static const int DIM = 7;     // more than any parametrization has
static int the_dim;
static int nt, nf; static params::input tin, fin;
static void apply(const char* n, const double* in, int i, double* out, int no) {
  double a[DIM]; for (int k = 0; k < 6; ++k) a[k] = in[k];
  for (int k = 0; k < no; ++k) { a[6] = k + 10*i; out[k] = vc_uf(n, 7, a); }
}
// abstract: any functions of their arguments that write the announced number of coordinates
void params::to_cartesian(const double* invec, params::input intype, double* outvec) { ++nt; tin = intype; apply("to", invec, intype, outvec, 6); }
void params::from_cartesian(const double* invec, params::input outtype, double* outvec) { ++nf; fin = outtype; apply("from", invec, outtype, outvec, the_dim); }
int params::dimension(params::input) { return the_dim; }
CONTRACT(P01_dispatch) {
  const params::input a = (params::input)vc_enum_in("from", 0, (int)params::CARTESIAN), b = (params::input)vc_enum_in("to", 0, (int)params::CARTESIAN);
  the_dim = vc_enum_in("dim", 1, 6);
  if (b == params::CARTESIAN) the_dim = 6;
  double x[6], y[7], c[6], z[7];
  for (int i = 0; i < 6; ++i) x[i] = vc_real("x");
  for (int i = 0; i < 7; ++i) { y[i] = vc_real("old"); z[i] = y[i]; }
  params::convert(x, a, b, y);
  if (a == b) for (int i = 0; i < the_dim; ++i) z[i] = x[i];
  else if (a == params::CARTESIAN) apply("from", x, b, z, the_dim);
  else { apply("to", x, a, c, 6); if (b == params::CARTESIAN) for (int i = 0; i < 6; ++i) z[i] = c[i]; else apply("from", c, b, z, the_dim); }
  for (int i = 0; i < 7; ++i) vc_check_eq(y[i], z[i], a == b ? "converting a parametrization to itself copies" : "converting goes through Cartesian coordinates, and only the coordinates of the destination are written");
}
CONTRACT(P01_dispatch_allocating) {
  const params::input a = (params::input)vc_enum_in("from", 0, (int)params::CARTESIAN), b = (params::input)vc_enum_in("to", 0, (int)params::CARTESIAN);
  the_dim = vc_enum_in("dim", 0, 6);
  double x[6], c[6], z[7];
  for (int i = 0; i < 6; ++i) x[i] = vc_real("x");
  double* y = params::convert(x, a, b);
  if (the_dim == 0) { vc_check(y == 0, "a parametrization without coordinates gives no vector"); return; }
  apply("to", x, a, c, 6); apply("from", c, b, z, the_dim);
  for (int i = 0; i < the_dim; ++i) vc_check_eq(y[i], z[i], "converting goes through Cartesian coordinates");
  delete[] y;
}
// ---- output values
CONTRACT(P04_same) {
  const int n = vc_size_in("n", 1, 64); vc_assume(n >= 1);
  double* in = new double[n]; double* out = new double[n];
  vc_array("in", in, n); vc_array("old", out, n);
  params::convert(in, params::RGB_COLOR, n, params::INV_STERADIAN, n, out);
  const int k = vc_int_in("k", 0, 63); vc_assume(k < n);
  vc_check_eq(out[k], vc_arr("in", k), "equal numbers of channels are copied");
}
CONTRACT(P04_spread) {
  const int n = vc_size_in("n", 2, 64);
  double in[1] = {vc_real("v")}; double* out = new double[n]; vc_array("old", out, n);
  params::convert(in, params::INV_STERADIAN, 1, params::RGB_COLOR, n, out);
  const int k = vc_int_in("k", 0, 63); vc_assume(k < n);
  vc_check_eq(out[k], in[0], "one channel is repeated");
}
CONTRACT(P04_mean) {
  const int n = vc_size_in("n", 2, 64);
  double* in = new double[n]; vc_array("in", in, n);
  double out[1] = {vc_real("old")};
  params::convert(in, params::RGB_COLOR, n, params::INV_STERADIAN, 1, out);
  double s = 0; for (int i = 0; i < n; ++i) s += vc_arr("in", i);
  vc_check_eq(out[0], s/n, "several channels are replaced by their mean");
}
CONTRACT(P04_mean3) {
  double in[3] = {vc_real("r"), vc_real("g"), vc_real("b")}; double out[1] = {vc_real("old")};
  params::convert(in, params::RGB_COLOR, 3, params::INV_STERADIAN, 1, out);
  vc_check_eq(out[0], (in[0] + in[1] + in[2])/3, "three channels are replaced by their mean");
}
