// Abstract conversions between parametrizations: any functions of their
// arguments (their own contracts are P01 and P02).
#pragma once
#include <core/params.h>
#include <core/common.h>
#include <cmath>
using namespace alta;
static const params::input APAR[3] = {params::CARTESIAN, params::RUSIN_TH_PH_TD_PD, params::RUSIN_TH_TD};
static void aapply(const char* n, const double* in, int i, double* out, int no) {
  double a[8]; for (int k = 0; k < 6; ++k) a[k] = in[k];
  for (int k = 0; k < no; ++k) { a[6] = k; a[7] = i; out[k] = vc_uf(n, 8, a); }
}
int params::dimension(params::input i) { return i == params::CARTESIAN ? 6 : i == params::RUSIN_TH_PH_TD_PD || i == params::SPHERICAL_TL_PL_TV_PV ? 4 : 2; }
void params::to_cartesian(const double* in, params::input t, double* out) { double p[6]; for (int i = 0; i < 6; ++i) p[i] = i < dimension(t) ? in[i] : 0.0; aapply("to", p, t, out, 6); }
void params::from_cartesian(const double* in, params::input t, double* out) { aapply("from", in, t, out, dimension(t)); }
std::string const& params::get_name(const params::input) { static std::string s("in"); return s; }
std::string const& params::get_name(const params::output) { static std::string s("out"); return s; }
inline alta::parameters apar(params::input in, int nY) { return alta::parameters(params::dimension(in), nY, in, nY == 3 ? params::RGB_COLOR : params::INV_STERADIAN); }
inline vec converted(const vec& x, params::input from, params::input to) { vec r(params::dimension(to)); params::convert(&x[0], from, to, &r[0]); return r; }
