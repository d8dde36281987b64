// vc-sources: sources/core/params.cpp sources/core/common.cpp
#include "vc.h"
#include <core/params.h>
#include <cmath>
using namespace alta;
static double dot3(const double* a, const double* b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }
static void unit_pair(const double* o) {
  vc_check_eq(dot3(o, o), 1.0, "the view vector is a unit vector");
  vc_check_eq(dot3(o + 3, o + 3), 1.0, "the light vector is a unit vector");
}
// the coordinates x (n of them) of parametrization p: to Cartesian and back
static void trip(params::input p, const double* x, int n) {
  double o[6], y[6];
  params::convert(x, p, params::CARTESIAN, o);
  unit_pair(o);
  params::convert(o, params::CARTESIAN, p, y);
  for (int i = 0; i < n; ++i) vc_check_eq(y[i], x[i], "the coordinate survives the round trip");
}
static const double HP = M_PI / 2;
CONTRACT(P01_cos_th) { double x[1] = {vc_real_in("c", 0, 1)}; trip(params::COS_TH, x, 1); }
CONTRACT(P01_cos_tk) { double x[1] = {vc_real_in("c", 0, 1)}; trip(params::COS_TK, x, 1); }
CONTRACT(P01_cos_tlv) { double x[1] = {vc_real_in("c", -1, 1)}; vc_assume(x[0] > -0.999); trip(params::COS_TLV, x, 1); }
CONTRACT(P01_cos_tlr) { double x[1] = {vc_real_in("c", -1, 1)}; vc_assume(x[0] > -0.999); trip(params::COS_TLR, x, 1); }
CONTRACT(P01_rusin_th_td) { double x[2] = {vc_real_in("th", 0, 1.57), vc_real_in("td", 0, 1.57)}; trip(params::RUSIN_TH_TD, x, 2); }
CONTRACT(P01_cos_th_td) { double x[2] = {vc_real_in("ch", 0, 1), vc_real_in("cd", 0.001, 1)}; trip(params::COS_TH_TD, x, 2); }
CONTRACT(P01_isotropic_tv_proj_dphi) { double x[2] = {vc_real("x"), vc_real("y")}; vc_assume(x[0]*x[0] + x[1]*x[1] < 3.14*3.14); trip(params::ISOTROPIC_TV_PROJ_DPHI, x, 2); }
CONTRACT(P01_stark_2d) { double x[2] = {vc_real_in("h", 0, 1), vc_real_in("b", 0, 1)}; vc_assume(x[0]*x[0] + x[1]*x[1] < 1); trip(params::STARK_2D, x, 2); }
CONTRACT(P01_neumann_2d) { double x[2] = {vc_real_in("h", 0, 1), vc_real_in("b", 0, 1)}; vc_assume(x[0]*x[0] + x[1]*x[1] < 1); trip(params::NEUMANN_2D, x, 2); }
CONTRACT(P01_rusin_th_ph_td) { double x[3] = {vc_real_in("th", 0.00005, 1.57), vc_real_in("ph", -3.14, 3.14), vc_real_in("td", 0, 1.57)}; trip(params::RUSIN_TH_PH_TD, x, 3); }
CONTRACT(P01_rusin_th_td_pd) { double x[3] = {vc_real_in("th", 0, 1.57), vc_real_in("td", 0.000002, 1.57), vc_real_in("pd", -3.14, 3.14)}; trip(params::RUSIN_TH_TD_PD, x, 3); }
CONTRACT(P01_isotropic_tv_tl_dphi) { double x[3] = {vc_real_in("tv", 0.00005, 1.57), vc_real_in("tl", 0.00005, 1.57), vc_real_in("dp", -3.14, 3.14)}; trip(params::ISOTROPIC_TV_TL_DPHI, x, 3); }
CONTRACT(P01_rusin_vh) { double x[3]; vc_unit3("h", x); vc_assume(x[2] > 0.001); trip(params::RUSIN_VH, x, 3); }
CONTRACT(P01_schlick_vk) { double x[3]; vc_unit3("k", x); vc_assume(x[2] > 0.001); trip(params::SCHLICK_VK, x, 3); }
CONTRACT(P01_isotropic_tl_tv_proj_dphi) { double x[3] = {vc_real_in("tl", 0.00005, 1.57), vc_real("x"), vc_real("y")}; vc_assume(x[1]*x[1] + x[2]*x[2] < 1.57*1.57); trip(params::ISOTROPIC_TL_TV_PROJ_DPHI, x, 3); }
CONTRACT(P01_schlick_tl_tk_proj_dphi) {
  double x[3] = {vc_real_in("tl", 0.00005, 1.57), vc_real("x"), vc_real("y")};
  vc_assume(x[1]*x[1] + x[2]*x[2] < 1.57*1.57);
  double o[6]; params::convert(x, params::SCHLICK_TL_TK_PROJ_DPHI, params::CARTESIAN, o);
  vc_assume(o[2] > 0);
  trip(params::SCHLICK_TL_TK_PROJ_DPHI, x, 3);
}
CONTRACT(P01_retro_tl_tvl_proj_dphi) {
  double x[3] = {vc_real_in("tl", 0.001, 1.57), vc_real("x"), vc_real("y")};
  vc_assume(x[1]*x[1] + x[2]*x[2] < 3.14*3.14);
  double o[6]; params::convert(x, params::RETRO_TL_TVL_PROJ_DPHI, params::CARTESIAN, o);
  vc_assume(o[2] > 0);
  trip(params::RETRO_TL_TVL_PROJ_DPHI, x, 3);
}
// light along the normal: views in the plane of the first coordinate (the azimuth of the light is arbitrary)
CONTRACT(P01_retro_normal_light) { double x[3] = {0, vc_real_in("x", 0, 1.57), 0}; trip(params::RETRO_TL_TVL_PROJ_DPHI, x, 3); }
CONTRACT(P01_stark_3d) {
  double x[3] = {vc_real_in("h", 0.00005, 1), vc_real_in("b", 0.00005, 1), vc_real_in("p", 0, 6.28)}; vc_assume(x[0]*x[0] + x[1]*x[1] < 1);
  if (vc_bool("lower")) vc_assume(x[2] > M_PI); else vc_assume(x[2] <= M_PI);
  trip(params::STARK_3D, x, 3);
}
CONTRACT(P01_neumann_3d) {
  double x[3] = {vc_real_in("h", 0.00005, 1), vc_real_in("b", 0.00005, 1), vc_real_in("p", -3.14, 3.14)};
  vc_assume(x[0]*x[0] + x[1]*x[1] + 2*fabs(x[0]*x[1]*cos(x[2])) < 1);
  trip(params::NEUMANN_3D, x, 3);
}
CONTRACT(P01_rusin_th_ph_td_pd) { double x[4] = {vc_real_in("th", 0.001, 1.57), vc_real_in("ph", -3.14, 3.14), vc_real_in("td", 0.0002, 1.57), vc_real_in("pd", -3.14, 3.14)}; trip(params::RUSIN_TH_PH_TD_PD, x, 4); }
CONTRACT(P01_spherical) { double x[4] = {vc_real_in("tl", 0.00005, 1.57), vc_real_in("pl", -3.14, 3.14), vc_real_in("tv", 0.00005, 1.57), vc_real_in("pv", -3.14, 3.14)}; trip(params::SPHERICAL_TL_PL_TV_PV, x, 4); }
CONTRACT(P01_stereographic) {
  double x[4] = {vc_real("a"), vc_real("b"), vc_real("c"), vc_real("d")};
  vc_assume(x[0]*x[0] + x[1]*x[1] < 1 && x[2]*x[2] + x[3]*x[3] < 1);
  trip(params::STEREOGRAPHIC, x, 4);
}
CONTRACT(P01_cartesian) { double x[6]; for (int i = 0; i < 6; ++i) x[i] = vc_real("x"); double y[6]; params::to_cartesian(x, params::CARTESIAN, y); for (int i = 0; i < 6; ++i) vc_check_eq(y[i], x[i], "Cartesian coordinates are themselves"); }
