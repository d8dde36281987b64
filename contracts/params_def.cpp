// vc-sources: sources/core/params.cpp sources/core/common.cpp
// The coordinates of a direction pair are the documented quantities.
#include "vc.h"
#include <core/params.h>
#include <cmath>
using namespace alta;
static double dot3(const double* a, const double* b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }
static double len3(const double* a) { return sqrt(dot3(a, a)); }
struct pair {
  double c[6]; const double *v, *l;
  double h[3], k[3];    // normalised sum of view and light; back vector (reflected view and light)
  double y[6];
  pair() : v(c), l(c + 3) {
    vc_unit3("v", c); vc_unit3("l", c + 3);
    vc_assume(v[2] + l[2] > 0);       // the half vector is above the horizon; either direction may be below
    vc_assume(dot3(v, l) > -0.99999);
    double s[3] = {v[0] + l[0], v[1] + l[1], v[2] + l[2]}, b[3] = {v[0] - l[0], v[1] - l[1], v[2] + l[2]};
    const double ns = len3(s), nb = len3(b);
    for (int i = 0; i < 3; ++i) { h[i] = s[i]/ns; k[i] = b[i]/nb; }
  }
  // the view and light vector away from the normal (azimuths defined)
  void azimuths() { vc_assume(v[0]*v[0] + v[1]*v[1] > 0.0001 && l[0]*l[0] + l[1]*l[1] > 0.0001); }
  void back() { vc_assume(v[2] + l[2] > 0.01); }
  double phi_v() const { return atan2(v[1], v[0]); }
  double phi_l() const { return atan2(l[1], l[0]); }
  void get(params::input p) { params::convert(c, params::CARTESIAN, p, y); }
};
CONTRACT(P02_cos_th) { pair p; p.get(params::COS_TH); vc_check_eq(p.y[0], p.h[2], "cosine of the half vector elevation"); }
CONTRACT(P02_cos_tk) { pair p; p.back(); p.get(params::COS_TK); vc_check_eq(p.y[0], p.k[2], "cosine of the back vector elevation"); }
CONTRACT(P02_cos_tlv) { pair p; p.get(params::COS_TLV); vc_check_eq(p.y[0], dot3(p.v, p.l), "cosine between light and view"); }
CONTRACT(P02_cos_tlr) { pair p; p.get(params::COS_TLR); double r[3] = {-p.v[0], -p.v[1], p.v[2]}; vc_check_eq(p.y[0], dot3(r, p.l), "cosine between light and reflected view"); }
CONTRACT(P02_cos_th_td) { pair p; p.get(params::COS_TH_TD); vc_check_eq(p.y[0], p.h[2], "cosine of the half vector elevation"); vc_check_eq(p.y[1], dot3(p.h, p.v), "cosine of the difference elevation"); }
CONTRACT(P02_rusin_th_td) { pair p; p.get(params::RUSIN_TH_TD); vc_check_eq(p.y[0], acos(p.h[2]), "half vector elevation"); vc_check_eq(p.y[1], acos(dot3(p.h, p.v)), "difference elevation"); }
CONTRACT(P02_rusin_th_ph_td) { pair p; p.get(params::RUSIN_TH_PH_TD); vc_check_eq(p.y[0], acos(p.h[2]), "half vector elevation"); vc_check_eq(p.y[1], atan2(p.h[1], p.h[0]), "half vector azimuth"); vc_check_eq(p.y[2], acos(dot3(p.h, p.v)), "difference elevation"); }
CONTRACT(P02_rusin_vh) { pair p; p.get(params::RUSIN_VH); for (int i = 0; i < 3; ++i) vc_check_eq(p.y[i], p.h[i], "half vector"); }
CONTRACT(P02_schlick_vk) { pair p; p.back(); p.get(params::SCHLICK_VK); vc_check_eq(p.y[0], -p.k[0], "back vector"); vc_check_eq(p.y[1], -p.k[1], "back vector"); vc_check_eq(p.y[2], p.k[2], "back vector"); }
// away from the vertical, the horizontal components of a unit vector are not both tiny
CONTRACT(P02_lemma_horizontal) {
  const double x = vc_real_in("x", -1, 1), y = vc_real_in("y", -1, 1), z = vc_real_in("z", 0, 1);
  vc_assume(z > 0 && z < 1.0 - 1e-12);
  if (vc_symbolic()) vc_assume(x*x + y*y + z*z == 1.0); else vc_assume(fabs(x*x + y*y + z*z - 1.0) < 1e-13);
  vc_check(fabs(x) > 5e-7 || fabs(y) > 5e-7, "a horizontal component is not tiny");
}
// the difference vector: the view vector in the frame of the half vector
static void difference(const pair& p, double* d, int axis) {
  const double ph = atan2(p.h[1], p.h[0]), th = acos(p.h[2]);
  const double bx[3] = {cos(ph)*cos(th), sin(ph)*cos(th), -sin(th)}, by[3] = {-sin(ph), cos(ph), 0}, bz[3] = {cos(ph)*sin(th), sin(ph)*sin(th), cos(th)};
  d[0] = dot3(p.v, bx); d[1] = dot3(p.v, by); d[2] = dot3(p.v, bz);
  // lemma: away from the half vector, the horizontal components of the (unit) difference vector are not both tiny
  vc_check_eq(d[0]*d[0] + d[1]*d[1] + d[2]*d[2], 1.0, "lemma: the difference vector is a unit vector");
  vc_assume(d[0]*d[0] + d[1]*d[1] + d[2]*d[2] == 1.0);
  const double s[3] = {p.v[0] + p.l[0], p.v[1] + p.l[1], p.v[2] + p.l[2]}, ns = len3(s);
  vc_check_eq(d[2]*ns, 1.0 + dot3(p.v, p.l), "lemma: product of the view vector and the half vector");
  vc_assume(d[2]*ns == 1.0 + dot3(p.v, p.l));
  vc_check(ns > 0, "lemma: the half vector is defined");
  vc_assume(ns > 0);
  vc_check(d[2] > 0, "lemma: the view vector is on the side of the half vector");
  vc_assume(d[2] > 0 && d[2] < 1.0 - 1e-12);
  // instance of P02_lemma_horizontal, whose hypotheses have just been established: one of the two cases below covers d
  vc_assume(fabs(d[axis]) > 5e-7);
}
static void rusin3(int axis) {
  pair p; double d[3]; difference(p, d, axis);
  p.get(params::RUSIN_TH_TD_PD);
  vc_check_eq(p.y[0], acos(p.h[2]), "half vector elevation"); vc_check_eq(p.y[1], acos(d[2]), "difference elevation"); vc_check_eq(p.y[2], atan2(d[1], d[0]), "difference azimuth");
}
CONTRACT(P02_rusin_th_td_pd_x) { rusin3(0); }
CONTRACT(P02_rusin_th_td_pd_y) { rusin3(1); }
static void rusin4(int axis) {
  pair p; double d[3]; difference(p, d, axis);
  p.get(params::RUSIN_TH_PH_TD_PD);
  vc_check_eq(p.y[0], acos(p.h[2]), "half vector elevation"); vc_check_eq(p.y[1], atan2(p.h[1], p.h[0]), "half vector azimuth");
  vc_check_eq(p.y[2], acos(d[2]), "difference elevation"); vc_check_eq(p.y[3], atan2(d[1], d[0]), "difference azimuth");
}
CONTRACT(P02_rusin_th_ph_td_pd_x) { rusin4(0); }
CONTRACT(P02_rusin_th_ph_td_pd_y) { rusin4(1); }
// view and light equal: the difference vector is along the half vector, its angles are zero by convention
CONTRACT(P02_retro_difference) {
  double c[6], y[4]; vc_unit3("v", c); vc_assume(c[2] > 0.001 && c[0] > 0.001);
  for (int i = 0; i < 3; ++i) c[3 + i] = c[i];
  params::convert(c, params::CARTESIAN, params::RUSIN_TH_PH_TD_PD, y);
  vc_check_eq(y[0], acos(c[2]), "half vector elevation"); vc_check_eq(y[1], atan2(c[1], c[0]), "half vector azimuth"); vc_check_eq(y[2], 0, "difference elevation"); vc_check_eq(y[3], 0, "difference azimuth");
}
CONTRACT(P02_isotropic_tv_tl_dphi) { pair p; p.get(params::ISOTROPIC_TV_TL_DPHI); vc_check_eq(p.y[0], acos(p.v[2]), "view elevation"); vc_check_eq(p.y[1], acos(p.l[2]), "light elevation"); vc_check_eq(p.y[2], p.phi_l() - p.phi_v(), "azimuth difference"); }
CONTRACT(P02_isotropic_tv_proj_dphi) { pair p; p.get(params::ISOTROPIC_TV_PROJ_DPHI); const double d = p.phi_v() - p.phi_l(); vc_check_eq(p.y[0], acos(p.v[2])*cos(d), "projected view, first"); vc_check_eq(p.y[1], acos(p.v[2])*sin(d), "projected view, second"); }
CONTRACT(P02_isotropic_tl_tv_proj_dphi) { pair p; p.get(params::ISOTROPIC_TL_TV_PROJ_DPHI); const double d = p.phi_l() - p.phi_v(); vc_check_eq(p.y[0], acos(p.l[2]), "light elevation"); vc_check_eq(p.y[1], acos(p.v[2])*cos(d), "projected view, first"); vc_check_eq(p.y[2], acos(p.v[2])*sin(d), "projected view, second"); }
CONTRACT(P02_schlick_tl_tk_proj_dphi) {
  pair p; p.back(); vc_assume(fabs(p.l[0] - p.v[0]) + fabs(p.l[1] - p.v[1]) > 0.0001);
  p.get(params::SCHLICK_TL_TK_PROJ_DPHI); const double d = p.phi_l() - atan2(p.k[1], p.k[0]);
  vc_check_eq(p.y[0], acos(p.l[2]), "light elevation"); vc_check_eq(p.y[1], acos(p.k[2])*cos(d), "projected back vector, first"); vc_check_eq(p.y[2], acos(p.k[2])*sin(d), "projected back vector, second");
}
CONTRACT(P02_retro_tl_tvl_proj_dphi) {
  // theta_vl, and the angle at L of the spherical triangle (N, L, V)
  pair p; const double c = dot3(p.v, p.l); vc_assume(c < 0.9999 && p.l[2] < 0.9999); p.azimuths();
  p.get(params::RETRO_TL_TVL_PROJ_DPHI);
  const double t = acos(c), sl = sqrt(1 - p.l[2]*p.l[2]), svl = sqrt(1 - c*c);
  vc_check_eq(p.y[0], acos(p.l[2]), "light elevation");
  vc_check_eq(p.y[1], t*(p.v[2] - p.l[2]*c)/(sl*svl), "projected view around the light, first");
  // sine by the triple product n.(l x v) over the sines of the two sides
  vc_check_eq(p.y[2], t*(p.v[0]*p.l[1] - p.v[1]*p.l[0])/(sl*svl), "projected view around the light, second");
}
// light along the normal: the view is at its own elevation around the light
CONTRACT(P02_retro_normal_light) {
  double c[6] = {0, 0, 0, 0, 0, 1}, y[3]; const double t = vc_real_in("tv", 0, 1.57), f = vc_real_in("pv", -3.14, 3.14);
  c[0] = sin(t)*cos(f); c[1] = sin(t)*sin(f); c[2] = cos(t);
  params::convert(c, params::CARTESIAN, params::RETRO_TL_TVL_PROJ_DPHI, y);
  vc_check_eq(y[0], 0, "light elevation");
  vc_check_eq(y[1]*y[1] + y[2]*y[2], t*t, "angle between view and light");
}
static void hb(const pair& p, double* H, double* B) { for (int i = 0; i < 3; ++i) { H[i] = (p.l[i] + p.v[i])/2; B[i] = (p.l[i] - p.v[i])/2; } }
CONTRACT(P02_stark_2d) { pair p; double H[3], B[3]; hb(p, H, B); p.get(params::STARK_2D); vc_check_eq(p.y[0], sqrt(H[0]*H[0] + H[1]*H[1]), "norm of the projected half vector"); vc_check_eq(p.y[1], len3(B), "norm of the back vector"); }
CONTRACT(P02_neumann_2d) { pair p; double H[3], B[3]; hb(p, H, B); p.get(params::NEUMANN_2D); vc_check_eq(p.y[0], sqrt(H[0]*H[0] + H[1]*H[1]), "norm of the projected half vector"); vc_check_eq(p.y[1], sqrt(B[0]*B[0] + B[1]*B[1]), "norm of the projected back vector"); }
CONTRACT(P02_stark_3d) {
  pair p; double H[3], B[3]; hb(p, H, B); p.get(params::STARK_3D);
  vc_check_eq(p.y[0], sqrt(H[0]*H[0] + H[1]*H[1]), "norm of the projected half vector"); vc_check_eq(p.y[1], len3(B), "norm of the back vector");
  const double d = atan2(B[1], B[0]) - atan2(H[1], H[0]);
  vc_check_eq(p.y[2], d < 0 ? d + 2*M_PI : d, "azimuth of the back vector from the half vector");
}
CONTRACT(P02_neumann_3d) {
  pair p; double H[3], B[3]; hb(p, H, B); p.get(params::NEUMANN_3D);
  vc_check_eq(p.y[0], sqrt(H[0]*H[0] + H[1]*H[1]), "norm of the projected half vector"); vc_check_eq(p.y[1], sqrt(B[0]*B[0] + B[1]*B[1]), "norm of the projected back vector");
  vc_check_eq(p.y[2], atan2(B[1], B[0]) - atan2(H[1], H[0]), "azimuth of the back vector from the half vector");
}
CONTRACT(P02_spherical) { pair p; p.get(params::SPHERICAL_TL_PL_TV_PV); vc_check_eq(p.y[0], acos(p.l[2]), "light elevation"); vc_check_eq(p.y[1], p.phi_l(), "light azimuth"); vc_check_eq(p.y[2], acos(p.v[2]), "view elevation"); vc_check_eq(p.y[3], p.phi_v(), "view azimuth"); }
CONTRACT(P02_stereographic) {
  pair p; vc_assume(p.v[2] > -0.99 && p.l[2] > -0.99); p.get(params::STEREOGRAPHIC);
  vc_check_eq(p.y[0], p.v[0]/(1 + p.v[2]), "view projection, first"); vc_check_eq(p.y[1], p.v[1]/(1 + p.v[2]), "view projection, second");
  vc_check_eq(p.y[2], p.l[0]/(1 + p.l[2]), "light projection, first"); vc_check_eq(p.y[3], p.l[1]/(1 + p.l[2]), "light projection, second");
}
CONTRACT(P02_cartesian) { pair p; params::from_cartesian(p.c, params::CARTESIAN, p.y); for (int i = 0; i < 6; ++i) vc_check_eq(p.y[i], p.c[i], "Cartesian coordinates are themselves"); }
CONTRACT(P02_above_hemisphere) {
  double x[4] = {vc_real_in("tl", 0, 3.14), vc_real_in("pl", -3.14, 3.14), vc_real_in("tv", 0, 3.14), vc_real_in("pv", -3.14, 3.14)};
  vc_check(params::is_above_hemisphere(x, params::SPHERICAL_TL_PL_TV_PV) == (cos(x[0]) >= 0 && cos(x[2]) >= 0), "above the hemisphere exactly when both directions are");
}
