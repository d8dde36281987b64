// MERL tables (P13).
// vc-sources: sources/core/common.cpp sources/core/params.cpp sources/core/data.cpp sources/core/data_storage.cpp sources/core/vertical_segment.cpp
#include "vc.h"
#include "outputs.h"
#include <sstream>
#include <fstream>
#include <map>
#include <vector>
#include <memory>
#include <core/data.h>
#include <core/common.h>
#include <core/args.h>
#define private public
#include <plugins/data_io/merl.cpp>
#undef private
static const int N = 90 * 90 * 180;
static const double SCALE[3] = {1.0/1500, 1.15/1500, 1.66/1500};
struct table : MERL { table() : MERL(alta::parameters(3, 3, params::RUSIN_TH_TD_PD, params::RGB_COLOR)) { brdf = new double[3 * N]; vc_array("brdf", brdf, 3 * N); } };
CONTRACT(P13_theta_half) { table t; const int i = vc_int_in("i", 0, 89); const double a = t.theta_half_from_index(i); vc_check(a >= 0 && a <= 0.5*M_PI, "the angle of a cell is in range"); vc_check_ieq(t.theta_half_index(a), i, "the angle of a cell looks up the same cell"); }
CONTRACT(P13_theta_diff) { table t; const int i = vc_int_in("i", 0, 89); const double a = t.theta_diff_from_index(i); vc_check(a >= 0 && a <= 0.5*M_PI, "the angle of a cell is in range"); vc_check_ieq(t.theta_diff_index(a), i, "the angle of a cell looks up the same cell"); }
CONTRACT(P13_phi_diff) { table t; const int i = vc_int_in("i", 0, 179); const double a = t.phi_diff_from_index(i); vc_check(a >= 0 && a <= M_PI, "the angle of a cell is in range"); vc_check_ieq(t.phi_diff_index(a), i, "the angle of a cell looks up the same cell"); }
CONTRACT(P13_get) {
  table t; const int i = vc_int_in("i", 0, N - 1); vec v = t.get(i); vc_check_ieq(v.size(), 6, "a sample has three angles and three values");
  for (int c = 0; c < 3; ++c) vc_check_eq(v[3 + c], t.brdf[i + c * N] * SCALE[c], "the values of a cell are the stored ones with the scale of their channel");
  vc_check(v[0] >= 0 && v[0] <= 0.5*M_PI && v[1] >= 0 && v[1] <= 0.5*M_PI && v[2] >= 0 && v[2] <= M_PI, "the angles of a cell are in range");
}
CONTRACT(P13_lookup) {
  table t; const int a = vc_int_in("theta_h", 0, 89), b = vc_int_in("theta_d", 0, 89), k = vc_int_in("phi_d", 0, 179), i = (a * 90 + b) * 180 + k; vec s = t.get(i), x(3);
  vc_check_eq(s[0], t.theta_half_from_index(a), "half angle of a cell"); vc_check_eq(s[1], t.theta_diff_from_index(b), "difference angle of a cell"); vc_check_eq(s[2], t.phi_diff_from_index(k), "azimuth of a cell"); for (int c = 0; c < 3; ++c) x[c] = s[c];
  vec v = t.value(x); vc_check_ieq(v.size(), 3, "three values"); const bool neg = t.brdf[i] < 0 || t.brdf[i + N] < 0 || t.brdf[i + 2*N] < 0;
  for (int c = 0; c < 3; ++c) vc_check_eq(v[c], neg ? 0 : t.brdf[i + c * N] * SCALE[c], "the angles of a cell look up its values");
}
CONTRACT(P13_set) {
  table t; const int i = vc_int_in("i", 0, N - 1), o = vc_int_in("other", 0, 3*N - 1); vec x(6); for (int c = 0; c < 6; ++c) x[c] = vc_real("x"); const double before = t.brdf[o];
  t.set(i, x); for (int c = 0; c < 3; ++c) vc_check_eq(t.brdf[i + c * N], x[3 + c] / SCALE[c], "setting a cell stores its values");
  if (o != i && o != i + N && o != i + 2*N) vc_check_eq(t.brdf[o], before, "setting a cell changes no other cell");
  vec v = t.get(i); for (int c = 0; c < 3; ++c) vc_check_eq(v[3 + c], x[3 + c], "a cell returns the values that were set");
}
// any angles in the tabulated range address the cell whose interval holds them
CONTRACT(P13_any_angles) {
  table t; const double th = vc_real_in("theta_h", 0, 1), td = vc_real_in("theta_d", 0, 1), pd = vc_real_in("phi_d", 0, 2); vec x(3); x[0] = th * 0.5*M_PI; x[1] = td * 0.5*M_PI; x[2] = pd * M_PI;
  vec v = t.value(x); vc_check_ieq(v.size(), 3, "three values");
  const int i = t.theta_half_index(x[0]), j = t.theta_diff_index(x[1]), k = t.phi_diff_index(pd > 1 ? (2 - pd) * M_PI : x[2]);
  vc_check(i >= 0 && i < 90 && j >= 0 && j < 90 && k >= 0 && k < 180, "angles in range address a cell of the table");
  const int n = (i * 90 + j) * 180 + k; const bool neg = t.brdf[n] < 0 || t.brdf[n + N] < 0 || t.brdf[n + 2*N] < 0;
  for (int c = 0; c < 3; ++c) vc_check_eq(v[c], neg ? 0 : t.brdf[n + c * N] * SCALE[c], "the value is that of the addressed cell");
}
CONTRACT(P13_index_range) {
  table t; const double a = vc_real_in("angle", 0, 1);
  const int i = t.theta_half_index(a * 0.5*M_PI), j = t.theta_diff_index(a * 0.5*M_PI), k = t.phi_diff_index(a * M_PI);
  vc_check(i >= 0 && i < 90, "index of the half angle"); vc_check(j >= 0 && j < 90, "index of the difference angle"); vc_check(k >= 0 && k < 180, "index of the azimuth");
  vc_check(i == 89 || ((double)i*i <= a * 8100 && a * 8100 < (double)(i + 1)*(i + 1)), "cells of the half angle are evenly spaced in its square root");
  vc_check(j == 89 || (j <= a * 90 && a * 90 < j + 1), "cells of the difference angle are evenly spaced"); vc_check(k == 179 || (k <= a * 180 && a * 180 < k + 1), "cells of the azimuth are evenly spaced");
}
// --- files (P34)
static void header(std::ostream& f, int a, int b, int c) { const int dims[3] = {a, b, c}; f.write((const char*)dims, sizeof dims); }
CONTRACT(P34_merl) {
  table t; t.save("table.merl"); std::ifstream f("table.merl"); data* d = load_data(f, arguments()); vc_check(d != NULL, "a file that was saved is loaded"); if (!d) return;
  vc_check_ieq(d->size(), N, "number of cells"); vc_check(d->parametrization().input_parametrization() == params::RUSIN_TH_TD_PD && d->parametrization().output_parametrization() == params::RGB_COLOR, "parametrization of the format");
  const int i = vc_int_in("i", 0, N - 1); const vec a = t.get(i), b = d->get(i); for (int j = 0; j < 6; ++j) vc_check_same(b[j], a[j], "a cell is read back as it was saved"); delete d;
}
CONTRACT(P34_merl_format) { // the published format: three sizes, then the planes of the colours
  double* b = new double[3 * N]; vc_array("numbers", b, 3 * N); std::stringstream f; header(f, 90, 90, 180); f.write((const char*)b, 3 * N * sizeof(double));
  data* d = load_data(f, arguments()); vc_check(d != NULL, "a file of the format is loaded"); if (!d) return; const int i = vc_int_in("i", 0, N - 1); const vec v = d->get(i);
  for (int c = 0; c < 3; ++c) vc_check_eq(v[3 + c], b[i + c * N] * SCALE[c], "the values of a cell are those of the file, with the scale of their channel"); delete d;
}
CONTRACT(P34_merl_broken) {
  double* b = new double[3 * N]; vc_array("numbers", b, 3 * N); const int kind = vc_enum_in("kind", 0, 11); std::stringstream f;
  if (kind == 0) header(f, 91, 90, 180); else if (kind == 1) header(f, 90, 90, 360); else if (kind == 2) header(f, 90, 89, 180); else if (kind == 3) f << "8 bytes."; else if (kind == 8) header(f, 180, 90, 90); else if (kind == 9) header(f, 90, 180, 90); else if (kind == 10) header(f, -90, -90, 180); else if (kind == 11) header(f, 45, 180, 180); else if (kind > 4) header(f, 90, 90, 180);
  const int miss = kind == 5 ? 3 * N : kind == 6 ? 1 : kind == 7 ? 2 * N : 0; if (kind != 3 && kind != 4 && miss < 3 * N) f.write((const char*)b, (3 * N - miss) * sizeof(double));
  data* d = load_data(f, arguments()); vc_check(d == NULL, "a file of other sizes, or that ends before its last value, is refused");
}
CONTRACT(P35_merl) { table t; outputs([&](const char* o) { return !refused([&] { t.save(o); }); }); }
