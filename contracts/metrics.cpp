// Error metrics between two data sets (core/metrics.cpp), P18. The data sets are
// abstract (any values, any interpolated value), and so is the conversion of the
// input (its own contracts are P01 and P02).
// vc-sources: sources/core/common.cpp
#include "vc.h"
#include <map>
#include <core/function.h>
#include <core/params.h>
#include <core/common.h>
#include <core/data.h>
#define private public
#include "sources/core/metrics.cpp"
#undef private
#include <cmath>
#include "abstract_params.h"
#include "abstract_data.h"
static double absval(double x) { return x < 0 ? -x : x; }
static void norms(const errors::metrics& m, int c, const double* d, int n) {
  double s1 = 0, s2 = 0, s3 = 0, mx = 0;
  for (int i = 0; i < n; ++i) { const double a = absval(d[i]); s1 += a; s2 += a*a; s3 += a*a*a; if (a > mx) mx = a; }
  vc_check_eq(m.at("L1")[c], s1, "L1 is the sum of the deviations"); 
  vc_check_eq(m.at("L2")[c], sqrt(s2), "L2 is the root of the sum of the squared deviations");
  vc_check_eq(m.at("L3")[c], pow(s3, 1.0/3.0), "L3 is the cubic root of the sum of the cubed deviations");
  vc_check_eq(m.at("LInf")[c], mx, "LInf is the largest deviation");
  vc_check_eq(m.at("MSE")[c], s2/n, "MSE is the mean of the squared deviations");
  vc_check_eq(m.at("RMSE")[c], sqrt(s2/n), "RMSE is the root of the mean of the squared deviations");
}
// deviations of the selected samples
static void compared(int n, int nY, bool masked, params::input pi, params::input pr) {
  samples in(apar(pi, nY), 1), ref(apar(pr, nY), n), mask(apar(pr, 1), n); ref.fill("ref"); if (masked) mask.fill("mask");
  const int dx = ref.parametrization().dimX(); double* d[3]; for (int y = 0; y < 3; ++y) d[y] = new double[n]; int k = 0;
  for (int i = 0; i < n; ++i) {
    if (masked && mask.v[i][dx] == 0.0) continue;
    vec x(dx); for (int j = 0; j < dx; ++j) x[j] = ref.v[i][j];
    vec c = converted(x, pr, params::CARTESIAN);
    vec v = in.value(converted(c, params::CARTESIAN, pi));
    // both directions below the surface: nothing to compare
    const bool below = c[2] < 0.0 && c[5] < 0.0;
    for (int y = 0; y < nY; ++y) d[y][k] = below ? 0.0 : v[y] - ref.v[i][dx + y];
    ++k;
  }
  vc_assume(k > 0);
  errors::metrics m; m["stale"] = vec(1); errors::compute(&in, &ref, masked ? &mask : nullptr, m);
  vc_check_ieq(m.size(), 6, "six metrics are reported");
  for (int y = 0; y < nY; ++y) norms(m, y, d[y], k);
}
CONTRACT_BOUNDED(P18_metrics, "up to 2 samples, every parametrization of both sets") { const int n = vc_upto("n", 1, 2, 300); compared(n, 1, false, APAR[vc_enum_in("in", 0, 2)], APAR[vc_enum_in("ref", 0, 2)]); }
CONTRACT_BOUNDED(P18_metrics_channels, "2 samples of 3 channels") { compared(vc_upto("n", 2, 2, 100), 3, false, APAR[0], APAR[0]); }
CONTRACT_BOUNDED(P18_metrics_masked, "up to 3 samples") { compared(vc_upto("n", 1, 3, 100), 1, true, APAR[0], APAR[0]); }
