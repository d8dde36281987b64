// Distances between a function and a data set (core/function.cpp), P18. The
// function, the data set and the conversion of the input are abstract.
// vc-sources: sources/core/common.cpp sources/core/function.cpp
#include "vc.h"
#include "abstract_params.h"
#include "abstract_data.h"
static void distances(int n, int nY, params::input pd, params::input pf) {
  samples* h = new samples(apar(pd, nY), n); ptr<data> p((data*)h); samples& d = *h; d.fill("sample"); model f(apar(pf, nY)); const function& g = f; const int dx = d.parametrization().dimX();
  double s = 0, mx = 0;
  for (int i = 0; i < n; ++i) {
    vec x(dx); for (int j = 0; j < dx; ++j) x[j] = d.v[i][j];
    vec v = f.value(pf == params::UNKNOWN_INPUT ? x : converted(x, pd, pf));
    for (int y = 0; y < nY; ++y) { const double e = d.v[i][dx + y] - v[y], a = e < 0 ? -e : e; s += e*e; if (a > mx) mx = a; }
  }
  vc_check_eq(g.L2_distance(p), sqrt(s/n), "the L2 distance is the root of the mean of the squared deviations");
  vc_check_eq(g.Linf_distance(p), mx, "the Linf distance is the largest deviation of all samples and channels");
}
CONTRACT_BOUNDED(P18_distance, "up to 3 samples, every parametrization of both sides") { const int n = vc_upto("n", 1, 3, 300); distances(n, 1, APAR[vc_enum_in("data", 0, 2)], APAR[vc_enum_in("function", 0, 2)]); }
CONTRACT_BOUNDED(P18_distance_channels, "2 samples of 3 channels") { distances(vc_upto("n", 2, 2, 100), 3, APAR[0], APAR[1]); }
CONTRACT_BOUNDED(P18_distance_unknown, "up to 3 samples, no parametrization") { const int n = vc_upto("n", 1, 3, 300); distances(n, 1, params::UNKNOWN_INPUT, params::UNKNOWN_INPUT); }
