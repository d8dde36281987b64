// The diffuse term that data suggest (plugins/nonlinear_function_diffuse), P23:
// cosine-weighted data are divided by the cosines of both directions first.
// vc-sources: sources/core/common.cpp sources/core/function.cpp sources/core/vertical_segment.cpp
#include "vc.h"
#include <core/args.h>
#include "abstract_params.h"
#include "abstract_data.h"
#define private public
#define protected public
#include "sources/plugins/nonlinear_function_diffuse/function.cpp"
#undef private
#undef protected
static void bootstrapped(int n, int nY, params::input in, params::output out, bool option) {
  samples* d = new samples(alta::parameters(params::dimension(in), nY, in, out), n); d->fill("sample"); ptr<data> pd((data*)d); const int dx = d->parametrization().dimX();
  diffuse_function f(alta::parameters(6, nY, params::CARTESIAN, out)); arguments a; if (option) a.update("cos-fit", "");
  const bool weighted = option || out == params::INV_STERADIAN_COSINE_FACTOR; double* m[3]; for (int y = 0; y < 3; ++y) m[y] = new double[n]; int k = 0;
  for (int i = 0; i < n; ++i) {
    vec x(dx); for (int j = 0; j < dx; ++j) x[j] = d->v[i][j];
    vec c = converted(x, in, params::CARTESIAN); const bool above = c[2] > 0.0 && c[5] > 0.0; if (weighted && !above) continue;
    for (int y = 0; y < nY; ++y) { m[y][k] = weighted ? d->v[i][dx + y] / (c[2] * c[5]) : d->v[i][dx + y]; vc_assume(m[y][k] < 1e300); } // no overflow
    ++k;
  }
  vc_assume(k > 0); f.bootstrap(pd, a);
  for (int y = 0; y < nY; ++y) { double s = m[y][0]; for (int i = 1; i < k; ++i) if (m[y][i] < s) s = m[y][i]; vc_check_eq(f.value(vec::Zero(6))[y], s, weighted ? "the diffuse term is the smallest value, divided by the cosines" : "the diffuse term is the smallest value"); }
}
CONTRACT_BOUNDED(P23_diffuse, "up to 3 samples") { const int w = vc_enum_in("weight", 0, 2); bootstrapped(vc_upto("n", 1, 3, 100), 1, APAR[vc_enum_in("input", 0, 1)], w == 1 ? params::INV_STERADIAN_COSINE_FACTOR : params::INV_STERADIAN, w == 2); }
CONTRACT_BOUNDED(P23_diffuse_channels, "1 sample of 3 channels") { bootstrapped(vc_upto("n", 1, 1, 100), 3, APAR[0], params::RGB_COLOR, vc_bool("cos-fit")); }
CONTRACT(P23_weighted) {
  const params::output o = (params::output)vc_enum_in("output", 0, (int)params::UNKNOWN_OUTPUT);
  vc_check(params::is_cosine_weighted(o) == (o == params::INV_STERADIAN_COSINE_FACTOR), "only the cosine-factor output is cosine-weighted");
}
