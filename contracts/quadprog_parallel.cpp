// The parallel quadratic programming fitter (plugins/rational_fitters/
// quadprog_parallel.cpp and quadratic_program.h), P21.
// vc-sources: sources/core/common.cpp sources/core/params.cpp sources/core/function.cpp sources/core/vertical_segment.cpp sources/core/rational_function.cpp
#include "vc.h"
#include "rational_fit.h"
#define private public
#define protected public
#include "sources/plugins/rational_fitters/quadprog_parallel.cpp"
#undef private
#undef protected
function* plugins_manager::get_function(const arguments&, const parameters& p) { return new rational_function(p); }
static bool all_samples; static int channels;
double QuadProgPP::solve_quadprog(Ref<MatrixXd> G, Ref<const VectorXd> g0, Ref<const MatrixXd> CE, Ref<const VectorXd>, Ref<const MatrixXd> CI, Ref<const VectorXd> ci, Ref<VectorXd> x) {
  const intervals& d = *cur; const int N = cur_np + cur_nq; ++solves;
  vc_check_ieq(CE.cols(), 0, "there are no equality constraints"); vc_check(CI.rows() == N && CI.cols() == ci.size(), "every constraint has its slack"); if (all_samples) vc_check_ieq(CI.cols(), 2 * d.n, "there are two constraints for each sample");
  for (int i = 0; i < N; ++i) { vc_check_same(g0[i], 0.0, "the objective has no linear term"); for (int j = 0; j < N; ++j) vc_check_same(G(i, j), i == j ? 1.0 : 0.0, "the objective is the squared norm of the coefficients"); }
  if (all_samples) constrained(CI, ci);
  if (!solver_finds) return std::numeric_limits<double>::infinity();
  solution(CI, ci); for (int i = 0; i < N; ++i) x[i] = found[i];
  if (channels) ++cur_y; // the next channel is fitted next
  return 1.0;
}
static void posed(int n, int nY, int np, int nq, int start) {
  intervals d(n, 1, nY); basis f; cur = &d; curf = &f; cur_np = np; cur_nq = nq; cur_y = vc_enum_in("channel", 0, nY - 1); solver_finds = vc_bool("found"); solves = 0; all_samples = start > n;
  rational_fitter_parallel r; r.nb_starting_points = start; arguments a; double delta = cur_delta = 1.0; f.resize(np, nq); around(d, f, np, nq); vec p(np), q(nq);
  const bool ok = r.fit_data(d.ps, np, nq, cur_y, &f, a, p, q, delta);
  if (!solver_finds) { vc_check(!ok, "there is no fit without a solution"); return; }
  if (all_samples) vc_check(ok, "there is a fit when there is a solution"); if (!ok) return;
  for (int i = 0; i < np; ++i) vc_check_same(p[i], found[i], "the coefficients are those of the solution"); for (int i = 0; i < nq; ++i) vc_check_same(q[i], found[np + i], "the coefficients are those of the solution");
  for (int i = 0; i < n; ++i) enclosed(f, i);
}
CONTRACT_BOUNDED(P21_parallel, "1 sample, up to 2+2 coefficients") { const int a = vc_upto("np", 1, 2, 5), b = vc_upto("nq", 1, 2, 5); posed(vc_upto("n", 1, 1, 80), 1, a, b, 100); }
CONTRACT_BOUNDED(P21_parallel_samples, "2 samples, 2+1 coefficients") { posed(vc_upto("n", 2, 2, 80), 1, 2, 1, 100); }
CONTRACT_BOUNDED(P21_parallel_channels, "1 sample of 3 channels, 1+2 coefficients") { posed(vc_upto("n", 1, 1, 40), 3, 1, 2, 100); }
CONTRACT_BOUNDED(P21_parallel_training, "4 samples of which 2 are constraints at first, 1+1 coefficients") { posed(vc_upto("n", 4, 4, 60), 1, 1, 1, vc_upto("start", 2, 2, 20)); }
CONTRACT_BOUNDED(P21_parallel_training_channels, "3 samples of 2 channels of which 2 are constraints at first, 1+1 coefficients") { posed(vc_upto("n", 3, 3, 60), 2, 1, 1, vc_upto("start", 2, 2, 20)); }
// data of another kind are given intervals around their values, and the whole fit is within them
struct plain : data {
  int n; const double* v; plain(const alta::parameters& p, int n_, const double* v_) : data(p, n_), n(n_), v(v_) { _min = vec(1); _max = vec(1); _min[0] = vc_real("min"); _max[0] = vc_real("max"); }
  vec get(int i) const { const int w = _parameters.dimX() + _parameters.dimY(); vec r(w); for (int k = 0; k < w; ++k) r[k] = v[i * w + k]; return r; }
  void set(int, const vec&) {} vec value(const vec&) const { return vec(_parameters.dimY()); }
};
static void converted_data(int n, int nY, bool dt) {
  const int w = 1 + nY; double* v = new double[n * w]; for (int i = 0; i < n * w; ++i) { v[i] = i % w ? vc_real_above("value", 0) : vc_real("x"); if (!vc_symbolic() && n > 2 && i % w) v[i] = i / w ? v[i % w] * vc_real_in("spread", 0.97, 1.03) : v[i]; } truth.clear(); data* dat = new plain(rpar(1, nY), n, v);
  arguments a; a.update("min-np", "2"); a.update("np", "2"); if (dt) a.update("dt", "0.25"); const double h = dt ? 0.25 : (double)0.1f;
  intervals d(n, 1, nY); for (int i = 0; i < n; ++i) for (int k = 0; k < 1 + 3 * nY; ++k) d.b[i * d.w + k] = k <= nY ? v[i * w + k] : v[i * w + 1 + (k - 1) % nY] * (k <= 2 * nY ? 1.0 - h : 1.0 + h);
  basis f; cur = &d; curf = &f; cur_np = cur_nq = 1; cur_y = 0; cur_delta = 1.0; solver_finds = true; solves = 0; all_samples = true; channels = nY;
  ptr<function> fit((function*)new rational_function(rpar(1, nY))); ptr<data> pd(dat); rational_fitter_parallel r;
  if (!r.fit_data(pd, fit, a)) return;
  for (int i = 0; i < n; ++i) for (int y = 0; y < nY; ++y) { const double u = fit->value(d.x(i))[y], l = d.lo(i, y), h = d.up(i, y); vc_check_le(l, u, "a fit is within the interval of every sample"); vc_check_le(u, h, "a fit is within the interval of every sample"); }
}
CONTRACT_BOUNDED(P21_parallel_conversion, "up to 2 samples, 1+1 coefficients") { converted_data(vc_upto("n", 1, 2, 40), 1, vc_bool("dt")); }
CONTRACT_BOUNDED(P21_parallel_conversion_channels, "1 sample of 2 channels, 1+1 coefficients") { converted_data(vc_upto("n", 1, 1, 40), 2, false); }
