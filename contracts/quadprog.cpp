// The quadratic programming fitter (plugins/rational_fitters/quadprog.cpp), P21:
// the program it poses, and what it makes of its solution.
// vc-sources: sources/core/common.cpp sources/core/params.cpp sources/core/function.cpp sources/core/vertical_segment.cpp sources/core/rational_function.cpp
#include "vc.h"
#include "rational_fit.h"
#define private public
#define protected public
#include "sources/plugins/rational_fitters/quadprog.cpp"
#undef private
#undef protected
static bool cur_ls;
void QuadProgPP::init_qp(Ref<MatrixXd> G) {
  const intervals& d = *cur; const int N = cur_np + cur_nq; vc_check(G.rows() == N && G.cols() == N, "the objective is over the coefficients");
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
    double g = i == j ? 1.0 : 0.0;
    if (cur_ls) for (int k = 0; k < d.n; ++k) { const double m = (d.lo(k, cur_y) + d.up(k, cur_y)) / 2.0; double c[2]; const int ij[2] = {i, j}; for (int t = 0; t < 2; ++t) c[t] = ij[t] < cur_np ? curf->p(d.x(k), ij[t]) : -m * curf->q(d.x(k), ij[t] - cur_np); g += 1e2 * c[0] * c[1]; }
    vc_check_eq(G(i, j), g, "the objective is the squared norm of the coefficients, plus the least-squares energy when asked for");
  }
}
double QuadProgPP::solve_quadprog_with_guess(Ref<const MatrixXd>, Ref<const VectorXd> g0, Ref<const MatrixXd> CE, Ref<const VectorXd>, Ref<const MatrixXd> CI, Ref<const VectorXd> ci, Ref<VectorXd> x, Scheduling, VectorXi*) {
  const intervals& d = *cur; const int N = cur_np + cur_nq; ++solves;
  vc_check_ieq(CE.cols(), 0, "there are no equality constraints"); vc_check(CI.rows() == N && CI.cols() == 2 * d.n && ci.size() == 2 * d.n, "there are two constraints for each sample");
  for (int i = 0; i < N; ++i) vc_check_same(g0[i], 0.0, "the objective has no linear term");
  constrained(CI, ci); if (!solver_finds) return std::numeric_limits<double>::infinity();
  solution(CI, ci); for (int i = 0; i < N; ++i) x[i] = found[i];
  return 1.0;
}
static void posed(int n, int nY, int np, int nq, bool ls) {
  intervals d(n, 1, nY); basis f; cur = &d; curf = &f; cur_np = np; cur_nq = nq; cur_y = vc_enum_in("channel", 0, nY - 1); cur_ls = ls; solver_finds = vc_bool("found"); solves = 0;
  rational_fitter_quadprog r; cur_delta = vc_real_above("delta", 0); r._delta = cur_delta; r._add_ls_energy = ls; r._export_qp = false; r._scheduling_mode = "SlidingWindows"; r._scheduling_chunk_size = -1; r._scheduling_grow_factor = -1;
  f.resize(np, nq); around(d, f, np, nq); const bool ok = r.fit_data(d.ps, np, nq, cur_y, &f);
  vc_check_ieq(solves, 1, "the program is solved"); if (!solver_finds) { vc_check(!ok, "there is no fit without a solution"); return; }
  vc_check(ok, "there is a fit when there is a solution");
  for (int i = 0; i < n; ++i) enclosed(f, i);
}
CONTRACT(P21_quotient) { quotient_enclosed(); }
CONTRACT_BOUNDED(P21_quadprog, "1 sample, up to 2+2 coefficients") { const int a = vc_upto("np", 1, 2, 5), b = vc_upto("nq", 1, 2, 5); posed(vc_upto("n", 1, 1, 80), 1, a, b, false); }
CONTRACT_BOUNDED(P21_quadprog_samples, "2 samples, 2+1 coefficients") { posed(vc_upto("n", 2, 2, 80), 1, 2, 1, false); }
CONTRACT_BOUNDED(P21_quadprog_channels, "1 sample of 3 channels, 1+2 coefficients") { posed(vc_upto("n", 1, 1, 40), 3, 1, 2, false); }
CONTRACT_BOUNDED(P21_quadprog_energy, "1 sample, 1+1 coefficients") { posed(vc_upto("n", 1, 1, 40), 1, vc_upto("np", 1, 1, 3), 1, true); }
