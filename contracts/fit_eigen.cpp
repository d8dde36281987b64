// The eigenvector fitter (plugins/rational_fitters/eigen.cpp), P21, for an
// abstract eigen decomposition.
// vc-sources: sources/core/common.cpp sources/core/params.cpp sources/core/function.cpp sources/core/vertical_segment.cpp sources/core/rational_function.cpp
#include "vc.h"
#include "rational_fit.h"
static Eigen::MatrixXd gram, vectors; static Eigen::VectorXd values; static int success, decompositions;
namespace Eigen { template<typename M> struct AbstractEigenSolver {
  AbstractEigenSolver(const M& m) { gram = m; ++decompositions; }
  ComputationInfo info() const { return success ? Success : NoConvergence; }
  const VectorXd& eigenvalues() const { return values; } const MatrixXd& eigenvectors() const { return vectors; }
}; }
#define private public
#define protected public
#define SelfAdjointEigenSolver AbstractEigenSolver
#include "sources/plugins/rational_fitters/eigen.cpp"
#undef private
#undef protected
static void fitted(int n, int nY, int np, int nq) {
  intervals d(n, 1, nY); basis f; const int N = np + nq, y = vc_enum_in("channel", 0, nY - 1); success = vc_bool("success"); decompositions = 0;
  vectors = Eigen::MatrixXd(N, N); values = Eigen::VectorXd(N); for (int i = 0; i < N; ++i) { values[i] = vc_real("eigenvalue"); vc_assume(values[i] < 1e300); for (int j = 0; j < N; ++j) vectors(i, j) = vc_real("eigenvector"); }
  for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) vc_assume(values[i] != values[j]);
  f.resize(np, nq); rational_fitter_eigen r; const bool ok = r.fit_data(d.ps, np, nq, y, &f);
  vc_check_ieq(decompositions, 1, "the matrix is decomposed");
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
    double g = 0; for (int k = 0; k < n; ++k) { const double v = d.b[k * d.w + 1 + y]; double c[2]; const int ij[2] = {i, j}; for (int t = 0; t < 2; ++t) c[t] = ij[t] < np ? f.p(d.x(k), ij[t]) : -v * f.q(d.x(k), ij[t] - np); g += c[0] * c[1]; }
    vc_check_eq(gram(i, j), g, "the decomposed matrix is the sum over the samples of the squared linear residuals");
  }
  int m = -1; for (int i = 0; i < N; ++i) if (values[i] >= 0.0 && (m < 0 || values[i] < values[m])) m = i;
  vc_check(ok == (success && m >= 0), "there is a fit when there is a nonnegative eigenvalue"); if (!ok) return;
  const double b0 = vectors(np, m); vc_assume(b0 > 1e-10 || b0 < -1e-10);
  for (int i = 0; i < np; ++i) vc_check_eq(f.getP(i) * b0, vectors(i, m) * f.getQ(0), "the fit is the eigenvector of the smallest eigenvalue");
  for (int i = 0; i < nq; ++i) vc_check_eq(f.getQ(i) * b0, vectors(np + i, m) * f.getQ(0), "the fit is the eigenvector of the smallest eigenvalue");
  vc_check(f.getQ(0) != 0.0, "the denominator is not zero");
}
CONTRACT_BOUNDED(P21_eigen, "up to 2 samples, 1+1 coefficients") { fitted(vc_upto("n", 1, 2, 60), 1, vc_upto("np", 1, 1, 6), vc_upto("nq", 1, 1, 6)); }
CONTRACT_BOUNDED(P21_eigen_channels, "1 sample of 3 channels, 2+1 coefficients") { fitted(vc_upto("n", 1, 1, 30), 3, 2, 1); }
