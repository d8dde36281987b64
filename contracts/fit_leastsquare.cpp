// The least-squares fitter (plugins/rational_fitters/leastsquare.cpp), P21, for
// an abstract linear least-squares solver (any answer).
// vc-sources: sources/core/common.cpp sources/core/params.cpp sources/core/function.cpp sources/core/vertical_segment.cpp sources/core/rational_function.cpp
#include "vc.h"
namespace Eigen { template<typename D> struct vc_qr_of; }
#define EIGEN_MATRIXBASE_PLUGIN "eigen_qr.h"
#include <Eigen/Core>
static Eigen::VectorXd vc_least_squares(const Eigen::MatrixXd& A, const Eigen::VectorXd& b);
namespace Eigen { template<typename D> struct vc_qr_of { MatrixXd a; vc_qr_of(const D& d) : a(d) {} VectorXd solve(const VectorXd& b) const { return vc_least_squares(a, b); } }; }
#include "rational_fit.h"
static Eigen::MatrixXd asked; static Eigen::VectorXd wanted, solution_of[8]; static int solved;
static Eigen::VectorXd vc_least_squares(const Eigen::MatrixXd& A, const Eigen::VectorXd& b) {
  Eigen::VectorXd x(A.cols()); for (int i = 0; i < x.size(); ++i) x[i] = vc_real("solution");
  if (!vc_symbolic()) x = A.colPivHouseholderQr().solve(b);
  asked = A; wanted = b;
  solution_of[solved++] = x; return x;
}
#define private public
#define protected public
#define colPivHouseholderQr vc_qr
#include "sources/plugins/rational_fitters/leastsquare.cpp"
#undef private
#undef protected
static void fitted(int n, int nY, int np, int nq) {
  intervals d(n, 1, nY); basis f; const int y = vc_enum_in("channel", 0, nY - 1); f.resize(np, nq); rational_fitter_leastsquare r; r._max_iter = 1; solved = 0;
  vc_check(r.fit_data(d.ps, np, nq, y, &f), "there is a fit"); vc_check_ieq(solved, 2, "the denominator is fitted, then the numerator");
  const Eigen::VectorXd q = solution_of[0], p = solution_of[1]; vc_assume(q[0] > 1e-10 || q[0] < -1e-10);
  for (int i = 0; i < np; ++i) vc_check_eq(f.getP(i) * q[0], p[i] * f.getQ(0), "the fit has the coefficients of the solution"); for (int i = 0; i < nq; ++i) vc_check_eq(f.getQ(i) * q[0], q[i] * f.getQ(0), "the fit has the coefficients of the solution");
  vc_check(f.getQ(0) != 0.0, "the denominator is not zero");
  // with this denominator, no numerator has a smaller squared error: it solves the problem of fitting p / Q to the values
  vc_check(asked.rows() == n && asked.cols() == np && wanted.size() == n, "the numerator is fitted to every sample");
  for (int i = 0; i < n; ++i) {
    double Q = 0; for (int k = 0; k < nq; ++k) Q += q[k] * f.q(d.x(i), k); vc_assume(Q != 0.0); vc_check_eq(wanted[i], d.b[i * d.w + 1 + y], "the numerator is the least-squares one for the denominator");
    for (int j = 0; j < np; ++j) vc_check_eq(asked(i, j), f.p(d.x(i), j) / Q, "the numerator is the least-squares one for the denominator");
  }
}
CONTRACT_BOUNDED(P21_leastsquare, "up to 2 samples, 1+1 coefficients") { fitted(vc_upto("n", 1, 2, 60), 1, 1, 1); }
CONTRACT_BOUNDED(P21_leastsquare_coefficients, "2 samples, 2+2 coefficients") { fitted(vc_upto("n", 2, 2, 60), 1, 2, 2); }
CONTRACT_BOUNDED(P21_leastsquare_channels, "2 samples of 3 channels, 2+1 coefficients") { fitted(vc_upto("n", 2, 2, 60), 3, 2, 1); }
