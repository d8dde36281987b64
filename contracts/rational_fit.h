// A rational function with abstract basis functions (the first one is 1) and an abstract quadratic
// program solver, for the rational fitters (P21).
#pragma once
#include <core/common.h>
#include <core/params.h>
#include <core/data.h>
#include <core/function.h>
#include <core/fitter.h>
#include <core/args.h>
#include <core/rational_function.h>
#include <core/vertical_segment.h>
#include <Eigen/Dense>
#include <Eigen/SVD>
#include <QuadProg++.hh>
#include <list>
#include <fstream>
#include <iomanip>
#include <string>
using namespace alta;
void data::save(const std::string&) const {}
bool data::equals(const data&, double) { return false; }
inline alta::parameters rpar(int dx, int nY) { return alta::parameters(dx, nY, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT); }
struct basis : rational_function_1d {
  basis(int dx = 1) : rational_function_1d(rpar(dx, 1)) {}
  double uf(int w, const vec& x, int i) const { vc_check(x.size() >= parametrization().dimX(), "the basis is evaluated with the coordinates of the sample"); if (i == 0) return 1.0; double a[5] = {0, 0, 0, 0, 0}; a[0] = w; a[1] = i; for (int k = 0; k < parametrization().dimX() && k < 3; ++k) a[2 + k] = x[k]; return vc_uf("basis", 5, a); }
  virtual double p(const vec& x, int i) const { return uf(0, x, i); }
  virtual double q(const vec& x, int i) const { return uf(1, x, i); }
  virtual vec p(const vec& x) const { return rational_function_1d::p(x); }
  virtual vec q(const vec& x) const { return rational_function_1d::q(x); }
};
static void interval_delete(double* p) { delete[] p; }
// samples with intervals: any, with nonempty intervals
struct intervals {
  int n, dx, nY, w; double* b; vertical_segment* s; ptr<vertical_segment> ps;
  intervals(int n_, int dx_, int nY_) : n(n_), dx(dx_), nY(nY_), w(dx_ + 3 * nY_), b(new double[n_ * (dx_ + 3 * nY_)]) {
    for (int i = 0; i < n * w; ++i) b[i] = vc_real("sample");
    for (int i = 0; i < n; ++i) for (int y = 0; y < nY; ++y) vc_assume(lo(i, y) < up(i, y));
    s = new vertical_segment(rpar(dx, nY), n, std::shared_ptr<double>(b, interval_delete)); ps = ptr<vertical_segment>(s);
  }
  double lo(int i, int y) const { return b[i * w + dx + nY + y]; }
  double up(int i, int y) const { return b[i * w + dx + 2 * nY + y]; }
  vec x(int i) const { vec r(dx); for (int k = 0; k < dx; ++k) r[k] = b[i * w + k]; return r; }
};
// the program being posed
static const intervals* cur; static const basis* curf; static int cur_np, cur_nq, cur_y; static double cur_delta; static bool solver_finds;
static vec found; static int solves;
// coefficients whose function is near the interval of the first sample: random ones seldom are (this only steers tests, proofs take any)
static std::vector<double> truth; // tests: coefficients within every interval
static void around(intervals& d, const basis& f, int np, int nq) {
  truth.clear(); if (vc_symbolic() || !(d.n > 3 || vc_bool("around"))) return;
  for (int i = 0; i < np + nq; ++i) truth.push_back(vc_real_in("truth", -3, 3));
  const double margin = vc_real_in("margin", 0.01, 2);
  for (int k = 0; k < d.n; ++k) {
    double P = 0, Q = 0; for (int i = 0; i < np; ++i) P += truth[i] * f.p(d.x(k), i); for (int i = 0; i < nq; ++i) Q += truth[np + i] * f.q(d.x(k), i);
    if (k == 0 && Q < 0) { for (int i = 0; i < np + nq; ++i) truth[i] = -truth[i]; P = -P; Q = -Q; } if (Q < 0.05) { truth[np] += 0.1 - Q; k = -1; continue; }
    for (int y = 0; y < d.nY; ++y) { double* r = d.b + (long)k * d.w + d.dx; const double v = P / Q; r[y] = v; r[d.nY + y] = v - margin * (1 + std::abs(v)) * vc_real_in("below", 0.1, 1); r[2 * d.nY + y] = v + margin * (1 + std::abs(v)) * vc_real_in("above", 0.1, 1); }
  }
}
static void steer(double* a, double r, double scale, int move) {
  if (vc_symbolic()) return;
  if (!truth.empty()) { for (int i = 0; i < cur_np + cur_nq; ++i) a[i] = truth[i] * scale; if (move) a[vc_int_in("moved", 0, move - 1)] += r * vc_real_in("by", 0, 0.1); return; }
  const intervals& d = *cur; double P = 0, Q = 0; for (int i = 0; i < cur_np; ++i) P += a[i] * curf->p(d.x(0), i); for (int i = 0; i < cur_nq; ++i) Q += a[cur_np + i] * curf->q(d.x(0), i);
  a[0] += (d.lo(0, cur_y) + r * (d.up(0, cur_y) - d.lo(0, cur_y))) * Q - P; for (int i = 0; i < cur_np + cur_nq; ++i) a[i] *= scale;
}
// for any coefficients: the constraints hold without slack exactly when the function is within the intervals (with a denominator of one sign), and have the slack announced
inline void constrained(const Eigen::Ref<const Eigen::MatrixXd>& CI, const Eigen::Ref<const Eigen::VectorXd>& ci) {
  const intervals& d = *cur; const int N = cur_np + cur_nq;
  double a[16]; for (int i = 0; i < N; ++i) a[i] = vc_real("coefficient"); steer(a, vc_real("position"), 1.0, N);
  int rows = 1, neg = 1, pos = 1;
  for (int k = 0; k < CI.cols(); ++k) {
    double s = 0, m = 0; for (int i = 0; i < N; ++i) { s += CI(i, k) * a[i]; if (!vc_symbolic()) m += fabs(CI(i, k) * a[i]); }
    if (!vc_symbolic()) vc_assume(fabs(s) > 1e-9 * m); // tests: beyond rounding
    rows &= s >= 0.0;
  }
  for (int k = 0; k < d.n; ++k) {
    double P = 0, Q = 0; for (int i = 0; i < cur_np; ++i) P += a[i] * curf->p(d.x(k), i); for (int i = 0; i < cur_nq; ++i) Q += a[cur_np + i] * curf->q(d.x(k), i);
    pos &= (P - d.lo(k, cur_y) * Q >= 0.0) & (d.up(k, cur_y) * Q - P >= 0.0); neg &= (d.lo(k, cur_y) * Q - P >= 0.0) & (P - d.up(k, cur_y) * Q >= 0.0);
  }
  vc_check((rows == neg) | (rows == pos), "coefficients satisfy the constraints exactly when the function is within the intervals");
}
// any solution of the program
inline void solution(const Eigen::Ref<const Eigen::MatrixXd>& CI, const Eigen::Ref<const Eigen::VectorXd>& ci) {
  const int N = cur_np + cur_nq; double f[16]; for (int i = 0; i < N; ++i) f[i] = vc_real("solution"); steer(f, 0.5, 1e4, 0);
  if (!vc_symbolic()) { // the sign and the scale the constraints need
    double s = 0; for (int i = 0; i < N; ++i) s += CI(i, 0) * f[i]; if (s < 0) for (int i = 0; i < N; ++i) f[i] = -f[i];
    double big = 1; for (int k = 0; k < CI.cols(); ++k) { double s = 0; for (int i = 0; i < N; ++i) s += CI(i, k) * f[i]; if (s > 0 && -ci[k] / s > big) big = -ci[k] / s; } if (big > 1) for (int i = 0; i < N; ++i) f[i] *= 2 * big;
  }
  found = vec(N); for (int i = 0; i < N; ++i) found[i] = f[i];
  for (int k = 0; k < CI.cols(); ++k) {
    double s = 0, n2 = 0; for (int i = 0; i < N; ++i) { s += CI(i, k) * found[i]; n2 += CI(i, k) * CI(i, k); } vc_assume(s + ci[k] >= 0.0);
    const double e = ci[k]; vc_check_eq(e, -cur_delta * sqrt(n2), "the slack of a constraint is delta times its norm");
    vc_check_eq(CI(0, k) * CI(0, k), 1.0, "(lemma) the norm of a constraint is positive"); vc_assume(CI(0, k) * CI(0, k) == 1.0);
    vc_check_lt(0.0, n2, "(lemma) the norm of a constraint is positive"); vc_assume(n2 > 0.0); vc_check_lt(e, 0.0, "(lemma) the slack of a constraint is positive"); vc_assume(e < 0.0); vc_assume(s > 0.0);
  }
}
// (lemma) a numerator within an interval times the denominator has a quotient within the interval
inline void quotient_enclosed() {
  const double lo = vc_real("lo"), up = vc_real("up"), P = vc_real("P"), Q = vc_real("Q"); vc_assume(Q != 0.0);
  if (Q < 0.0) vc_assume(P <= lo * Q && up * Q <= P); else vc_assume(lo * Q <= P && P <= up * Q);
  const double u = P / Q; vc_check_le(lo, u, "the quotient is within the interval"); vc_check_le(u, up, "the quotient is within the interval");
}
// the fit is the solution, and within the interval of sample i
inline void enclosed(const basis& f, int i) {
  const intervals& d = *cur; double P = 0, Q = 0; for (int k = 0; k < cur_np; ++k) P += found[k] * f.p(d.x(i), k); for (int k = 0; k < cur_nq; ++k) Q += found[cur_np + k] * f.q(d.x(i), k);
  vc_check(Q != 0.0 , "the denominator of a fit does not vanish at the samples"); vc_assume(Q != 0.0);
  const double v = f.value(d.x(i))[0], u = P / Q; vc_check_eq(v, u, "the fit has the coefficients of the solution"); vc_assume(v == u);
  const double L = d.lo(i, cur_y) * Q, U = d.up(i, cur_y) * Q; const bool neg = Q < 0.0;
  // by quotient_enclosed, the quotient is then within the interval
  vc_check_le(neg ? P : L, neg ? L : P, "a fit is within the interval of every sample"); vc_check_le(neg ? U : P, neg ? P : U, "a fit is within the interval of every sample");
}
