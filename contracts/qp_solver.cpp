// The quadratic programming solver (external/quadprog++), P36: the point it returns is the one
// of least objective among those that satisfy the constraints; oracle: the best of the points
// that minimise the objective with a subset of the constraints as equalities (KKT).
// vc-sources: sources/core/common.cpp
#include "vc.h"
#include <cmath>
#include <limits>
#include "external/quadprog++/QuadProg++.cc"
using namespace QuadProgPP;
typedef MatrixXd M; typedef VectorXd V;
static double cost(const M& G, const V& g, const V& x) { double f = 0; for (int i = 0; i < x.size(); ++i) { f += g[i] * x[i]; for (int j = 0; j < x.size(); ++j) f += 0.5 * x[i] * G(i, j) * x[j]; } return f; }
// --- two unknowns under the verifier
static void plane(int m) {
  M G(2, 2); G << 1, 0, 0, 1; V g(2), ce(0), b(m), x(2); M CE(2, 0), C(2, m); g.setZero(); x.setZero();
  for (int k = 0; k < m; ++k) { for (int i = 0; i < 2; ++i) C(i, k) = vc_real("c"); b[k] = vc_real("b"); }
  const double a0 = C(0, 0), a1 = C(1, 0), b0 = b[0], q = a0 * a0 + a1 * a1; vc_assume(q > 1e-3); vc_assume(b0 >= 0 || b0 < -1e-6); vc_assume(a0 > 1e-6 || a0 < -1e-6 || a0 == 0); vc_assume(a1 > 1e-6 || a1 < -1e-6 || a1 == 0);
  const double f = solve_quadprog(G, g, CE, ce, C, b, x);
  if (b0 >= 0) { vc_check_eq(x[0], 0.0, "a minimiser that satisfies the constraint is kept"); vc_check_eq(x[1], 0.0, "a minimiser that satisfies the constraint is kept"); vc_check_eq(f, 0.0, "with its objective"); return; }
  vc_check_eq(x[0] * q, -b0 * a0, "otherwise the point is the closest one of the constraint"); vc_check_eq(x[1] * q, -b0 * a1, "otherwise the point is the closest one of the constraint"); vc_check_eq(f * q, 0.5 * b0 * b0, "with its objective");
}
CONTRACT_BOUNDED(P36_plane, "2 unknowns and 1 inequality") { plane(1); }
static bool apart(double v) { return v >= 0 || v < -1e-6; } // clearly satisfied or clearly violated
static void line() { // one unknown: the interval of the points that satisfy two constraints
  M G(1, 1), CE(1, 0), C(1, 2); V g(1), ce(0), b(2), x(1); G(0, 0) = 1; g[0] = 0; x[0] = 0;
  const double c0 = vc_enum_in("slope", 1, 2) * (vc_bool("side") ? 1.0 : -1.0), c1 = vc_enum_in("slope", 1, 2) * (vc_bool("side") ? 1.0 : -1.0), x0 = vc_real("x"), x1 = vc_real("x"), b0 = -c0 * x0, b1 = -c1 * x1;
  vc_assume(apart(b0)); vc_assume(apart(b1)); vc_assume(apart(c1 * (x0 - x1))); vc_assume(apart(c0 * (x1 - x0))); C(0, 0) = c0; C(0, 1) = c1; b[0] = b0; b[1] = b1;
  const double f = solve_quadprog(G, g, CE, ce, C, b, x); const bool ok0 = c1 * (x0 - x1) >= 0, ok1 = c0 * (x1 - x0) >= 0, zero = b0 >= 0 && b1 >= 0;
  if (zero) { vc_check_eq(x[0], 0.0, "a minimiser that satisfies the constraints is kept"); vc_check_eq(f, 0.0, "with its objective"); return; }
  if (!ok0 && !ok1) { vc_check(f == std::numeric_limits<double>::infinity(), "there is no solution when the constraints exclude each other"); return; }
  vc_check(f < std::numeric_limits<double>::infinity(), "there is a solution otherwise"); const double y = !ok1 || (ok0 && x0 * x0 <= x1 * x1) ? x0 : x1; vc_check_eq(x[0], y, "it is the closest end of the interval"); vc_check_eq(f, 0.5 * y * y, "with its objective");
}
CONTRACT_BOUNDED(P36_line, "1 unknown and 2 inequalities of slope 1 or 2") { line(); }
static void equality(int n) {
  M G(n, n), CE(n, 1), C(n, 0); V g(n), e(1), b(0), x(n), c(n); G.setIdentity(); double q = 0, s = 0;
  for (int i = 0; i < n; ++i) { g[i] = vc_real("g"); c[i] = vc_real("c"); CE(i, 0) = c[i]; vc_assume(c[i] > 0.01 || c[i] < -0.01); q += c[i] * c[i]; s -= c[i] * g[i]; } e[0] = vc_real("e");
  const double f = solve_quadprog(G, g, CE, e, C, b, x), t = -(s + e[0]); double F = 0;
  for (int i = 0; i < n; ++i) { vc_check_eq(x[i] * q, -g[i] * q + t * c[i], "the point is the closest one to the minimiser on the plane"); const double y = -g[i] + t * c[i] / q; F += 0.5 * y * y + g[i] * y; }
  vc_check_eq(f * q, F * q, "with its objective");
}
CONTRACT_BOUNDED(P36_equality, "2 unknowns and 1 equality") { equality(2); }
// --- any program, natively
static double entry(const char* n, int r) { return vc_symbolic() ? vc_enum_in(n, -1, 1) : vc_int_in(n, -r, r); }
static bool solved(M A, V b, V& x) { // Gaussian elimination; false when the system is singular
  const int n = b.size(); for (int i = 0; i < n; ++i) { int k = i; for (int j = i + 1; j < n; ++j) if (std::fabs(A(j, i)) > std::fabs(A(k, i))) k = j; if (std::fabs(A(k, i)) < 1e-7) return false;
    for (int c = 0; c < n; ++c) { const double t = A(i, c); A(i, c) = A(k, c); A(k, c) = t; } const double t = b[i]; b[i] = b[k]; b[k] = t;
    for (int j = 0; j < n; ++j) if (j != i) { const double f = A(j, i) / A(i, i); for (int c = i; c < n; ++c) A(j, c) -= f * A(i, c); b[j] -= f * b[i]; } }
  x = V(n); for (int i = 0; i < n; ++i) x[i] = b[i] / A(i, i); return true;
}
static void program(int n, int p, int m, int mode, bool identity) {
  M A(n, n), G(n, n), CE(n, p), C(n, m); V g(n), e(p), b(m), x(n), best(n); double low = std::numeric_limits<double>::infinity();
  for (int i = 0; i < n; ++i) { g[i] = identity ? 0 : entry("g", 3); for (int j = 0; j < n; ++j) A(i, j) = identity ? 0 : vc_symbolic() ? (i == j && i ? 2 : i <= j) : entry("G", 2); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { G(i, j) = i == j && (identity || !vc_symbolic()) ? 1 : 0; for (int k = 0; k < n; ++k) G(i, j) += A(k, i) * A(k, j); }
  for (int k = 0; k < p; ++k) { for (int i = 0; i < n; ++i) CE(i, k) = entry("ce", 3); e[k] = entry("e", 3); }
  for (int k = 0; k < m; ++k) { for (int i = 0; i < n; ++i) C(i, k) = entry("ci", 3); b[k] = entry("b", 3); }
  for (int s = 0; s < (1 << m); ++s) {
    int k = p; for (int i = 0; i < m; ++i) k += s >> i & 1; if (k > n) continue;
    M K(n + k, n + k); V w(n + k), y, z(n); for (int i = 0; i < n + k; ++i) for (int j = 0; j < n + k; ++j) K(i, j) = i < n && j < n ? G(i, j) : 0;
    for (int i = 0; i < n; ++i) w[i] = -g[i]; for (int c = 0, i = 0; c < k; ++c) { if (c >= p) { while (!(s >> i & 1)) ++i; } for (int j = 0; j < n; ++j) K(j, n + c) = K(n + c, j) = c < p ? CE(j, c) : C(j, i); w[n + c] = -(c < p ? e[c] : b[i]); if (c >= p) ++i; }
    if (!solved(K, w, y)) { vc_assume(k > p || p == 0); continue; } for (int i = 0; i < n; ++i) z[i] = y[i];
    bool in = true; for (int i = 0; i < m; ++i) { double v = b[i]; for (int j = 0; j < n; ++j) v += C(j, i) * z[j]; if (v < -1e-8) in = false; } if (in && cost(G, g, z) < low) { low = cost(G, g, z); best = z; }
  }
  double f; M L = G;
  if (mode == 0) f = solve_quadprog(L, g, CE, e, C, b, x);
  else {
    Scheduling sc; if (mode == 1) sc.initSlidingWindows(n, m); if (mode == 2) sc.initWorstSetFirst(n, m); if (mode == 3) { sc.initSlidingWindows(n, m); sc.grow_factor = 2; } if (mode != 2) sc.initial_chunk_size = vc_upto("chunk", 1, m > 1 ? 2 : 1, m);
    VectorXi act; init_qp(L); solved(G, -g, x); f = solve_quadprog_with_guess(L, g, CE, e, C, b, x, sc, &act);
  }
  const bool found = low < std::numeric_limits<double>::infinity(); vc_check((f < 1e300) == found, "a solution is found when there is one"); if (!found || !(f < 1e300)) return;
  vc_check(std::fabs(f - low) <= 1e-6 * (1 + std::fabs(low)), "the objective is the least one"); for (int i = 0; i < n; ++i) vc_check(std::fabs(x[i] - best[i]) <= 1e-5 * (1 + std::fabs(best[i])), "the point is the feasible one of least objective");
}
CONTRACT_BOUNDED(P36_norm, "integer constraints, up to 4 unknowns and 7 inequalities") { const int n = vc_upto("n", 2, 2, 4); program(n, 0, vc_upto("m", 1, 2, 7), 0, true); }
CONTRACT_BOUNDED(P36_programs, "integer programs, up to 4 unknowns, 2 equalities and 7 inequalities") { const int n = vc_upto("n", 2, 2, 4); program(n, vc_upto("p", 0, 0, 2), vc_upto("m", 1, 1, 7), 0, false); }
CONTRACT_BOUNDED(P36_scheduling, "integer constraints, up to 4 unknowns and 7 inequalities, every order of the constraints") { const int n = vc_upto("n", 1, 1, 4); program(n, 0, vc_upto("m", 1, 2, 7), vc_enum_in("mode", 1, 3), true); }
