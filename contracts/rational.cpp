// Rational functions: enumeration of the multi-degrees (P10) and evaluation in the monomial basis (P11).
// vc-native-sources: sources/core/data.cpp sources/core/data_storage.cpp sources/core/vertical_segment.cpp
// vc-sources: sources/core/common.cpp sources/core/function.cpp sources/core/params.cpp sources/core/rational_function.cpp
#include "vc.h"
#include <core/rational_function.h>
#include <core/params.h>
#include <core/common.h>
#include <cmath>
using namespace alta;
static int choose(int n, int k) { long r = 1; for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i; return (int)r; }
static void degrees(int d, int last) {
  rational_function_1d r(alta::parameters(d, 1, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT), 0, 0);
  std::vector<std::vector<int> > seen; int prev = 0, block = 0; bool grows = true, nonneg = true, dims = true, once = true, full = true;
  for (int i = 0; i <= last; ++i) {
    std::vector<int> g = r.index2degree(i); int s = 0;
    if ((int)g.size() != d) { dims = false; break; }
    for (int k = 0; k < d; ++k) { s += g[k]; if (g[k] < 0) nonneg = false; }
    if (s < prev) grows = false;
    if (s != prev) {
      if (s != prev + 1 || (int)seen.size() - block != choose(prev + d - 1, d - 1)) full = false;
      block = seen.size(); prev = s;
    }
    for (int k = block; k < (int)seen.size(); ++k) if (seen[k] == g) once = false;
    seen.push_back(g);
  }
  vc_check(dims, "one degree per dimension"); vc_check(nonneg, "degrees are not negative"); vc_check(grows, "total degrees do not decrease");
  vc_check(once, "no multi-degree is repeated"); vc_check(full, "every multi-degree of a total degree comes before the next total degree");
}
CONTRACT_BOUNDED(P10_degrees_1_2, "dimensions 1 and 2, the first 60 basis functions") { degrees(vc_enum_in("d", 1, 2), vc_upto("last", 60, 60, 400)); }
CONTRACT_BOUNDED(P10_degrees_3, "dimension 3, the first 84 basis functions") { degrees(3, vc_upto("last", 84, 84, 600)); }
CONTRACT_BOUNDED(P10_degrees_4, "dimension 4, the first 126 basis functions") { degrees(4, vc_upto("last", 126, 126, 600)); }
CONTRACT_BOUNDED(P10_degrees_5_6, "dimensions 5 and 6, the first 85 basis functions") { degrees(vc_enum_in("d", 5, 6), vc_upto("last", 85, 85, 600)); }
// the degrees attached to the coefficients are the ones of the enumeration, whatever the history of sizes
struct access : rational_function_1d {
  access(int d, int np, int nq) : rational_function_1d(alta::parameters(d, 1, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT), np, nq) {}
  void attached(int np, int nq) {
    vc_check_ieq(_p_coeffs.size(), np, "size of the numerator"); vc_check_ieq(_q_coeffs.size(), nq, "size of the denominator");
    for (int i = 0; i < np; ++i) vc_check(_p_coeffs[i].deg == index2degree(i), "numerator: the degrees attached to a coefficient are those of its index");
    for (int i = 0; i < nq; ++i) vc_check(_q_coeffs[i].deg == index2degree(i), "denominator: the degrees attached to a coefficient are those of its index");
  }
};
static void fill(vec& v, const char* n) { for (int i = 0; i < (int)v.size(); ++i) v[i] = vc_real(n); }
CONTRACT_BOUNDED(P10_attached, "dimensions 1 to 4, sizes up to 5") {
  access r(vc_upto("d", 1, 4, 6), vc_upto("np", 1, 3, 60), vc_upto("nq", 1, 3, 60));
  const int np = vc_upto("np2", 1, 5, 60), nq = vc_upto("nq2", 1, 5, 60);
  const int how = vc_enum_in("how", 0, 2);
  vec a(np), b(nq); for (int i = 0; i < np; ++i) a[i] = 1 + i; for (int i = 0; i < nq; ++i) b[i] = 2 + i;
  if (how == 0) r.resize(np, nq);
  else if (how == 1) r.update(a, b);
  else { access o(r.parametrization().dimX(), np, nq); o.update(a, b); r.update((const rational_function_1d*)&o); }
  r.attached(np, nq);
}
// ---- evaluation
static double scaled(const vec& x, const vec& lo, const vec& hi, int k) { return 2*((x[k] - lo[k])/(hi[k] - lo[k]) - 0.5); }
static double ipow(double x, int n) { double r = 1; for (int i = 0; i < n; ++i) r *= x; return r; }
static double monomial(const rational_function_1d& r, const vec& x, const vec& lo, const vec& hi, int i) {
  std::vector<int> g = r.index2degree(i); double e = 1; for (int k = 0; k < (int)g.size(); ++k) e *= ipow(scaled(x, lo, hi, k), g[k]); return e;
}
static void domain(int d, vec& lo, vec& hi) { for (int k = 0; k < d; ++k) { lo[k] = vc_real("min"); hi[k] = vc_real("max"); vc_assume(lo[k] < hi[k]); } }
static void eval1(int d, int np, int nq) {
  rational_function_1d r(alta::parameters(d, 1, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT), np, nq); function& f = r;
  vec lo(d), hi(d), x(d), a(np), b(nq); domain(d, lo, hi); fill(x, "x"); fill(a, "a"); fill(b, "b");
  vc_assume(std::abs(b[0]) > 1e-10);
  r.setMin(lo); r.setMax(hi); r.update(a, b);
  double n = 0, m = 0;
  for (int i = 0; i < np; ++i) { const double e = monomial(r, x, lo, hi, i); vc_check_eq(r.p(x, i), e, "the numerator basis is monomial in the scaled input"); n += a[i] * e; }
  for (int i = 0; i < nq; ++i) { const double e = monomial(r, x, lo, hi, i); vc_check_eq(r.q(x, i), e, "the denominator basis is monomial in the scaled input"); m += b[i] * e; }
  vec P = r.p(x), Q = r.q(x), v = f.value(x), w = f(x);
  vc_check_ieq(v.size(), 1, "one value"); vc_check_ieq(P.size(), 1, "one numerator"); vc_check_ieq(Q.size(), 1, "one denominator");
  vc_check_eq(P[0], n/b[0], "the numerator is the combination of the basis with the stored coefficients");
  vc_check_eq(Q[0], m/b[0], "the denominator is the combination of the basis with the stored coefficients");
  vc_check_eq(v[0], n/m, "the value is numerator over denominator"); vc_check_eq(w[0], n/m, "the value is numerator over denominator");
  for (int i = 0; i < np; ++i) { vc_check_eq(r.getP(i), a[i]/b[0], "coefficients of the numerator, normalised"); vc_check_eq(r.getP()[i], a[i]/b[0], "coefficients of the numerator, normalised"); }
  for (int i = 0; i < nq; ++i) { vc_check_eq(r.getQ(i), b[i]/b[0], "coefficients of the denominator, normalised"); vc_check_eq(r.getQ()[i], b[i]/b[0], "coefficients of the denominator, normalised"); }
}
CONTRACT_BOUNDED(P11_monomials_1d, "one dimension, up to 4 coefficients") { const int a = vc_upto("np", 1, 4, 12), b = vc_upto("nq", 1, 4, 12); eval1(1, a, b); }
CONTRACT_BOUNDED(P11_monomials_2d, "two dimensions, 7 and 4 coefficients") { const int a = vc_upto("np", 7, 7, 30), b = vc_upto("nq", 4, 4, 30); eval1(2, a, b); }
CONTRACT_BOUNDED(P11_monomials_3d, "three dimensions, 6 and 5 coefficients") { const int a = vc_upto("np", 6, 6, 30), b = vc_upto("nq", 5, 5, 30); eval1(3, a, b); }
CONTRACT_BOUNDED(P11_monomials_4d, "four dimensions, 6 and 2 coefficients") { const int a = vc_upto("np", 6, 6, 30), b = vc_upto("nq", 2, 2, 30); eval1(vc_upto("d", 4, 4, 6), a, b); }
CONTRACT_BOUNDED(P11_channels, "up to 3 channels, two dimensions, up to 3 coefficients") {
  const int nY = vc_enum_in("nY", 1, 3), np = vc_upto("np", 1, 3, 20), nq = vc_upto("nq", 1, 3, 20), d = 2;
  rational_function r(alta::parameters(d, nY, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT), np, nq); function& f = r;
  vec lo(d), hi(d), x(d); domain(d, lo, hi); fill(x, "x"); r.setMin(lo); r.setMax(hi);
  vec a[3], b[3];
  for (int c = 0; c < nY; ++c) { a[c] = vec(np); b[c] = vec(nq); fill(a[c], "a"); fill(b[c], "b"); vc_assume(std::abs(b[c][0]) > 1e-10); rational_function_1d* q = r.get(c); vc_check(q != 0, "every channel has a function"); q->update(a[c], b[c]); }
  vec v = f.value(x); vc_check_ieq(v.size(), nY, "one value per output channel");
  for (int c = 0; c < nY; ++c) {
    double n = 0, m = 0; for (int i = 0; i < np; ++i) n += a[c][i] * monomial(*r.get(c), x, lo, hi, i); for (int i = 0; i < nq; ++i) m += b[c][i] * monomial(*r.get(c), x, lo, hi, i);
    vc_check_eq(v[c], n/m, "each channel is the ratio of its own coefficients");
  }
  vc_check(r.get(nY) == 0, "no function outside the channels");
}
// degenerate domains are inflated around their point
CONTRACT(P11_point_domain) {
  rational_function r(alta::parameters(2, 1, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT), 2, 1);
  vec lo(2), hi(2); lo[0] = hi[0] = vc_real("point"); lo[1] = vc_real("min"); hi[1] = vc_real("max"); vc_assume(lo[1] < hi[1]);
  r.setMin(lo); r.setMax(hi); rational_function_1d* q = r.get(0); vec l = q->min(), h = q->max();
  vc_check_lt(l[0], lo[0], "a point domain is inflated"); vc_check_lt(lo[0], h[0], "a point domain is inflated");
  vc_check_eq(l[1], lo[1], "other dimensions keep their domain"); vc_check_eq(h[1], hi[1], "other dimensions keep their domain");
}
// copying one function to another copies every coefficient
CONTRACT_BOUNDED(P11_update, "sizes up to 3") {
  const int np = vc_upto("np", 1, 3, 30), nq = vc_upto("nq", 1, 3, 30);
  rational_function_1d r(alta::parameters(1, 1, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT), np, nq), s(alta::parameters(1, 1, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT), vc_upto("np0", 1, 2, 30), 2);
  vec a(np), b(nq); fill(a, "a"); fill(b, "b"); r.update(a, b); s.update((const rational_function_1d*)&r);
  vec p = s.getP(), q = s.getQ(), p0 = r.getP(), q0 = r.getQ(); vc_check_ieq(p.size(), np, "size of the numerator"); vc_check_ieq(q.size(), nq, "size of the denominator");
  for (int i = 0; i < np; ++i) vc_check_eq(p[i], p0[i], "copied coefficients"); for (int i = 0; i < nq; ++i) vc_check_eq(q[i], q0[i], "copied coefficients");
}
// --- saved and loaded
#include "rational_save.h"
CONTRACT_BOUNDED(P20_monomials_1d, "one input, up to 3 channels, up to 4 coefficients") { const int nY = vc_enum_in("nY", 1, 3), np = vc_upto("np", 1, 4, 40), nq = vc_upto("nq", 1, 4, 40); rational_saved<rational_function>(alta::parameters(1, nY, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT), np, nq); }
CONTRACT_BOUNDED(P20_monomials_nd, "2 to 6 inputs, up to 2 channels, 3 and 2 coefficients") { const int d = vc_enum_in("inputs", 2, 6), nY = vc_enum_in("nY", 1, 2); rational_saved<rational_function>(alta::parameters(d, nY, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT), vc_upto("np", 3, 3, 40), vc_upto("nq", 2, 2, 40)); }
