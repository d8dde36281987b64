#pragma once
static double scaled(const vec& x, const vec& lo, const vec& hi, int k) { return 2*((x[k] - lo[k])/(hi[k] - lo[k]) - 0.5); }
static double chebT(double x, int n) { double a = 1, b = x; if (!n) return a; for (int i = 2; i <= n; ++i) { const double c = 2*x*b - a; a = b; b = c; } return b; }
static double legP(double x, int n) { double a = 1, b = x; if (!n) return a; for (int i = 2; i <= n; ++i) { const double c = ((2*i - 1)*x*b - (i - 1)*a)/i; a = b; b = c; } return b; }
static void fill(vec& v, const char* n) { for (int i = 0; i < (int)v.size(); ++i) v[i] = vc_real(n); }
// the function of the channels, through the interface of the plugin
template<class RF> struct basis {
  RF rf; int d; vec lo, hi, x; rational_function_1d* r;
  basis(int d_, const alta::parameters& p, int np, int nq, bool inside) : rf(p), d(d_), lo(d_), hi(d_), x(d_) {
    for (int k = 0; k < d; ++k) { lo[k] = vc_real("min"); hi[k] = vc_real("max"); vc_assume(lo[k] < hi[k]); x[k] = vc_real("x"); if (inside) vc_assume(lo[k] < x[k] && x[k] < hi[k]); }
    rf.setSize(np, nq); rf.setMin(lo); rf.setMax(hi); r = rf.get(0);
  }
  double product(double (*T)(double, int), int i) { std::vector<int> g = r->index2degree(i); double e = 1; for (int k = 0; k < d; ++k) e *= T(scaled(x, lo, hi, k), g[k]); return e; }
};
static alta::parameters plain(int d, int nY) { return alta::parameters(d, nY, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT); }
// combination of the basis
template<class RF> void ratio(int d, int np, int nq) {
  basis<RF> t(d, plain(d, 1), np, nq, false); function& f = t.rf;
  vec a(np), b(nq); fill(a, "a"); fill(b, "b"); vc_assume(std::abs(b[0]) > 1e-10); t.r->update(a, b);
  double n = 0, m = 0; for (int i = 0; i < np; ++i) n += a[i]*t.r->p(t.x, i); for (int i = 0; i < nq; ++i) m += b[i]*t.r->q(t.x, i);
  vc_check_eq(f.value(t.x)[0], n/m, "the value is numerator over denominator");
  vc_check_eq(t.r->p(t.x)[0], n/b[0], "numerator with the stored coefficients"); vc_check_eq(t.r->q(t.x)[0], m/b[0], "denominator with the stored coefficients");
}
template<class RF> void pointdomain() {
  RF rf(plain(2, 1)); rf.setSize(2, 1);
  vec lo(2), hi(2); lo[0] = hi[0] = vc_real("point"); lo[1] = vc_real("min"); hi[1] = vc_real("max"); vc_assume(lo[1] < hi[1]);
  rf.setMin(lo); rf.setMax(hi); rational_function_1d* q = rf.get(0); vec l = q->min(), h = q->max();
  vc_check_lt(l[0], lo[0], "a point domain is inflated"); vc_check_lt(lo[0], h[0], "a point domain is inflated");
  vc_check_eq(l[1], lo[1], "other dimensions keep their domain"); vc_check_eq(h[1], hi[1], "other dimensions keep their domain");
  vc_check(rf.get(1) == 0, "no function outside the channels");
}
