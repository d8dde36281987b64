// Sums and products of abstract models: only the interface of the parts is
// used, and the conversion of the input is any function (its own contracts are
// P01 and P02).
// vc-sources: sources/core/common.cpp sources/core/function.cpp
#include "vc.h"
#include <core/function.h>
#include <core/params.h>
#include <core/common.h>
#include <core/args.h>
#include <core/data.h>
using namespace alta;
// abstract conversions: any functions of their arguments
static void apply(const char* n, const double* in, int i, double* out, int no) {
  double a[8]; for (int k = 0; k < 6; ++k) a[k] = in[k];
  for (int k = 0; k < no; ++k) { a[6] = k; a[7] = i; out[k] = vc_uf(n, 8, a); }
}
static const params::input PAR[3] = {params::CARTESIAN, params::RUSIN_TH_PH_TD_PD, params::RUSIN_TH_TD};
int params::dimension(params::input i) { return i == params::CARTESIAN ? 6 : i == params::RUSIN_TH_PH_TD_PD ? 4 : 2; }
static void pad(const double* x, params::input t, double* p) { for (int i = 0; i < 6; ++i) p[i] = i < params::dimension(t) ? x[i] : 0.0; }
void params::to_cartesian(const double* in, params::input t, double* out) { double p[6]; pad(in, t, p); apply("to", p, t, out, 6); }
void params::from_cartesian(const double* in, params::input t, double* out) { apply("from", in, t, out, params::dimension(t)); }
std::string const& params::get_name(const params::input) { static std::string s("in"); return s; }
std::string const& params::get_name(const params::output) { static std::string s("out"); return s; }
// an abstract part: the value and the Jacobian are any functions of the parameters and of the input
struct part : nonlinear_function {
  int id; vec p;
  part(int k, int n, const alta::parameters& q) : nonlinear_function(q), id(k), p(n) {}
  double uf(const char* w, const vec& x, int y, int i) const {
    const int dx = params::dimension(parametrization().input_parametrization());
    double a[15]; for (int k = 0; k < 15; ++k) a[k] = 0;
    for (int k = 0; k < dx; ++k) a[k] = x[k];
    for (int k = 0; k < (int)p.size() && k < 5; ++k) a[6 + k] = p[k];
    a[11] = id; a[12] = y; a[13] = i; a[14] = p.size();
    return vc_uf(w, 15, a);
  }
  vec value(const vec& x) const { const int nY = parametrization().dimY(); vec r(nY); for (int y = 0; y < nY; ++y) r[y] = uf("value", x, y, 0); return r; }
  bool load(std::istream&) { return false; }
  int nbParameters() const { return p.size(); }
  vec parameters() const { return p; }
  void setParameters(const vec& q) { p = q; }
  vec getParametersMin() const { vec r(p.size()); for (int i = 0; i < r.size(); ++i) r[i] = bound("min", i); return r; }
  vec getParametersMax() const { vec r(p.size()); for (int i = 0; i < r.size(); ++i) r[i] = bound("max", i); return r; }
  double bound(const char* w, int i) const { double a[2] = {(double)id, (double)i}; return vc_uf(w, 2, a); }
  vec parametersJacobian(const vec& x) const {
    const int nY = parametrization().dimY(), n = p.size(); vec j(nY * n);
    for (int y = 0; y < nY; ++y) for (int i = 0; i < n; ++i) j[y * n + i] = uf("jac", x, y, i);
    return j;
  }
};
static part* mkpart(int id, int n, params::input in, int nY) {
  part* f = new part(id, n, alta::parameters(params::dimension(in), nY, in, nY == 3 ? params::RGB_COLOR : params::INV_STERADIAN));
  for (int i = 0; i < n; ++i) f->p[i] = vc_real("old");
  return f;
}
static vec converted(const vec& x, params::input from, params::input to) { vec r(params::dimension(to)); params::convert(&x[0], from, to, &r[0]); return r; }
static const int MAXP = 8;
struct sum {
  int n, nY; part* f[MAXP]; bool fixed[MAXP]; compound_function* c;
  sum(int parts, int maxpar, bool mixed) : n(parts) {
    nY = vc_bool("rgb") ? 3 : 1;
    std::vector<ptr<nonlinear_function> > fs; std::vector<arguments> as;
    for (int i = 0; i < n; ++i) {
      f[i] = mkpart(i, vc_upto("npar", 0, maxpar, 5), PAR[mixed ? vc_enum_in("param", 0, 2) : 0], nY);
      fixed[i] = vc_bool("fixed");
      fs.push_back(ptr<nonlinear_function>(f[i]));
      arguments a; if (fixed[i]) a.update("fixed", ""); as.push_back(a);
    }
    c = new compound_function(fs, as);
  }
  params::input in() const { return c->parametrization().input_parametrization(); }
  vec input() const { vec x(c->parametrization().dimX()); for (int i = 0; i < x.size(); ++i) x[i] = vc_real("x"); return x; }
  int count() const { int k = 0; for (int i = 0; i < n; ++i) if (!fixed[i]) k += f[i]->p.size(); return k; }
};
static void params_of_sum(sum& s) {
  nonlinear_function& c = *s.c; const int N = s.count();
  vc_check_ieq(c.nbParameters(), N, "the number of parameters of a sum is that of its free parts");
  vec q(N); for (int i = 0; i < N; ++i) q[i] = vc_real("new");
  double old[MAXP][8]; for (int i = 0; i < s.n; ++i) for (int k = 0; k < s.f[i]->p.size(); ++k) old[i][k] = s.f[i]->p[k];
  vec lo = c.getParametersMin(), hi = c.getParametersMax(), r0 = c.parameters();
  vc_check_ieq(lo.size(), N, "lower bounds: one per parameter"); vc_check_ieq(hi.size(), N, "upper bounds: one per parameter"); vc_check_ieq(r0.size(), N, "parameters: announced length");
  c.setParameters(q); vec r = c.parameters();
  vc_check_ieq(r.size(), N, "parameters: announced length");
  int o = 0;
  for (int i = 0; i < s.n; ++i) for (int k = 0; k < s.f[i]->p.size(); ++k) {
    if (s.fixed[i]) { vc_check_eq(s.f[i]->p[k], old[i][k], "fixed parts keep their parameters"); continue; }
    vc_check_eq(r0[o], old[i][k], "the parameter vector is that of the free parts, in order");
    vc_check_eq(lo[o], s.f[i]->bound("min", k), "the lower bounds are those of the free parts, in order");
    vc_check_eq(hi[o], s.f[i]->bound("max", k), "the upper bounds are those of the free parts, in order");
    vc_check_eq(s.f[i]->p[k], q[o], "setting parameters reaches the free parts, in order");
    vc_check_eq(r[o], q[o], "the parameters read back are the ones set"); ++o;
  }
  vc_check_ieq(o, N, "every parameter belongs to a free part");
}
static void value_of_sum(sum& s) {
  function& c = *s.c; vec x = s.input(); vec v = c.value(x), w = c(x);
  vc_check_ieq(v.size(), s.nY, "one value per output channel");
  double e[3] = {0, 0, 0};
  for (int i = 0; i < s.n; ++i) { vec y = s.f[i]->value(converted(x, s.in(), s.f[i]->parametrization().input_parametrization())); for (int k = 0; k < s.nY; ++k) e[k] += y[k]; }
  for (int k = 0; k < s.nY; ++k) { vc_check_eq(v[k], e[k], "the value of a sum is the sum of the values"); vc_check_eq(w[k], e[k], "calling a sum is evaluating it"); }
}
static void jacobian_of_sum(sum& s) {
  nonlinear_function& c = *s.c; const int N = s.count(); vec x = s.input(); vec j = c.parametersJacobian(x);
  vc_check_ieq(j.size(), s.nY * N, "Jacobian has one entry per output channel and parameter");
  int o = 0;
  for (int i = 0; i < s.n; ++i) {
    if (s.fixed[i]) continue;
    const int n = s.f[i]->p.size(); if (!n) continue;
    vec y = s.f[i]->parametersJacobian(converted(x, s.in(), s.f[i]->parametrization().input_parametrization()));
    for (int k = 0; k < s.nY; ++k) for (int l = 0; l < n; ++l) vc_check_eq(j[k * N + o + l], y[k * n + l], "the Jacobian of a sum is made of the Jacobians of its free parts");
    o += n;
  }
}
CONTRACT_BOUNDED(P08_sum_parameters, "sums of up to 3 parts with up to 2 parameters each") { sum s(vc_upto("parts", 1, 3, 8), 2, false); params_of_sum(s); }
CONTRACT_BOUNDED(P08_sum_value, "sums of up to 3 parts") { sum s(vc_upto("parts", 1, 3, 8), 0, true); value_of_sum(s); }
CONTRACT_BOUNDED(P08_sum_value_of_parameters, "sums of 2 parts with up to 2 parameters each") { sum s(2, 2, false); value_of_sum(s); }
CONTRACT_BOUNDED(P08_sum_jacobian, "sums of up to 2 parts with up to 2 parameters each") { sum s(vc_upto("parts", 1, 2, 8), 2, true); jacobian_of_sum(s); }
CONTRACT_BOUNDED(P08_sum_jacobian3, "sums of 3 parts with up to 1 parameter each") { sum s(3, 1, false); jacobian_of_sum(s); }
CONTRACT_BOUNDED(P08_sum_parts, "sums of up to 3 parts") {
  sum s(vc_upto("parts", 1, 3, 8), 0, true);
  vc_check_ieq(s.c->size(), s.n, "a sum has its parts");
  for (int i = 0; i < s.n; ++i) vc_check((*s.c)[i] == s.f[i], "the parts of a sum keep their order");
  bool same = true; for (int i = 0; i < s.n; ++i) if (s.f[i]->parametrization().input_parametrization() != s.f[0]->parametrization().input_parametrization()) same = false;
  vc_check_ieq(s.in(), same ? s.f[0]->parametrization().input_parametrization() : params::CARTESIAN, "a sum takes the input of its parts, or directions when they differ");
  vc_check_ieq(s.c->parametrization().dimX(), params::dimension(s.in()), "the input dimension of a sum is that of its parametrization");
  vc_check_ieq(s.c->parametrization().dimY(), s.nY, "the output dimension of a sum is that of its parts");
}
// ---- products
struct prod {
  part* f; part* g; bool ff, gf; product_function* p; int nY;
  prod(int nf, int ng, bool mixed) {
    nY = vc_bool("rgb") ? 3 : 1;
    f = mkpart(0, nf, PAR[mixed ? vc_enum_in("param", 0, 2) : 0], nY); g = mkpart(1, ng, PAR[mixed ? vc_enum_in("param", 0, 2) : 0], nY);
    ff = vc_bool("fixed"); gf = vc_bool("fixed");
    p = new product_function(ptr<nonlinear_function>(f), ptr<nonlinear_function>(g), ff, gf);
  }
  params::input in() const { return p->parametrization().input_parametrization(); }
  vec input() const { vec x(p->parametrization().dimX()); for (int i = 0; i < x.size(); ++i) x[i] = vc_real("x"); return x; }
  int N() const { return (ff ? 0 : f->p.size()) + (gf ? 0 : g->p.size()); }
};
CONTRACT(P08_product_value) {
  prod s(1, 1, true); vec x = s.input(); function& c = *s.p; vec v = c.value(x), w = c(x);
  vc_check_ieq(v.size(), s.nY, "one value per output channel");
  vec a = s.f->value(converted(x, s.in(), s.f->parametrization().input_parametrization())), b = s.g->value(converted(x, s.in(), s.g->parametrization().input_parametrization()));
  for (int k = 0; k < s.nY; ++k) { vc_check_eq(v[k], a[k] * b[k], "the value of a product is the product of the values"); vc_check_eq(w[k], a[k] * b[k], "calling a product is evaluating it"); }
}
CONTRACT(P08_product_parts) {
  prod s(0, 0, true);
  vc_check(s.p->first() == s.f && s.p->second() == s.g, "the parts of a product keep their order");
  const bool same = s.f->parametrization().input_parametrization() == s.g->parametrization().input_parametrization();
  vc_check_ieq(s.in(), same ? s.f->parametrization().input_parametrization() : params::CARTESIAN, "a product takes the input of its parts, or directions when they differ");
  vc_check_ieq(s.p->parametrization().dimX(), params::dimension(s.in()), "the input dimension of a product is that of its parametrization");
  vc_check_ieq(s.p->parametrization().dimY(), s.nY, "the output dimension of a product is that of its parts");
}
static void product_params(int nf, int ng) {
  prod s(nf, ng, false); nonlinear_function& c = *s.p; const int N = s.N();
  vec of = s.f->p, og = s.g->p;
  vc_check_ieq(c.nbParameters(), N, "the number of parameters of a product is that of its free parts");
  vec q(N); for (int i = 0; i < N; ++i) q[i] = vc_real("new");
  vec lo = c.getParametersMin(), hi = c.getParametersMax(), r0 = c.parameters();
  vc_check_ieq(lo.size(), N, "lower bounds: one per parameter"); vc_check_ieq(hi.size(), N, "upper bounds: one per parameter"); vc_check_ieq(r0.size(), N, "parameters: announced length");
  c.setParameters(q); vec r = c.parameters();
  vc_check_ieq(r.size(), N, "parameters: announced length");
  int o = 0;
  for (int i = 0; i < 2; ++i) {
    part* f = i ? s.g : s.f; const bool fixed = i ? s.gf : s.ff; const vec& old = i ? og : of;
    vc_check_ieq(f->p.size(), i ? ng : nf, "setting parameters does not change the number of parameters of the parts");
    for (int k = 0; k < (int)f->p.size(); ++k) {
      if (fixed) { vc_check_eq(f->p[k], old[k], "fixed parts keep their parameters"); continue; }
      vc_check_eq(r0[o], old[k], "the parameter vector is that of the free parts, in order");
      vc_check_eq(lo[o], f->bound("min", k), "the lower bounds are those of the free parts, in order");
      vc_check_eq(hi[o], f->bound("max", k), "the upper bounds are those of the free parts, in order");
      vc_check_eq(f->p[k], q[o], "setting parameters reaches the free parts, in order");
      vc_check_eq(r[o], q[o], "the parameters read back are the ones set"); ++o;
    }
  }
}
static void product_jacobian(int nf, int ng, bool mixed) {
  prod s(nf, ng, mixed); nonlinear_function& c = *s.p; const int N = s.N(); vec x = s.input(); vec j = c.parametersJacobian(x);
  vc_check_ieq(j.size(), s.nY * N, "Jacobian has one entry per output channel and parameter");
  vec xa = converted(x, s.in(), s.f->parametrization().input_parametrization()), xb = converted(x, s.in(), s.g->parametrization().input_parametrization());
  vec a = s.f->value(xa), b = s.g->value(xb), ja = s.f->parametersJacobian(xa), jb = s.g->parametersJacobian(xb);
  for (int k = 0; k < s.nY; ++k) {
    int o = 0;
    if (!s.ff) { for (int l = 0; l < nf; ++l) vc_check_eq(j[k * N + l], ja[k * nf + l] * b[k], "product rule, first part"); o = nf; }
    if (!s.gf) for (int l = 0; l < ng; ++l) vc_check_eq(j[k * N + o + l], jb[k * ng + l] * a[k], "product rule, second part");
  }
}
CONTRACT_BOUNDED(P08_product_parameters, "parts with up to 3 parameters each") { const int a = vc_upto("nf", 0, 3, 5), b = vc_upto("ng", 0, 3, 5); product_params(a, b); }
CONTRACT_BOUNDED(P08_product_jacobian, "parts with up to 2 parameters each") { const int a = vc_upto("nf", 0, 2, 5), b = vc_upto("ng", 0, 2, 5); product_jacobian(a, b, false); }
CONTRACT(P08_product_jacobian_inputs) { product_jacobian(1, 1, true); }
// the cosine factor used by products
CONTRACT(P08_cosine_factor) {
  cosine_function f; f.setParametrization(alta::parameters(6, vc_bool("rgb") ? 3 : 1, params::CARTESIAN, params::RGB_COLOR));
  vec x(6); for (int i = 0; i < 6; ++i) x[i] = vc_real("x");
  nonlinear_function& g = f; vec v = g.value(x), w = g(x); vc_check_ieq(v.size(), g.parametrization().dimY(), "one value per output channel");
  const double e = std::max(x[2], 0.0) * std::max(x[5], 0.0);
  for (int k = 0; k < (int)v.size(); ++k) { vc_check_eq(v[k], e, "product of the clamped cosines"); vc_check_eq(w[k], e, "product of the clamped cosines"); }
  vc_check_ieq(g.nbParameters(), 0, "no parameter"); vc_check_ieq(g.parameters().size(), 0, "no parameter"); vc_check_ieq(g.parametersJacobian(x).size(), 0, "no parameter");
}
