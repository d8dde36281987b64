// An abstract data set (any samples, any interpolation) and an abstract model
// (any value and Jacobian).
#pragma once
#include <core/data.h>
#include <core/function.h>
void data::save(const std::string&) const {}
bool data::equals(const data&, double) { return false; }
struct samples : data {
  int n; double (*v)[12];
  samples(const alta::parameters& p, int n_) : data(p, n_), n(n_), v(new double[n_][12]) {}
  void fill(const char* w) { for (int i = 0; i < n; ++i) for (int k = 0; k < _parameters.dimX() + _parameters.dimY(); ++k) v[i][k] = vc_real(w); }
  vec get(int i) const { vc_check(i >= 0 && i < n, "no sample outside the set is read"); const int d = _parameters.dimX() + _parameters.dimY(); vec r(d); for (int k = 0; k < d; ++k) r[k] = v[i][k]; return r; }
  void set(int, const vec&) {}
  // any interpolation: any function of the coordinates
  vec value(const vec& x) const {
    vc_check_ieq(x.size(), _parameters.dimX(), "the data are evaluated with their own coordinates");
    double a[7]; const int nY = _parameters.dimY(); for (int k = 0; k < 6; ++k) a[k] = k < x.size() ? x[k] : 0.0;
    vec r(nY); for (int y = 0; y < nY; ++y) { a[6] = y; r[y] = vc_uf("interpolated", 7, a); } return r;
  }
};
struct model : nonlinear_function {
  vec p;
  model(const alta::parameters& q, int n = 0) : nonlinear_function(q), p(n) {}
  double uf(const char* w, const vec& x, int y, int i) const {
    double a[15]; for (int k = 0; k < 15; ++k) a[k] = 0;
    for (int k = 0; k < parametrization().dimX() && k < 6; ++k) a[k] = x[k];
    for (int k = 0; k < (int)p.size() && k < 5; ++k) a[6 + k] = p[k];
    a[11] = y; a[12] = i; a[13] = p.size(); return vc_uf(w, 15, a);
  }
  vec value(const vec& x) const {
    vc_check(x.size() >= parametrization().dimX(), "the model is evaluated with its own coordinates");
    const int nY = parametrization().dimY(); vec r(nY); for (int y = 0; y < nY; ++y) r[y] = uf("value", x, y, 0); return r;
  }
  bool load(std::istream&) { return false; }
  int nbParameters() const { return p.size(); }
  vec parameters() const { return p; }
  void setParameters(const vec& q) { p = q; }
  vec getParametersMin() const { return p; }
  vec getParametersMax() const { return p; }
  vec parametersJacobian(const vec& x) const {
    vc_check(x.size() >= parametrization().dimX(), "the Jacobian is evaluated with the coordinates of the model");
    const int nY = parametrization().dimY(), n = p.size(); vec j(nY * n);
    for (int y = 0; y < nY; ++y) for (int i = 0; i < n; ++i) j[y * n + i] = uf("jac", x, y, i);
    return j;
  }
};
