// Saving a rational function and loading the file again (P20).
#pragma once
#include "nl_save.h"
template<class RF> void rational_saved(const alta::parameters& p, int np, int nq, bool inside = false) {
  const int d = p.dimX(), nY = p.dimY();
  RF f(p), g(p); vec lo(d), hi(d), x(d);
  for (int k = 0; k < d; ++k) { lo[k] = vc_real("min"); hi[k] = vc_real("max"); vc_assume(lo[k] <= hi[k]); x[k] = vc_real("x"); if (inside) vc_assume(lo[k] < x[k] && x[k] < hi[k]); }
  f.setSize(np, nq); f.setMin(lo); f.setMax(hi);
  for (int c = 0; c < nY; ++c) {
    vec a(np), b(nq); for (int i = 0; i < np; ++i) a[i] = vc_real("a"); for (int i = 0; i < nq; ++i) b[i] = vc_real("b");
    f.get(c)->update(a, b);
  }
  function& ff = f; function& gg = g;
  ff.save("saved.func", arguments::create_arguments("--func libmodel.so"));
  std::ifstream in("saved.func"); nl_header(in, f, "libmodel.so");
  vc_check(gg.load(in), "the saved file is accepted");
  for (int k = 0; k < d; ++k) { vc_check_same(gg.min()[k], lo[k], "the domain is read back"); vc_check_same(gg.max()[k], hi[k], "the domain is read back"); }
  for (int c = 0; c < nY; ++c) {
    rational_function_1d* r = f.get(c); rational_function_1d* s = g.get(c);
    vc_check(s != 0, "every channel is read back"); vec P = r->getP(), Q = r->getQ(), R = s->getP(), S = s->getQ();
    vc_check_ieq(R.size(), np, "the size of the numerator is read back"); vc_check_ieq(S.size(), nq, "the size of the denominator is read back");
    for (int i = 0; i < np; ++i) vc_check_same(R[i], P[i], "the numerator is read back");
    for (int i = 0; i < nq; ++i) vc_check_same(S[i], Q[i], "the denominator is read back");
    for (int k = 0; k < d; ++k) { vc_check_same(s->min()[k], r->min()[k], "every channel has its domain again"); vc_check_same(s->max()[k], r->max()[k], "every channel has its domain again"); }
    for (int i = 0; i < np; ++i) vc_check_same(s->p(x, i), r->p(x, i), "the basis of the numerator is the same");
    for (int i = 0; i < nq; ++i) vc_check_same(s->q(x, i), r->q(x, i), "the basis of the denominator is the same");
  }
}
