// A model with bounds and any bootstrap, and a fitting problem of abstract samples (P26).
#pragma once
#include "abstract_params.h"
#include "abstract_data.h"
struct bmodel : model {
  vec lo, up, boot; int booted;
  bmodel(const alta::parameters& q, int n) : model(q, n), lo(n), up(n), boot(n), booted(0) { for (int i = 0; i < n; ++i) { lo[i] = vc_real("lo"); up[i] = vc_real("up"); boot[i] = vc_real("boot"); p[i] = vc_real("p0"); } }
  vec getParametersMin() const { return lo; }
  vec getParametersMax() const { return up; }
  void bootstrap(const ptr<data>, const arguments&) { ++booted; p = boot; }
};
struct problem {
  samples* d; bmodel* f; ptr<data> pd; ptr<nonlinear_function> pf; int n, nP, nY; bool cosine;
  problem(int n_, int nP_, int nY_, params::input pi, params::input po, bool c) : n(n_), nP(nP_), nY(nY_), cosine(c) {
    d = new samples(apar(pi, nY), n); d->fill("sample"); pd = ptr<data>((data*)d); f = new bmodel(apar(po, nY), nP); pf = ptr<nonlinear_function>((nonlinear_function*)f);
  }
};
