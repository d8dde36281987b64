// vc-sources: sources/core/params.cpp sources/core/common.cpp sources/core/function.cpp
#include "nl.h"
#include "nl_save.h"
#include "sources/plugins/nonlinear_function_abc/function.cpp"
typedef abc_function F;
CONTRACT(P05_abc) { F f(nl_par(1, params::COS_TH)); vec q = nl_set(f, 0.0); nl_jacobian(f, q, nl_x1()); }
CONTRACT(P07_abc) { F f(nl_par(1, params::COS_TH)); nl_params(f); }
// --- value: the published formula
CONTRACT(P09_abc) {
  F f(nl_par(1, params::COS_TH)); vec q = nl_set(f, 0.0); vec x = nl_x1(); nonlinear_function& g = f;
  vec r = g.value(x); const int nY = g.parametrization().dimY();
  vc_check_ieq(r.size(), nY, "one value per output channel");

  for (int c = 0; c < nY; ++c) { const double* p = &q[c * 3]; vc_check_eq(r[c], (x[0] >= 0.0 && x[0] <= 1.0) ? p[0] / pow(1.0 + p[1] * (1.0 - x[0]), p[2]) : 0.0, "ABC lobe"); }
}
// --- saved and loaded
static void cosine(F& f) { static const char* const n[5] = {"COS_TH", "COS_TK", "COS_TLV", "COS_TLR", 0}; const char* w = n[vc_enum_in("input", 0, 4)]; arguments a; if (w) a.update("param", w); f.bootstrap(ptr<data>(), a); }
CONTRACT(P20_abc) { const alta::parameters p = nl_par(1, params::COS_TH); F f(p), g(p); cosine(f); cosine(g); nl_saved(f, g, nl_x1()); }
// --- the starting point of a fit
CONTRACT(P28_abc) { const alta::parameters p = nl_par(1, params::COS_TH); F f(p), g(p); arguments a; if (vc_bool("param")) a.update("param", "COS_TK"); nl_start(f, g, a); }
CONTRACT(P28_abc_given) { const alta::parameters p = nl_par(1, params::COS_TH); F f(p); arguments a; if (vc_bool("param")) a.update("param", "COS_TK"); nl_given(f, a); }
CONTRACT(P28_abc_file) { const alta::parameters p = nl_par(1, params::COS_TH); F f(p), g(p); arguments a; if (vc_bool("param")) a.update("param", "COS_TK"); nl_given_file(f, g, a); }
CONTRACT(P28_abc_no_file) { const alta::parameters p = nl_par(1, params::COS_TH); F f(p), g(p); arguments a; if (vc_bool("param")) a.update("param", "COS_TK"); nl_no_file(f, g, a); }
