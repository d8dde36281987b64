// The NLopt driver (plugins/nonlinear_fitter_nlopt), P26: abstract data, model and conversions;
// the optimiser may ask for the objective anywhere and find anything.
// vc-sources: sources/core/common.cpp sources/core/function.cpp sources/core/vertical_segment.cpp
#include "vc.h"
#include "fit_model.h"
#include <core/fitter.h>
#include "sources/plugins/nonlinear_fitter_nlopt/fitter.cpp"
struct nlopt_opt_s { unsigned n; const double* lo; const double* up; double l[5], u[5]; nlopt_func f; void* data; int maxeval; double ftol; };
static problem* cur; static vec found; static int solved, fails, result, live, maxeval; static double ftol, frel; static nlopt_algorithm used;
extern "C" {
nlopt_opt nlopt_create(nlopt_algorithm a, unsigned n) { if (fails == 1) return NULL; used = a; ++live; nlopt_opt o = new nlopt_opt_s(); o->n = n; o->lo = o->up = NULL; o->f = NULL; vc_check_ieq(n, cur->nP, "the optimiser varies every parameter of the model"); return o; }
void nlopt_destroy(nlopt_opt o) { --live; delete o; }
nlopt_result nlopt_set_lower_bounds(nlopt_opt o, const double* v) { o->lo = o->l; for (unsigned i = 0; i < o->n; ++i) o->l[i] = v[i]; return NLOPT_SUCCESS; }
nlopt_result nlopt_set_upper_bounds(nlopt_opt o, const double* v) { o->up = o->u; for (unsigned i = 0; i < o->n; ++i) o->u[i] = v[i]; return NLOPT_SUCCESS; }
nlopt_result nlopt_set_maxeval(nlopt_opt, int v) { maxeval = v; return NLOPT_SUCCESS; }
nlopt_result nlopt_set_xtol_rel(nlopt_opt, double) { return NLOPT_SUCCESS; }
nlopt_result nlopt_set_ftol_rel(nlopt_opt, double v) { frel = v; return NLOPT_SUCCESS; }
nlopt_result nlopt_set_ftol_abs(nlopt_opt, double v) { ftol = v; return NLOPT_SUCCESS; }
nlopt_result nlopt_set_min_objective(nlopt_opt o, nlopt_func f, void* d) { if (fails == 2) return NLOPT_INVALID_ARGS; o->f = f; o->data = d; return NLOPT_SUCCESS; }
nlopt_result nlopt_optimize(nlopt_opt o, double* x, double* y) {
  const problem& b = *cur; ++solved; vc_check(o->f != NULL && o->lo != NULL && o->up != NULL, "the objective and the bounds are given"); if (!o->f || !o->lo || !o->up) return NLOPT_FAILURE;
  double q[5], g[5]; bmodel m(*b.f);
  for (int i = 0; i < b.nP; ++i) { vc_check_same(x[i], b.f->boot[i], "the optimiser starts with the bootstrapped parameters"); vc_check_same(o->lo[i], b.f->lo[i], "the bounds are those of the model"); vc_check_same(o->up[i], b.f->up[i], "the bounds are those of the model"); q[i] = vc_real("q"); g[i] = vc_real("garbage"); m.p[i] = q[i]; }
  const int dx = b.d->parametrization().dimX(); double sum = 0, grad[5] = {0, 0, 0, 0, 0};
  for (int s = 0; s < b.n; ++s) {
    vec z(dx); for (int k = 0; k < dx; ++k) z[k] = b.d->v[s][k];
    z = converted(z, b.d->parametrization().input_parametrization(), m.parametrization().input_parametrization()); const vec v = m.value(z), j = m.parametersJacobian(z);
    for (int k = 0; k < b.nY; ++k) { const double e = v[k] - b.d->v[s][dx + k]; sum += e * e; for (int i = 0; i < b.nP; ++i) grad[i] += 2 * e * j[k * b.nP + i]; }
  }
  vc_check_eq(o->f(b.nP, q, NULL, o->data), sum, "the objective is the sum of the squared residuals"); vc_check_eq(o->f(b.nP, q, g, o->data), sum, "the objective is the sum of the squared residuals");
  for (int i = 0; i < b.nP; ++i) vc_check_eq(g[i], grad[i], "the gradient is the derivative of the objective");
  for (int i = 0; i < b.nP; ++i) x[i] = found[i]; *y = 0; return (nlopt_result)result;
}
}
static bool fit(problem& b, int argc, const char** argv) {
  cur = &b; solved = live = 0; maxeval = -1; ftol = frel = -1; found = vec(b.nP); for (int i = 0; i < b.nP; ++i) found[i] = vc_real("found");
  nonlinear_fitter_nlopt e; ptr<function> fit = dynamic_pointer_cast<function>(b.pf); return e.fit_data(b.pd, fit, arguments(argc, (char**)argv));
}
static void fitted(int n, int nP, int nY, params::input pi, params::input po) {
  static const int RESULT[5] = {NLOPT_SUCCESS, NLOPT_XTOL_REACHED, NLOPT_MAXEVAL_REACHED, NLOPT_FAILURE, NLOPT_ROUNDOFF_LIMITED};
  problem b(n, nP, nY, pi, po, false); fails = vc_enum_in("fails", 0, 2); result = RESULT[vc_enum_in("result", 0, 4)]; const char* a[] = {"f"}; const bool ok = fit(b, 1, a);
  for (int i = 0; i < b.d->min().size(); ++i) { vc_check_same(b.f->min()[i], b.d->min()[i], "the model has the domain of the data"); vc_check_same(b.f->max()[i], b.d->max()[i], "the model has the domain of the data"); }
  if (nP == 0) { vc_check(ok && solved == 0, "a model without parameters needs no solver"); return; }
  vc_check_ieq(b.f->booted, 1, "the model is bootstrapped with the data"); vc_check_ieq(solved, fails ? 0 : 1, "the optimiser is run once, when it is available"); vc_check(ok == (!fails && result > 0), "the fit succeeds when the optimiser does");
  if (ok) for (int i = 0; i < nP; ++i) vc_check_same(b.f->p[i], found[i], "the model has the parameters the optimiser found");
}
CONTRACT_BOUNDED(P26_nlopt, "up to 2 samples and 2 parameters") { fitted(vc_upto("n", 1, 2, 30), vc_upto("nP", 0, 2, 5), 1, APAR[vc_enum_in("data", 0, 2)], APAR[vc_enum_in("model", 0, 1)]); }
CONTRACT_BOUNDED(P26_nlopt_channels, "1 sample of 3 channels, 2 parameters") { fitted(vc_upto("n", 1, 1, 30), vc_upto("nP", 2, 2, 5), 3, APAR[vc_enum_in("data", 0, 1)], APAR[0]); }
CONTRACT_BOUNDED(P26_nlopt_options, "every optimiser that is documented; all limits") {
  static const char* NAME[12] = {"local-COBYLA", "local-BOBYQA", "local-NEWUOA", "local-PRAXIS", "local-Nelder-Mead", "local-spblx", "global-crs", "global-stogo", "global-isres", "local-mma", "local-sqp", NULL};
  static const nlopt_algorithm ALG[12] = {NLOPT_LN_COBYLA, NLOPT_LN_BOBYQA, NLOPT_LN_NEWUOA_BOUND, NLOPT_LN_PRAXIS, NLOPT_LN_NELDERMEAD, NLOPT_LN_SBPLX, NLOPT_GN_CRS2_LM, NLOPT_GD_STOGO, NLOPT_GN_ISRES, NLOPT_LD_MMA, NLOPT_LD_SLSQP, NLOPT_LD_SLSQP};
  const int w = vc_enum_in("optimiser", 0, 11), lim = vc_enum_in("limits", 0, 1); const char* a[10] = {"f"}; int k = 1; if (NAME[w]) { a[k++] = "--nlopt-optimizer"; a[k++] = NAME[w]; } if (lim) { a[k++] = "--nlop-max-num-iterations"; a[k++] = "7"; a[k++] = "--nlop-abs-function-tolerance"; a[k++] = "0.5"; a[k++] = "--nlop-relative-function-tolerance"; a[k++] = "0.25"; }
  problem b(1, 1, 1, APAR[0], APAR[0], false); fails = 0; result = NLOPT_SUCCESS; vc_check(fit(b, k, a), "the fit succeeds"); vc_check(used == ALG[w], "the optimiser is the one that is asked for"); vc_check_ieq(maxeval, lim ? 7 : -1, "the number of evaluations is the one that is asked for"); vc_check_same(ftol, lim ? 0.5 : -1.0, "the tolerance on the objective is the one that is asked for"); if (lim) vc_check_same(frel, 0.25, "the relative tolerance on the objective is the one that is asked for");
}
