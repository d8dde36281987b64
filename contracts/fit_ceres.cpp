// The Ceres least-squares driver (plugins/nonlinear_fitter_ceres), P26: abstract data, model
// and conversions; the solver may ask for the residuals anywhere and find anything.
// vc-sources: sources/core/common.cpp sources/core/function.cpp sources/core/vertical_segment.cpp
#include "vc.h"
#include "fit_model.h"
#include <core/fitter.h>
#include "sources/plugins/nonlinear_fitter_ceres/fitter.cpp"
static problem* cur; static bool log_fit; static vec found; static int solved, result; static ceres::Solver::Options used;
static void blocks(const problem& b, const ceres::Problem& p) {
  const int dx = b.d->parametrization().dimX();
  vc_check_ieq(p.blocks.size(), b.n, "there is one block of residuals for each sample"); vc_check(!p.loss, "the residuals are squared"); if ((int)p.blocks.size() != b.n) return;
  double q[5]; bool in = true; for (int i = 0; i < b.nP; ++i) { q[i] = vc_real("q"); in = in && q[i] >= b.f->lo[i] && q[i] <= b.f->up[i]; }
  bmodel m(*b.f); for (int i = 0; i < b.nP; ++i) m.p[i] = q[i];
  for (int s = 0; s < b.n; ++s) {
    const ceres::CostFunction& c = *p.blocks[s]; vc_check_ieq(c.num_residuals(), b.nY, "with one residual for each channel"); vc_check(c.parameter_block_sizes().size() == 1 && c.parameter_block_sizes()[0] == b.nP, "the solver varies every parameter of the model");
    const double* x[1] = {q}; double y[3], j[15]; double* J[1] = {j}; const bool r = c.Evaluate(x, y, NULL);
    if (!in) { vc_check(!r, "parameters outside the bounds of the model are refused"); continue; }
    vc_check(r, "parameters within the bounds of the model are accepted"); vc_check(c.Evaluate(x, y, J), "and with the derivative");
    vec z(dx); for (int k = 0; k < dx; ++k) z[k] = b.d->v[s][k];
    z = converted(z, b.d->parametrization().input_parametrization(), m.parametrization().input_parametrization()); const vec v = m.value(z), g = m.parametersJacobian(z);
    for (int k = 0; k < b.nY; ++k) {
      const double d = b.d->v[s][dx + k]; if (log_fit) { vc_assume(d > -0.9); vc_assume(v[k] > -0.9); }
      vc_check_eq(y[k], log_fit ? log(1.0 + d) - log(1.0 + v[k]) : d - v[k], "the residual is the measured value minus the model value at the sample, or the difference of their logarithms");
      for (int i = 0; i < b.nP; ++i) vc_check_eq(j[k * b.nP + i], log_fit ? -g[k * b.nP + i] / (1.0 + v[k]) : -g[k * b.nP + i], "the matrix is the derivative of the residual");
    }
  }
}
void ceres::Solve(const Solver::Options& o, Problem* p, Solver::Summary* s) {
  ++solved; used = o; double* x = p->values.empty() ? NULL : p->values[0]; for (size_t i = 0; i < p->values.size(); ++i) vc_check(p->values[i] == x, "the blocks share the parameters");
  if (x) for (int i = 0; i < cur->nP; ++i) vc_check_same(x[i], cur->f->boot[i], "the solver starts with the bootstrapped parameters");
  blocks(*cur, *p); if (x) for (int i = 0; i < cur->nP; ++i) x[i] = found[i]; s->termination_type = (TerminationType)result;
}
static void fitted(int n, int nP, int nY, params::input pi, params::input po) {
  problem b(n, nP, nY, pi, po, false); cur = &b; solved = 0; log_fit = vc_bool("log"); const char* a[] = {"f", "--log-fit"}; arguments args(log_fit ? 2 : 1, (char**)a);
  found = vec(nP); for (int i = 0; i < nP; ++i) found[i] = vc_real("found");
  nonlinear_fitter_ceres e; ptr<function> fit = dynamic_pointer_cast<function>(b.pf); result = vc_enum_in("result", ceres::CONVERGENCE, ceres::USER_FAILURE); const bool ok = e.fit_data(b.pd, fit, args);
  for (int i = 0; i < b.d->min().size(); ++i) { vc_check_same(b.f->min()[i], b.d->min()[i], "the model has the domain of the data"); vc_check_same(b.f->max()[i], b.d->max()[i], "the model has the domain of the data"); }
  if (nP == 0) { vc_check(ok && solved == 0, "a model without parameters needs no solver"); return; }
  vc_check_ieq(b.f->booted, 1, "the model is bootstrapped with the data"); vc_check_ieq(solved, 1, "the solver is run once"); vc_check(ok == (result != ceres::FAILURE && result != ceres::USER_FAILURE), "the fit succeeds when the solver does"); if (ok) for (int i = 0; i < nP; ++i) vc_check_same(b.f->p[i], found[i], "the model has the parameters the solver found");
}
CONTRACT_BOUNDED(P26_ceres, "up to 2 samples and 2 parameters") { fitted(vc_upto("n", 1, 2, 30), vc_upto("nP", 0, 2, 5), 1, APAR[vc_enum_in("data", 0, 2)], APAR[vc_enum_in("model", 0, 1)]); }
CONTRACT_BOUNDED(P26_ceres_channels, "1 sample of 3 channels, 2 parameters") { fitted(vc_upto("n", 1, 1, 30), vc_upto("nP", 2, 2, 5), 3, APAR[vc_enum_in("data", 0, 1)], APAR[0]); }
CONTRACT_BOUNDED(P26_ceres_options, "each option alone and all together") {
  static const char* OPT[4] = {"--ceres-max-num-iterations", "--ceres-function-tolerance", "--ceres-gradient-tolerance", "--ceres-parameter-tolerance"}; static const char* VAL[4] = {"7", "0.5", "0.25", "0.125"};
  const int w = vc_enum_in("option", 0, 5); const char* a[9] = {"f"}; int k = 1; for (int i = 0; i < 4; ++i) if (w == i || w == 4) { a[k++] = OPT[i]; a[k++] = VAL[i]; }
  nonlinear_fitter_ceres e; e.set_parameters(arguments(k, (char**)a)); problem b(1, 1, 1, APAR[0], APAR[0], false); cur = &b; solved = 0; result = ceres::CONVERGENCE; log_fit = false; found = vec(1); found[0] = vc_real("found"); const char* none[] = {"f"}; ptr<function> fit = dynamic_pointer_cast<function>(b.pf); e.fit_data(b.pd, fit, arguments(1, (char**)none));
  const ceres::Solver::Options d; vc_check_ieq(used.max_num_iterations, w == 0 || w == 4 ? 7 : d.max_num_iterations, "the number of iterations is the one that is asked for"); vc_check_same(used.function_tolerance, w == 1 || w == 4 ? 0.5 : d.function_tolerance, "the tolerance on the function is the one that is asked for");
  vc_check_same(used.gradient_tolerance, w == 2 || w == 4 ? 0.25 : d.gradient_tolerance, "the tolerance on the gradient is the one that is asked for"); vc_check_same(used.parameter_tolerance, w == 3 || w == 4 ? 0.125 : d.parameter_tolerance, "the tolerance on the parameters is the one that is asked for");
}
