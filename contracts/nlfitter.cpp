// The Eigen least-squares driver (plugins/nonlinear_fitter_eigen), P26. The data
// set, the model and the conversions are abstract (any samples, any value and
// Jacobian), and so is the solver: it may ask for the residual and its
// derivative anywhere, and return anything.
// vc-sources: sources/core/common.cpp sources/core/function.cpp sources/core/vertical_segment.cpp
#include "vc.h"
#include "abstract_params.h"
#include "abstract_data.h"
#include "fit_model.h"
#include <core/fitter.h>
#include <Eigen/Dense>
#include <Eigen/SVD>
// --- the solver, in place of <unsupported/Eigen/LevenbergMarquardt>
#define EIGEN_LEVENBERGMARQUARDT_MODULE
static vec solver_start, solver_result; static int solver_status, solver_calls;
namespace Eigen {
template<typename S> struct DenseFunctor { typedef S Scalar; int n, m; DenseFunctor(int n_, int m_) : n(n_), m(m_) {} int inputs() const { return n; } int values() const { return m; } };
namespace LevenbergMarquardtSpace { enum Status { NotStarted = -2, Running = -1, ImproperInputParameters = 0, RelativeReductionTooSmall = 1, RelativeErrorTooSmall = 2, RelativeErrorAndReductionTooSmall = 3, CosinusTooSmall = 4, TooManyFunctionEvaluation = 5, FtolTooSmall = 6, XtolTooSmall = 7, GtolTooSmall = 8, UserAsked = 9 }; }
}
static void probe_driver(int inputs, int values, const void* functor, int (*res)(const void*, const Eigen::VectorXd&, Eigen::VectorXd&), int (*der)(const void*, const Eigen::VectorXd&, Eigen::MatrixXd&));
namespace Eigen {
template<typename F> struct LevenbergMarquardt {
  F& f; LevenbergMarquardt(F& f_) : f(f_) {}
  static int res(const void* f, const Eigen::VectorXd& x, Eigen::VectorXd& y) { return (*(const F*)f)(x, y); }
  static int der(const void* f, const Eigen::VectorXd& x, Eigen::MatrixXd& j) { return ((const F*)f)->df(x, j); }
  LevenbergMarquardtSpace::Status minimize(Eigen::VectorXd& x) {
    solver_start = x; ++solver_calls; probe_driver(f.inputs(), f.values(), &f, res, der);
    x = solver_result; return (LevenbergMarquardtSpace::Status)solver_status;
  }
  int iterations() const { return 1; }
};
}
#include "sources/plugins/nonlinear_fitter_eigen/fitter.cpp"
static problem* cur;
// the factor that multiplies the model at a sample
static double factor(const problem& b, const vec& x) { return b.cosine ? converted(x, b.d->parametrization().input_parametrization(), params::CARTESIAN)[5] : 1.0; }
static void probe_driver(int inputs, int values, const void* functor, int (*res)(const void*, const Eigen::VectorXd&, Eigen::VectorXd&), int (*der)(const void*, const Eigen::VectorXd&, Eigen::MatrixXd&)) {
  const problem& b = *cur; const int dx = b.d->parametrization().dimX();
  vc_check_ieq(inputs, b.nP, "the solver varies every parameter of the model"); vc_check_ieq(values, b.n * b.nY, "there is one residual for each sample and channel");
  Eigen::VectorXd q(b.nP), y(b.n * b.nY); bool in = true;
  for (int i = 0; i < b.nP; ++i) { q[i] = vc_real("q"); in = in && q[i] >= b.f->lo[i] && q[i] <= b.f->up[i]; }
  const int r = res(functor, q, y);
  if (!in) { vc_check(r < 0, "parameters outside the bounds of the model are refused"); return; }
  vc_check(r >= 0, "parameters within the bounds of the model are accepted");
  Eigen::MatrixXd j(b.n * b.nY, b.nP); vc_check_ieq(der(functor, q, j), 0, "the derivative is available");
  bmodel m(*b.f); m.p = q;
  for (int s = 0; s < b.n; ++s) {
    vec x(dx); for (int k = 0; k < dx; ++k) x[k] = b.d->v[s][k];
    const double c = factor(b, x);
    vec z = converted(x, b.d->parametrization().input_parametrization(), m.parametrization().input_parametrization()), v = m.value(z), g = m.parametersJacobian(z);
    for (int k = 0; k < b.nY; ++k) {
      // any order of the rows, the same for the residual and its derivative
      vc_check_eq(y[k * b.n + s], b.d->v[s][dx + k] - c * v[k], "the residual is the measured value minus the model value at the sample");
      for (int i = 0; i < b.nP; ++i) vc_check_eq(j(k * b.n + s, i), -c * g[k * b.nP + i], "the matrix is the derivative of the residual");
    }
  }
}
static void driver(int n, int nP, int nY, params::input pi, params::input po, bool c) {
  problem b(n, nP, nY, pi, po, c); cur = &b; EigenFunctor f(b.pf, b.pd, c);
  typedef Eigen::LevenbergMarquardt<EigenFunctor> LM; probe_driver(f.inputs(), f.values(), &f, LM::res, LM::der);
}
CONTRACT_BOUNDED(P26_residual, "up to 2 samples and 2 parameters") { driver(vc_upto("n", 1, 2, 60), vc_upto("nP", 1, 2, 5), 1, APAR[vc_enum_in("data", 0, 2)], APAR[vc_enum_in("model", 0, 2)], vc_bool("cosine")); }
CONTRACT_BOUNDED(P26_residual_channels, "2 samples of 3 channels, 2 parameters") { driver(vc_upto("n", 2, 2, 40), vc_upto("nP", 2, 2, 5), 3, APAR[vc_enum_in("data", 0, 1)], APAR[0], vc_bool("cosine")); }
// --- the fitter: bootstraps the model, hands it to the solver, and keeps what the solver found
static void fitted(int n, int nP, params::input pi, params::input po) {
  problem b(n, nP, 1, pi, po, false); cur = &b; solver_calls = 0;
  static const char* none[] = {"f"}; static const char* cosine[] = {"f", "--fit-with-cosine"};
  b.cosine = vc_bool("cosine"); arguments args(b.cosine ? 2 : 1, (char**)(b.cosine ? cosine : none));
  solver_result = vec(nP); for (int i = 0; i < nP; ++i) solver_result[i] = vc_real("found");
  solver_status = vc_enum_in("status", 0, 9);
  nonlinear_fitter_eigen e; ptr<function> fit = dynamic_pointer_cast<function>(b.pf);
  const bool ok = e.fit_data(b.pd, fit, args);
  vc_check_ieq(b.f->booted, 1, "the model is bootstrapped with the data");
  const int dx = b.f->parametrization().dimX(); (void)dx;
  for (int i = 0; i < b.d->min().size(); ++i) { vc_check_same(b.f->min()[i], b.d->min()[i], "the model has the domain of the data"); vc_check_same(b.f->max()[i], b.d->max()[i], "the model has the domain of the data"); }
  if (nP == 0) { vc_check(ok && solver_calls == 0, "a model without parameters needs no solver"); return; }
  vc_check_ieq(solver_calls, 1, "the solver is run once");
  for (int i = 0; i < nP; ++i) vc_check_same(solver_start[i], b.f->boot[i], "the solver starts with the bootstrapped parameters");
  if (solver_status == Eigen::LevenbergMarquardtSpace::ImproperInputParameters || solver_status == Eigen::LevenbergMarquardtSpace::UserAsked) { vc_check(!ok, "the fit fails when the solver does"); return; }
  vc_check(ok, "the fit succeeds when the solver does");
  for (int i = 0; i < nP; ++i) vc_check_same(b.f->p[i], solver_result[i], "the model has the parameters the solver found");
}
CONTRACT_BOUNDED(P26_fit, "1 sample, up to 2 parameters") { fitted(vc_upto("n", 1, 1, 20), vc_upto("nP", 0, 2, 5), APAR[0], APAR[vc_enum_in("model", 0, 1)]); }
// --- one lobe of a sum: its residual is what the lobes up to it leave
static void compound(int n, int nY, params::input pi, params::input p0, params::input p1, bool c) {
  samples* d = new samples(apar(pi, nY), n); d->fill("sample"); ptr<data> pd((data*)d); const int dx = d->parametrization().dimX();
  bmodel* f[2] = {new bmodel(apar(p0, nY), 1), new bmodel(apar(p1, nY), 2)};
  std::vector<ptr<nonlinear_function> > fs; fs.push_back(ptr<nonlinear_function>((nonlinear_function*)f[0])); fs.push_back(ptr<nonlinear_function>((nonlinear_function*)f[1]));
  std::vector<arguments> as(2); compound_function cf(fs, as);
  const int w = vc_enum_in("lobe", 0, 1), nP = w + 1; CompoundFunctor g(&cf, w, pd, c);
  vc_check_ieq(g.inputs(), nP, "the solver varies every parameter of the lobe"); vc_check_ieq(g.values(), n * nY, "there is one residual for each sample and channel");
  Eigen::VectorXd q(nP), y(n * nY); for (int i = 0; i < nP; ++i) q[i] = vc_real("q");
  vc_check_ieq(g(q, y), 0, "the residual is available"); Eigen::MatrixXd j(n * nY, nP); vc_check_ieq(g.df(q, j), 0, "the derivative is available");
  bmodel m(*f[w]); m.p = q;
  for (int s = 0; s < n; ++s) {
    vec x(dx); for (int k = 0; k < dx; ++k) x[k] = d->v[s][k];
    const double k = c ? converted(x, pi, params::CARTESIAN)[5] : 1.0; vec z = converted(x, pi, m.parametrization().input_parametrization());
    vec v = m.value(z), g = m.parametersJacobian(z); if (w == 1) { vec u = f[0]->value(converted(x, pi, p0)); for (int t = 0; t < nY; ++t) v[t] += u[t]; }
    for (int t = 0; t < nY; ++t) {
      vc_check_eq(y[t * n + s], d->v[s][dx + t] - k * v[t], "the residual is the measured value minus the lobes up to this one");
      for (int i = 0; i < nP; ++i) vc_check_eq(j(t * n + s, i), -k * g[t * nP + i], "the matrix is the derivative of the residual");
    }
  }
}
CONTRACT_BOUNDED(P26_compound, "up to 2 samples, sums of 2 lobes") { compound(vc_upto("n", 1, 2, 40), 1, APAR[vc_enum_in("data", 0, 1)], APAR[vc_enum_in("m0", 0, 1)], APAR[vc_enum_in("m1", 0, 1)], vc_bool("cosine")); }
CONTRACT_BOUNDED(P26_compound_channels, "1 sample of 2 channels, sums of 2 lobes") { compound(vc_upto("n", 1, 1, 20), 2, APAR[vc_enum_in("data", 0, 1)], APAR[vc_enum_in("m0", 0, 1)], APAR[vc_enum_in("m1", 0, 1)], vc_bool("cosine")); }
