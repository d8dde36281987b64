// The tools brdf2gnuplot, data2moments and data2stats (softs), P33 and P31: what they
// write to their output files, for abstract data, abstract models and abstract conversions.
// vc-sources: sources/core/common.cpp sources/core/function.cpp sources/core/vertical_segment.cpp
#include "vc.h"
#include "abstract_params.h"
#include "abstract_data.h"
#include <core/plugins_manager.h>
#include <core/metrics.h>
#include "outputs.h"
#define exit(c) throw left{c}
#define main brdf2gnuplot_main
#include "sources/softs/brdf2gnuplot/main.cpp"
#undef main
#define main data2moments_main
#include "sources/softs/data2moments/main.cpp"
#undef main
#define main data2stats_main
#include "sources/softs/data2stats/data2stats.cpp"
#undef main
#undef exit
void params::print_input_params() {}
static double absval(double x) { return x < 0 ? -x : x; }
struct domain : samples { domain(const alta::parameters& p, int n) : samples(p, n) {} void bounds(const vec& lo, const vec& hi) { _min = lo; _max = hi; } };
static ptr<data> the_data, the_ref; static function* the_model;
size_t plugins_manager::get_system_memory() { return 1; }
ptr<data> plugins_manager::load_data(const std::string& f, const std::string& t, const arguments&) {
  vc_check(f == "i" || f == "r", "the file is the one that is asked for"); vc_check(t == (f == "r" ? "ref" : "in"), "the plugin is the one that is asked for"); return f == "r" ? the_ref : the_data;
}
function* plugins_manager::load_function(const std::string& f) { vc_check(f == "m", "the model is the one that is asked for"); return the_model; }
// its contract: P18
static vec metric_[6]; static const char* MNAME[6] = {"L1", "L2", "L3", "LInf", "MSE", "RMSE"};
void errors::compute(const data* in, const data* ref, const data* mask, metrics& res) {
  vc_check(in == the_data.get() && ref == the_ref.get() && mask == NULL, "the input is compared to the reference, over all samples");
  for (int k = 0; k < 6; ++k) res[MNAME[k]] = metric_[k];
}
static double printed(double x, int precision) { std::ostringstream o; o.precision(precision); o << x; std::istringstream i(o.str()); double r = 0; i >> r; return r; }
static vec head(const samples& d, int i) { vec x(d.parametrization().dimX()); for (int k = 0; k < x.size(); ++k) x[k] = d.v[i][k]; return x; }
static vec conv(const vec& x, params::input a, params::input b) { return a == b ? x : converted(x, a, b); }
static double next(std::istream& in) { double r = 0; in >> r; return r; }
static bool ended(std::istream& in) { std::string s; in >> s; return s.empty(); }
// --- plots over the samples of a data file. kind: 0 values, 1 deviations, 2 relative deviations
static void plot(int n, int nY, params::input pd, params::input pf, int kind, bool cosines, bool by_plugin) {
  samples* d = new samples(apar(pd, nY), n); d->fill("sample"); the_data = ptr<data>((data*)d);
  const int dx = d->parametrization().dimX();
  model f(pf == params::UNKNOWN_INPUT ? alta::parameters(dx, nY, pf, params::UNKNOWN_OUTPUT) : apar(pf, nY)); the_model = new model(f);
  const char* argv[16] = {"brdf2gnuplot", "--input", "m", "--output", "plot.txt", "--data-file", "i", "--data", "in"}; int k = 9;
  if (kind == 1) argv[k++] = "--error"; if (kind == 2) argv[k++] = "--linear_error"; if (cosines) argv[k++] = "--cos-plot";
  if (kind == 2) for (int i = 0; i < n; ++i) for (int y = 0; y < nY; ++y) vc_assume(d->v[i][dx + y] > 0.25);
  vc_check_ieq(brdf2gnuplot_main(k, (char**)argv), 0, "the tool succeeds");
  std::ifstream in("plot.txt");
  for (int i = 0; i < n; ++i) {
    const vec x = pf == params::UNKNOWN_INPUT ? head(*d, i) : conv(head(*d, i), pd, pf); const vec v = f.value(x);
    double c = 1.0; if (cosines && pf != params::UNKNOWN_INPUT) { const vec e = conv(head(*d, i), pd, params::CARTESIAN); c = e[5]*e[2]; }
    if (kind == 2) vc_check_eq(next(in), i, "a line starts with the index of its sample");
    else for (int j = 0; j < dx; ++j) vc_check_eq(next(in), printed(d->v[i][j], 10), "a line starts with the coordinates of its sample");
    for (int y = 0; y < nY; ++y) {
      const double m = c*v[y], s = d->v[i][dx + y];
      vc_check_eq(next(in), printed(kind == 0 ? m : kind == 1 ? s - m : (s - m)/s, 10), "the plotted value is the one that is asked for");
    }
  }
  vc_check(ended(in), "there is one line per sample");
}
static params::input plotted(int k) { return k < 3 ? APAR[k] : params::UNKNOWN_INPUT; }
CONTRACT_BOUNDED(P33_plot, "up to 2 samples, every parametrization of the data and the model") { const int n = vc_upto("n", 1, 2, 30); plot(n, 1, APAR[vc_enum_in("data", 0, 2)], plotted(vc_enum_in("model", 0, 3)), 0, false, false); }
CONTRACT_BOUNDED(P33_plot_error, "up to 2 samples, two parametrizations") { const int n = vc_upto("n", 1, 2, 30), d = vc_enum_in("data", 1, 2); plot(n, 1, APAR[d], plotted(d), 1, vc_enum_in("cos", 0, 1), false); }
CONTRACT_BOUNDED(P33_plot_relative, "up to 2 samples, two parametrizations") { const int n = vc_upto("n", 1, 2, 30), d = vc_enum_in("data", 1, 2); plot(n, 1, APAR[d], plotted(0), 2, vc_enum_in("cos", 0, 1), false); }
CONTRACT_BOUNDED(P33_plot_cosine, "up to 2 samples, every parametrization of the data and the model") { const int n = vc_upto("n", 1, 2, 30), d = vc_enum_in("data", 0, 2); plot(n, 1, APAR[d], plotted(vc_enum_in("model", 0, 3)), 0, true, false); }
CONTRACT_BOUNDED(P33_plot_channels, "1 sample of 3 channels") { vc_upto("n", 1, 1, 30); plot(1, 3, APAR[2], APAR[0], vc_enum_in("kind", 0, 2), vc_enum_in("cos", 0, 1), false); }
CONTRACT_BOUNDED(P33_polar_plot, "2 to 7 samples, three elevations of the light, every parametrization of the model, one or three channels") {
  const int s = vc_enum_in("samples", 2, 7), N = s/2, nY = vc_enum_in("rgb", 0, 1) ? 3 : 1; const int a = vc_enum_in("angle", 0, 2); const params::input pf = APAR[vc_enum_in("model", 0, 2)];
  static const char* ANGLE[3] = {"0", "0.5", "1.25"}; static const char* SAMPLES[8] = {"0", "1", "2", "3", "4", "5", "6", "7"}; static const double TH[3] = {0.0, 0.5, 1.25};
  model f(apar(pf, nY)); the_model = new model(f); the_data = ptr<data>();
  const char* argv[16] = {"brdf2gnuplot", "--input", "m", "--output", "polar.txt", "--polar-plot", "--samples", SAMPLES[s], "--inc-angle", ANGLE[a]};
  vc_check_ieq(brdf2gnuplot_main(a == 0 ? 8 : 10, (char**)argv), 0, "the tool succeeds");
  std::ifstream in("polar.txt");
  for (int side = 0; side < 2; ++side) for (int i = 0; i < N; ++i) {
    vec x(4); x[0] = TH[a]; x[1] = M_PI; x[2] = 0.5*M_PI*i/N; x[3] = side == 0 ? M_PI : 0.0; const vec v = f.value(converted(x, params::SPHERICAL_TL_PL_TV_PV, pf));
    const double t = next(in), e = side == 0 ? -x[2] : x[2]; if (vc_symbolic()) vc_check_eq(t, printed(e, 10), "elevations are regular, the retro side is negative"); else vc_check(absval(t - e) < 1e-8, "elevations are regular, the retro side is negative");
    for (int y = 0; y < nY; ++y) vc_check_eq(next(in), printed(v[y], 10), "the value of the model for this view direction");
  }
  vc_check(ended(in), "there is one line per direction");
}
// --- moments
static vec moment(std::istream& in, const char* name, int nY) {
  std::string line; std::getline(in, line); const std::string n = std::string(name) + " = "; vc_check(line.compare(0, n.size(), n) == 0, "the moments are written in order, under their names");
  line = line.substr(n.size()); for (size_t i = 0; i < line.size(); ++i) if (line[i] == '[' || line[i] == ']' || line[i] == ',') line[i] = ' ';
  std::istringstream s(line); vec r(nY); for (int y = 0; y < nY; ++y) r[y] = next(s); return r;
}
static void moments(int n, int nY, params::input p, const int* count, const char* counts, const int* dims, const char* dim, int flat) {
  const int dx = params::dimension(p); domain* d = new domain(apar(p, nY), n); d->fill("sample"); the_data = ptr<data>((data*)d);
  vec lo(dx), hi(dx); int c[6], nb = 1; double dt = 1.0;
  for (int k = 0; k < dx; ++k) { lo[k] = vc_real("min"); hi[k] = k == flat ? lo[k] : vc_real("max"); if (k != flat) vc_assume(hi[k] > lo[k] + 0.01); c[k] = k == flat ? 1 : count[k]; nb *= c[k]; if (k != flat) dt *= hi[k] - lo[k]; }
  d->bounds(lo, hi); dt /= nb;
  double m[10][3], least[3]; static const int ex[10] = {0, 1, 0, 2, 1, 0, 3, 2, 1, 0}, ey[10] = {0, 0, 1, 0, 1, 2, 0, 1, 2, 3};
  for (int y = 0; y < nY; ++y) { least[y] = d->v[0][dx + y]; for (int i = 1; i < n; ++i) if (d->v[i][dx + y] < least[y]) least[y] = d->v[i][dx + y]; for (int k = 0; k < 10; ++k) m[k][y] = 0; }
  for (int i = 0; i < nb; ++i) {
    vec x(dx); int g = i; for (int k = 0; k < dx; ++k) { x[k] = lo[k] + (hi[k] - lo[k])*(double(g % c[k])/c[k]); g /= c[k]; }
    const vec v = d->value(x);
    for (int y = 0; y < nY; ++y) for (int k = 0; k < 10; ++k) { double t = (v[y] - least[y])*dt; for (int e = 0; e < ex[k]; ++e) t *= x[dims[0]]; for (int e = 0; e < ey[k]; ++e) t *= x[dims[1]]; m[k][y] += t; }
  }
  for (int y = 0; y < nY; ++y) { if (vc_symbolic()) vc_assume(m[0][y] != 0); else vc_assume(absval(m[0][y]) > 1e-3); for (int k = 1; k < 10; ++k) m[k][y] /= m[0][y]; }
  const char* argv[16] = {"data2moments", "--input", "i", "--output", "moments.txt", "--data", "in", "--samples", counts, "--dim", dim};
  vc_check_ieq(data2moments_main(dim ? 11 : 9, (char**)argv), 0, "the tool succeeds");
  static const char* NAME[10] = {"\\mu_0", "\\mu_x", "\\mu_y", "\\mu_{xx}", "\\mu_{xy}", "\\mu_{yy}", "\\mu_{xxx}", "\\mu_{xxy}", "\\mu_{xyy}", "\\mu_{yyy}"};
  std::ifstream in("moments.txt");
  for (int k = 0; k < 10; ++k) { const vec r = moment(in, NAME[k], nY); for (int y = 0; y < nY; ++y) {
    if (vc_symbolic()) vc_check_eq(r[y], printed(m[k][y], 6), "a moment is the mean of its monomial, weighted with the values above the least one");
    else vc_check(absval(r[y] - m[k][y]) <= 1e-4*absval(m[k][y]) + 1e-9, "a moment is the mean of its monomial, weighted with the values above the least one"); } }
}
CONTRACT_BOUNDED(P33_moments, "2 samples per dimension, 2 dimensions of which one can be flat") { const int c[2] = {2, 2}, dims[2] = {0, 1}; const int n = vc_upto("n", 1, 2, 30); moments(n, 1, APAR[2], c, "[2, 2]", dims, NULL, vc_enum_in("flat", 0, 2) - 1); }
CONTRACT_BOUNDED(P33_moments_dims, "1 to 3 samples per dimension, 4 dimensions") { const int c[4] = {1, 2, 3, 1}, d0[2] = {2, 1}, d1[2] = {1, 2}; const int w = vc_enum_in("dims", 0, 1); moments(vc_upto("n", 1, 1, 30), 1, APAR[1], c, "[1, 2, 3, 1]", w ? d0 : d1, w ? "[2, 1]" : "[1, 2]", -1); }
CONTRACT_BOUNDED(P33_moments_uneven, "2, 1, 3 and 2 samples of 4 dimensions") { const int c[4] = {2, 1, 3, 2}, d[2] = {0, 2}; moments(1, 1, APAR[1], c, "[2, 1, 3, 2]", d, "[0, 2]", -1); }
CONTRACT_BOUNDED(P33_moments_channels, "3 by 1 samples of 3 channels") { const int c[2] = {3, 1}, dims[2] = {1, 0}; moments(vc_upto("n", 1, 2, 30), 3, APAR[2], c, "[3, 1]", dims, "[1, 0]", -1); }
// --- errors between two data sets
static void stats(int nY) {
  const int pi = vc_enum_in("in", 0, 2), pr = vc_enum_in("ref", 0, 2);
  the_data = ptr<data>((data*)new samples(apar(APAR[pi], nY), 1)); the_ref = ptr<data>((data*)new samples(apar(APAR[pr], nY), 1));
  for (int k = 0; k < 6; ++k) { metric_[k] = vec(nY); for (int y = 0; y < nY; ++y) metric_[k][y] = vc_real("metric"); }
  const char* argv[16] = {"data2stats", "--input", "i", "--ref", "r", "--in-data", "in", "--ref-data", "ref", "--output", "stats.txt"};
  vc_check_ieq(data2stats_main(11, (char**)argv), 0, "the tool succeeds");
  std::ifstream in("stats.txt"); std::string line; for (int i = 0; i < 4; ++i) std::getline(in, line);
  static const char* NAME[6] = {"L1 :", "L2 :", "L3 :", "LINF :", "MSE :", "RMSE :"};
  for (int k = 0; k < 6; ++k) {
    std::getline(in, line); vc_check(line.compare(0, strlen(NAME[k]), NAME[k]) == 0, "the metrics are written in order, under their names");
    line = line.substr(strlen(NAME[k])); for (size_t i = 0; i < line.size(); ++i) if (line[i] == '[' || line[i] == ']' || line[i] == ',') line[i] = ' ';
    std::istringstream s(line); for (int y = 0; y < nY; ++y) vc_check_eq(next(s), printed(metric_[k][y], 6), "a metric is the one of its name");
  }
}
CONTRACT_BOUNDED(P33_stats, "one or three channels") { stats(vc_enum_in("rgb", 0, 1) ? 3 : 1); }
// --- parts that cannot be loaded
CONTRACT_BOUNDED(P31_analysis_tools, "one sample; each of the parts missing") {
  const int miss = vc_enum_in("missing", 0, 4); const alta::parameters p = apar(params::RUSIN_TH_TD, 1); samples* s = new samples(p, 1); s->fill("sample");
  the_data = miss == 1 || miss == 2 || miss == 3 ? ptr<data>() : ptr<data>((data*)s); the_ref = ptr<data>(); the_model = miss == 0 ? NULL : new model(p); for (int k = 0; k < 6; ++k) metric_[k] = vec::Zero(1);
  const char* a[] = {"brdf2gnuplot", "--input", "m", "--output", "o", "--data-file", "i", "--data", "in"}; const char* b[] = {"data2moments", "--input", "i", "--output", "o", "--data", "in"}; const char* c[] = {"data2stats", "--input", "i", "--ref", "r", "--in-data", "in", "--ref-data", "ref", "--output", "o"};
  std::remove("o");
  if (miss < 2) vc_check(brdf2gnuplot_main(9, (char**)a) != 0, "a model or data that cannot be loaded is an error"); else if (miss == 2) vc_check(data2moments_main(7, (char**)b) != 0, "data that cannot be loaded is an error"); else vc_check(data2stats_main(11, (char**)c) != 0, "data that cannot be loaded is an error");
  vc_check(!std::ifstream("o").is_open(), "and no file is written");
}
CONTRACT_BOUNDED(P35_analysis, "one sample; an output that can be written, that cannot be created, or not completely written") {
  const int tool = vc_enum_in("tool", 0, 3); const alta::parameters p = apar(APAR[2], 1); domain* d = new domain(p, 1); d->fill("sample"); vec lo(2), hi(2); lo[0] = lo[1] = 0; hi[0] = hi[1] = 1; d->bounds(lo, hi); the_data = ptr<data>((data*)d); domain* r = new domain(p, 1); r->fill("reference"); the_ref = ptr<data>((data*)r);
  for (int i = 0; i < 6; ++i) { metric_[i] = vec(1); metric_[i][0] = vc_real("metric"); }
  outputs([&](const char* o) {
    the_model = new model(p);
    const char* a[] = {"brdf2gnuplot", "--input", "m", "--output", o, "--data-file", "i", "--data", "in"}; const char* b[] = {"data2moments", "--input", "i", "--output", o, "--data", "in", "--samples", "[1, 1]"};
    const char* c[] = {"data2stats", "--input", "i", "--ref", "r", "--in-data", "in", "--ref-data", "ref", "--output", o}; const char* e[] = {"brdf2gnuplot", "--input", "m", "--output", o, "--polar-plot", "--samples", "2"};
    return status([&] { return tool == 0 ? brdf2gnuplot_main(9, (char**)a) : tool == 1 ? data2moments_main(9, (char**)b) : tool == 2 ? data2stats_main(11, (char**)c) : brdf2gnuplot_main(8, (char**)e); }) == 0;
  });
}
