// The metrics of the tool fit2stat (softs/fit2stat), P18: the functions it calls and
// what it writes to its output file, for abstract data and an abstract model.
// vc-sources: sources/core/common.cpp sources/core/function.cpp sources/core/vertical_segment.cpp
#include "vc.h"
#include "abstract_params.h"
#include "abstract_data.h"
#include "outputs.h"
#define main fit2stat_main
#include "sources/softs/fit2stat/fit2stat.cpp"
#undef main
struct both { samples* d; model* f; ptr<data> pd; ptr<function> pf; both(int n, int nY, params::input p) { d = new samples(apar(p, nY), n); d->fill("sample"); pd = ptr<data>((data*)d); f = new model(apar(p, nY)); pf = ptr<function>((function*)f); }
  double dev(int i, int y) const { const int dx = d->parametrization().dimX(); vec x(dx); for (int j = 0; j < dx; ++j) x[j] = d->v[i][j]; return f->value(x)[y] - d->v[i][dx + y]; }
};
// what the tool finds on the command line
static ptr<data> the_data; static function* the_model;
size_t plugins_manager::get_system_memory() { return 1; }
ptr<data> plugins_manager::load_data(const std::string&, const std::string&, const arguments&) { return the_data; }
function* plugins_manager::load_function(const std::string&) { return the_model; }
static double absval(double x) { return x < 0 ? -x : x; }
static void norms(int n, int nY) {
  both b(n, nY, params::CARTESIAN); vec w(n); for (int i = 0; i < n; ++i) w[i] = vc_real("w");
  vec l1 = Norm::L1(b.pd, b.pf), l2 = Norm::L2(b.pd, b.pf), li = Norm::LInf(b.pd, b.pf), l3 = Norm::Lp(b.pd, b.pf, 3.0), wl = Norm::weightedL2(b.pd, b.pf, w), ms = Error::meanSquareError(b.pd, b.pf), rm = Error::rootMeanSquareError(b.pd, b.pf);
  for (int y = 0; y < nY; ++y) {
    double s1 = 0, s2 = 0, s3 = 0, sw = 0, mx = 0;
    for (int i = 0; i < n; ++i) { const double e = b.dev(i, y), a = absval(e); s1 += a; s2 += e*e; s3 += pow(a, 3.0); sw += e*w[i]*e*w[i]; if (a > mx) mx = a; }
    vc_check_eq(l1[y], s1, "L1 is the sum of the deviations"); vc_check_eq(l2[y], sqrt(s2), "L2 is the root of the sum of the squared deviations");
    vc_check_eq(l3[y], pow(s3, 1.0/3.0), "Lp is the root of the sum of the powers of the deviations"); vc_check_eq(li[y], mx, "LInf is the largest deviation");
    vc_check_eq(wl[y], sqrt(sw), "the weighted L2 weighs every deviation with its own weight");
    vc_check_eq(ms[y], s2/n, "MSE is the mean of the squared deviations"); vc_check_eq(rm[y], sqrt(s2/n), "RMSE is the root of the mean of the squared deviations");
  }
}
CONTRACT_BOUNDED(P18_fit2stat_norms, "up to 2 samples") { norms(vc_upto("n", 1, 2, 300), 1); }
CONTRACT_BOUNDED(P18_fit2stat_norms_channels, "1 sample of 3 channels") { norms(vc_upto("n", 1, 1, 100), 3); }
// --- the tool itself: data in any parametrization, a model of direction pairs; the metrics are read in the file it writes
static double printed(double x) { std::ostringstream o; o << x; std::istringstream i(o.str()); double r = 0; i >> r; return r; }
static void metric(std::istream& in, const char* name, const double* e, int nY, const char* what) {
  std::string line; std::getline(in, line); vc_check(line.compare(0, strlen(name), name) == 0, "the metrics are written in order, under their names");
  line = line.substr(strlen(name));
  for (size_t i = 0; i < line.size(); ++i) if (line[i] == '[' || line[i] == ']') line[i] = ' ';
  std::istringstream s(line);
  for (int y = 0; y < nY; ++y) { double r = 0; s >> r; vc_check_eq(r, printed(e[y]), what); if (y + 1 < nY) std::getline(s, line, ','); }
}
static void tool(int n, int nY, params::input pd) {
  samples* d = new samples(apar(pd, nY), n); d->fill("sample"); the_data = ptr<data>((data*)d); model f(apar(params::CARTESIAN, nY)); the_model = new model(f);
  double l1[3], l2[3], l3[3], li[3], ms[3], rm[3], wm[3], wr[3], vm[3], vr[3];
  for (int y = 0; y < nY; ++y) {
    double s1 = 0, s2 = 0, s3 = 0, sw = 0, sv = 0, mx = 0; const int dx = d->parametrization().dimX();
    for (int i = 0; i < n; ++i) {
      vec x(dx); for (int j = 0; j < dx; ++j) x[j] = d->v[i][j];
      if (pd != params::CARTESIAN) x = converted(x, pd, params::CARTESIAN);
      const double e = d->v[i][dx + y] - f.value(x)[y], a = absval(e), w = x[5], v = x[2]*x[5]; s1 += a; s2 += e*e; s3 += a*a*a; sw += e*w*e*w; sv += e*v*e*v; if (a > mx) mx = a;
    }
    l1[y] = s1; l2[y] = sqrt(s2); l3[y] = pow(s3, 1.0/3.0); li[y] = mx; ms[y] = s2/n; rm[y] = sqrt(s2/n); wm[y] = sw/n; wr[y] = sqrt(sw/n); vm[y] = sv/n; vr[y] = sqrt(sv/n);
  }
  const char* argv[] = {"fit2stat", "--brdf", "b", "--input", "i", "--output", "stat.txt"};
  vc_check_ieq(fit2stat_main(7, (char**)argv), 0, "the tool succeeds");
  std::ifstream in("stat.txt"); std::string line; for (int i = 0; i < 4; ++i) std::getline(in, line);
  metric(in, "L1 :", l1, nY, "L1 is the sum of the deviations"); metric(in, "L2 :", l2, nY, "L2 is the root of the sum of the squared deviations");
  metric(in, "L3 :", l3, nY, "L3 is the cubic root of the sum of the cubed deviations"); metric(in, "LINF :", li, nY, "LInf is the largest deviation");
  metric(in, "MSE :", ms, nY, "MSE is the mean of the squared deviations"); metric(in, "RMSE :", rm, nY, "RMSE is the root of the mean of the squared deviations");
  metric(in, "MSE * cos(theta_light) :", wm, nY, "the light-weighted MSE weighs deviations with the cosine of the light"); metric(in, "RMSE * cos(theta_light) :", wr, nY, "the light-weighted RMSE weighs deviations with the cosine of the light");
  metric(in, "MSE * cos(theta_light) * cos(theta_view) :", vm, nY, "the weighted MSE weighs deviations with both cosines"); metric(in, "RMSE * cos(theta_light) cos(theta_view)  :", vr, nY, "the weighted RMSE weighs deviations with both cosines");
}
CONTRACT_BOUNDED(P18_fit2stat, "up to 2 samples, every parametrization of the data") { const int n = vc_upto("n", 1, 2, 100); tool(n, 1, APAR[vc_enum_in("data", 0, 2)]); }
CONTRACT_BOUNDED(P18_fit2stat_channels, "1 sample of 3 channels") { tool(vc_upto("n", 1, 1, 100), 3, APAR[vc_enum_in("data", 0, 1)]); }
CONTRACT_BOUNDED(P35_fit2stat, "one sample; an output that can be written, that cannot be created, or not completely written") {
  samples* d = new samples(apar(params::CARTESIAN, 1), 1); d->fill("sample"); the_data = ptr<data>((data*)d);
  outputs([&](const char* o) { the_model = new model(apar(params::CARTESIAN, 1)); const char* argv[] = {"fit2stat", "--brdf", "b", "--input", "i", "--output", o}; return fit2stat_main(7, (char**)argv) == 0; });
}
