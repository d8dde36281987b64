// The tools data2brdf and brdf2brdf (softs), P27 and P31: what is fitted, what is written.
// vc-sources: sources/core/common.cpp sources/core/function.cpp sources/core/vertical_segment.cpp
#include "vc.h"
#include "abstract_params.h"
#include "abstract_data.h"
#include <core/plugins_manager.h>
#include <core/fitter.h>
#include "outputs.h"
#define exit(c) throw left{c}
#define main data2brdf_main
#include "sources/softs/data2brdf/main.cpp"
#undef main
#define main brdf2brdf_main
#include "sources/softs/brdf2brdf/main.cpp"
#undef main
#undef exit
void params::print_input_params() {}
struct saving : model {
  static int saved; static double p0; static std::string func, l2, linf, name;
  saving(const alta::parameters& q) : model(q, 1) {}
  void save_call(std::ostream& out, const arguments& a) const { ++saved; p0 = p[0]; func = a["func"]; l2 = a["L2"]; linf = a["Linf"]; out << "model" << std::endl; }
};
int saving::saved; double saving::p0; std::string saving::func, saving::l2, saving::linf, saving::name;
static ptr<data> the_data; static function* the_model; static ptr<fitter> the_fitter; static int step; static bool fits; static double found;
struct fit_stub : fitter {
  void set_parameters(const arguments& a) { vc_check(a["func"] == "m" && step == 0, "the fitter gets the options of the command line before the fit"); step = 1; }
  bool fit_data(const ptr<data>& d, ptr<function>& f, const arguments& a) {
    vc_check(step == 2, "the fit starts once the data and the model are compatible"); step = 3;
    vc_check(d == the_data && f.get() == the_model && a["func"] == "m", "the model is fitted to the data with the options of the command line");
    vec p(1); p[0] = found; ((nonlinear_function*)(saving*)the_model)->setParameters(p); return fits;
  }
};
size_t plugins_manager::get_system_memory() { return 1; }
ptr<fitter> plugins_manager::get_fitter(const std::string& n) { return n == "fit" ? the_fitter : ptr<fitter>(); }
ptr<data> plugins_manager::load_data(const std::string& f, const std::string& t, const arguments&) { vc_check(f == "i" && t == "in", "the input file is the one that is asked for"); return the_data; }
function* plugins_manager::get_function(const arguments& a, const alta::parameters& p) { vc_check(a["func"] == "m", "the model is the one that is asked for"); vc_check(p.dimX() == the_data->parametrization().dimX() && p.dimY() == the_data->parametrization().dimY(), "the model gets the parametrization of the data"); return the_model; }
void plugins_manager::check_compatibility(ptr<data>& d, const ptr<function>& f, const arguments&) { vc_check(d == the_data && f.get() == the_model && step == 1, "the data and the model are made compatible before the fit"); step = 2; }
function* plugins_manager::load_function(const std::string& f) { vc_check(f == "i", "the function file is the one that is asked for"); return the_model; }
static bool exists(const char* f) { std::ifstream in(f); return in.is_open(); }
static double number(const std::string& t) { std::istringstream i(t); double r = -1; i >> r; return r; }
static double printed(double x) { std::ostringstream o; o << x; return number(o.str()); }
static const char* argv[] = {"data2brdf", "--input", "i", "--output", "out.func", "--fitter", "fit", "--data", "in", "--func", "m"};
CONTRACT_BOUNDED(P27_data2brdf, "up to 2 samples, one channel") {
  const int n = vc_upto("n", 1, 2, 60); samples* d = new samples(apar(APAR[vc_enum_in("param", 0, 1)], 1), n); d->fill("sample"); the_data = ptr<data>((data*)d);
  saving* m = new saving(d->parametrization()); m->p[0] = vc_real("start"); the_model = m; the_fitter = ptr<fitter>(new fit_stub); step = 0; saving::saved = 0; found = vc_real("found"); fits = vc_enum_in("fits", 0, 1); std::remove("out.func");
  model after(d->parametrization(), 1); after.p[0] = found; double s = 0, mx = 0;
  for (int i = 0; i < n; ++i) { vec x = d->get(i); const double e = after.value(vec(x.head(d->parametrization().dimX())))[0] - x[d->parametrization().dimX()]; s += e*e; if (e > mx) mx = e; if (-e > mx) mx = -e; }
  const int rc = data2brdf_main(11, (char**)argv); vc_check_ieq(step, 3, "the model is fitted");
  vc_check((rc == 0) == fits, "the exit status says whether the fit succeeded"); vc_check_ieq(saving::saved, fits ? 1 : 0, "a model is written exactly when the fit succeeded");
  if (fits) { vc_check(exists("out.func"), "the model is written to the output file"); vc_check_eq(saving::p0, found, "with the parameters of the fit"); vc_check(saving::func == "m", "with the command that builds it"); vc_check_eq(number(saving::l2), printed(sqrt(s / n)), "with its L2 distance to the data"); vc_check_eq(number(saving::linf), printed(mx), "with its L-infinity distance to the data"); }
}
CONTRACT_BOUNDED(P31_data2brdf, "one data set; each of the parts missing") {
  const int miss = vc_enum_in("missing", 0, 3); samples* d = new samples(apar(params::CARTESIAN, 1), 0); the_data = miss == 1 ? ptr<data>() : ptr<data>((data*)d); the_model = miss == 2 ? NULL : new saving(d->parametrization()); the_fitter = miss == 0 ? ptr<fitter>() : ptr<fitter>(new fit_stub); step = 0; saving::saved = 0;
  vc_check(data2brdf_main(11, (char**)argv) != 0, "a fitter, a file or a model that cannot be loaded, or a file without samples, is an error"); vc_check_ieq(saving::saved, 0, "and no file is written");
}
CONTRACT(P27_brdf2brdf) {
  saving* m = new saving(apar(params::CARTESIAN, 1)); m->p[0] = vc_real("p"); the_model = m; saving::saved = 0; std::remove("out.func"); const char* a[] = {"brdf2brdf", "--input", "i", "--output", "out.func"};
  vc_check_ieq(brdf2brdf_main(5, (char**)a), 0, "the tool succeeds"); vc_check(saving::saved == 1 && exists("out.func"), "the model is written to the output file"); vc_check_eq(saving::p0, m->p[0], "with its parameters");
}
CONTRACT(P31_brdf2brdf) { the_model = NULL; const char* a[] = {"brdf2brdf", "--input", "i", "--output", "out.func"}; vc_check(brdf2brdf_main(5, (char**)a) != 0, "a model that cannot be loaded is an error"); }
CONTRACT_BOUNDED(P35_models, "one sample; an output that can be written, that cannot be created, or not completely written") {
  const int tool = vc_enum_in("tool", 0, 1); samples* d = new samples(apar(params::CARTESIAN, 1), 1); d->fill("sample"); the_data = ptr<data>((data*)d); const double par = vc_real("p"); found = vc_real("found"); fits = true;
  outputs([&](const char* o) {
    saving* m = new saving(d->parametrization()); m->p[0] = par; the_model = m; the_fitter = ptr<fitter>(new fit_stub); step = 0;
    const char* a[] = {"data2brdf", "--input", "i", "--output", o, "--fitter", "fit", "--data", "in", "--func", "m"}; const char* b[] = {"brdf2brdf", "--input", "i", "--output", o};
    return status([&] { return tool == 0 ? data2brdf_main(11, (char**)a) : brdf2brdf_main(5, (char**)b); }) == 0;
  });
}
