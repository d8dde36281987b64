// The conversion tools data2data and brdf2data (softs), P25: which samples the file they
// write holds, for abstract data, abstract models and abstract conversions.
// vc-sources: sources/core/common.cpp sources/core/function.cpp sources/core/vertical_segment.cpp
#include "vc.h"
#include "abstract_params.h"
#include "abstract_data.h"
#include <core/plugins_manager.h>
#include <core/data_storage.h>
#include "outputs.h"
#define exit(c) throw left{c}
#define main data2data_main
#include "sources/softs/data2data/main.cpp"
#undef main
#define main brdf2data_main
#include "sources/softs/brdf2data/main.cpp"
#undef main
#undef exit
static const char* ANAME[3] = {"cartesian", "four", "two"};
params::input params::parse_input(const std::string& s) { for (int k = 0; k < 3; ++k) if (s == ANAME[k]) return APAR[k]; return params::UNKNOWN_INPUT; }
// its contract: P02_above_hemisphere
bool params::is_above_hemisphere(double* x, params::input t) { vec c(6); params::convert(x, t, params::CARTESIAN, &c[0]); return c[2] >= 0.0 && c[5] >= 0.0; }
void params::print_input_params() {}
// A data set that records what is stored in it and what it holds when it is saved.
static bool writes = false; // the data set is really written
struct target : samples {
  bool *set_; bool written; mutable bool saved; mutable std::string name;
  target(const alta::parameters& p, int n) : samples(p, n), set_(new bool[n + 1]), written(false), saved(false) { for (int i = 0; i < n; ++i) set_[i] = false; }
  void set(int i, const vec& x) {
    vc_check(i >= 0 && i < n, "no sample outside the set is written"); vc_check(!saved, "the samples are stored before the file is written");
    vc_check_ieq(x.size(), _parameters.dimX() + _parameters.dimY(), "a sample has all its coordinates and values");
    set_[i] = true; for (int k = 0; k < _parameters.dimX() + _parameters.dimY(); ++k) v[i][k] = x[k];
  }
  void save(const std::string& s) const { vc_check(!saved, "the file is written once"); if (writes) { std::ofstream f; f.exceptions(std::ios_base::failbit | std::ios_base::badbit); f.open(s.c_str()); f << "the text of the data set" << std::endl; f.close(); } saved = true; name = s; }
};
// the same, as the data set of samples the tool never interpolates into
struct vtarget : vertical_segment {
  target* t;
  vtarget(target* t_) : vertical_segment(t_->parametrization(), 1), t(t_) { _size = t->n; }
  vec get(int i) const { return t->get(i); }
  void set(int i, const vec& x) { t->set(i, x); }
  void save(const std::string& s) const { t->save(s); }
};
static ptr<data> the_data; static target* the_target; static ptr<data> the_target_ptr; static function* the_model;
static const char* asked_class; static params::input asked_param; static int asked_size, saved_binary;
size_t plugins_manager::get_system_memory() { return 1; }
ptr<data> plugins_manager::load_data(const std::string& f, const std::string& t, const arguments&) { vc_check(f == "i" && (t == "" || t == "in"), "the input file is the one that is asked for"); return the_data; }
ptr<data> plugins_manager::get_data(const std::string& n, size_t size, const alta::parameters& p, const arguments&) {
  vc_check(n == asked_class, "the output data has the class that is asked for"); vc_check_ieq(size, asked_size, "the output has one sample per sample of the input");
  vc_check(p.input_parametrization() == asked_param, "the output has the parametrization that is asked for");
  vc_check_ieq(p.dimX(), params::dimension(asked_param), "the output has the dimension of its parametrization");
  vc_check_ieq(p.dimY(), the_data->parametrization().dimY(), "the output has the channels of the input");
  vc_check(p.output_parametrization() == the_data->parametrization().output_parametrization(), "the output has the output parametrization of the input");
  return the_target_ptr;
}
function* plugins_manager::load_function(const std::string& f) { vc_check(f == "i", "the function file is the one that is asked for"); return the_model; }
namespace alta { void save_data_as_binary(std::ostream& out, const data& d) { out.put('x'); out.write("the bytes of the data", 21); vc_check(&d == the_target_ptr.get(), "the converted data is what is written"); ++saved_binary; the_target->save("o"); } }
static void same_row(const target& t, int i, const vec& x, const vec& y, const char* what) {
  for (int k = 0; k < x.size(); ++k) vc_check_eq(t.v[i][k], x[k], "a sample keeps its directions");
  for (int k = 0; k < y.size(); ++k) vc_check_eq(t.v[i][x.size() + k], y[k], what);
}
static vec head(const samples& d, int i) { vec x(d.parametrization().dimX()); for (int k = 0; k < x.size(); ++k) x[k] = d.v[i][k]; return x; }
static vec tail(const samples& d, int i) { const int dx = d.parametrization().dimX(); vec y(d.parametrization().dimY()); for (int k = 0; k < y.size(); ++k) y[k] = d.v[i][dx + k]; return y; }
static vec conv(const vec& x, params::input a, params::input b) { return a == b ? x : converted(x, a, b); }
static bool above(const vec& x, params::input a) { const vec c = conv(x, a, params::CARTESIAN); return c[2] >= 0.0 && c[5] >= 0.0; }
// samples are moved to other coordinates, none is interpolated
static void splat(int n, int nY, int from, int to, bool named, bool all, bool binary, bool segment = false) {
  samples* d = new samples(apar(APAR[from], nY), n); d->fill("sample"); the_data = ptr<data>((data*)d);
  the_target = new target(apar(APAR[to], nY), n); the_target_ptr = ptr<data>(segment ? (data*)new vtarget(the_target) : (data*)the_target);
  asked_class = binary ? "vertical_segment" : "out"; asked_param = APAR[to]; asked_size = n; saved_binary = 0;
  const char* argv[16] = {"data2data", "--input", "i", "--output", "o", "--in-data", "in", "--out-data", binary ? "alta-binary" : "out", segment ? "--verbose" : "--splat"}; int k = 10;
  if (all) argv[k++] = "--all-values";
  if (named) { argv[k++] = "--param"; argv[k++] = ANAME[to]; }
  vc_check_ieq(data2data_main(k, (char**)argv), 0, "the tool succeeds");
  vc_check(the_target->saved && (binary ? saved_binary == 1 : saved_binary == 0 && the_target->name == "o"), "the data is written to the output file in the format that is asked for");
  for (int i = 0; i < n; ++i) {
    const vec x = conv(head(*d, i), APAR[from], APAR[to]);
    vc_check(the_target->set_[i] == (all || above(x, APAR[to])), "exactly the samples above the hemisphere are kept, all of them with --all-values");
    if (the_target->set_[i]) same_row(*the_target, i, x, tail(*d, i), "a sample keeps its value");
  }
}
CONTRACT_BOUNDED(P25_data2data_splat, "up to 2 samples, every pair of parametrizations, one or three channels") {
  const int n = vc_upto("n", 0, 2, 60), to = vc_enum_in("to", 0, 2), from = vc_enum_in("from", 0, 2), nY = vc_enum_in("rgb", 0, 1) ? 3 : 1;
  splat(n, nY, from, to, from != to || vc_enum_in("named", 0, 1), vc_enum_in("all", 0, 1), false);
}
CONTRACT_BOUNDED(P25_data2data_binary, "1 sample, every pair of parametrizations") { splat(vc_upto("n", 1, 1, 60), 1, vc_enum_in("from", 0, 2), vc_enum_in("to", 0, 2), true, vc_enum_in("all", 0, 1), true, vc_enum_in("segment", 0, 1)); }
CONTRACT_BOUNDED(P25_data2data_segment, "1 sample, every pair of parametrizations") { splat(vc_upto("n", 1, 1, 60), 1, vc_enum_in("from", 0, 2), vc_enum_in("to", 0, 2), true, vc_enum_in("all", 0, 1), false, true); }
// the values of an interpolating data set at the coordinates of the output
static void interpolate(int n, int nY, int from, int to) {
  samples* d = new samples(apar(APAR[from], nY), n); d->fill("sample"); the_data = ptr<data>((data*)d);
  the_target = new target(apar(APAR[to], nY), n); the_target_ptr = ptr<data>((data*)the_target); the_target->fill("cell"); target before(apar(APAR[to], nY), n); for (int i = 0; i < n; ++i) for (int k = 0; k < 12; ++k) before.v[i][k] = the_target->v[i][k];
  asked_class = "out"; asked_param = APAR[to]; asked_size = n; saved_binary = 0;
  const char* argv[] = {"data2data", "--input", "i", "--output", "o", "--in-data", "in", "--out-data", "out", "--param", ANAME[to]};
  vc_check_ieq(data2data_main(11, (char**)argv), 0, "the tool succeeds");
  vc_check(the_target->saved && the_target->name == "o" && saved_binary == 0, "the data is written to the output file");
  for (int i = 0; i < n; ++i) {
    const vec x = head(before, i), c = conv(x, APAR[to], params::CARTESIAN); vec y = vec::Zero(nY);
    if (c[2] >= 0.0 && c[5] >= 0.0) y = d->value(conv(c, params::CARTESIAN, APAR[from]));
    vc_check(the_target->set_[i], "every sample of the output is given a value");
    same_row(*the_target, i, x, y, "a sample has the value of the input at its directions, zero below the horizon");
  }
}
CONTRACT_BOUNDED(P25_data2data_interpolation, "up to 2 samples, every pair of parametrizations, one or three channels") {
  const int n = vc_upto("n", 0, 2, 60); interpolate(n, vc_enum_in("rgb", 0, 1) ? 3 : 1, vc_enum_in("from", 0, 2), vc_enum_in("to", 0, 2));
}
// a model sampled at the coordinates of a data file
static void from_model(int n, int nY, int from, int to, bool unknown, bool diff) {
  the_target = new target(apar(APAR[from], nY), n); the_target->fill("sample"); the_data = ptr<data>((data*)the_target); samples before(apar(APAR[from], nY), n); for (int i = 0; i < n; ++i) for (int k = 0; k < 12; ++k) before.v[i][k] = the_target->v[i][k];
  alta::parameters p = apar(APAR[to], nY); if (unknown) p = alta::parameters(params::dimension(APAR[to]), nY, params::UNKNOWN_INPUT, p.output_parametrization());
  model f(p); the_model = new model(p);
  const char* argv[] = {"brdf2data", "--input", "i", "--output", "o", "--data-file", "i", "--data", "in", "--export-diff"};
  vc_check_ieq(brdf2data_main(diff ? 10 : 9, (char**)argv), 0, "the tool succeeds"); vc_check(the_target->saved && the_target->name == "o", "the data is written to the output file");
  for (int i = 0; i < n; ++i) {
    const vec x = head(before, i); vec y = f.value(unknown ? vec(x.head(p.dimX())) : conv(x, APAR[from], APAR[to])); if (diff) y = tail(before, i) - y;
    same_row(*the_target, i, x, y, diff ? "a sample has the difference between the data and the model" : "a sample has the value of the model at its directions");
  }
}
CONTRACT_BOUNDED(P25_brdf2data, "up to 2 samples, every pair of parametrizations, one or three channels") {
  const int n = vc_upto("n", 0, 2, 60); from_model(n, vc_enum_in("rgb", 0, 1) ? 3 : 1, vc_enum_in("from", 0, 2), vc_enum_in("to", 0, 2), false, vc_enum_in("diff", 0, 1));
}
CONTRACT_BOUNDED(P25_brdf2data_plain, "up to 2 samples, a model without parametrization") { const int n = vc_upto("n", 0, 2, 60); from_model(n, 1, 0, vc_enum_in("to", 0, 2), true, vc_enum_in("diff", 0, 1)); }
CONTRACT_BOUNDED(P31_conversions, "one sample; each of the parts missing") {
  const int miss = vc_enum_in("missing", 0, 3); const alta::parameters p = apar(params::CARTESIAN, 1); the_target = new target(p, 1); the_target->fill("sample"); the_target_ptr = miss == 1 ? ptr<data>() : ptr<data>((data*)the_target);
  the_data = miss == 0 || miss == 2 ? ptr<data>() : ptr<data>((data*)new samples(p, 1)); the_model = miss == 3 ? NULL : new model(p); asked_class = "out"; asked_param = params::CARTESIAN; asked_size = 1; saved_binary = 0;
  const char* a[] = {"data2data", "--input", "i", "--output", "o", "--in-data", "in", "--out-data", "out"}; const char* b[] = {"brdf2data", "--input", "i", "--output", "o", "--data-file", "i", "--data", "in"};
  if (miss < 2) vc_check(data2data_main(9, (char**)a) != 0, "data that cannot be loaded or a format that does not exist is an error"); else vc_check(brdf2data_main(9, (char**)b) != 0, "data or a model that cannot be loaded is an error");
  vc_check(!the_target->saved, "and no file is written");
}
CONTRACT_BOUNDED(P35_conversions, "one sample; an output that can be written, that cannot be created, or not completely written; text and binary") {
  const int tool = vc_enum_in("tool", 0, 2); const alta::parameters p = apar(params::CARTESIAN, 1); the_target = new target(p, 1); the_target->fill("sample"); the_target_ptr = ptr<data>((data*)the_target);
  samples* d = new samples(p, 1); d->fill("sample"); the_data = tool == 2 ? the_target_ptr : ptr<data>((data*)d); asked_class = tool == 1 ? "vertical_segment" : "out"; asked_param = params::CARTESIAN; asked_size = 1;
  outputs([&](const char* o) {
    the_model = new model(p); saved_binary = 0; the_target->saved = false; writes = tool != 1;
    const char* a[] = {"data2data", "--input", "i", "--output", o, "--in-data", "in", "--out-data", tool == 1 ? "alta-binary" : "out"}; const char* b[] = {"brdf2data", "--input", "i", "--output", o, "--data-file", "i", "--data", "in"};
    const int r = status([&] { return tool < 2 ? data2data_main(9, (char**)a) : brdf2data_main(9, (char**)b); }); writes = false; return r == 0;
  });
}
