// Plugins and the models built from the command line (core/plugins_manager.cpp), P27 and P31.
// The dynamic loader, the environment and the file system are contracts: a library is
// there or not, with or without the symbol, and dlerror reports the last call only.
// vc-sources: sources/core/common.cpp sources/core/function.cpp sources/core/rational_function.cpp sources/core/vertical_segment.cpp
#include "vc.h"
#include "abstract_params.h"
#include "abstract_data.h"
#include <core/rational_function.h>
#include <core/vertical_segment.h>
#include <core/fitter.h>
#include <dlfcn.h>
#include <cstdlib>
#include <cstring>
static const char* env_value;
static int dl_state[3]; static const char* dl_lib; static const char* dl_symbol; static bool dl_failed;
static const char* DIRS[3] = {"a", "b", "/usr/system"};
namespace std { static inline char* vc_getenv(const char* n) { return !strcmp(n, "ALTA_PLUGIN_PATH") ? (char*)env_value : NULL; } }
static char dl_handle[3]; static const char* dl_names[3] = {"A", "B", "F"}; static int dl_dir_of[3]; static bool dl_there[3];
// the library dl_names[k] is in the directories by dl_state when k == 0, always in "a" otherwise (if it is there)
static void* vc_dlopen(const char* f, int) {
  dl_failed = true; const std::string p(f);
  for (int d = 0; d < 3; ++d) for (int k = 0; k < 3; ++k)
    if (p == std::string(DIRS[d]) + "/lib" + dl_names[k] + ".so" && (k == 0 ? dl_state[d] > 0 : (d == 0 && dl_there[k]))) { dl_failed = false; dl_handle[k] = 'x'; dl_dir_of[k] = d; return &dl_handle[k]; }
  return NULL;
}
static void* vc_dlsym(void* h, const char* s);
static char* vc_dlerror() { static char e[2] = "e"; const bool f = dl_failed; dl_failed = false; return f ? e : NULL; }
#define getenv vc_getenv
#define dlopen vc_dlopen
#define dlsym vc_dlsym
#define dlerror vc_dlerror
#define ALTA_PLUGIN_DIRECTORY "/usr/system"
#define private public
#include "sources/core/plugins_manager.cpp"
#undef private
#undef getenv
params::input params::parse_input(const std::string& s) { return s == "in" ? params::RUSIN_TH_TD : params::UNKNOWN_INPUT; }
params::output params::parse_output(const std::string& s) { return s == "out" ? params::INV_STERADIAN : params::UNKNOWN_OUTPUT; }
// what the plugins provide: models, data sets and fitters that know where they come from
struct part : model {
  int lib, dir; bool ok;
  part(const alta::parameters& q, int l, int d) : model(q, 1), lib(l), dir(d), ok(true) { p[0] = l + 1; }
  bool load(std::istream& in) { std::string t; in >> t >> p[0]; return !in.fail() && t == dl_names[lib]; }
};
struct cells : samples { int dir; size_t asked; std::string name; cells(const alta::parameters& p, int d) : samples(p, 1), dir(d), asked(0) {} };
struct fit_stub : fitter { int dir; fit_stub(int d) : dir(d) {} bool fit_data(const ptr<data>&, ptr<function>&, const arguments&) { return true; } void set_parameters(const arguments&) {} };
template<int K, int D> static function* provide_function_(const alta::parameters& p) { return new part(p, K, D); }
template<int D> static data* provide_data_(size_t n, const alta::parameters& p, const arguments& a) { cells* c = new cells(p, D); c->asked = n; c->name = a["o"]; return c; }
template<int D> static data* load_data_(std::istream& in, const arguments& a) { cells* c = new cells(apar(params::CARTESIAN, 1), D); in >> c->v[0][0]; c->name = a["filename"]; return c; }
template<int D> static fitter* provide_fitter_() { return new fit_stub(D); }
static void* vc_dlsym(void* h, const char* s) {
  const int k = h == &dl_handle[0] ? 0 : h == &dl_handle[1] ? 1 : 2, d = dl_dir_of[k]; dl_failed = true;
  vc_check(h == &dl_handle[k] && dl_handle[k] == 'x', "symbols are looked for in a library that is open");
  if (k == 0 && dl_state[d] < 2) return NULL;
  dl_failed = false; std::string n(s);
  if (n == "provide_function") { typedef function* (*F)(const alta::parameters&);
    static const F f[5] = {provide_function_<0, 0>, provide_function_<0, 1>, provide_function_<0, 2>, provide_function_<1, 0>, provide_function_<2, 0>}; return (void*)f[k == 0 ? d : k + 2]; }
  if (n == "provide_data") { typedef data* (*F)(size_t, const alta::parameters&, const arguments&); static const F f[3] = {provide_data_<0>, provide_data_<1>, provide_data_<2>}; return (void*)f[d]; }
  if (n == "load_data") { typedef data* (*F)(std::istream&, const arguments&); static const F f[3] = {load_data_<0>, load_data_<1>, load_data_<2>}; return (void*)f[d]; }
  if (n == "provide_fitter") { typedef fitter* (*F)(); static const F f[3] = {provide_fitter_<0>, provide_fitter_<1>, provide_fitter_<2>}; return (void*)f[d]; }
  dl_failed = true; return NULL;
}
static vertical_segment* the_file; static std::string file_format;
namespace alta {
  data* load_data_from_text(std::istream&, const arguments&, const arguments&) { file_format = "text"; return the_file; }
  data* load_data_from_binary(std::istream&, const arguments&) { file_format = "binary"; return the_file; }
}
static const char* PATHS[9] = {NULL, "", "a:b", "b:a", ":b", "a:", "a::b", "b", "/usr/system:b:a"};
// the directory the path says the library is found in, -1 if it is found nowhere
static int expected(const char* path) {
  std::vector<int> order; const std::string s(path ? path : ""); std::string cur;
  for (size_t i = 0; i <= s.size(); ++i) if (i == s.size() || s[i] == ':') { for (int d = 0; d < 3; ++d) if (cur == DIRS[d] || (cur.empty() && d == 2)) order.push_back(d); cur.clear(); } else cur += s[i];
  for (size_t i = 0; i < order.size(); ++i) if (dl_state[order[i]] == 2) return order[i];
  return -1;
}
static int search() { for (int d = 0; d < 3; ++d) dl_state[d] = vc_enum_in("state", 0, 2); for (int k = 0; k < 3; ++k) dl_there[k] = true; dl_failed = false; env_value = PATHS[vc_enum_in("path", 0, 8)]; return expected(env_value); }
static const char* spelled() { static const char* n[2] = {"A", "libA.so"}; return n[vc_enum_in("spelled", 0, 1)]; }
CONTRACT_BOUNDED(P31_function, "9 search paths over three directories, two spellings") {
  const int e = search(); const alta::parameters p = apar(params::RUSIN_TH_TD, 3);
  ptr<function> f = plugins_manager::get_function(std::string(spelled()), p); part* q = dynamic_cast<part*>(f.get());
  if (e < 0) vc_check(!f, "a plugin that is not found gives no function");
  else { vc_check(q != NULL && q->lib == 0 && q->dir == e, "the function comes from the first directory that has it"); vc_check(q != NULL && q->parametrization().dimY() == 3 && q->parametrization().input_parametrization() == params::RUSIN_TH_TD, "the function has the parametrization that is asked for"); }
}
CONTRACT_BOUNDED(P31_function_args, "9 search paths over three directories, two spellings") {
  const int e = search(); const alta::parameters p = apar(params::RUSIN_TH_TD, 3);
  const char* argv[] = {"", "--func", spelled()}; function* f = plugins_manager::get_function(arguments(3, (char**)argv), p); part* q = dynamic_cast<part*>(f);
  if (e < 0) vc_check(dynamic_cast<rational_function*>(f) != NULL, "a model that is not found is replaced by a rational function");
  else vc_check(q != NULL && q->lib == 0 && q->dir == e, "the function comes from the first directory that has it");
}
CONTRACT_BOUNDED(P31_data, "9 search paths over three directories, two spellings") {
  const int e = search(); const char* argv[] = {"", "--o", "v"}; const arguments a(3, (char**)argv);
  ptr<data> d = plugins_manager::get_data(spelled(), 7, apar(params::CARTESIAN, 3), a); cells* c = dynamic_cast<cells*>(d.get());
  if (e < 0) vc_check(!d, "a plugin that is not found gives no data");
  else { vc_check(c != NULL && c->dir == e, "the data plugin comes from the first directory that has it"); vc_check(c != NULL && c->asked == 7 && c->name == "v" && c->parametrization().dimY() == 3, "the plugin gets the size, the parametrization and the options"); }
}
CONTRACT_BOUNDED(P31_load, "9 search paths over three directories, two spellings") {
  const int e = search(); const double v = vc_enum_in("v", 0, 3); { std::ofstream o("data.file"); o << v << std::endl; }
  const char* argv[] = {"", "--o", "v"}; const arguments a(3, (char**)argv);
  ptr<data> d = plugins_manager::load_data(std::string("data.file"), std::string(spelled()), a); cells* c = dynamic_cast<cells*>(d.get());
  if (e < 0) vc_check(!d, "a plugin that is not found gives no data");
  else { vc_check(c != NULL && c->dir == e, "the data plugin comes from the first directory that has it"); if (c) { vc_check_eq(c->v[0][0], v, "the plugin reads the file"); vc_check(c->name == "data.file", "the plugin is told the name of the file"); } }
}
CONTRACT_BOUNDED(P31_fitter, "9 search paths over three directories, two spellings") {
  const int e = search(); ptr<fitter> f = plugins_manager::get_fitter(spelled()); fit_stub* q = dynamic_cast<fit_stub*>(f.get());
  if (e < 0) vc_check(!f, "a plugin that is not found gives no fitter"); else vc_check(q != NULL && q->dir == e, "the fitter comes from the first directory that has it");
}
CONTRACT_BOUNDED(P31_names, "four names, 9 search paths") {
  static const char* n[4] = {"C", "x", "so", "missing.so"}; for (int d = 0; d < 3; ++d) dl_state[d] = 0; for (int k = 0; k < 3; ++k) dl_there[k] = false; env_value = PATHS[vc_enum_in("path", 0, 8)]; dl_failed = false;
  const std::string s(n[vc_enum_in("name", 0, 3)]); const alta::parameters p = apar(params::CARTESIAN, 1);
  vc_check(!plugins_manager::get_function(s, p), "a plugin that does not exist gives no function"); vc_check(!plugins_manager::get_data(s, 1, p, arguments()), "a plugin that does not exist gives no data"); vc_check(!plugins_manager::get_fitter(s), "a plugin that does not exist gives no fitter");
}
CONTRACT_BOUNDED(P31_defaults, "up to 2 samples") {
  for (int k = 0; k < 3; ++k) { dl_state[k] = 2; dl_there[k] = true; } env_value = "a"; dl_failed = false; const alta::parameters p = apar(params::RUSIN_TH_TD, 3);
  vc_check(!plugins_manager::get_function(std::string(), p), "no name, no function"); vc_check(!plugins_manager::get_fitter(""), "no name, no fitter");
  const int n = vc_enum_in("n", 0, 2); ptr<data> d = plugins_manager::get_data(vc_enum_in("named", 0, 1) ? "vertical_segment" : "", n, p, arguments());
  vc_check(dynamic_cast<vertical_segment*>(d.get()) != NULL, "samples are the default data"); vc_check_ieq(d->size(), n, "with the size that is asked for"); vc_check_ieq(d->parametrization().dimY(), 3, "with the channels that are asked for");
  ptr<function> r = plugins_manager::get_function(std::string("rational_function"), p); vc_check(dynamic_cast<rational_function*>(r.get()) != NULL, "rational functions need no plugin");
  function* g = plugins_manager::get_function(arguments(), p); vc_check(dynamic_cast<rational_function*>(g) != NULL, "rational functions are the default model"); vc_check_ieq(g->parametrization().dimX(), 2, "with the parametrization that is asked for");
}
CONTRACT_BOUNDED(P31_load_alta, "the headers listed") {
  const bool binary = vc_enum_in("binary", 0, 1), format = vc_enum_in("format", 0, 1); the_file = new vertical_segment(apar(params::CARTESIAN, 1), 1);
  { std::ofstream o("data.file"); o << "#DIM 6 1" << std::endl; if (binary) o << "#FORMAT binary" << std::endl; else if (format) o << "#FORMAT text" << std::endl; o << "#ALTA HEADER END" << std::endl << "1 2" << std::endl; }
  ptr<data> d = plugins_manager::load_data(std::string("data.file"), std::string(vc_enum_in("named", 0, 1) ? "vertical_segment" : ""), arguments());
  vc_check(d.get() == (data*)the_file, "the file is what is loaded"); vc_check(file_format == (binary ? "binary" : "text"), "the header says how the file is read");
}
// --- models from the command line
static double val(int lib, const vec& x, const alta::parameters& p, int y) { part m(p, lib, 0); return m.value(x)[y]; }
static void all_there() { for (int k = 0; k < 3; ++k) { dl_state[k] = 2; dl_there[k] = true; } env_value = "a"; dl_failed = false; }
static void model_is(function* f, const alta::parameters& p, int na, int nb, int nf, const int* order, int no, const char* what) {
  nonlinear_function* n = dynamic_cast<nonlinear_function*>(f); vc_check(n != NULL, "a model is built"); if (!n) return;
  vec x(p.dimX()); for (int k = 0; k < x.size(); ++k) x[k] = vc_real("x");
  vec v = f->value(x); vc_check_ieq(v.size(), p.dimY(), "with the channels that are asked for");
  for (int y = 0; y < p.dimY(); ++y) { double s = na * val(0, x, p, y) + nb * val(1, x, p, y); if (nf) s *= val(2, x, p, y); vc_check_eq(v[y], s, what); }
  vec q = n->parameters(); vc_check_ieq(q.size(), no, "the parameters are those of the parts that are not fixed"); for (int i = 0; i < no && i < q.size(); ++i) vc_check_eq(q[i], order[i] + 1, "in the order of the parts");
}
struct spec { const char* func; const char* fresnel; const char* flag; int a, b, f, n, order[3]; };
static const spec SPECS[] = {
  {"A", 0, 0, 1, 0, 0, 1, {0}}, {"B", 0, 0, 0, 1, 0, 1, {1}}, {"[A]", 0, 0, 1, 0, 0, 1, {0}}, {"[A, B]", 0, 0, 1, 1, 0, 2, {0, 1}}, {"[B, A]", 0, 0, 1, 1, 0, 2, {1, 0}}, {"[A, A, B]", 0, 0, 2, 1, 0, 3, {0, 0, 1}},
  {"[A --fixed, B]", 0, 0, 1, 1, 0, 1, {1}}, {"[A, B --fixed]", 0, 0, 1, 1, 0, 1, {0}}, {"A", "F", 0, 1, 0, 1, 2, {0, 2}}, {"A", "[F]", 0, 1, 0, 1, 2, {0, 2}}, {"[A, B]", "F", 0, 1, 1, 1, 3, {0, 1, 2}},
  {"A", "F", "--fixed-lobe", 1, 0, 1, 1, {2}}, {"A", "F", "--fixed-fresnel", 1, 0, 1, 1, {0}}, {"[B, A --fixed]", "[F]", "--fixed-fresnel", 1, 1, 1, 1, {1}},
  {"A", "", 0, 1, 0, 0, 1, {0}}, {"A", "missing", 0, 1, 0, 0, 1, {0}}, {"[A, missing]", 0, 0, 1, 0, 0, 1, {0}}, {"[missing, B]", 0, 0, 0, 1, 0, 1, {1}}, {"[A --fresnel F, B]", 0, 0, -1, 0, 0, 3, {0, 2, 1}} };
static const int NSPECS = sizeof(SPECS) / sizeof(SPECS[0]);
CONTRACT_BOUNDED(P27_models, "the 18 command lines listed, any input") {
  all_there(); const spec& s = SPECS[vc_enum_in("model", 0, NSPECS - 2)]; const alta::parameters p = apar(APAR[vc_enum_in("param", 0, 1)], vc_enum_in("rgb", 0, 1) ? 3 : 1);
  const char* argv[8] = {"", "--func", s.func}; int k = 3; if (s.fresnel) { argv[k++] = "--fresnel"; if (*s.fresnel) argv[k++] = s.fresnel; } if (s.flag) argv[k++] = s.flag;
  model_is(plugins_manager::get_function(arguments(k, (char**)argv), p), p, s.a, s.b, s.f, s.order, s.n, "the model is the sum of its parts, times its Fresnel term");
}
CONTRACT_BOUNDED(P27_nested_fresnel, "one command line, any input") {
  all_there(); const spec& s = SPECS[NSPECS - 1]; const alta::parameters p = apar(params::CARTESIAN, 1); const char* argv[] = {"", "--func", s.func};
  function* f = plugins_manager::get_function(arguments(3, (char**)argv), p); vec x(6); for (int k = 0; k < 6; ++k) x[k] = vc_real("x");
  vc_check_eq(f->value(x)[0], val(0, x, p, 0) * val(2, x, p, 0) + val(1, x, p, 0), "a part can have a Fresnel term of its own");
}
CONTRACT_BOUNDED(P31_no_model, "three command lines") {
  all_there(); static const char* f[3] = {"[]", "[missing]", "[missing, missing]"}; const char* argv[] = {"", "--func", f[vc_enum_in("func", 0, 2)]};
  vc_check(plugins_manager::get_function(arguments(3, (char**)argv), apar(params::CARTESIAN, 1)) == NULL, "nothing is built when no part can be loaded");
}
// --- function files
CONTRACT_BOUNDED(P27_load_function, "three models, any parameters") {
  all_there(); const int which = vc_enum_in("model", 0, 2); static const char* cmd[3] = {"--func A", "--func [A, B] --o 1", "--func B --fresnel F"}; const double a = vc_real("a"), b = vc_real("b"); if (!vc_symbolic()) vc_assume(a == a && b == b);
  const int nY = vc_enum_in("rgb", 0, 1) ? 3 : 1; { std::ofstream o("model.func"); o.precision(17); o << "#ALTA FUNC HEADER" << std::endl << "#CMD " << cmd[which] << std::endl << "#DIM 2 " << nY << std::endl << "#PARAM_IN in" << std::endl; if (vc_enum_in("outparam", 0, 1)) o << "#PARAM_OUT out" << std::endl; o << "#ALTA HEADER END" << std::endl << std::endl << (which == 2 ? "B " : "A ") << a << std::endl; if (which == 1) o << "B " << b << std::endl; if (which == 2) o << "F " << b << std::endl; }
  function* f = plugins_manager::load_function("model.func"); nonlinear_function* n = dynamic_cast<nonlinear_function*>(f); vc_check(n != NULL, "the model is loaded"); if (!n) return;
  vec q = n->parameters(); vc_check_ieq(q.size(), which ? 2 : 1, "the file has the model of its command"); vc_check_eq(q[0], a, "with the parameters of the file"); if (which) vc_check_eq(q[1], b, "with the parameters of the file");
  vc_check_ieq(f->parametrization().dimX(), 2, "with the dimensions of the file"); vc_check_ieq(f->parametrization().dimY(), nY, "with the channels of the file"); vc_check(f->parametrization().input_parametrization() == params::RUSIN_TH_TD, "with the parametrization of the file");
}
CONTRACT_BOUNDED(P31_load_function, "the files listed") {
  all_there(); static const char* text[5] = {"", "#ALTA HEADER BEGIN\n#DIM 2 1\n#ALTA HEADER END\n", "#ALTA FUNC HEADER\n#CMD --func A\n#DIM 2 1\n#ALTA HEADER END\n\nB 1\n", "#ALTA FUNC HEADER\n#CMD --func A\n#DIM 2 1\n#ALTA HEADER END\n\n", "#ALTA FUNC HEADER\n#CMD --func [missing]\n#DIM 2 1\n#ALTA HEADER END\n\nA 1\n"};
  const int k = vc_enum_in("text", 0, 5); if (k < 5) { std::ofstream o("bad.func"); o << text[k]; }
  vc_check(plugins_manager::load_function(k < 5 ? "bad.func" : "no.func") == NULL, "a file that cannot be read as a model gives none");
}
// --- data and models of one fit
CONTRACT_BOUNDED(P27_compatibility, "four parametrizations, one or three channels") {
  static const params::input in[4] = {params::UNKNOWN_INPUT, params::CARTESIAN, params::RUSIN_TH_PH_TD_PD, params::RUSIN_TH_TD}; const params::input a = in[vc_enum_in("data", 0, 3)], b = in[vc_enum_in("model", 0, 3)]; const int nY = vc_enum_in("rgb", 0, 1) ? 3 : 1;
  ptr<data> d((data*)new samples(alta::parameters(2, nY, a, params::INV_STERADIAN), 1)), d0 = d; ptr<function> f((function*)new model(alta::parameters(2, nY, b, params::RGB_COLOR)));
  plugins_manager::check_compatibility(d, f, arguments());
  vc_check(d == d0, "the data are not changed"); vc_check(f->parametrization().input_parametrization() == (b == params::UNKNOWN_INPUT ? a : b), "a model without parametrization takes that of the data, another keeps its own");
  vc_check_ieq(f->parametrization().dimX(), 2, "the dimensions are kept"); vc_check_ieq(f->parametrization().dimY(), nY, "the channels are kept"); vc_check(f->parametrization().output_parametrization() == params::RGB_COLOR, "the output parametrization is kept");
}
