// Sums and products of models are saved and loaded part by part (P20). The
// parts are any models that write a named block and read it back: what a model
// does with its own block is the P20 contract of that model.
// vc-sources: sources/core/params.cpp sources/core/common.cpp sources/core/function.cpp
// vc-native-sources: sources/core/data.cpp sources/core/data_storage.cpp sources/core/vertical_segment.cpp
#include "nl.h"
#include "nl_save.h"
#include "outputs.h"
struct part : nonlinear_function {
  int kind; vec p;
  part(int k, int n, const alta::parameters& q) : nonlinear_function(q), kind(k), p(n) {}
  const char* name() const { static const char* const n[3] = {"part_a", "part_b", "part_c"}; return n[kind]; }
  // the value is any function of the parameters and of the input
  vec value(const vec& x) const {
    double a[12]; for (int k = 0; k < 12; ++k) a[k] = 0;
    for (int k = 0; k < 6; ++k) a[k] = x[k];
    for (int k = 0; k < (int)p.size(); ++k) a[6 + k] = p[k];
    a[10] = kind; const int nY = parametrization().dimY(); vec r(nY);
    for (int y = 0; y < nY; ++y) { a[11] = y; r[y] = vc_uf("value", 12, a); }
    return r;
  }
  bool load(std::istream& in) {
    while (in.peek() != '#') { char line[256]; in.getline(line, 256); if (!in.good()) return false; }
    std::string t; in >> t; if (t != "#FUNC") return false;
    in >> t; if (t != name()) return false;
    for (int i = 0; i < (int)p.size(); ++i) in >> t >> p[i];
    return true;
  }
  void save_call(std::ostream& out, const arguments&) const {
    out << "#FUNC " << name() << std::endl;
    for (int i = 0; i < (int)p.size(); ++i) out << "p " << p[i] << std::endl;
    out << std::endl;
  }
  int nbParameters() const { return p.size(); }
  vec parameters() const { return p; }
  void setParameters(const vec& q) { p = q; }
  vec getParametersMin() const { return p; }
  vec getParametersMax() const { return p; }
  vec parametersJacobian(const vec& x) const { return x; }
};
struct pair { part* f; part* g; };
static pair mk(int kinds, int maxpar, const alta::parameters& q) {
  const int k = vc_enum_in("kind", 0, kinds - 1), n = vc_enum_in("npar", 0, maxpar);
  pair r = {new part(k, n, q), new part(k, n, q)};
  for (int i = 0; i < n; ++i) { r.f->p[i] = vc_real("p"); r.g->p[i] = vc_real("other"); }
  return r;
}
static void restored(const pair& p) {
  vc_check_ieq(p.g->p.size(), p.f->p.size(), "every part keeps its number of parameters");
  for (int i = 0; i < (int)p.f->p.size(); ++i) vc_check_same(p.g->p[i], p.f->p[i], "the parameters of every part, fixed or not, are read back");
}
static void reloaded(function& f, function& g) {
  f.save("saved.func", arguments::create_arguments("--func libmodel.so"));
  std::ifstream in("saved.func"); nl_header(in, f, "libmodel.so");
  vc_check(g.load(in), "the saved file is accepted");
}
static void same_value(function& f, function& g, const vec& x) {
  vec a = f.value(x), b = g.value(x);
  vc_check_ieq(b.size(), a.size(), "both models have as many output channels");
  for (int i = 0; i < (int)a.size(); ++i) vc_check_same(b[i], a[i], "both models return the same value");
}
static vec input() { vec x(6); for (int i = 0; i < 6; ++i) x[i] = vc_real("x"); return x; }
static compound_function* mksum(const std::vector<ptr<nonlinear_function> >& fs, const std::vector<bool>& fixed) {
  std::vector<arguments> as; for (unsigned i = 0; i < fs.size(); ++i) { arguments a; if (fixed[i]) a.update("fixed", ""); as.push_back(a); }
  return new compound_function(fs, as);
}
static void sums(int n, int kinds, int maxpar) {
  const alta::parameters q = nl_par(6, params::CARTESIAN);
  std::vector<ptr<nonlinear_function> > fs, gs; std::vector<bool> fixed; pair p[8];
  for (int i = 0; i < n; ++i) {
    p[i] = mk(kinds, maxpar, q); fixed.push_back(vc_bool("fixed"));
    fs.push_back(ptr<nonlinear_function>(p[i].f)); gs.push_back(ptr<nonlinear_function>(p[i].g));
  }
  function* f = mksum(fs, fixed); function* g = mksum(gs, fixed); reloaded(*f, *g);
  for (int i = 0; i < n; ++i) restored(p[i]);
  same_value(*f, *g, input());
}
CONTRACT_BOUNDED(P20_sum3, "sums of 3 parts of 2 kinds with up to 1 parameter each") { sums(3, 2, 1); }
CONTRACT_BOUNDED(P20_sum, "sums of up to 2 parts of 3 kinds with up to 2 parameters each") { sums(vc_upto("parts", 1, 2, 8), 3, 2); }
CONTRACT_BOUNDED(P20_product, "parts of 2 kinds with up to 3 parameters each") {
  const alta::parameters q = nl_par(6, params::CARTESIAN); pair a = mk(2, 3, q), b = mk(2, 3, q); const bool fa = vc_bool("fixed"), fb = vc_bool("fixed");
  function* f = new product_function(ptr<nonlinear_function>(a.f), ptr<nonlinear_function>(b.f), fa, fb);
  function* g = new product_function(ptr<nonlinear_function>(a.g), ptr<nonlinear_function>(b.g), fa, fb);
  reloaded(*f, *g); restored(a); restored(b); same_value(*f, *g, input());
}
CONTRACT_BOUNDED(P20_sum_of_products, "one product and one part with up to 1 parameter each") {
  const alta::parameters q = nl_par(6, params::CARTESIAN); pair a = mk(2, 1, q), b = mk(2, 1, q), c = mk(2, 1, q);
  const bool first = vc_bool("product first");
  std::vector<ptr<nonlinear_function> > fs, gs; std::vector<bool> fixed(2, false);
  ptr<nonlinear_function> pf(new product_function(ptr<nonlinear_function>(a.f), ptr<nonlinear_function>(b.f))), pg(new product_function(ptr<nonlinear_function>(a.g), ptr<nonlinear_function>(b.g)));
  if (first) { fs.push_back(pf); gs.push_back(pg); }
  fs.push_back(ptr<nonlinear_function>(c.f)); gs.push_back(ptr<nonlinear_function>(c.g));
  if (!first) { fs.push_back(pf); gs.push_back(pg); }
  function* f = mksum(fs, fixed); function* g = mksum(gs, fixed);
  reloaded(*f, *g); restored(a); restored(b); restored(c); same_value(*f, *g, input());
}
// fitting starts from a saved sum or product (option bootstrap)
CONTRACT_BOUNDED(P20_sum_bootstrap, "sums of 2 parts of 2 kinds with up to 1 parameter each") {
  const alta::parameters q = nl_par(6, params::CARTESIAN); pair a = mk(2, 1, q), b = mk(2, 1, q);
  std::vector<ptr<nonlinear_function> > fs, gs; std::vector<bool> fixed; fixed.push_back(vc_bool("fixed")); fixed.push_back(vc_bool("fixed"));
  fs.push_back(ptr<nonlinear_function>(a.f)); fs.push_back(ptr<nonlinear_function>(b.f)); gs.push_back(ptr<nonlinear_function>(a.g)); gs.push_back(ptr<nonlinear_function>(b.g));
  function* f = mksum(fs, fixed); function* g = mksum(gs, fixed);
  f->save("saved.func", arguments::create_arguments("--func libmodel.so"));
  arguments o; o.update("bootstrap", "saved.func"); g->bootstrap(ptr<data>(), o);
  restored(a); restored(b);
}
CONTRACT_BOUNDED(P20_product_bootstrap, "parts of 2 kinds with up to 1 parameter each") {
  const alta::parameters q = nl_par(6, params::CARTESIAN); pair a = mk(2, 1, q), b = mk(2, 1, q); const bool fa = vc_bool("fixed"), fb = vc_bool("fixed");
  function* f = new product_function(ptr<nonlinear_function>(a.f), ptr<nonlinear_function>(b.f), fa, fb);
  function* g = new product_function(ptr<nonlinear_function>(a.g), ptr<nonlinear_function>(b.g), fa, fb);
  f->save("saved.func", arguments::create_arguments("--func libmodel.so"));
  arguments o; o.update("bootstrap", "saved.func"); g->bootstrap(ptr<data>(), o);
  restored(a); restored(b);
}
// --- P35
CONTRACT(P35_model) {
  static const char* COMMAND[6] = {"--func m", "--export alta", "--export C++", "--export matlab", "--export shader", "--export explorer"};
  const alta::parameters q = nl_par(6, params::CARTESIAN); part p(0, 1, q); p.p[0] = vc_real("p"); const function& f = p; const arguments a = arguments::create_arguments(COMMAND[vc_enum_in("export", 0, 5)]);
  outputs([&](const char* o) { return !refused([&] { f.save(o, a); }); });
}
