// Where the fit of a sum or a product of models starts from (P28). The parts
// are any models that start from parameters of their own or from those that
// the option bootstrap of their own arguments gives: what a model does with
// this option is the P28 contract of that model.
// vc-sources: sources/core/params.cpp sources/core/common.cpp sources/core/function.cpp
// vc-native-sources: sources/core/data.cpp sources/core/data_storage.cpp sources/core/vertical_segment.cpp
#include "nl.h"
#include "nl_save.h"
struct part : nonlinear_function {
  int kind, id; vec p, start; const data* fit; std::string tag; int own;
  // the parameters are not initialised by the constructor of a model
  part(int k, int n, int i, const alta::parameters& q) : nonlinear_function(q), kind(k), id(i), p(n), start(n), fit(0), own(0) { for (int j = 0; j < n; ++j) { p[j] = vc_real("uninitialised"); start[j] = vc_real("start"); } }
  const char* name() const { static const char* const n[3] = {"part_a", "part_b", "part_c"}; return n[kind]; }
  void bootstrap(const ptr<data> d, const arguments& a) {
    p = start; fit = d.get(); tag = a["tag"]; own = 0;
    if (a.is_vec("bootstrap")) { p = a.get_vec("bootstrap", p.size()); own = 1; } else if (a.is_defined("bootstrap")) { nonlinear_function::bootstrap(d, a); own = 2; }
  }
  vec value(const vec& x) const { return x; }
  bool load(std::istream& in) {
    while (in.peek() != '#') { char line[256]; in.getline(line, 256); if (!in.good()) return false; }
    std::string t; in >> t; if (t != "#FUNC") return false;
    in >> t; if (t != name()) return false;
    for (int i = 0; i < (int)p.size(); ++i) in >> t >> p[i];
    return true;
  }
  void save_call(std::ostream& out, const arguments&) const {
    out << "#FUNC " << name() << std::endl;
    for (int i = 0; i < (int)p.size(); ++i) out << "p " << p[i] << std::endl;
    out << std::endl;
  }
  int nbParameters() const { return p.size(); }
  vec parameters() const { return p; }
  void setParameters(const vec& q) { p = q; }
  vec getParametersMin() const { return p; }
  vec getParametersMax() const { return p; }
  vec parametersJacobian(const vec& x) const { return x; }
};
struct samples : data {
  samples() : data(nl_par(6, params::CARTESIAN), 1) {}
  void save(const std::string&) const {}
  vec get(int) const { return vec(7); }
  void set(int, const vec&) {}
  vec value(const vec& x) const { return x; }
};
static const char* const TAG[4] = {"t0", "t1", "t2", "t3"};
// a vector of numbers on the command line
static vec given(std::string& text, int n, const char* what) {
  vec q(n); std::ostringstream o; o.precision(17); o << "["; for (int i = 0; i < n; ++i) { q[i] = vc_real(what); if (i) o << ","; o << q[i]; }
  o << "]"; text = o.str(); return q;
}
static void equal(const vec& p, const vec& q, const char* what, int k = 0) { for (int i = 0; i < (int)p.size(); ++i) vc_check_same(p[i], q[k + i], what); }
static void own_start(const part& p, const data* d, const char* tag) {
  vc_check(p.fit == d, "a part that was not given a starting point starts from its own, with the data to fit"); vc_check(p.tag == tag, "a part has its own options"); vc_check(p.own == 0, "a part is not given the starting point of the whole"); equal(p.p, p.start, "a part that was not given a starting point starts from its own");
}
// sums: the parts, their options, and whether they are fixed
struct sum { std::vector<part*> f; std::vector<bool> fixed; compound_function* c; int n; };
static sum mksum(int n, int kinds, int maxpar, const std::vector<std::string>& local) {
  const alta::parameters q = nl_par(6, params::CARTESIAN); sum s; s.n = 0; std::vector<ptr<nonlinear_function> > fs; std::vector<arguments> as;
  for (int i = 0; i < n; ++i) {
    part* f = new part(vc_enum_in("kind", 0, kinds - 1), vc_enum_in("npar", 0, maxpar), i, q); s.f.push_back(f); fs.push_back(ptr<nonlinear_function>(f));
    arguments a; a.update("tag", TAG[i]); s.fixed.push_back(vc_bool("fixed")); if (s.fixed[i]) a.update("fixed", ""); else s.n += f->nbParameters();
    if (!local[i].empty()) a.update("bootstrap", local[i]); as.push_back(a);
  }
  s.c = new compound_function(fs, as); return s;
}
static void sum_vector(int n, int maxpar) {
  sum s = mksum(n, 1, maxpar, std::vector<std::string>(n)); arguments a; std::string t; vec q = given(t, s.n, "given"); a.update("bootstrap", t); a.update("tag", "global");
  vc_check_ieq(s.c->nbParameters(), s.n, "the parameters of a sum are those of its parts that are not fixed"); vc_assume(s.n > 0);
  ptr<data> d(new samples()); nonlinear_function& g = *s.c; g.bootstrap(d, a); int k = 0;
  for (int i = 0; i < n; ++i) if (s.fixed[i]) own_start(*s.f[i], d.get(), TAG[i]); else { equal(s.f[i]->p, q, "the parts that are not fixed start from the given vector, in order", k); k += s.f[i]->p.size(); }
}
CONTRACT_BOUNDED(P28_sum_vector, "sums of up to 3 parts with up to 2 parameters each") { sum_vector(vc_upto("parts", 1, 3, 4), 2); }
// a fixed part may have a starting point of its own, with the whole given one or not
static void sum_local(int n, bool global) {
  std::vector<std::string> local(n); std::vector<vec> own(n); for (int i = 0; i < n; ++i) if (vc_bool("local")) own[i] = given(local[i], 2, "local");
  sum s = mksum(n, 1, 2, local); arguments a; std::string t; vec q(0); a.update("tag", "global"); if (global) { vc_assume(s.n > 0); q = given(t, s.n, "given"); a.update("bootstrap", t); }
  ptr<data> d(new samples()); nonlinear_function& g = *s.c; g.bootstrap(d, a); int k = 0;
  for (int i = 0; i < n; ++i)
    if (global && !s.fixed[i]) { equal(s.f[i]->p, q, "the starting point of the whole is preferred to that of a part", k); k += s.f[i]->p.size(); }
    else if (local[i].empty()) own_start(*s.f[i], d.get(), TAG[i]);
    else { vc_check(s.f[i]->tag == TAG[i], "a part has its own options"); equal(s.f[i]->p, own[i], "a part starts from the starting point in its own options"); }
}
CONTRACT_BOUNDED(P28_sum_local, "sums of up to 2 parts with up to 2 parameters each") { sum_local(vc_upto("parts", 1, 2, 4), false); }
CONTRACT_BOUNDED(P28_sum_local_vector, "sums of up to 2 parts with up to 2 parameters each") { sum_local(vc_upto("parts", 1, 2, 4), true); }
// a file that has some of the parts, in the same order
static void file_of(const char* name, const std::vector<part*>& saved, bool header) {
  std::ofstream o(name); o.precision(17); if (header) o << "#ALTA FUNC HEADER\n#CMD --func x\n#DIM 6 1\n#PARAM_IN CARTESIAN\n#ALTA HEADER END\n\n";
  for (unsigned i = 0; i < saved.size(); ++i) saved[i]->save_call(o, arguments());
}
static void sum_file(int n, int maxpar) {
  sum s = mksum(n, 3, maxpar, std::vector<std::string>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) vc_assume(s.f[i]->kind != s.f[j]->kind);
  std::vector<part*> saved, has(n); for (int i = 0; i < n; ++i) { has[i] = 0; if (vc_bool("saved")) { has[i] = new part(s.f[i]->kind, s.f[i]->p.size(), i, s.f[i]->parametrization()); saved.push_back(has[i]); } }
  file_of("start.func", saved, true); arguments a; a.update("bootstrap", "start.func"); a.update("tag", "global");
  ptr<data> d(new samples()); nonlinear_function& g = *s.c; g.bootstrap(d, a);
  for (int i = 0; i < n; ++i) if (has[i]) equal(s.f[i]->p, has[i]->p, "a part that is in the file starts from the parameters in the file"); else own_start(*s.f[i], d.get(), TAG[i]);
}
CONTRACT_BOUNDED(P28_sum_file, "sums of up to 2 parts of 3 kinds with up to 1 parameter each") { sum_file(vc_upto("parts", 1, 2, 3), 1); }
CONTRACT_BOUNDED(P28_sum_no_file, "sums of up to 2 parts with up to 1 parameter each") {
  const int n = vc_upto("parts", 1, 2, 4); sum s = mksum(n, 1, 1, std::vector<std::string>(n)); arguments a; a.update("tag", "global"); const bool missing = vc_bool("missing"); if (!missing) file_of("start.func", std::vector<part*>(), false); a.update("bootstrap", missing ? "missing.func" : "start.func");
  ptr<data> d(new samples()); nonlinear_function& g = *s.c; g.bootstrap(d, a); for (int i = 0; i < n; ++i) own_start(*s.f[i], d.get(), TAG[i]);
}
// products: both factors have the options of the product
struct prod { part *f, *g; bool ff, fg; product_function* c; int n; };
static prod mkprod(int kinds, int maxpar) {
  const alta::parameters q = nl_par(6, params::CARTESIAN); prod r; r.f = new part(vc_enum_in("kind", 0, kinds - 1), vc_enum_in("npar", 0, maxpar), 0, q); r.g = new part(vc_enum_in("kind", 0, kinds - 1), vc_enum_in("npar", 0, maxpar), 1, q);
  r.ff = vc_bool("fixed"); r.fg = vc_bool("fixed"); r.c = new product_function(ptr<nonlinear_function>(r.f), ptr<nonlinear_function>(r.g), r.ff, r.fg); r.n = (r.ff ? 0 : r.f->p.size()) + (r.fg ? 0 : r.g->p.size()); return r;
}
CONTRACT_BOUNDED(P28_product_vector, "factors with up to 3 parameters each") {
  prod r = mkprod(1, 3); vc_check_ieq(r.c->nbParameters(), r.n, "the parameters of a product are those of its factors that are not fixed"); vc_assume(r.n > 0);
  arguments a; std::string t; vec q = given(t, r.n, "given"); a.update("bootstrap", t); a.update("tag", "product"); ptr<data> d(new samples()); nonlinear_function& g = *r.c; g.bootstrap(d, a); int k = 0;
  if (r.ff) own_start(*r.f, d.get(), "product"); else { equal(r.f->p, q, "the first factor starts from the first values of the vector"); k = r.f->p.size(); }
  if (r.fg) own_start(*r.g, d.get(), "product"); else equal(r.g->p, q, "the second factor starts from the last values of the vector", k);
}
CONTRACT_BOUNDED(P28_product_own, "factors with up to 3 parameters each") {
  prod r = mkprod(1, 3); arguments a; a.update("tag", "product"); ptr<data> d(new samples()); nonlinear_function& g = *r.c; g.bootstrap(d, a); own_start(*r.f, d.get(), "product"); own_start(*r.g, d.get(), "product");
}
static void product_file(prod& r, nonlinear_function& g, const char* tag) {
  vc_assume(r.f->kind != r.g->kind); const bool sf = vc_bool("saved"), sg = vc_bool("saved"), header = vc_bool("header"); std::vector<part*> saved; part *hf = 0, *hg = 0;
  if (sf) saved.push_back(hf = new part(r.f->kind, r.f->p.size(), 0, r.f->parametrization())); if (sg) saved.push_back(hg = new part(r.g->kind, r.g->p.size(), 1, r.g->parametrization()));
  file_of("start.func", saved, header); arguments a; a.update("bootstrap", header || vc_bool("exists") ? "start.func" : "missing.func"); a.update("tag", "product"); ptr<data> d(new samples()); g.bootstrap(d, a);
  if (sf && header) equal(r.f->p, hf->p, "a factor that is in the file starts from the parameters in the file"); else own_start(*r.f, d.get(), tag);
  if (sg && header) equal(r.g->p, hg->p, "a factor that is in the file starts from the parameters in the file"); else own_start(*r.g, d.get(), tag);
}
CONTRACT_BOUNDED(P28_product_file, "factors of 2 kinds with up to 2 parameters each") { prod r = mkprod(2, 2); product_file(r, *r.c, "product"); }
// a product in a sum
CONTRACT_BOUNDED(P28_sum_of_products, "one product, factors of 2 kinds with up to 1 parameter each") {
  prod r = mkprod(2, 1); std::vector<ptr<nonlinear_function> > fs(1, ptr<nonlinear_function>(r.c)); arguments a; a.update("tag", "t0"); std::vector<arguments> as(1, a); compound_function* c = new compound_function(fs, as); product_file(r, *c, "t0");
}
