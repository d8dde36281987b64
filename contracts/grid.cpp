// Regular grids (P16).
// vc-sources: sources/core/common.cpp sources/core/params.cpp sources/core/data.cpp sources/core/data_storage.cpp sources/core/vertical_segment.cpp
// vc-budget: 400
#include "vc.h"
#include "outputs.h"
#include <sstream>
#include <fstream>
#include <map>
#include <vector>
#include <memory>
#include <core/data.h>
#include <core/common.h>
#include <core/args.h>
#define private public
#define protected public
#include <plugins/data_interpolants/grid.cpp>
#undef private
#undef protected
static void nodelete(double*) {}
static alta::parameters par(params::input p, int dy) { return alta::parameters(params::dimension(p), dy, p, params::UNKNOWN_OUTPUT); }
static const char* size_of_ones(int d) { return d == 1 ? "[2]" : d == 2 ? "[2,2]" : "[2,2,2]"; }
static arguments one(int d) { arguments a; a.update("grid-size", size_of_ones(d)); return a; }
static const params::input IN[] = {params::COS_TH, params::COS_TK, params::COS_TLV, params::COS_TLR, params::COS_TH_TD, params::RUSIN_TH_TD, params::ISOTROPIC_TV_PROJ_DPHI, params::STARK_2D, params::RUSIN_TH_TD_PD, params::STARK_3D};
static const int NIN = sizeof(IN) / sizeof(*IN);
static const char* NS[] = {"n0", "n1", "n2"}; static const char* KS[] = {"k0", "k1", "k2"}; static const char* FS[] = {"f0", "f1", "f2"}; static const char* LS[] = {"last0", "last1", "last2"};
// a grid of any size, whose samples sit at the nodes
struct grid : BrdfGrid {
  int dx, dy, n[3]; double* b;
  grid(params::input p, int dy) : BrdfGrid(0, par(p, dy), one(params::dimension(p))), dx(params::dimension(p)), dy(dy) {
    long N = 1; for (int i = 0; i < dx; ++i) { n[i] = vc_size_in(NS[i], 2, dx == 1 ? 1000000 : dx == 2 ? 1000 : 200); BrdfGrid::_size[i] = n[i]; N *= n[i]; }
    b = new double[N * w()]; vc_array("data", b, N * w()); data::_size = N; _data = std::shared_ptr<double>(b, nodelete);
  }
  double lo(int i) const { return _min[i]; }
  double hi(int i) const { return _max[i]; }
  int w() const { return dx + 3 * dy; }
  int row(const int* k) const { int r = k[0]; for (int i = 1; i < dx; ++i) r = r * n[i] + k[i]; return r; }
  double node(int i, int k) const { return _min[i] + (_max[i] - _min[i]) * k / (n[i] - 1); }
  // the sample of a node sits at the node
void at_node(const int* k) const {
    if (!vc_symbolic()) { for (int r = 0; r < data::_size; ++r) { int q = r; for (int i = dx - 1; i >= 0; --i) { b[(long)r * w() + i] = node(i, q % n[i]); q /= n[i]; } } return; }
    const int r = row(k); for (int i = 0; i < dx; ++i) vc_assume(b[(long)r * w() + i] == node(i, k[i]));
  }
  double y(const int* k, int c) const { return b[(long)row(k) * w() + dx + c]; }
  // lemma: the rows of the nodes lie in the table (proved, then used)
  void lemma(const int* k) const {
    if (dx == 2) { vc_check(k[0] * n[1] <= (n[0] - 1) * n[1] && k[0] * n[1] >= 0, "lemma: rows lie in the table"); vc_assume(k[0] * n[1] <= (n[0] - 1) * n[1] && k[0] * n[1] >= 0); }
    if (dx == 3) { const int a = k[0] * n[1] + k[1]; lemma_(k[0], n[0], n[1]); lemma_(a, n[0] * n[1], n[2]); }
  }
  static void lemma_(int a, int n, int m) { vc_check(a * m <= (n - 1) * m && a * m >= 0, "lemma: rows lie in the table"); vc_assume(a * m <= (n - 1) * m && a * m >= 0); }
};
CONTRACT(P16_domain) {
  const params::input p = IN[vc_enum_in("param", 0, NIN - 1)]; const int dy = vc_enum_in("dimY", 1, 3); BrdfGrid g(0, par(p, dy), one(params::dimension(p))); const data& d = g; const int dx = params::dimension(p);
  vc_check_ieq(d.parametrization().dimX(), dx, "dimension of the coordinates"); vc_check_ieq(d.parametrization().dimY(), dy, "number of values"); vc_check_ieq(d.parametrization().input_parametrization(), p, "parametrization"); vc_check_ieq(d.size(), 1 << dx, "number of samples");
  for (int i = 0; i < dx; ++i) {
    const bool half = p == params::RUSIN_TH_TD || p == params::ISOTROPIC_TV_PROJ_DPHI || p == params::RUSIN_TH_TD_PD, turn = i == 2;
    vc_check_eq(d.min()[i], (p == params::COS_TLV || p == params::COS_TLR) ? -1 : p == params::ISOTROPIC_TV_PROJ_DPHI ? -0.5*M_PI : 0, "lower end of the domain");
    vc_check_eq(d.max()[i], turn ? 2*M_PI : half ? 0.5*M_PI : 1, "upper end of the domain");
  }
}
// the samples of a new grid sit at its nodes, first coordinate slowest, with no value
CONTRACT_BOUNDED(P16_nodes, "grids of 4x3 and 3x2x4 samples, and the default size in one dimension") {
  const int which = vc_enum_in("grid", 0, 2); arguments a; int n[3] = {4, 3, 1}, dx = 2; if (which == 0) a.update("grid-size", "[4,3]"); if (which == 1) { a.update("grid-size", "[3,2,4]"); n[0] = 3; n[1] = 2; n[2] = 4; dx = 3; } if (which == 2) { dx = 1; n[0] = 10; n[1] = 1; }
  const params::input p = which == 0 ? params::ISOTROPIC_TV_PROJ_DPHI : which == 1 ? params::RUSIN_TH_TD_PD : params::COS_TLV; BrdfGrid g(0, par(p, 2), a); const data& d = g; vc_check_ieq(d.size(), n[0] * n[1] * n[2], "number of samples");
  for (int r = 0; r < d.size(); ++r) { int k[3] = {r / (n[1] * n[2]), r / n[2] % n[1], r % n[2]}; if (dx < 3) { k[0] = r / n[1]; k[1] = r % n[1]; } vec v = d.get(r); vc_check_ieq(v.size(), dx + 2, "a sample has its coordinates and its values");
    for (int i = 0; i < dx; ++i) vc_check_eq(v[i], d.min()[i] + (d.max()[i] - d.min()[i]) * k[i] / (n[i] - 1), "the samples sit at the nodes of the grid"); for (int c = 0; c < 2; ++c) vc_check_eq(v[dx + c], 0, "a new grid has no value"); }
}
static void arguments_contract(bool in) {
  arguments a; a.update("grid-size", "[2,2]"); a.update(in ? "PARAM_IN" : "param", "RUSIN_TH_TD"); a.update("PARAM_OUT", "RGB_COLOR"); BrdfGrid g(0, alta::parameters(), a); const data& d = g;
  vc_check_ieq(d.parametrization().dimX(), 2, "dimension of the coordinates"); vc_check_ieq(d.parametrization().dimY(), 3, "number of values"); vc_check_ieq(d.parametrization().input_parametrization(), params::RUSIN_TH_TD, "parametrization asked for"); vc_check_ieq(d.parametrization().output_parametrization(), params::RGB_COLOR, "parametrization of the values asked for"); vc_check_ieq(d.size(), 4, "number of samples"); vc_check_ieq(d.get(3).size(), 5, "size of a sample");
}
CONTRACT(P16_arguments) { arguments_contract(vc_bool("in")); }
CONTRACT(P16_index) { // indices and nodes are inverse of each other
  const int dx = vc_enum_in("dimX", 1, 3); grid g(dx == 1 ? params::COS_TLR : dx == 2 ? params::STARK_2D : params::RUSIN_TH_TD_PD, 1); int k[3]; std::vector<int> kv(dx); for (int i = 0; i < dx; ++i) kv[i] = k[i] = vc_int_in(KS[i], 0, g.n[i] - 1); g.lemma(k); const int r = g.get_index(kv); vc_check_ieq(r, g.row(k), "index of a node, first coordinate slowest");
  std::vector<int> q = g.get_indices(r); for (int i = 0; i < dx; ++i) vc_check_ieq(q[i], k[i], "node of an index"); vec x(dx + 1); g.get_abscissa(r, x); for (int i = 0; i < dx; ++i) vc_check_eq(x[i], g.node(i, k[i]), "coordinates of a node");
}
static void sample(params::input p, int dy) { // at the nodes the value is the stored one
  grid g(p, dy); int k[3]; for (int i = 0; i < g.dx; ++i) k[i] = vc_bool(LS[i]) ? g.n[i] - 1 : vc_int_in(KS[i], 0, g.n[i] - 2); g.lemma(k); g.at_node(k); vec x(g.dx); for (int i = 0; i < g.dx; ++i) x[i] = g.node(i, k[i]);
  vec v = g.value(x); vc_check_ieq(v.size(), dy, "number of values"); for (int c = 0; c < dy; ++c) vc_check_eq(v[c], g.y(k, c), "the value at a sample is the stored one");
}
CONTRACT(P16_sample_1d) { sample(IN[vc_enum_in("param", 0, 3)], vc_enum_in("dimY", 1, 3)); }
CONTRACT(P16_sample_2d) { sample(IN[vc_enum_in("param", 4, 7)], 1); }
CONTRACT(P16_sample_2d_values) { sample(IN[7], vc_enum_in("dimY", 2, 3)); }
CONTRACT(P16_sample_3d) { sample(IN[8], 1); }
CONTRACT(P16_sample_3d_stark) { sample(IN[9], 1); }
CONTRACT(P16_sample_3d_values) { sample(IN[8], 2); }
static void between(params::input p, int dy) {
  grid g(p, dy); int k[3]; double f[3]; vec x(g.dx); for (int i = 0; i < g.dx; ++i) { k[i] = vc_int_in(KS[i], 0, g.n[i] - 2); f[i] = vc_real_in(FS[i], 0, 1); vc_assume(f[i] < 1); x[i] = g.lo(i) + (g.hi(i) - g.lo(i)) * (k[i] + f[i]) / (g.n[i] - 1); }
  int far[3]; for (int i = 0; i < g.dx; ++i) far[i] = k[i] + 1; g.lemma(k); g.lemma(far); g.at_node(k); vec v = g.value(x); vc_check_ieq(v.size(), dy, "number of values");
  for (int c = 0; c < dy; ++c) {
    double s = 0; for (int m = 0; m < (1 << g.dx); ++m) { int q[3]; double w = 1; for (int i = 0; i < g.dx; ++i) { const int bit = (m >> i) & 1; q[i] = k[i] + bit; w *= bit ? f[i] : 1 - f[i]; } s += w * g.y(q, c); }
    vc_check_eq(v[c], s, "the value between samples is their multilinear combination");
  }
}
CONTRACT(P16_between_1d) { between(IN[vc_enum_in("param", 0, 3)], vc_enum_in("dimY", 1, 3)); }
CONTRACT(P16_between_2d) { between(IN[vc_enum_in("param", 4, 7)], vc_enum_in("dimY", 1, 2)); }
CONTRACT(P16_between_3d) { between(IN[vc_enum_in("param", 8, 9)], 1); }
CONTRACT(P16_between_3d_values) { between(IN[8], 2); }
// --- files
static void file_contract(params::input p, params::output out, const char* size, const int* n, bool other) {
  const int dx = params::dimension(p), dy = params::dimension(out); int N = 1; for (int i = 0; i < dx; ++i) N *= n[i];
  arguments a; if (size) a.update("grid-size", size); alta::parameters par(dx, dy, p, out); BrdfGrid g(0, par, a);
  for (int i = 0; i < N; ++i) { vec s = g.get(i); for (int c = 0; c < dy; ++c) { s[dx + c] = vc_real("value"); vc_assume(s[dx + c] < 3e38 && s[dx + c] > -3e38); } g.set(i, s); }
  g.save("grid.dat"); std::stringstream f; { std::ifstream saved("grid.dat"); std::string line; while (std::getline(saved, line)) f << line << "\n"; } if (other) { for (int j = 0; j < dx + dy; ++j) f << "0.5\t"; f << "\n"; }
  data* d = load_data(f, arguments()); vc_check((d == NULL) == other, "a file is refused if, and only if, its number of samples is not the size of its grid"); if (!d) return;
  vc_check_ieq(d->size(), N, "the number of samples is read back"); vc_check(d->parametrization().dimX() == dx && d->parametrization().dimY() == dy, "the dimensions are read back"); vc_check(d->parametrization().input_parametrization() == p && d->parametrization().output_parametrization() == out, "the parametrizations are read back");
  const BrdfGrid* b = dynamic_cast<const BrdfGrid*>(d); vc_check(b != NULL, "the file is loaded as a grid"); if (!b) return;
  for (int i = 0; i < dx; ++i) vc_check_ieq(b->_size[i], n[i], "the size of the grid is read back");
  for (int i = 0; i < N; ++i) { const vec x = d->get(i), y = g.get(i); for (int j = 0; j < dx + dy; ++j) vc_check_same(x[j], y[j], "the samples are read back in order"); }
}
CONTRACT_BOUNDED(P16_file_1d, "grids of 1 coordinate and 3 samples") { const int n[1] = {3}; file_contract(IN[vc_enum_in("param", 0, 3)], vc_enum_in("rgb", 0, 1) ? params::RGB_COLOR : params::INV_STERADIAN, "[3]", n, vc_enum_in("other", 0, 1)); }
CONTRACT_BOUNDED(P16_file_2d, "grids of 3 by 2 samples") { const int n[2] = {3, 2}; file_contract(IN[vc_enum_in("param", 4, 7)], params::RGB_COLOR, "[3, 2]", n, vc_enum_in("other", 0, 1)); }
CONTRACT_BOUNDED(P16_file_3d, "grids of 2 by 3 by 2 samples") { const int n[3] = {2, 3, 2}; file_contract(IN[vc_enum_in("param", 8, 9)], params::INV_STERADIAN, "[2, 3, 2]", n, false); }
CONTRACT_BOUNDED(P35_grid, "a grid of 2 samples") {
  arguments a; a.update("grid-size", "[2]"); BrdfGrid g(0, alta::parameters(1, 1, params::COS_TH, params::INV_STERADIAN), a); for (int i = 0; i < 2; ++i) { vec s = g.get(i); s[1] = vc_real("value"); g.set(i, s); }
  outputs([&](const char* o) { return !refused([&] { g.save(o); }); });
}
