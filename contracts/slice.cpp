// Image slices (P15).
// vc-sources: sources/core/common.cpp sources/core/params.cpp sources/core/data.cpp sources/core/data_storage.cpp sources/core/vertical_segment.cpp
#include "vc.h"
#include "outputs.h"
#include <sstream>
#include <fstream>
#include <map>
#include <vector>
#include <memory>
#include <tinyexr/tinyexr.h>
#include <core/data.h>
#include <core/common.h>
#include <core/args.h>
// the images of EXR files are those of P34_exr_* (exr.cpp): here they are kept as they were written
template<typename F> class t_EXR_IO;
static int IMG_W, IMG_H; static bool IMG_LOADED = true; static double* IMG = NULL; static int SAVED_W, SAVED_H, SAVED; static bool SAVE_FAILS = false; static const double* SAVED_DATA; static std::string SAVED_NAME;
template<> class t_EXR_IO<double> { public:
  static bool LoadEXR(std::istream&, int& W, int& H, double*& d, int = 3) { if (!IMG_LOADED) return false; W = IMG_W; H = IMG_H; d = IMG; return true; }
  static bool SaveEXR(const char* n, int W, int H, const double* d, int = 3) { ++SAVED; SAVED_W = W; SAVED_H = H; SAVED_DATA = d; SAVED_NAME = n; return !SAVE_FAILS; }
};
#define private public
#include <plugins/data_io/slice.cpp>
#undef private
static const params::input IN[] = {params::STARK_2D, params::NEUMANN_2D, params::RUSIN_TH_TD, params::COS_TH_TD, params::ISOTROPIC_TV_PROJ_DPHI,
  params::RUSIN_TH_PH_TD, params::RUSIN_TH_TD_PD, params::RUSIN_VH, params::SCHLICK_VK, params::ISOTROPIC_TV_TL_DPHI, params::ISOTROPIC_TL_TV_PROJ_DPHI, params::SCHLICK_TL_TK_PROJ_DPHI, params::RETRO_TL_TVL_PROJ_DPHI, params::STARK_3D, params::NEUMANN_3D};
static const int NIN = sizeof(IN) / sizeof(*IN);
static bool reversed(params::input p) { return p == params::ISOTROPIC_TL_TV_PROJ_DPHI || p == params::SCHLICK_TL_TK_PROJ_DPHI || p == params::RETRO_TL_TVL_PROJ_DPHI; }
static arguments with(params::input p) { arguments a; a.update("param", params::get_name(p)); return a; }
struct image {
  params::input p; int w, h, dx; double* d; BrdfSlice s;
  image(params::input p) : p(p), w(vc_size_in("width", 1, 30000)), h(vc_size_in("height", 1, 20000)), dx(params::dimension(p)), d(new double[3L * w * h]), s(with(p), w, h, 1, d) { vc_array("pixels", d, 3L * w * h); }
  double at(int i, int j, int c) const { return d[3 * (i + j * w) + c]; }
  // row j lies in the image (a lemma: proved, then used)
  int row(const char* n) const { const int j = vc_int_in(n, 0, h - 1); vc_check(j * w <= h * w - w && j * w >= 0, "lemma: a row lies in the image"); vc_assume(j * w <= h * w - w && j * w >= 0); return j; }
  // position in the vector of the coordinate along the image axis a
  int axis(int a) const { return reversed(p) ? dx - 1 - a : a; }
  double lo(int a) const { return ((const data&)s).min()[a]; }
  double hi(int a) const { return ((const data&)s).max()[a]; }
};
static params::input anyin() { return IN[vc_enum_in("param", 0, NIN - 1)]; }
CONTRACT(P15_domain) {
  const params::input p = anyin(); image g(p); const data& d = g.s; vc_check_ieq(d.size(), g.w * g.h, "one sample per pixel"); vc_check_ieq(d.parametrization().dimX(), g.dx, "dimension of the coordinates"); vc_check_ieq(d.parametrization().dimY(), 3, "three values");
  vc_check_ieq(d.parametrization().input_parametrization(), p, "parametrization asked for"); vc_check_ieq(d.min().size(), g.dx, "the domain has every coordinate"); vc_check_ieq(d.max().size(), g.dx, "the domain has every coordinate");
  const double lo = (p == params::ISOTROPIC_TV_TL_DPHI || reversed(p)) ? -0.5*M_PI : 0, hi = (p == params::RUSIN_TH_TD || p == params::RUSIN_TH_TD_PD || p == params::ISOTROPIC_TV_TL_DPHI || reversed(p)) ? 0.5*M_PI : 1;
  for (int a = 0; a < 2; ++a) { vc_check_eq(d.min()[a], lo, "lower end of the domain"); vc_check_eq(d.max()[a], hi, "upper end of the domain"); }
}
CONTRACT(P15_get) {
  const params::input p = anyin(); image g(p); const int i = vc_int_in("i", 0, g.w - 1), j = g.row("j"); vec v = g.s.get(i + j * g.w); vc_check_ieq(v.size(), g.dx + 3, "a sample has its coordinates and three values");
  vc_check_eq(v[g.axis(0)], g.lo(0) + (g.hi(0) - g.lo(0)) * (2 * i + 1) / (2.0 * g.w), "first coordinate of a pixel"); vc_check_eq(v[g.axis(1)], g.lo(1) + (g.hi(1) - g.lo(1)) * (2 * j + 1) / (2.0 * g.h), "second coordinate of a pixel");
  if (g.dx == 3) vc_check_eq(v[g.axis(2)], 0.5*M_PI, "third coordinate of a slice");
  for (int c = 0; c < 3; ++c) vc_check_eq(v[g.dx + c], g.at(i, j, c), "a pixel returns what is stored");
}
CONTRACT(P15_phi) { // the azimuth of the slice can be chosen for three-dimensional parametrizations
  const params::input p = IN[vc_enum_in("param", 5, NIN - 1)]; arguments a = with(p); a.update("phi", "45"); BrdfSlice s(a, 2, 2, 1, new double[12]()); vec v = s.get(vc_enum_in("pixel", 0, 3)); vc_check_eq(v[reversed(p) ? 0 : 2], M_PI / 4, "azimuth of the slice");
}
CONTRACT(P15_set) {
  const params::input p = anyin(); image g(p); const int i = vc_int_in("i", 0, g.w - 1), j = g.row("j"), oi = vc_int_in("other i", 0, g.w - 1), oj = g.row("other j"); vec x = g.s.get(i + j * g.w), before = g.s.get(oi + oj * g.w); for (int c = 0; c < 3; ++c) x[g.dx + c] = vc_real("value");
  g.s.set(i + j * g.w, x); vec v = g.s.get(i + j * g.w), o = g.s.get(oi + oj * g.w); for (int c = 0; c < g.dx + 3; ++c) vc_check_eq(v[c], x[c], "a pixel returns what was set");
  if (oi != i || oj != j) for (int c = 0; c < g.dx + 3; ++c) vc_check_eq(o[c], before[c], "setting a pixel changes no other pixel");
}
CONTRACT(P15_lookup) {
  const params::input p = anyin(); image g(p); const int i = vc_int_in("i", 0, g.w - 1), j = g.row("j"); vec v = g.s.get(i + j * g.w); vec x = v.head(g.dx), y = g.s.value(x); vc_check_ieq(y.size(), 3, "three values");
  for (int c = 0; c < 3; ++c) vc_check_eq(y[c], g.at(i, j, c), "the coordinates of a pixel look up its value");
}
CONTRACT(P15_inside) { // any coordinates inside a pixel, its lower end included
  const params::input p = anyin(); image g(p); const int i = vc_int_in("i", 0, g.w - 1), j = g.row("j"); const double f = vc_real_in("f", 0.001, 0.999), e = vc_real_in("e", 0.001, 0.999); vec x(g.dx); if (g.dx == 3) x[g.axis(2)] = vc_real("third");
  x[g.axis(0)] = g.lo(0) + (g.hi(0) - g.lo(0)) * (i + f) / g.w; x[g.axis(1)] = g.lo(1) + (g.hi(1) - g.lo(1)) * (j + e) / g.h; vec y = g.s.value(x);
  for (int c = 0; c < 3; ++c) vc_check_eq(y[c], g.at(i, j, c), "coordinates look up the pixel that holds them");
}
CONTRACT(P15_edges) { // the upper end of the domain belongs to the last pixel
  const params::input p = anyin(); image g(p); const bool u = vc_bool("u"), v = vc_bool("v"); vec x(g.dx); if (g.dx == 3) x[g.axis(2)] = vc_real("third"); x[g.axis(0)] = u ? g.hi(0) : g.lo(0); x[g.axis(1)] = v ? g.hi(1) : g.lo(1); vec y = g.s.value(x);
  for (int c = 0; c < 3; ++c) vc_check_eq(y[c], g.at(u ? g.w - 1 : 0, v ? g.h - 1 : 0, c), "the ends of the domain look up the first and last pixels");
}
CONTRACT(P15_outside) {
  const params::input p = anyin(); image g(p); vec x(g.dx); for (int k = 0; k < g.dx; ++k) x[k] = vc_real("x"); const double a = x[g.axis(0)], b = x[g.axis(1)]; vc_assume(a < g.lo(0) || a > g.hi(0) || b < g.lo(1) || b > g.hi(1)); vec y = g.s.value(x); vc_check_ieq(y.size(), 3, "three values"); for (int c = 0; c < 3; ++c) vc_check_eq(y[c], 0, "there is nothing outside the domain");
}

CONTRACT(P34_slice) { // an image is loaded with its pixels, and saved with them
  const params::input p = anyin(); IMG_LOADED = true; IMG_W = vc_size_in("width", 1, 30000); IMG_H = vc_size_in("height", 1, 20000); const int w = IMG_W, h = IMG_H; IMG = new double[3L * w * h]; vc_array("pixels", IMG, 3L * w * h);
  std::stringstream f("EXR"); data* d = load_data(f, with(p)); vc_check(d != NULL, "an image is loaded"); if (!d) return; vc_check_ieq(d->size(), w * h, "one sample per pixel"); vc_check_ieq(d->parametrization().input_parametrization(), p, "parametrization asked for");
  const int i = vc_int_in("i", 0, w - 1), j = vc_int_in("j", 0, h - 1); vc_check(j * w <= h * w - w && j * w >= 0, "lemma: a row lies in the image"); vc_assume(j * w <= h * w - w && j * w >= 0);
  const vec v = d->get(i + j * w); const int dx = params::dimension(p); for (int c = 0; c < 3; ++c) vc_check_eq(v[dx + c], IMG[3 * (i + j * w) + c], "a sample has the values of its pixel");
  SAVED = 0; d->save("s.exr"); vc_check(SAVED == 1 && SAVED_NAME == "s.exr", "an image is written"); vc_check_ieq(SAVED_W, w, "width of the image"); vc_check_ieq(SAVED_H, h, "height of the image"); for (int c = 0; c < 3; ++c) vc_check_eq(SAVED_DATA[3 * (i + j * w) + c], IMG[3 * (i + j * w) + c], "the image has the values of the samples");
}
CONTRACT(P34_slice_no_image) { IMG_LOADED = false; std::stringstream f("EXR"); data* d = load_data(f, with(anyin())); vc_check(d == NULL, "a file that holds no image is refused"); }
CONTRACT(P35_slice) { image g(anyin()); SAVE_FAILS = vc_enum_in("fails", 0, 1); const bool r = refused([&] { g.s.save("s.exr"); }); vc_check(r == SAVE_FAILS, "an image that cannot be written is an error, and only then"); SAVE_FAILS = false; }
