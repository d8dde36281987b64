// UTIA tables (P14).
// vc-sources: sources/core/common.cpp sources/core/params.cpp sources/core/data.cpp sources/core/data_storage.cpp sources/core/vertical_segment.cpp
#include "vc.h"
#include "outputs.h"
#include <sstream>
#include <fstream>
#include <map>
#include <vector>
#include <memory>
#include <tinyexr/tinyexr.h>
#include <core/data.h>
#include <core/common.h>
#include <core/args.h>
// the images of EXR files are those of P34_exr_* (exr.cpp): here they are kept as they were written
template<typename F> class t_EXR_IO;
static int IMG_W = 48 * 6, IMG_H = 48 * 6; static bool IMG_LOADED = true; static const int CELLS = 48 * 6 * 48 * 6; static bool KEEP = false; static double* PIXELS = NULL; static int SAVED_W, SAVED_H, SAVED; static bool SAVE_FAILS = false; static bool SAVED_ALL; static const double* SAVED_FROM = NULL;
template<> class t_EXR_IO<double> { public:
  static bool LoadEXR(std::istream&, int& W, int& H, double*& d, int = 3) { if (!IMG_LOADED) return false; W = IMG_W; H = IMG_H; d = new double[3L * W * H]; vc_array("pixels", d, 3L * W * H); if (W * H == CELLS && KEEP) { PIXELS = new double[3L * W * H]; for (int i = 0; i < CELLS; ++i) { PIXELS[i] = d[3 * i]; PIXELS[i + CELLS] = d[3 * i + 1]; PIXELS[i + 2 * CELLS] = d[3 * i + 2]; } } return true; }
  static bool SaveEXR(const char*, int W, int H, const double* d, int = 3) { ++SAVED; SAVED_W = W; SAVED_H = H; for (int i = 0; i < CELLS; ++i) for (int c = 0; c < 3; ++c) if (d[3 * i + c] != SAVED_FROM[i + c * CELLS]) SAVED_ALL = false; return !SAVE_FAILS; }
};
#define private public
#include <plugins/data_io/utia.cpp>
#undef private
static const int N = 6 * 48 * 6 * 48; static const double D = M_PI / 180;
struct table : UTIA { table() : UTIA(alta::parameters(4, 3, params::SPHERICAL_TL_PL_TV_PV, params::RGB_COLOR)) { vc_array("table", Bd, 3 * N); } double at(int ti, int pi, int tv, int pv, int c) const { return Bd[((ti * 48 + pi) * 6 + tv) * 48 + pv + c * N]; } };
struct cell { int ti, pi, tv, pv, i; cell() { ti = vc_bool("last ti") ? 5 : vc_int_in("ti", 0, 4); pi = vc_int_in("pi", 0, 47); tv = vc_bool("last tv") ? 5 : vc_int_in("tv", 0, 4); pv = vc_int_in("pv", 0, 47); i = ((ti * 48 + pi) * 6 + tv) * 48 + pv; } };
CONTRACT(P14_get) {
  table t; cell k; vec v = t.get(k.i); vc_check_ieq(v.size(), 7, "a sample has four angles and three values");
  vc_check_eq(v[0], 15 * k.ti * D, "light elevation of a cell"); vc_check_eq(v[1], 7.5 * k.pi * D, "light azimuth of a cell"); vc_check_eq(v[2], 15 * k.tv * D, "view elevation of a cell"); vc_check_eq(v[3], 7.5 * k.pv * D, "view azimuth of a cell");
  for (int c = 0; c < 3; ++c) vc_check_eq(v[4 + c], t.at(k.ti, k.pi, k.tv, k.pv, c), "a cell returns what is stored in each plane");
}
CONTRACT(P14_layout) { table t; vc_check_ieq(t.size(), N, "number of cells"); for (int j = 0; j < 4; ++j) { vc_check_eq(t.min()[j], 0, "the domain starts at zero"); vc_check_eq(t.max()[j], (j & 1) ? 2*M_PI : 0.5*M_PI, "the domain ends at the horizon and after a full turn"); } }
CONTRACT(P14_set) {
  table t; const int i = vc_int_in("i", 0, N - 1), o = vc_int_in("other", 0, 3*N - 1); vec x(7); for (int c = 0; c < 7; ++c) x[c] = vc_real("x"); const double before = t.Bd[o];
  t.set(i, x); for (int c = 0; c < 3; ++c) vc_check_eq(t.Bd[i + c * N], x[4 + c], "setting a cell stores its value in each plane");
  if (o != i && o != i + N && o != i + 2*N) vc_check_eq(t.Bd[o], before, "setting a cell changes no other cell");
  vec v = t.get(i); for (int c = 0; c < 3; ++c) vc_check_eq(v[4 + c], x[4 + c], "a cell returns the values that were set");
}
CONTRACT(P14_index) { table t; cell k; vec v = t.get(k.i); int a, b, c, d; vec x(4); for (int j = 0; j < 4; ++j) x[j] = v[j]; t.vecToIndex(x, a, b, c, d); vc_check_ieq(a, k.ti, "index of the light elevation"); vc_check_ieq(b, k.pi, "index of the light azimuth"); vc_check_ieq(c, k.tv, "index of the view elevation"); vc_check_ieq(d, k.pv, "index of the view azimuth"); }
CONTRACT(P14_lookup) { vc_rounding(2e-4);
  table t; cell k; vec v = t.get(k.i), x(4); for (int j = 0; j < 4; ++j) x[j] = v[j]; vec r = t.value(x); vc_check_ieq(r.size(), 3, "three values");
  for (int c = 0; c < 3; ++c) vc_check_eq(r[c], t.at(k.ti, k.pi, k.tv, k.pv, c), "the angles of a cell look up its values");
}
CONTRACT(P14_wrap) { vc_rounding(2e-4); // a full turn of an azimuth is no turn, and negative azimuths are those one turn later
  table t; cell k; const double w = 7.5 * k.pi; vec x(4), y(4); x[0] = 15 * k.ti * D; x[1] = 2*M_PI; x[2] = 15 * k.tv * D; x[3] = 7.5 * k.pv * D; vec r = t.value(x);
  for (int c = 0; c < 3; ++c) vc_check_eq(r[c], t.at(k.ti, 0, k.tv, k.pv, c), "azimuths wrap around");
  y = x; y[1] = 7.5 * k.pi * D; y[3] = 2*M_PI; vec q = t.value(y); for (int c = 0; c < 3; ++c) vc_check_eq(q[c], t.at(k.ti, k.pi, k.tv, 0, c), "azimuths wrap around");
}
CONTRACT(P14_negative) { vc_rounding(2e-4); // azimuths between minus a turn and zero are those one turn later
  table t; vec x(4), y(4); x[0] = vc_real_in("ti", 0, 1) * 0.5 * M_PI; x[1] = vc_real_in("pi", 0, 1) * 2*M_PI; x[2] = vc_real_in("tv", 0, 1) * 0.5 * M_PI; x[3] = vc_real_in("pv", 0, 1) * 2*M_PI; vc_assume(x[1] < 2*M_PI && x[3] < 2*M_PI);
  y = x; const bool l = vc_bool("light"), v = vc_bool("view"); if (l) y[1] = x[1] - 2*M_PI; if (v) y[3] = x[3] - 2*M_PI; vec r = t.value(x), q = t.value(y);
  for (int c = 0; c < 3; ++c) vc_check_eq(q[c], r[c], "negative azimuths wrap around");
}
CONTRACT(P14_between) { vc_rounding(2e-4);
  table t; const int ti = vc_int_in("ti", 0, 4), pi = vc_int_in("pi", 0, 47), tv = vc_int_in("tv", 0, 4), pv = vc_int_in("pv", 0, 47); double f[4]; static const char* nm[4] = {"f0", "f1", "f2", "f3"}; for (int j = 0; j < 4; ++j) { f[j] = vc_real_in(nm[j], 0, 1); vc_assume(f[j] < 1); }
  vec x(4); x[0] = 15 * (ti + f[0]) * D; x[1] = 7.5 * (pi + f[1]) * D; x[2] = 15 * (tv + f[2]) * D; x[3] = 7.5 * (pv + f[3]) * D; vec r = t.value(x);
  for (int c = 0; c < 3; ++c) {
    double s = 0; for (int m = 0; m < 16; ++m) { const int a = m & 1, b = (m >> 1) & 1, g = (m >> 2) & 1, h = (m >> 3) & 1; const int p2 = pi + b == 48 ? 0 : pi + b, q2 = pv + h == 48 ? 0 : pv + h;
      s += (a ? f[0] : 1 - f[0]) * (b ? f[1] : 1 - f[1]) * (g ? f[2] : 1 - f[2]) * (h ? f[3] : 1 - f[3]) * t.at(ti + a, p2, tv + g, q2, c); }
    vc_check_eq(r[c], s, "between measured angles the value is the combination of the neighbouring cells");
  }
}
CONTRACT(P14_below_horizon) { table t; vec x(4); for (int j = 0; j < 4; ++j) x[j] = vc_real("x"); vc_assume(x[0] > 0.5*M_PI || x[2] > 0.5*M_PI); vec r = t.value(x); for (int c = 0; c < 3; ++c) vc_check_eq(r[c], 0, "the value below the horizon is zero"); }
CONTRACT(P14_memory) { // no angles above the horizon address memory outside the table
  table t; vec x(4); x[0] = vc_real_in("ti", 0, 1) * 0.5 * M_PI; x[1] = vc_real_in("pi", -1, 2) * M_PI; x[2] = vc_real_in("tv", 0, 1) * 0.5 * M_PI; x[3] = vc_real_in("pv", -1, 2) * M_PI; vec r = t.value(x); vc_check_ieq(r.size(), 3, "three values");
}

static arguments named(const char* n) { arguments a; a.update("filename", n); return a; }
CONTRACT(P34_utia) { // a saved table is loaded back
  table t; t.save("u.bin"); std::ifstream f("u.bin", std::ios::binary); data* d = load_data(f, named("u.bin")); vc_check(d != NULL, "a saved table is loaded"); if (!d) return;
  cell k; const vec v = t.get(k.i), w = d->get(k.i); vc_check_ieq(d->size(), N, "number of cells"); vc_check_ieq(w.size(), 7, "a sample has four angles and three values"); for (int c = 0; c < 7; ++c) vc_check_same(w[c], v[c], "a saved cell is loaded back");
  vc_check_ieq(d->parametrization().input_parametrization(), params::SPHERICAL_TL_PL_TV_PV, "the angles are those of the two directions"); vc_check_ieq(d->parametrization().output_parametrization(), params::RGB_COLOR, "the values are colours"); delete d; remove("u.bin");
}
CONTRACT(P34_utia_format) { // the planes of the table one after the other, as raw numbers
  table t; t.save("u.bin"); std::ifstream f("u.bin", std::ios::binary); double* raw = new double[3 * N]; f.read((char*)raw, 3L * N * sizeof(double)); vc_check(bool(f), "the file holds three planes"); vc_check(f.get() == EOF, "the file holds nothing more");
  cell k; const int c = vc_enum_in("channel", 0, 2); vc_check_same(raw[k.i + c * N], t.at(k.ti, k.pi, k.tv, k.pv, c), "the number of a cell in its plane"); delete[] raw; f.close(); remove("u.bin");
}
CONTRACT(P34_utia_broken) {
  table t; const int k = vc_enum_in("numbers that miss", 0, 3); static const int MISS[4] = {1, N, 2 * N + 17, 3 * N}; { std::ofstream f("u.bin", std::ios::binary); f.write((const char*)t.Bd, (3L * N - MISS[k]) * sizeof(double)); }
  std::ifstream f("u.bin", std::ios::binary); data* d = load_data(f, named("u.bin")); vc_check(d == NULL, "a table that misses numbers is refused"); f.close(); remove("u.bin");
}
CONTRACT(P34_utia_image_load) {
  KEEP = true; IMG_LOADED = true; IMG_W = IMG_H = 48 * 6; std::stringstream f("EXR"); data* d = load_data(f, named("u.exr")); vc_check(d != NULL, "an image of the size of a table is loaded"); if (!d) return;
  const double* B = ((UTIA*)d)->Bd; for (int c = 0; c < 3; ++c) { bool ok = true; for (int i = 0; i < N; ++i) if (B[i + c * N] != PIXELS[i + c * N]) ok = false; vc_check(ok, "a cell has the values of its pixel"); }
}
CONTRACT(P34_utia_image_save) {
  table t; SAVED = 0; SAVED_ALL = true; SAVED_FROM = t.Bd; t.save("u.exr"); vc_check(SAVED == 1 && SAVED_W == 48 * 6 && SAVED_H == 48 * 6, "the image has one pixel per cell"); vc_check(SAVED_ALL, "the pixel of a cell has its values");
}
CONTRACT(P34_utia_no_image) {
  IMG_LOADED = vc_enum_in("an image", 0, 1); IMG_W = vc_size_in("width", 1, 1000); IMG_H = vc_size_in("height", 1, 1000); vc_assume(!IMG_LOADED || IMG_W != 48 * 6 || IMG_H != 48 * 6); std::stringstream f("EXR"); data* d = load_data(f, named("u.exr")); vc_check(d == NULL, "another image, or none, is refused");
}
CONTRACT(P35_utia) { table t; outputs([&](const char* o) { return !refused([&] { t.save(o); }); }); }
CONTRACT(P35_utia_image) { table t; SAVED_FROM = t.Bd; SAVE_FAILS = vc_enum_in("fails", 0, 1); const bool r = refused([&] { t.save("u.exr"); }); vc_check(r == SAVE_FAILS, "an image that cannot be written is an error, and only then"); SAVE_FAILS = false; }
