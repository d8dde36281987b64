// Interpolation of scattered samples (plugins/data_interpolants/rbf.cpp), P29, against the
// contract of the nearest-neighbour search of FLANN (flann/flann.hpp).
// vc-sources: sources/core/common.cpp sources/core/params.cpp sources/core/data.cpp sources/core/vertical_segment.cpp sources/core/data_storage.cpp
#include "vc.h"
#include <sstream>
#include <map>
#include <vector>
#include <memory>
#include <cstring>
#include <core/data.h>
#include <core/vertical_segment.h>
#include <core/common.h>
#include <core/args.h>
#include <core/plugins_manager.h>
#include <plugins/data_interpolants/rbf.cpp>
static vertical_segment* the_samples; static const arguments* the_options; static std::istream* the_stream;
ptr<data> plugins_manager::load_data(const std::string& type, std::istream& in, const arguments& args) {
  vc_check(type == "vertical_segment" || type == "", "the file is read as a list of samples"); vc_check(&in == the_stream && args.is_defined("option"), "the samples come from the file, with the options that were given"); return ptr<data>(the_samples);
}
static vec load_samples(int n, int dx, int dy, params::input in, ptr<data>& d, double lo = -10, double up = 10) {
  the_samples = new vertical_segment(alta::parameters(dx, dy, in, params::UNKNOWN_OUTPUT), n); vec all(n * (dx + dy));
  for (int i = 0; i < n; ++i) { vec s(dx + dy); for (int j = 0; j < dx + dy; ++j) { s[j] = vc_real("sample"); if (!vc_symbolic()) vc_assume(s[j] > lo && s[j] < up); all[i * (dx + dy) + j] = s[j]; } the_samples->set(i, s); }
  std::istringstream f(""); arguments o; o.update("option", "1"); the_stream = &f; d = ptr<data>(load_data(f, o)); return all;
}
CONTRACT_BOUNDED(P29_samples, "up to 4 samples, up to 3 coordinates and values") {
  const int n = vc_upto("n", 1, 4, 30), dx = vc_enum_in("dimX", 1, 3), dy = vc_enum_in("dimY", 1, 3); ptr<data> d; const vec s = load_samples(n, dx, dy, params::UNKNOWN_INPUT, d);
  vc_check_ieq(d->size(), n, "the number of samples"); vc_check_ieq(d->parametrization().dimX(), dx, "the number of coordinates"); vc_check_ieq(d->parametrization().dimY(), dy, "the number of values");
  for (int i = 0; i < n; ++i) { const vec x = d->get(i); vc_check(x.size() == dx + dy, "a sample has its coordinates and values"); for (int j = 0; j < dx + dy; ++j) { vc_check_same(x[j], s[i * (dx + dy) + j], "a sample is the one of the file"); } }
  const vec lo = the_samples->min(), hi = the_samples->max(); vc_check(d->min().size() == lo.size() && d->max().size() == hi.size(), "the domain has the dimensions of the samples");
  for (int j = 0; j < lo.size(); ++j) { vc_check_same(d->min()[j], lo[j], "the domain is the one of the samples"); vc_check_same(d->max()[j], hi[j], "the domain is the one of the samples"); }
}
CONTRACT(P29_parametrization) {
  const params::input in = (params::input)vc_enum_in("input", 0, (int)params::UNKNOWN_INPUT); const params::output out = (params::output)vc_enum_in("output", 0, (int)params::UNKNOWN_OUTPUT);
  the_samples = new vertical_segment(alta::parameters(2, 1, in, out), 1); vec s(3); for (int j = 0; j < 3; ++j) s[j] = vc_real("sample"); the_samples->set(0, s);
  std::istringstream f(""); arguments o; o.update("option", "1"); the_stream = &f; ptr<data> d(load_data(f, o));
  vc_check_ieq(d->parametrization().input_parametrization(), in, "the input parametrization is the one of the file"); vc_check_ieq(d->parametrization().output_parametrization(), out, "the output parametrization is the one of the file");
}
static void value_of(int n, int dx, int dy) {
  ptr<data> d; const vec s = load_samples(n, dx, dy, params::UNKNOWN_INPUT, d); const int w = dx + dy;
  vec x(dx); for (int j = 0; j < dx; ++j) { x[j] = vc_real("x"); if (!vc_symbolic()) vc_assume(x[j] > -10 && x[j] < 10); }
  vec dist(n); for (int i = 0; i < n; ++i) { dist[i] = 0; for (int j = 0; j < dx; ++j) dist[i] += (x[j] - s[i * w + j]) * (x[j] - s[i * w + j]); if (!vc_symbolic()) vc_assume(dist[i] > 1e-3); }
  int far = -1; if (n == 4) { far = vc_enum_in("far", 0, 3); for (int i = 0; i < n; ++i) if (i != far) vc_assume(dist[i] < dist[far]); }
  const vec v = d->value(x); vc_check_ieq(v.size(), dy, "the number of values");
  for (int c = 0; c < dy; ++c) { double a = 0, b = 0; for (int i = 0; i < n; ++i) if (i != far) { const double k = 1.0 / (1.0E-10 + dist[i]); vc_assume(k > 0); a += k * s[i * w + dx + c]; b += k; } vc_check_eq(v[c], a / b, "the value is the mean of the three nearest samples, weighted with the inverse of their squared distance"); }
}
CONTRACT_BOUNDED(P29_value, "up to 4 samples of one coordinate and one value") { value_of(vc_upto("n", 1, 4, 4), 1, 1); }
CONTRACT_BOUNDED(P29_value_dims, "up to 3 samples of 2 or 3 coordinates and 2 values") { value_of(vc_enum_in("n", 1, 3), vc_enum_in("dimX", 2, 3), 2); }
CONTRACT_BOUNDED(P29_value_far, "4 samples of 2 coordinates and 3 values") { value_of(4, 2, 3); }
CONTRACT_BOUNDED(P29_value_at_samples, "3 samples at positions 0, 1e-6 or 1, evaluated there and between; 2 values") { // positions shared by several samples, or very close ones
  static const double POS[4] = {0, 1e-6, 1, 0.5}; the_samples = new vertical_segment(alta::parameters(1, 2, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT), 3); double at[3]; vec y(6);
  for (int i = 0; i < 3; ++i) { vec s(3); s[0] = at[i] = POS[vc_enum_in("position", 0, 2)]; for (int c = 0; c < 2; ++c) { s[1 + c] = y[2 * i + c] = vc_real("sample"); if (!vc_symbolic()) vc_assume(s[1 + c] > -10 && s[1 + c] < 10); } the_samples->set(i, s); }
  std::istringstream f(""); arguments o; o.update("option", "1"); the_stream = &f; ptr<data> d(load_data(f, o)); vec x(1); x[0] = POS[vc_enum_in("x", 0, 3)]; const vec v = d->value(x);
  for (int c = 0; c < 2; ++c) { double a = 0, b = 0; for (int i = 0; i < 3; ++i) { const double k = 1.0 / (1.0E-10 + (x[0] - at[i]) * (x[0] - at[i])); a += k * y[2 * i + c]; b += k; } vc_check_eq(v[c], a / b, "samples at the position, or next to it, are weighted as the others"); }
}
