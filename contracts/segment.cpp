// Data sets of vertical segments (P12) and their comparison (P22).
// vc-sources: sources/core/common.cpp sources/core/params.cpp sources/core/data.cpp sources/core/vertical_segment.cpp
#include "vc.h"
#include <core/data_storage.cpp>
using namespace alta;
typedef vertical_segment VSEG;
static void nodelete(double*) {}
static int columns(int dx, int dy, VSEG::ci_kind k) { return dx + dy + (k == VSEG::ASYMMETRICAL_CONFIDENCE_INTERVAL ? 2*dy : k == VSEG::SYMMETRICAL_CONFIDENCE_INTERVAL ? dy : 0); }
static alta::parameters par(int dx, int dy) { return alta::parameters(dx, dy, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT); }
static double first_row[32];
// a data set of n rows with any contents
struct set_of : vertical_segment {
  int n, dx, dy, w; double* buf;
  set_of(int n, int dx, int dy, VSEG::ci_kind k, const char* name)
    : vertical_segment(par(dx, dy), 1, std::shared_ptr<double>(first_row, nodelete), k), n(n), dx(dx), dy(dy), w(columns(dx, dy, k)) {
    buf = new double[(long)n * w]; vc_array(name, buf, (long)n * w);
    _size = n; _data = std::shared_ptr<double>(buf, nodelete);
  }
  double at(int i, int j) const { return buf[(long)i * w + j]; }
  vec segment(const vec& x) const { return vs(x); }
  void width(double dt, bool absolute) { _dt = dt; _is_absolute = absolute; }
  double width() const { return _dt; }
};
static VSEG::ci_kind kind() { return (VSEG::ci_kind)vc_enum_in("kind", 0, 2); }
CONTRACT(P12_layout) {
  const int dx = vc_enum_in("dimX", 1, 3), dy = vc_enum_in("dimY", 1, 3); const VSEG::ci_kind k = kind(); set_of s(vc_size_in("n", 1, 1000000), dx, dy, k, "data");
  vc_check_ieq(s.size(), s.n, "the number of samples is that of the rows"); vc_check_ieq(s.confidence_interval_kind(), k, "the kind of intervals is the announced one");
  vc_check_ieq(s.column_number(), s.w, "a row holds the coordinates, the values and the interval"); vc_check_ieq(s.confidence_interval_columns(), s.w - dx - dy, "columns of the interval");
  vc_check_ieq(s.matrix_view().rows(), s.n, "the matrix has one row per sample"); vc_check_ieq(s.matrix_view().cols(), s.w, "the matrix has one column per stored number");
}
CONTRACT(P12_get) {
  const int dx = vc_enum_in("dimX", 1, 3), dy = vc_enum_in("dimY", 1, 3); set_of s(vc_size_in("n", 1, 1000000), dx, dy, kind(), "data");
  const int i = vc_int_in("i", 0, s.n - 1); const data& d = s; vec v = d.get(i);
  vc_check_ieq(v.size(), dx + dy, "a sample has its coordinates and its values");
  for (int j = 0; j < dx + dy; ++j) vc_check_eq(v[j], s.at(i, j), "a sample is the stored row");
}
CONTRACT(P12_interval) {
  const int dx = vc_enum_in("dimX", 1, 3), dy = vc_enum_in("dimY", 1, 3); const VSEG::ci_kind k = kind(); set_of s(vc_size_in("n", 1, 1000000), dx, dy, k, "data");
  const double dt = vc_real_in("dt", 0, 10); s.width(dt, true);
  const int i = vc_int_in("i", 0, s.n - 1); vec x, lo, up, lo2, up2; s.get(i, x, lo, up); s.get(i, lo2, up2);
  vc_check_ieq(x.size(), dx, "coordinates of a sample"); vc_check_ieq(lo.size(), dy, "one lower bound per value"); vc_check_ieq(up.size(), dy, "one upper bound per value"); vc_check_ieq(lo2.size(), dy, "one lower bound per value"); vc_check_ieq(up2.size(), dy, "one upper bound per value");
  for (int j = 0; j < dx; ++j) vc_check_eq(x[j], s.at(i, j), "the coordinates are the stored ones");
  for (int j = 0; j < dy; ++j) {
    const double y = s.at(i, dx + j);
    const double l = k == VSEG::ASYMMETRICAL_CONFIDENCE_INTERVAL ? s.at(i, dx + dy + j) : k == VSEG::SYMMETRICAL_CONFIDENCE_INTERVAL ? y - s.at(i, dx + dy + j) : y - dt;
    const double u = k == VSEG::ASYMMETRICAL_CONFIDENCE_INTERVAL ? s.at(i, dx + 2*dy + j) : k == VSEG::SYMMETRICAL_CONFIDENCE_INTERVAL ? y + s.at(i, dx + dy + j) : y + dt;
    vc_check_eq(lo[j], l, "the lower bound is that of the confidence interval"); vc_check_eq(up[j], u, "the upper bound is that of the confidence interval");
    vc_check_eq(lo2[j], l, "the lower bound is that of the confidence interval"); vc_check_eq(up2[j], u, "the upper bound is that of the confidence interval");
  }
}
CONTRACT(P12_default_width) { set_of s(1, 1, 1, VSEG::NO_CONFIDENCE_INTERVAL, "data"); vec x, lo, up; s.get(0, x, lo, up); vc_check_eq(s.width(), 0.1, "the default width is 0.1"); vc_check_eq(lo[0], s.at(0, 1) - 0.1, "default interval"); vc_check_eq(up[0], s.at(0, 1) + 0.1, "default interval"); }
CONTRACT(P12_set) {
  const int dx = vc_enum_in("dimX", 1, 3), dy = vc_enum_in("dimY", 1, 3); set_of s(vc_size_in("n", 1, 1000000), dx, dy, kind(), "data");
  const int i = vc_int_in("i", 0, s.n - 1), o = vc_int_in("other", 0, s.n - 1); const int full = vc_bool("full"); data& d = s;
  vec v(full ? s.w : dx + dy); for (int j = 0; j < v.size(); ++j) v[j] = vc_real("v");
  double before[12], oth[12]; for (int j = 0; j < s.w; ++j) { before[j] = s.at(i, j); oth[j] = s.at(o, j); }
  d.set(i, v);
  for (int j = 0; j < s.w; ++j) {
    vc_check_eq(s.at(i, j), j < v.size() ? v[j] : before[j], "setting a sample stores it and leaves the rest of its row");
    if (o != i) vc_check_eq(s.at(o, j), oth[j], "setting a sample changes no other sample");
  }
}
CONTRACT(P12_vs) {
  const int dx = vc_enum_in("dimX", 1, 3), dy = vc_enum_in("dimY", 1, 3); set_of s(1, dx, dy, VSEG::ASYMMETRICAL_CONFIDENCE_INTERVAL, "data");
  const int absolute = vc_bool("absolute"); const double dt = vc_real_in("dt", 0, 10); s.width(dt, absolute != 0);
  vec x(dx + dy); for (int j = 0; j < x.size(); ++j) x[j] = vc_real("x"); vec v = s.segment(x);
  vc_check_ieq(v.size(), dx + 3*dy, "a segment has the sample and both bounds");
  for (int j = 0; j < dx + dy; ++j) vc_check_eq(v[j], x[j], "a segment starts with its sample");
  for (int j = 0; j < dy; ++j) { const double y = x[dx + j], h = absolute ? dt : y * dt; vc_check_eq(v[dx + dy + j], y - h, "lower bound"); vc_check_eq(v[dx + 2*dy + j], y + h, "upper bound"); }
}
CONTRACT_BOUNDED(P12_domain, "data sets of up to 3 samples, dimensions up to 2") {
  const int n = vc_upto("n", 1, 3, 1500), dx = vc_upto("dimX", 1, 2, 6), dy = vc_upto("dimY", 1, 2, 4); const VSEG::ci_kind k = kind(); const int w = columns(dx, dy, k);
  double* b = new double[n * w]; vc_array("data", b, n * w); for (int i = 0; i < n * w; ++i) vc_assume(b[i] < 1e300 && b[i] > -1e300); vertical_segment s(par(dx, dy), (size_t)n, std::shared_ptr<double>(b, nodelete), k);
  vc_check_ieq(s.size(), n, "number of samples"); vc_check_ieq(s.min().size(), dx, "one minimum per coordinate"); vc_check_ieq(s.max().size(), dx, "one maximum per coordinate");
  for (int j = 0; j < dx; ++j) {
    bool lo = false, up = false;
    for (int i = 0; i < n; ++i) { vc_check_le(s.min()[j], b[i*w + j], "the domain contains every sample"); vc_check_le(b[i*w + j], s.max()[j], "the domain contains every sample"); lo = lo || s.min()[j] == b[i*w + j]; up = up || s.max()[j] == b[i*w + j]; }
    vc_check(lo, "the minimum is reached"); vc_check(up, "the maximum is reached");
  }
}
// ---- intervals made when text data is read: file columns or command line options
static const char* DT[3] = {"0.25", "0.5", "2"}; static const double DTV[3] = {0.25, 0.5, 2};
static double big(double a, double b) { return a > b ? a : b; }
static double small(double a, double b) { return a < b ? a : b; }
static void intervals(int dy, bool fromfile, int from = 0, int to = 3) {
  const int dx = 2; const VSEG::ci_kind k = fromfile ? (VSEG::ci_kind)vc_enum_in("kind", 1, 2) : VSEG::NO_CONFIDENCE_INTERVAL;
  arguments a; double dt = 0.1; const int opt = fromfile ? 0 : vc_enum_in("dt", 0, 3); if (opt) { a.update("dt", DT[opt - 1]); dt = DTV[opt - 1]; }
  const int mode = vc_enum_in("mode", 0, 3); if (mode & 1) a.update("dt-relative", ""); if (mode & 2) a.update("dt-max", "");
  const int pos = vc_bool("positive"); if (pos) a.update("dt-positive", "");
  vec v(dx + 3*dy), v0; for (int i = 0; i < v.size(); ++i) v[i] = i < dx + dy ? vc_real("v") : 0; v0 = v;
  double lo[3], up[3]; std::stringstream in; in << std::setprecision(17);
  for (int i = 0; i < dy; ++i) {
    lo[i] = up[i] = dt;
    if (k == VSEG::SYMMETRICAL_CONFIDENCE_INTERVAL) { lo[i] = up[i] = vc_real_in("size", 0, 5); in << ' ' << lo[i]; }
    if (k == VSEG::ASYMMETRICAL_CONFIDENCE_INTERVAL) { lo[i] = vc_real_in("below", 0, 5); up[i] = vc_real_in("above", 0, 5); in << ' ' << lo[i] << ' ' << up[i]; }
  }
  read_confidence_interval(in, v, k, dx, dy, a);
  for (int i = 0; i < dx; ++i) vc_check_eq(v[i], v0[i], "the coordinates are not changed");
  for (int i = from; i < dy && i < to; ++i) {
    const double y = v0[dx + i]; double l, u;
    if (mode & 1) { l = y * (1 - lo[i]); u = y * (1 + up[i]); }
    else if (mode & 2) { l = y - big(y * lo[i], lo[i]); u = y + big(y * up[i], up[i]); }
    else { l = y - lo[i]; u = y + up[i]; }
    if (pos) { l = big(l, 0); u = big(u, 0); }
    vc_check_eq(v[dx + i], pos ? big(y, 0) : y, "the value is kept, or clamped at zero when asked for");
    vc_check_eq(v[dx + dy + i], l, "the lower bound is the value minus the announced width"); vc_check_eq(v[dx + 2*dy + i], u, "the upper bound is the value plus the announced width");
    if (!(mode & 1) || y >= 0) { vc_check_le(v[dx + dy + i], v[dx + i], "the interval encloses the value"); vc_check_le(v[dx + i], v[dx + 2*dy + i], "the interval encloses the value"); }
  }
}
CONTRACT(P12_option_intervals) { intervals(vc_enum_in("dimY", 1, 3), false); }
CONTRACT(P12_file_intervals) { intervals(1, true); }
CONTRACT(P12_file_intervals_channels) { intervals(vc_enum_in("dimY", 2, 3), true, 0, 1); }
CONTRACT(P12_file_intervals_other_channels) { intervals(vc_enum_in("dimY", 2, 3), true, 1, 3); }
// ---- comparison
struct pairs { set_of* a; set_of* b; pairs(int n, int dx, int dy) { a = new set_of(n, dx, dy, VSEG::NO_CONFIDENCE_INTERVAL, "a"); b = new set_of(n, dx, dy, VSEG::NO_CONFIDENCE_INTERVAL, "b"); } };
CONTRACT_BOUNDED(P22_tolerance, "data sets of up to 3 samples of dimensions up to 2") {
  const int n = vc_upto("n", 1, 3, 3000), dx = vc_upto("dimX", 1, 2, 6), dy = vc_upto("dimY", 1, 2, 4); pairs p(n, dx, dy); data& d = *p.a;
  const double eps = vc_real_in("epsilon", 0, 2); bool within = true; const long all = (long)n * p.a->w;
  if (!vc_symbolic() && (all > 6 || vc_bool("near"))) { // random sets of some size are never within the tolerance: at most one number differs by more
    for (long q = 0; q < all; ++q) p.b->buf[q] = p.a->buf[q];
    const int where = vc_int_in("where", 0, (int)all - 1); p.b->buf[where] += (vc_bool("below") ? -1 : 1) * (vc_bool("more") ? eps * 1.01 + 1e-9 : eps * 0.99);
  }
  for (int i = 0; i < n; ++i) for (int j = 0; j < dx + dy; ++j) if (!(std::abs(p.a->at(i, j) - p.b->at(i, j)) <= eps)) within = false;
  vc_check(d.equals(*p.b, eps) == within, "data sets are equal exactly when every number differs by no more than the tolerance");
}
CONTRACT_BOUNDED(P22_default, "data sets of up to 2 samples of dimensions 1 and 1") {
  const int n = vc_upto("n", 1, 2, 3000), dx = vc_upto("dimX", 1, 1, 6), dy = vc_upto("dimY", 1, 1, 4), w = dx + dy, i = vc_enum_in("i", 0, n - 1), j = vc_enum_in("j", 0, w - 1); pairs p(n, dx, dy); data& d = *p.a;
  for (long k = 0; k < (long)w*n; ++k) p.b->buf[k] = p.a->buf[k];
  vc_check(d.equals(*p.b), "a data set equals its copy");
  const double by = vc_real_in("by", 1e-6, 10); p.b->buf[(long)i*w + j] += vc_bool("below") ? -by : by;
  vc_check(!d.equals(*p.b), "by default a visible difference is found"); vc_check(!p.b->equals(d), "by default a visible difference is found");
}
CONTRACT_BOUNDED(P22_shape, "data sets of up to 2 samples, dimensions up to 2") {
  const int dx = vc_upto("dimX", 1, 2, 6), dy = vc_upto("dimY", 1, 2, 4), n = vc_upto("n", 1, 2, 300); set_of a(n, dx, dy, VSEG::NO_CONFIDENCE_INTERVAL, "a");
  const int what = vc_enum_in("what", 0, 4);
  set_of b(what == 0 ? n + 1 : n, what == 1 ? dx + 1 : dx, what == 2 ? dy + 1 : dy, VSEG::NO_CONFIDENCE_INTERVAL, "b");
  for (int k = 0; k < n * a.w; ++k) a.buf[k] = 0; for (int k = 0; k < b.n * b.w; ++k) b.buf[k] = 0;
  if (what == 3) b.setParametrization(alta::parameters(dx, dy, params::CARTESIAN, params::UNKNOWN_OUTPUT)); if (what == 4) b.setParametrization(alta::parameters(dx, dy, params::UNKNOWN_INPUT, params::RGB_COLOR));
  vc_check(!a.equals(b), "data sets of different shape or parametrization are not equal"); vc_check(!b.equals(a), "data sets of different shape or parametrization are not equal");
}
CONTRACT_BOUNDED(P22_not_a_number, "data sets of up to 2 samples of dimensions 1 and 1") {
  const int n = vc_upto("n", 1, 2, 3000), dx = vc_upto("dimX", 1, 1, 6), dy = vc_upto("dimY", 1, 1, 4), w = dx + dy, i = vc_enum_in("i", 0, n - 1), j = vc_enum_in("j", 0, w - 1), both = vc_bool("both"); pairs p(n, dx, dy); data& d = *p.a;
  const double eps = vc_real_in("epsilon", 0, 1e6); for (long k = 0; k < (long)w*n; ++k) p.b->buf[k] = p.a->buf[k];
  p.a->buf[(long)i*w + j] = std::numeric_limits<double>::quiet_NaN(); if (both) p.b->buf[(long)i*w + j] = std::numeric_limits<double>::quiet_NaN();
  vc_check(!d.equals(*p.b, eps), "a value that is not a number equals nothing"); vc_check(!p.b->equals(d, eps), "a value that is not a number equals nothing");
}
