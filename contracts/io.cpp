// Data files: text (P17) and binary (P24) round trips of the library's own format.
// vc-sources: sources/core/common.cpp sources/core/params.cpp sources/core/data.cpp sources/core/vertical_segment.cpp sources/core/data_storage.cpp
#include "vc.h"
#include <core/data_storage.h>
#include <core/vertical_segment.h>
#include <core/args.h>
#include <cstring>
#include <sstream>
#include <iomanip>
#include <fstream>
#include "outputs.h"
using namespace alta;
typedef vertical_segment VSEG;
static void deleter(double* p) { delete[] p; }
static alta::parameters par(int dx, int dy, params::input in = params::UNKNOWN_INPUT, params::output out = params::UNKNOWN_OUTPUT) { return alta::parameters(dx, dy, in, out); }
static int columns(int dx, int dy, VSEG::ci_kind k) { return dx + dy + (k == VSEG::ASYMMETRICAL_CONFIDENCE_INTERVAL ? 2*dy : k == VSEG::SYMMETRICAL_CONFIDENCE_INTERVAL ? dy : 0); }
struct set_of {
  int n, dx, dy, w; double* b; VSEG s;
  static double* fill(int n, int w) { double* b = new double[n * w]; vc_array("data", b, n * w); for (int i = 0; i < n * w; ++i) vc_assume(b[i] < 3e38 && b[i] > -3e38); return b; }
  set_of(int n, int dx, int dy, VSEG::ci_kind k, params::input in = params::UNKNOWN_INPUT, params::output out = params::UNKNOWN_OUTPUT)
    : n(n), dx(dx), dy(dy), w(columns(dx, dy, k)), b(fill(n, w)), s(par(dx, dy, in, out), (size_t)n, std::shared_ptr<double>(b, deleter), k) {}
};
static void same_header(const data& a, const data& b) {
  vc_check_ieq(b.parametrization().dimX(), a.parametrization().dimX(), "the number of coordinates is read back"); vc_check_ieq(b.parametrization().dimY(), a.parametrization().dimY(), "the number of values is read back");
  vc_check_ieq(b.parametrization().input_parametrization(), a.parametrization().input_parametrization(), "the input parametrization is read back");
  vc_check_ieq(b.parametrization().output_parametrization(), a.parametrization().output_parametrization(), "the output parametrization is read back");
  vc_check_ieq(b.size(), a.size(), "the number of samples is read back");
}
static void same_samples(const set_of& a, const data& b) {
  for (int i = 0; i < a.n; ++i) { vec v = b.get(i); vc_check_ieq(v.size(), a.dx + a.dy, "size of a sample"); for (int j = 0; j < a.dx + a.dy; ++j) vc_check_same(v[j], a.b[i * a.w + j], "coordinates and values are read back in order"); }
}
static data* read_text(std::istream& in, const arguments& opt) { arguments h = arguments::parse_header(in); vc_check(h["FORMAT"] != "binary", "a text file is not announced as binary"); return load_data_from_text(in, h, opt); }
// ---- text
CONTRACT_BOUNDED(P17_round_trip, "data sets of up to 3 samples, dimensions up to 3") {
  const VSEG::ci_kind k = (VSEG::ci_kind)vc_enum_in("kind", 0, 2);
  set_of s(vc_upto("n", 1, 3, 300), vc_upto("dimX", 1, 3, 6), vc_upto("dimY", 1, 3, 6), k); std::stringstream f; save_data_as_text(f, s.s);
  data* d = read_text(f, arguments()); same_header(s.s, *d); same_samples(s, *d);
}
CONTRACT_BOUNDED(P17_file, "data sets of up to 2 samples, dimensions up to 2") {
  set_of s(vc_upto("n", 1, 2, 300), vc_upto("dimX", 1, 2, 6), vc_upto("dimY", 1, 2, 6), VSEG::NO_CONFIDENCE_INTERVAL);
  const data& a = s.s; a.save("round.dat"); std::ifstream f("round.dat");
  data* d = read_text(f, arguments()); same_header(s.s, *d); same_samples(s, *d);
}
CONTRACT(P17_parametrizations) {
  const params::input in = (params::input)vc_enum_in("input", 0, (int)params::UNKNOWN_INPUT); const params::output out = (params::output)vc_enum_in("output", 0, (int)params::UNKNOWN_OUTPUT);
  vc_assume(params::parse_input(params::get_name(in)) == in && params::parse_output(params::get_name(out)) == out);
  set_of s(1, 1, 1, VSEG::NO_CONFIDENCE_INTERVAL, in, out); std::stringstream f; save_data_as_text(f, s.s);
  data* d = read_text(f, arguments()); same_header(s.s, *d); same_samples(s, *d);
}
CONTRACT_BOUNDED(P17_filter, "files of 3 samples with 1 coordinate and 1 value") { // bounds asked for on the command line select samples and keep their order
  set_of s(3, 1, 1, VSEG::NO_CONFIDENCE_INTERVAL); std::stringstream f; save_data_as_text(f, s.s); arguments o; double lo = -3.5e38, up = 3.5e38, ylo = -3.5e38, yup = 3.5e38;
  const int w = vc_enum_in("bounds", 0, 4);
  if (w == 1) { o.update("min", "[0.25]"); lo = 0.25; } if (w == 2) { o.update("max", "[0.5]"); up = 0.5; } if (w == 3) { o.update("ymin", "[-1]"); ylo = -1; } if (w == 4) { o.update("ymax", "[2]"); yup = 2; }
  data* d = read_text(f, o); int m = 0;
  for (int i = 0; i < 3; ++i) {
    const double x = s.b[2*i], y = s.b[2*i + 1]; if (x < lo || x > up || y < ylo || y > yup) continue;
    vc_check(m < d->size(), "samples within the bounds are kept"); if (m < d->size()) { vec v = d->get(m); vc_check_same(v[0], x, "samples within the bounds are kept in order"); vc_check_same(v[1], y, "samples within the bounds are kept in order"); } ++m;
  }
  vc_check_ieq(d->size(), m, "samples outside the bounds are discarded");
}
CONTRACT_BOUNDED(P17_comments, "2 samples") { // comment lines, blank lines and the absence of a final newline do not change the samples
  set_of s(2, 1, 2, VSEG::NO_CONFIDENCE_INTERVAL); std::stringstream f; const int w = vc_enum_in("extra", 0, 4); f << std::setprecision(17) << "#ALTA HEADER BEGIN\n#DIM 1 2\n";
  if (w != 4) f << "#PARAM_IN COS_TH\n"; f << "#ALTA HEADER END\n";
  for (int i = 0; i < 2; ++i) { if (w == 1) f << "# a comment\n"; if (w == 2) f << "\n"; f << s.b[3*i] << ' ' << s.b[3*i + 1] << "\t" << s.b[3*i + 2]; if (w != 3 || i == 0) f << "\n"; }
  data* d = read_text(f, arguments()); vc_check_ieq(d->size(), 2, "the number of samples is that of the data lines"); same_samples(s, *d);
  vc_check_ieq(d->parametrization().dimX(), 1, "the number of coordinates is read back"); vc_check_ieq(d->parametrization().dimY(), 2, "the number of values is read back"); vc_check(d->parametrization().input_parametrization() == (w == 4 ? params::UNKNOWN_INPUT : params::COS_TH), "the input parametrization is read back");
}
// ---- binary
static data* read_binary(std::istream& in) { arguments h = arguments::parse_header(in); vc_check(h["FORMAT"] == "binary", "a binary file is announced as such"); return load_data_from_binary(in, h); }
static void binary(const set_of& s, std::istream& f) {
  data* d = read_binary(f); same_header(s.s, *d); same_samples(s, *d); const VSEG* v = dynamic_cast<const VSEG*>(d); vc_check(v != 0, "binary data has intervals"); 
  vc_check_ieq(v->confidence_interval_kind(), s.s.confidence_interval_kind(), "the kind of intervals is read back");
  for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.w; ++j) vc_check_same(v->matrix_view()(i, j), s.b[i * s.w + j], "every stored number is read back in order");
}
CONTRACT_BOUNDED(P24_round_trip, "data sets of up to 3 samples, dimensions up to 3") {
  set_of s(vc_upto("n", 1, 3, 3000), vc_upto("dimX", 1, 3, 6), vc_upto("dimY", 1, 3, 6), (VSEG::ci_kind)vc_enum_in("kind", 0, 2)); std::stringstream f; save_data_as_binary(f, s.s); binary(s, f);
}
CONTRACT(P24_parametrizations) {
  const params::input in = (params::input)vc_enum_in("input", 0, (int)params::UNKNOWN_INPUT); const params::output out = (params::output)vc_enum_in("output", 0, (int)params::UNKNOWN_OUTPUT);
  vc_assume(params::parse_input(params::get_name(in)) == in && params::parse_output(params::get_name(out)) == out);
  set_of s(1, 1, 1, VSEG::NO_CONFIDENCE_INTERVAL, in, out); std::stringstream f; save_data_as_binary(f, s.s); binary(s, f);
}
CONTRACT_BOUNDED(P24_first_byte, "data sets of 1 sample, dimensions 1 and 1") { // whatever the bytes of the first number
  set_of s(1, 1, 1, VSEG::NO_CONFIDENCE_INTERVAL); unsigned char c[8] = {(unsigned char)vc_enum_in("byte", 0, 255), 10, 35, 32, 0, 1, 0xf0, 0x3f}; memcpy(s.b, c, 8);
  std::stringstream f; save_data_as_binary(f, s.s); binary(s, f);
}
CONTRACT_BOUNDED(P24_truncated, "data sets of up to 2 samples, dimensions 1 and up to 2, any truncation by whole numbers or by 3 bytes") {
  set_of s(vc_upto("n", 1, 2, 3000), vc_upto("dimX", 1, 1, 6), vc_upto("dimY", 1, 2, 4), (VSEG::ci_kind)vc_enum_in("kind", 0, 2)); std::stringstream f; save_data_as_binary(f, s.s);
  std::string all = f.str(); const int numbers = s.n * s.w; const int miss = vc_enum_in("missing", 0, 12); vc_assume(miss <= numbers);
  const int tail = (int)strlen("\n#END_STREAM\n"); const int cut = tail + 8 * miss - (vc_bool("part") ? 3 : 0);
  std::stringstream g(all.substr(0, all.size() - cut)); arguments h = arguments::parse_header(g);
  vc_allow_abort(true);
#ifdef VC_NATIVE
  try { load_data_from_binary(g, h); } catch (...) { return; }
#else
  load_data_from_binary(g, h);
#endif
  vc_check(miss == 0, "a file with fewer numbers than announced is refused");
}
// ---- P35
CONTRACT_BOUNDED(P35_text, "1 sample of one coordinate and one value") {
  set_of s(1, 1, 1, (VSEG::ci_kind)vc_enum_in("kind", 0, 2)); const data& a = s.s;
  outputs([&](const char* o) { return !refused([&] { a.save(o); }); });
}
