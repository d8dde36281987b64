// Cosine factors (P23): the correction a text file is loaded with
// (core/data_storage.cpp), for abstract conversions to directions (their own
// contracts are P01 and P02).
// vc-sources: sources/core/common.cpp sources/core/vertical_segment.cpp sources/core/data_storage.cpp
#include "vc.h"
#include <sstream>
#include <iomanip>
#include <core/data_storage.h>
#include <core/vertical_segment.h>
#include <core/args.h>
#include "abstract_params.h"
#include "abstract_data.h"
params::input params::parse_input(const std::string& s) { return s == "A" ? APAR[0] : s == "B" ? APAR[1] : APAR[2]; }
params::output params::parse_output(const std::string&) { return params::UNKNOWN_OUTPUT; }
static double number(const char* w) { const double x = vc_real(w); vc_assume(x < 1e30 && x > -1e30); return x; }
// loads n samples with and without the correction
static void corrected(int n, int nY, int p, int kind) {
  static const char* names[] = {"A", "B", "C"}; static const char* vs[] = {"0", "1", "2"}; const int dx = params::dimension(APAR[p]);
  arguments h; std::ostringstream dim; dim << dx << " " << nY; h.update("DIM", dim.str()); h.update("PARAM_IN", names[p]); h.update("VS", vs[kind]);
  std::ostringstream o; o << std::setprecision(17); double (*x)[6] = new double[n][6];
  for (int i = 0; i < n; ++i) {
    for (int k = 0; k < dx; ++k) o << (x[i][k] = number("x")) << " "; for (int y = 0; y < nY; ++y) o << number("y") << " ";
    for (int k = 0; k < kind; ++k) o << number("interval") << " "; o << "\n";
  }
  std::istringstream a(o.str()), b(o.str()); arguments plain, opt; opt.update("data-correct-cosine", "");
  vertical_segment* d = dynamic_cast<vertical_segment*>(load_data_from_text(a, h, plain)); vertical_segment* e = dynamic_cast<vertical_segment*>(load_data_from_text(b, h, opt));
  vc_check(d && e, "data are loaded"); vc_check_ieq(d->size(), n, "without the correction, every sample is loaded"); int m = 0;
  vc_check(d->confidence_interval_kind() == e->confidence_interval_kind(), "the correction does not change the kind of intervals");
  for (int i = 0; i < n; ++i) {
    vec in(dx); for (int k = 0; k < dx; ++k) in[k] = x[i][k];
    vec c = converted(in, APAR[p], params::CARTESIAN); if (!(c[2] > 0.0 && c[5] > 0.0)) continue;
    vc_check(m < e->size(), "samples above the horizon are kept"); if (m >= e->size()) return;
    vec u = d->get(i), v = e->get(m), lo, up, clo, cup; d->get(i, lo, up); e->get(m, clo, cup);
    for (int k = 0; k < dx; ++k) vc_check_same(v[k], u[k], "the correction keeps the coordinates");
    for (int y = 0; y < nY; ++y) {
      vc_check_eq(v[dx + y], u[dx + y] / (c[2] * c[5]), "values are divided by the cosines of both directions");
      vc_check_eq(clo[y], lo[y] / (c[2] * c[5]), "intervals are divided by the cosines of both directions"); vc_check_eq(cup[y], up[y] / (c[2] * c[5]), "intervals are divided by the cosines of both directions");
    }
    ++m;
  }
  vc_check_ieq(e->size(), m, "samples with a direction at or below the horizon are dropped");
}
CONTRACT_BOUNDED(P23_load, "up to 2 samples of 1 channel") { corrected(vc_upto("n", 1, 2, 100), 1, vc_enum_in("input", 0, 2), 0); }
CONTRACT(P23_load_channels) { corrected(1, 3, 2, vc_enum_in("intervals", 0, 2)); }
