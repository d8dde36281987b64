// ASTM files (plugins/data_io/astm.cpp), P34.
// vc-sources: sources/core/common.cpp sources/core/params.cpp sources/core/data.cpp sources/core/data_storage.cpp sources/core/vertical_segment.cpp
#include "vc.h"
#include <algorithm>
#include <sstream>
#include <fstream>
#include <map>
#include <vector>
#include <memory>
#include <iomanip>
#include <core/data.h>
#include <core/common.h>
#include <core/args.h>
#include <plugins/data_io/astm.cpp>
using namespace alta;
static const char* NAME[4] = {"theta_i", "phi_i", "theta_s", "phi_s"};
// the angles of a file: all four, without the light azimuth, or two of them
static const int ANGLES[3][5] = {{4, 0, 1, 2, 3}, {3, 0, 2, 3, 0}, {2, 0, 2, 0, 0}};
static void numbers(std::ostream& f, const vec& x, int n) { for (int j = 0; j < n; ++j) f << (j ? ", " : "") << x[j]; }
struct file {
  int n, dx, dy; bool rgb; vec v; std::stringstream f;
  file(int n, int angles, bool rgb, int lines, int last, bool spaced = false, bool newline = true, int name = 0) : n(n), dx(ANGLES[angles][0]), dy(rgb ? 3 : 1), rgb(rgb), v(n * (dx + dy)) {
    f << std::setprecision(17) << "ASTM 1.0\nCOMMENT measured, with care\nNUM_POINTS " << n << "\nVARS "; for (int j = 0; j < dx; ++j) f << NAME[ANGLES[angles][1 + j]] << ", "; static const char* RADIANCE[3] = {"Integrated (300..700)", "Integrated", "Integrated-BRDF"}; f << (rgb ? "R, G, B" : RADIANCE[name]) << "\n";
    for (int i = 0; i < n; ++i) {
      vec x(dx + dy); for (int j = 0; j < dx + dy; ++j) v[i * (dx + dy) + j] = x[j] = vc_real("number");
      if (i >= lines) continue; if (spaced) f << "\n  \n";
      numbers(f, x, i == lines - 1 ? last : dx + dy); if (i < lines - 1 || newline) f << "\n";
    }
  }
};
CONTRACT_BOUNDED(P34_astm, "up to 3 points; two to four angles; colours or radiance; blank lines between the points or not") {
  const int n = vc_upto("n", 0, 3, 40), a = vc_enum_in("angles", 0, 2); const bool rgb = vc_enum_in("rgb", 0, 1); const int w = ANGLES[a][0] + (rgb ? 3 : 1);
  file s(n, a, rgb, n, w, vc_enum_in("spaced", 0, 1), vc_enum_in("newline", 0, 1), rgb ? 0 : vc_enum_in("radiance", 0, 2)); data* d = alta::load_data(s.f, arguments()); vc_check(d != NULL, "the file is loaded"); if (!d) return;
  vc_check_ieq(d->size(), n, "the number of samples is the one that is announced"); vc_check(d->parametrization().dimX() == s.dx && d->parametrization().dimY() == s.dy, "the angles are coordinates, the other variables values");
  vc_check_ieq(d->parametrization().input_parametrization(), s.dx == 4 ? params::SPHERICAL_TL_PL_TV_PV : params::UNKNOWN_INPUT, "four angles are those of a light and a view direction"); vc_check_ieq(d->parametrization().output_parametrization(), rgb ? params::RGB_COLOR : params::INV_STERADIAN, "colours are colours, radiance is radiance");
  for (int i = 0; i < n; ++i) { const vec x = d->get(i); vc_check_ieq(x.size(), w, "a sample has all variables"); for (int j = 0; j < w; ++j) vc_check_same(x[j], s.v[i * w + j], "a sample has the numbers of its line, in order"); }
  delete d;
}
CONTRACT_BOUNDED(P34_astm_broken, "up to 3 points; two to four angles; any number of lines that miss, or a last line that misses some numbers") {
  const int n = vc_upto("n", 1, 3, 20), a = vc_enum_in("angles", 0, 2); const bool rgb = vc_enum_in("rgb", 0, 1); const int w = ANGLES[a][0] + (rgb ? 3 : 1);
  const int lines = vc_upto("lines", 0, 3, 20), last = vc_enum_in("last", 0, 7); vc_assume(lines <= n && last <= w); vc_assume(lines < n || last < w);
  file s(n, a, rgb, lines, last, vc_enum_in("spaced", 0, 1), vc_enum_in("newline", 0, 1)); data* d = alta::load_data(s.f, arguments()); vc_check(d == NULL, "a file with fewer numbers than announced is refused");
}
CONTRACT(P34_astm_header) {
  static const char* HEADER[3] = {"", "ASTM 1.0\nVARS theta_i, phi_i, theta_s, phi_s, R, G, B\n", "ASTM 1.0\nNUM_POINTS 1\n"}; std::stringstream f; f << HEADER[vc_enum_in("header", 0, 2)] << "0, 0, 0, 0, 1, 1, 1\n";
  data* d = alta::load_data(f, arguments()); vc_check(d == NULL, "a file that announces no points or no variables is refused");
}
