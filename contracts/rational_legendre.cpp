// The legendre basis of rational functions.
// vc-native-sources: sources/core/data.cpp sources/core/data_storage.cpp sources/core/vertical_segment.cpp
// vc-sources: sources/core/common.cpp sources/core/function.cpp sources/core/params.cpp sources/core/rational_function.cpp
#include "vc.h"
#include "sources/plugins/rational_function_legendre/rational_function.cpp"
#include <cmath>
#include "rational_basis.h"
typedef rational_function_legendre RF;
CONTRACT_BOUNDED(P11_legendre, "degrees up to 8") {
  const int i = vc_upto("i", 0, 8, 20); basis<RF> t(1, plain(1, 1), 21, 21, false); const double s = scaled(t.x, t.lo, t.hi, 0);
  vc_check_eq(t.r->p(t.x, i), legP(s, i), "Legendre polynomial of the scaled input"); vc_check_eq(t.r->q(t.x, i), legP(s, i), "Legendre polynomial of the scaled input");
}
CONTRACT_BOUNDED(P11_legendre_products, "two dimensions, the first 10 basis functions") {
  const int i = vc_upto("i", 0, 9, 40), d = vc_upto("d", 2, 2, 5); basis<RF> t(d, plain(d, 1), 41, 41, false);
  vc_check_eq(t.r->p(t.x, i), t.product(legP, i), "product of Legendre polynomials"); vc_check_eq(t.r->q(t.x, i), t.product(legP, i), "product of Legendre polynomials");
}
CONTRACT_BOUNDED(P11_legendre_ratio, "one dimension, 3 and 2 coefficients") { const int np = vc_upto("np", 3, 3, 12), nq = vc_upto("nq", 2, 2, 12); ratio<RF>(vc_upto("d", 1, 1, 4), np, nq); }
CONTRACT(P11_legendre_point) { pointdomain<RF>(); }
// --- saved and loaded
#include "rational_save.h"
CONTRACT_BOUNDED(P20_legendre_1d, "one input, up to 3 channels, up to 4 coefficients") { const int nY = vc_enum_in("nY", 1, 3), np = vc_upto("np", 1, 4, 40), nq = vc_upto("nq", 1, 4, 40); rational_saved<RF>(plain(1, nY), np, nq); }
CONTRACT_BOUNDED(P20_legendre_nd, "2 to 6 inputs, up to 2 channels, 3 and 2 coefficients") { const int d = vc_enum_in("inputs", 2, 6), nY = vc_enum_in("nY", 1, 2); rational_saved<RF>(plain(d, nY), vc_upto("np", 3, 3, 40), vc_upto("nq", 2, 2, 40)); }
