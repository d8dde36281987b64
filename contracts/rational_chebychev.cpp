// The chebychev basis of rational functions.
// vc-native-sources: sources/core/data.cpp sources/core/data_storage.cpp sources/core/vertical_segment.cpp
// vc-sources: sources/core/common.cpp sources/core/function.cpp sources/core/params.cpp sources/core/rational_function.cpp
#include "vc.h"
#include "sources/plugins/rational_function_chebychev/rational_function.cpp"
#include <cmath>
#include "rational_basis.h"
typedef rational_function_chebychev RF;
CONTRACT_BOUNDED(P11_chebychev_inside, "degrees up to 7, input inside the domain") {
  const int i = vc_upto("i", 0, 7, 15); basis<RF> t(1, plain(1, 1), 16, 16, true); const double s = scaled(t.x, t.lo, t.hi, 0); 
  vc_check_eq(t.r->p(t.x, i), chebT(s, i), "Chebyshev polynomial of the scaled input"); vc_check_eq(t.r->q(t.x, i), chebT(s, i), "Chebyshev polynomial of the scaled input");
}
CONTRACT_BOUNDED(P11_chebychev_outside, "degrees up to 7") {
  const int i = vc_upto("i", 0, 7, 15); basis<RF> t(1, plain(1, 1), 16, 16, false); const double s = scaled(t.x, t.lo, t.hi, 0); vc_assume(s > 1 || s < -1);
  vc_check_eq(t.r->p(t.x, i), chebT(s, i), "Chebyshev polynomial of the scaled input"); vc_check_eq(t.r->q(t.x, i), chebT(s, i), "Chebyshev polynomial of the scaled input");
}
CONTRACT_BOUNDED(P11_chebychev_products, "two dimensions, the first 10 basis functions") {
  const int i = vc_upto("i", 0, 9, 40), d = vc_upto("d", 2, 2, 5); basis<RF> t(d, plain(d, 1), 41, 41, true);
  vc_check_eq(t.r->p(t.x, i), t.product(chebT, i), "product of Chebyshev polynomials"); vc_check_eq(t.r->q(t.x, i), t.product(chebT, i), "product of Chebyshev polynomials");
}
CONTRACT_BOUNDED(P11_chebychev_ratio, "one dimension, 3 and 2 coefficients") { const int np = vc_upto("np", 3, 3, 12), nq = vc_upto("nq", 2, 2, 12); ratio<RF>(vc_upto("d", 1, 1, 4), np, nq); }
CONTRACT(P11_chebychev_point) { pointdomain<RF>(); }
// --- saved and loaded
#include "rational_save.h"
CONTRACT_BOUNDED(P20_chebychev_1d, "one input, up to 3 channels, up to 4 coefficients") { const int nY = vc_enum_in("nY", 1, 3), np = vc_upto("np", 1, 4, 40), nq = vc_upto("nq", 1, 4, 40); rational_saved<RF>(plain(1, nY), np, nq); }
CONTRACT_BOUNDED(P20_chebychev_nd, "2 to 6 inputs, up to 2 channels, 3 and 2 coefficients, input inside the domain") { const int d = vc_enum_in("inputs", 2, 6), nY = vc_enum_in("nY", 1, 2); rational_saved<RF>(plain(d, nY), vc_upto("np", 3, 3, 40), vc_upto("nq", 2, 2, 40), true); }
