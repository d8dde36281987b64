// EXR files through the library that the plugins are built with (TinyEXR, outside the reach of the verifier), P34.
// vc-sources: sources/core/common.cpp
#include "vc.h"
#include "outputs.h"
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <cstring>
#include <plugins/data_io/EXR_IO.h>
CONTRACT_BOUNDED(P34_exr_files, "images of up to 24x24 pixels, written and read with TinyEXR, whole or cut anywhere") {
  const int w = vc_upto("width", 1, 2, 24), h = vc_upto("height", 1, 2, 24); std::vector<double> d(3 * w * h); for (int j = 0; j < 3 * w * h; ++j) d[j] = (float)vc_real("value");
  vc_check(t_EXR_IO<double>::SaveEXR("x.exr", w, h, d.data()), "the image is saved"); std::ifstream i("x.exr", std::ios::binary); std::stringstream s; s << i.rdbuf(); i.close(); remove("x.exr"); const std::string bytes = s.str();
  std::stringstream f(bytes); int W = -1, H = -1; double* r = NULL; const bool ok = t_EXR_IO<double>::LoadEXR(f, W, H, r); vc_check(ok, "a saved image is loaded"); if (!ok) return; vc_check(W == w && H == h, "a saved image is loaded with its size"); for (int j = 0; j < 3 * w * h; ++j) vc_check_same(r[j], d[j], "a saved image is loaded with its values"); delete[] r;
  const int cut = vc_int_in("cut", 0, 1000000); std::stringstream g(bytes.substr(0, cut % bytes.size())); r = NULL; vc_check(!t_EXR_IO<double>::LoadEXR(g, W, H, r), "an image that is cut is refused");
}
CONTRACT_BOUNDED(P35_exr_files, "images of up to 24x24 pixels, written with TinyEXR to a file that can be written or not") {
  const int w = vc_upto("width", 1, 2, 24), h = vc_upto("height", 1, 2, 24); std::vector<double> d(3 * w * h); for (int j = 0; j < 3 * w * h; ++j) d[j] = (float)vc_real("value");
  outputs([&](const char* o) { return t_EXR_IO<double>::SaveEXR(o, w, h, d.data()); });
}
