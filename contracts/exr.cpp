// Images of EXR files (plugins/data_io/EXR_IO.h), P34. TinyEXR is an external library: its functions are those of an assumed contract, declared by its own header.
// vc-sources: sources/core/common.cpp
#include "vc.h"
#include "outputs.h"
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <cstring>
#include <cstdlib>
#define TINYEXR_IMPLEMENTATION_DEFINED
#include <plugins/data_io/EXR_IO.h>
// what a file holds: its bytes, and the image that they encode
static const int MAXP = 4, MAXC = 4; static std::string BYTES; static int W, H, NC, FAILS; static const char* NAME[MAXC]; static float PIX[MAXC][MAXP];
static const char* ORDER[4][MAXC] = {{"B", "G", "R", ""}, {"R", "G", "B", ""}, {"A", "B", "G", "R"}, {"G", "R", "B", ""}};
static bool whole(const unsigned char* m, size_t n) { return n == BYTES.size() && std::memcmp(m, BYTES.data(), n) == 0; }
static int failure(const char** err) { if (vc_enum_in("message", 0, 1)) *err = strdup("no"); return TINYEXR_ERROR_INVALID_DATA; }
// the image that is saved
static int SAVES, SW, SH, SC, TYPES; static std::string SCH[MAXC]; static float SPIX[MAXC][MAXP];
extern "C" {
void InitEXRHeader(EXRHeader* h) { std::memset(h, 0, sizeof *h); }
void InitEXRImage(EXRImage* i) { i->tiles = NULL; i->next_level = NULL; i->images = NULL; i->width = i->height = i->num_channels = i->num_tiles = 0; }
int ParseEXRVersionFromMemory(EXRVersion* v, const unsigned char* m, size_t n) { v->version = 2; return FAILS == 1 || !whole(m, n) ? TINYEXR_ERROR_INVALID_DATA : TINYEXR_SUCCESS; }
int ParseEXRHeaderFromMemory(EXRHeader* h, const EXRVersion*, const unsigned char* m, size_t n, const char** err) {
  if (FAILS == 2 || !whole(m, n)) return failure(err);
  h->num_channels = NC; h->channels = (EXRChannelInfo*)malloc(sizeof(EXRChannelInfo) * NC); h->requested_pixel_types = (int*)malloc(sizeof(int) * NC);
  for (int k = 0; k < NC; ++k) { strcpy(h->channels[k].name, NAME[k]); h->requested_pixel_types[k] = TINYEXR_PIXELTYPE_HALF; } return TINYEXR_SUCCESS;
}
int LoadEXRImageFromMemory(EXRImage* i, const EXRHeader* h, const unsigned char* m, const size_t n, const char** err) {
  if (FAILS == 3 || !whole(m, n)) return failure(err);
  for (int k = 0; k < NC; ++k) if (h->requested_pixel_types[k] != TINYEXR_PIXELTYPE_FLOAT) TYPES = 1;
  i->width = W; i->height = H; i->num_channels = NC; i->images = (unsigned char**)malloc(sizeof(unsigned char*) * NC);
  for (int k = 0; k < NC; ++k) { float* p = (float*)malloc(sizeof(float) * W * H); for (int j = 0; j < W * H; ++j) p[j] = PIX[k][j]; i->images[k] = (unsigned char*)p; } return TINYEXR_SUCCESS;
}
int FreeEXRHeader(EXRHeader* h) { free(h->channels); free(h->requested_pixel_types); return TINYEXR_SUCCESS; }
int FreeEXRImage(EXRImage* i) { for (int k = 0; k < i->num_channels; ++k) free(i->images[k]); free(i->images); return TINYEXR_SUCCESS; }
static int saved(const EXRImage* i, const EXRHeader* h, const char** err) {
  ++SAVES; SW = i->width; SH = i->height; SC = i->num_channels; TYPES = h->num_channels != SC;
  for (int k = 0; k < SC; ++k) { SCH[k] = h->channels[k].name; if (h->pixel_types[k] != TINYEXR_PIXELTYPE_FLOAT || h->requested_pixel_types[k] != TINYEXR_PIXELTYPE_FLOAT) TYPES = 1; for (int j = 0; j < SW * SH; ++j) SPIX[k][j] = ((float**)i->images)[k][j]; }
  return FAILS == 4 ? failure(err) : TINYEXR_SUCCESS;
}
size_t SaveEXRImageToMemory(const EXRImage* i, const EXRHeader* h, unsigned char** m, const char** err) {
  if (saved(i, h, err) != TINYEXR_SUCCESS) return 0;
  *m = (unsigned char*)malloc(BYTES.size()); std::memcpy(*m, BYTES.data(), BYTES.size()); return BYTES.size();
}
int SaveEXRImageToFile(const EXRImage* i, const EXRHeader* h, const char* name, const char** err) { // the end of its output is not checked by TinyEXR
  std::ofstream f(name, std::ios::binary); if (!f) return TINYEXR_ERROR_CANT_WRITE_FILE; const int r = saved(i, h, err); if (r == TINYEXR_SUCCESS) f << BYTES; return r;
}
}
CONTRACT_BOUNDED(P34_exr_load, "images of up to 2x2 pixels, channels in several orders, bytes of a few values; up to 4 bytes") {
  FAILS = 0; TYPES = 0; W = vc_upto("width", 1, 2, 2); H = vc_upto("height", 1, 2, 2); const int o = vc_enum_in("channels", 0, 3); NC = o == 2 ? 4 : 3; for (int k = 0; k < NC; ++k) NAME[k] = ORDER[o][k];
  double want[MAXC][MAXP]; for (int k = 0; k < NC; ++k) for (int j = 0; j < W * H; ++j) { const float f = (float)vc_real("pixel"); PIX[k][j] = f; want[k][j] = f; }
  static const char CH[4] = {'\0', '\xff', '\n', 'v'}; const int nb = vc_enum_in("bytes", 0, 4); BYTES.clear(); for (int b = 0; b < nb; ++b) BYTES += CH[vc_enum_in("byte", 0, 3)];
  std::stringstream f(BYTES); int w = -1, h = -1; double* d = NULL; const bool r = t_EXR_IO<double>::LoadEXR(f, w, h, d); vc_check(r, "an image is loaded"); if (!r) return;
  vc_check(w == W && h == H, "size of the image"); vc_check(!TYPES, "channels are asked for as floating-point numbers");
  for (int k = 0; k < NC; ++k) for (int j = 0; j < W * H; ++j) { const int c = NAME[k][0] == 'R' ? 0 : NAME[k][0] == 'G' ? 1 : NAME[k][0] == 'B' ? 2 : -1; if (c >= 0) vc_check_same(d[3 * j + c], want[k][j], "a pixel has the values of its channels, red first"); }
  delete[] d;
}
CONTRACT(P34_exr_refused) { // at whichever step the library refuses
  FAILS = vc_enum_in("step", 1, 3); TYPES = 0; W = H = 1; NC = 3; for (int k = 0; k < NC; ++k) { NAME[k] = ORDER[0][k]; PIX[k][0] = 0; } BYTES = "EXR"; std::stringstream f(BYTES); int w = -1, h = -1; double* d = NULL; vc_check(!t_EXR_IO<double>::LoadEXR(f, w, h, d), "a file that the library refuses is no image");
}
CONTRACT_BOUNDED(P34_exr_save, "images of up to 2x2 pixels") {
  FAILS = vc_enum_in("fails", 0, 1) ? 4 : 0; SAVES = 0; BYTES = "v/1"; const int w = vc_upto("width", 1, 2, 2), h = vc_upto("height", 1, 2, 2); double d[3 * MAXP]; for (int j = 0; j < 3 * w * h; ++j) d[j] = (float)vc_real("value");
  const bool r = t_EXR_IO<double>::SaveEXR("x.exr", w, h, d); vc_check(r == (FAILS == 0), "a save is reported as such, and only then"); vc_check(SAVES == 1 && SW == w && SH == h && SC == 3, "the image is written once with its size"); vc_check(!TYPES, "channels are written as floating-point numbers");
  for (int k = 0; k < SC; ++k) { const int c = SCH[k] == "R" ? 0 : SCH[k] == "G" ? 1 : SCH[k] == "B" ? 2 : -1; vc_check(c == 2 - k, "channels are named, in the order of their names"); if (c >= 0) for (int j = 0; j < w * h; ++j) vc_check_same(SPIX[k][j], d[3 * j + c], "a channel has the values of the pixels"); }
  if (!FAILS) { std::ifstream f("x.exr", std::ios::binary); vc_check(f.is_open(), "the file has the name that was given"); std::string b; f >> b; vc_check(b == BYTES, "the file has the bytes of the library"); }
}
CONTRACT(P35_exr) { // an image of one pixel
  FAILS = 0; BYTES = "v/1 and more"; double d[3]; for (int j = 0; j < 3; ++j) d[j] = vc_real("value"); outputs([&](const char* o) { return t_EXR_IO<double>::SaveEXR(o, 1, 1, d); });
}
