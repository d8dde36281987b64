// vc-sources: sources/core/params.cpp sources/core/common.cpp
// Names, identifiers and dimensions of the parametrizations.
#include "vc.h"
#include <core/params.h>
#include <string>
using namespace alta;
static const struct { params::input p; const char* name; int dim; } T[] = {
#define E(n, d) {params::n, #n, d},
  E(RUSIN_TH_PH_TD_PD, 4) E(RUSIN_TH_PH_TD, 3) E(RUSIN_TH_TD_PD, 3) E(RUSIN_TH_TD, 2) E(RUSIN_VH, 3) E(COS_TH_TD, 2) E(COS_TH, 1) E(SCHLICK_VK, 3)
  E(SCHLICK_TL_TK_PROJ_DPHI, 3) E(COS_TK, 1) E(RETRO_TL_TVL_PROJ_DPHI, 3) E(STEREOGRAPHIC, 4) E(SPHERICAL_TL_PL_TV_PV, 4) E(COS_TLV, 1) E(COS_TLR, 1)
  E(ISOTROPIC_TV_TL_DPHI, 3) E(ISOTROPIC_TV_PROJ_DPHI, 2) E(ISOTROPIC_TL_TV_PROJ_DPHI, 3) E(STARK_2D, 2) E(STARK_3D, 3) E(NEUMANN_2D, 2) E(NEUMANN_3D, 3) E(CARTESIAN, 6)
#undef E
};
static const int N = sizeof(T)/sizeof(T[0]);
CONTRACT(P03_inputs) {
  for (int i = 0; i < N; ++i) {
    vc_check(params::get_name(T[i].p) == T[i].name, "every input parametrization has its own name");
    vc_check(params::parse_input(T[i].name) == T[i].p, "parsing the name of an input parametrization gives it back");
    vc_check_ieq(params::dimension(T[i].p), T[i].dim, "dimension of the input parametrization");
  }
}
// every identifier without a name of its own is the unknown parametrization
CONTRACT(P03_other_inputs) {
  const int k = vc_enum_in("input", 0, (int)params::UNKNOWN_INPUT);
  const params::input p = (params::input)k;
  bool known = false;
  for (int i = 0; i < N; ++i) if (T[i].p == p) known = true;
  if (known) { vc_check(params::parse_input(params::get_name(p)) == p, "names and identifiers are inverse of each other"); vc_check(params::dimension(p) > 0, "a supported parametrization has coordinates"); }
  else { vc_check(params::get_name(p) == "UNKNOWN_INPUT", "unsupported parametrizations have no name"); vc_check_ieq(params::dimension(p), -1, "unsupported parametrizations have no dimension"); }
}
CONTRACT(P03_unknown_inputs) {
  vc_check(params::parse_input("UNKNOWN_INPUT") == params::UNKNOWN_INPUT, "unknown names parse to the unknown parametrization");
  vc_check(params::parse_input("") == params::UNKNOWN_INPUT, "unknown names parse to the unknown parametrization");
  for (int i = 0; i < N; ++i) {
    vc_check(params::parse_input(std::string(T[i].name) + "_") == params::UNKNOWN_INPUT, "a longer name is not a name");
    vc_check(params::parse_input(std::string(" ") + T[i].name) == params::UNKNOWN_INPUT, "a longer name is not a name");
  }
}
static const struct { params::output p; const char* name; int dim; bool cosine; } O[] = {
  {params::INV_STERADIAN, "INV_STERADIAN", 1, false}, {params::INV_STERADIAN_COSINE_FACTOR, "INV_STERADIAN_COSINE_FACTOR", 1, true}, {params::ENERGY, "ENERGY", 1, false},
  {params::RGB_COLOR, "RGB_COLOR", 3, false}, {params::XYZ_COLOR, "XYZ_COLOR", 3, false}};
CONTRACT(P03_outputs) {
  const int i = vc_enum_in("output", 0, 4);
  vc_check(params::get_name(O[i].p) == O[i].name, "every output parametrization has its own name");
  vc_check(params::parse_output(O[i].name) == O[i].p, "parsing the name of an output parametrization gives it back");
  vc_check_ieq(params::dimension(O[i].p), O[i].dim, "dimension of the output parametrization");
  vc_check(params::is_cosine_weighted(O[i].p) == O[i].cosine, "only the cosine-weighted output carries the cosine");
  vc_check(params::parse_output(std::string(O[i].name) + "_") == params::UNKNOWN_OUTPUT, "unknown names parse to the unknown parametrization");
}
CONTRACT(P03_unknown_outputs) {
  vc_check(params::get_name(params::UNKNOWN_OUTPUT) == "UNKNOWN_OUTPUT", "the unknown parametrization has its own name");
  vc_check(params::parse_output("UNKNOWN_OUTPUT") == params::UNKNOWN_OUTPUT, "unknown names parse to the unknown parametrization");
  vc_check(params::parse_output("") == params::UNKNOWN_OUTPUT, "unknown names parse to the unknown parametrization");
}
// a supported name with one character replaced by any other is the name it then spells, or unknown
CONTRACT(P03_changed_names) {
  const int i = vc_enum_in("name", 0, N - 1);
  const int k = vc_enum_in("position", 0, 22);
  std::string s(T[i].name);
  vc_assume(k < (int)s.size());
  const int c = vc_int_in("character", 1, 255);
  s[k] = (char)c;
  params::input want = params::UNKNOWN_INPUT;
  for (int j = 0; j < N; ++j) if (s == T[j].name) want = T[j].p;
  vc_check(params::parse_input(s) == want, "a name differing in one character is another parametrization or unknown");
}
