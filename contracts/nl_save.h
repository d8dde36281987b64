// Saving a model and loading the file again (P20).
#pragma once
#include "nl.h"
#include <fstream>
#include <string>
// what plugins_manager::load_function does before it asks the model to read its part
inline void nl_header(std::istream& in, const function& f, const char* cmd) {
  std::string line; std::getline(in, line);
  vc_check(line == "#ALTA FUNC HEADER", "the file starts with the header of functions");
  arguments h = arguments::parse_header(in);
  std::pair<int, int> dim = h.get_pair<int>("DIM");
  vc_check_ieq(dim.first, f.parametrization().dimX(), "the number of coordinates is read back");
  vc_check_ieq(dim.second, f.parametrization().dimY(), "the number of values is read back");
  vc_check_ieq(params::parse_input(h.get_string("PARAM_IN", "UNKNOWN_INPUT")), f.parametrization().input_parametrization(), "the input parametrization is read back");
  vc_check(arguments::create_arguments(h["CMD"]).get_string("func", "") == cmd, "the name of the model is read back");
}
// f is saved and loaded into g, whose own parameters are others
inline void nl_saved(nonlinear_function& f, nonlinear_function& g, const vec& x) {
  const int n = f.nbParameters();
  vec q(n); for (int i = 0; i < n; ++i) q[i] = vc_real("p");
  f.setParameters(q);
  ((const function&)f).save("saved.func", arguments::create_arguments("--func libmodel.so"));
  std::ifstream in("saved.func");
  nl_header(in, f, "libmodel.so");
  vc_check(g.load(in), "the saved file is accepted");
  vc_check_ieq(g.nbParameters(), n, "the number of parameters is read back");
  vec r = g.parameters();
  for (int i = 0; i < n; ++i) vc_check_same(r[i], q[i], "the parameters are read back");
  vc_check_ieq(g.parametrization().input_parametrization(), f.parametrization().input_parametrization(), "the input parametrization is the same");
  vec a = f.value(x), b = g.value(x);
  vc_check_ieq(b.size(), a.size(), "both models have as many output channels");
  for (int i = 0; i < a.size(); ++i) vc_check_same(b[i], a[i], "both models return the same value");
}
