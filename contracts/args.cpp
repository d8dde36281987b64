// Command line options and configuration vectors (P19).
// vc-sources: sources/core/common.cpp
#include "vc.h"
#include <core/args.h>
#include <vector>
#include <string>
#include <cstring>
using namespace alta;
// words made of any characters (no NUL); the first one is not a dash, which starts an option
static char any(const char* name) { const int c = vc_int_in(name, 1, 127); return (char)c; }
static char* word(int n, bool value) {
  char* w = new char[n + 1]; for (int i = 0; i < n; ++i) w[i] = any("c"); w[n] = 0;
  if (value && n > 0) vc_assume(w[0] != '[' && (w[0] != '-' || (n > 1 && w[1] != '-'))); 
  return w;
}
static const char* opt(int i) { static const char* o[3] = {"--first", "--second", "--third"}; return o[i]; }
static std::string key(int i) { return std::string(opt(i)).substr(2); }
static bool same(const std::string& s, const char* w, int n) { if ((int)s.size() != n) return false; bool r = true; for (int i = 0; i < n; ++i) r = r && s[i] == w[i]; return r; }
CONTRACT_BOUNDED(P19_values, "up to 3 options, values of up to 3 arbitrary characters") {
  const int n = vc_enum_in("options", 0, 3); char* argv[8]; int argc = 0; char prog[] = "prog"; argv[argc++] = prog; int len[3]; char* val[3];
  for (int i = 0; i < n; ++i) { argv[argc++] = const_cast<char*>(opt(i)); len[i] = vc_enum_in("length", -1, 3); if (len[i] >= 0) { val[i] = word(len[i], true); argv[argc++] = val[i]; } }
  arguments a(argc, argv);
  for (int i = 0; i < 3; ++i) {
    vc_check(a.is_defined(key(i)) == (i < n), "exactly the options that were given are defined");
    if (i >= n) { vc_check(a[key(i)] == "", "an option that was not given is empty"); vc_check(a.get_string(key(i), "default") == "default", "an option that was not given has its default value"); vc_check(!a.is_vec(key(i)), "an option that was not given is not a vector"); continue; }
    if (len[i] < 0) { vc_check(a[key(i)] == "", "an option without value is empty"); continue; }
    vc_check(same(a[key(i)], val[i], len[i]), "an option has exactly the value it was given"); vc_check(same(a.get_string(key(i), "default"), val[i], len[i]), "an option has exactly the value it was given"); vc_check(!a.is_vec(key(i)), "a value without bracket is not a vector");
  }
}
CONTRACT_BOUNDED(P19_any_key, "keys and values of up to 3 arbitrary characters") { // any key, not only known ones
  const int nk = vc_enum_in("key", 1, 3), nv = vc_enum_in("length", 0, 3); char* k = new char[nk + 3]; k[0] = k[1] = '-'; for (int i = 0; i < nk; ++i) k[i + 2] = any("k"); k[nk + 2] = 0; char* v = word(nv, true);
  char prog[] = "prog"; char* argv[3] = {prog, k, v}; arguments a(3, argv); std::string kk(k + 2);
  vc_check(a.is_defined(kk), "an option that was given is defined"); vc_check(same(a[kk], v, nv), "an option has exactly the value it was given"); vc_check(!a.is_defined(kk + "x"), "exactly the options that were given are defined");
}
// several words of one bracketed vector belong to the option in front of them
CONTRACT_BOUNDED(P19_words, "vectors of up to 3 words of up to 2 arbitrary characters, between two options") {
  const int n = vc_enum_in("words", 1, 3); char* argv[8]; int argc = 0; char prog[] = "prog", o1[] = "--vec", o2[] = "--next", v2[] = "v"; argv[argc++] = prog; argv[argc++] = o1; std::string want;
  for (int i = 0; i < n; ++i) {
    const int l = vc_enum_in("length", 1, 2); char* w = new char[l + 3]; int m = 0; if (i == 0) w[m++] = '['; for (int j = 0; j < l; ++j) { w[m] = any("c"); vc_assume(w[m] != ']'); ++m; } if (i == n - 1) w[m++] = ']'; w[m] = 0;
    argv[argc++] = w; if (i) want += " "; want += w;
  }
  const int after = vc_enum_in("after", 0, 2); if (after) argv[argc++] = o2; if (after == 2) argv[argc++] = v2; arguments a(argc, argv);
  vc_check(a["vec"] == want, "a vector has all its words and nothing else"); vc_check(a.is_vec("vec"), "a bracketed value is a vector");
  vc_check(a.is_defined("next") == (after > 0), "the option after a vector is found"); vc_check(a["next"] == (after == 2 ? "v" : ""), "the option after a vector has its value");
}
static const char* NUM[4] = {"0.5", " -2", "1e3 ", "-0.125"}; static const double VAL[4] = {0.5, -2, 1000, -0.125};
static const char* INT[4] = {"7", " -3", "12 ", "0"}; static const int IVAL[4] = {7, -3, 12, 0};
static const char* STR[4] = {"a", " --opt [b]", "c d ", ""};
CONTRACT_BOUNDED(P19_vectors, "vectors of up to 3 components among four spellings") {
  const int n = vc_enum_in("n", 0, 3); std::string s = "[", si = "[", st = "["; double x[3]; int y[3]; std::string z[3];
  for (int i = 0; i < n; ++i) { const int c = vc_enum_in("component", 0, 3); if (i) { s += ","; si += ","; st += ","; } s += NUM[c]; si += INT[c]; st += STR[c]; x[i] = VAL[c]; y[i] = IVAL[c]; z[i] = STR[c]; }
  arguments a; a.update("v", s + "]"); a.update("i", si + "]"); a.update("s", st + "]"); vc_check(a.is_vec("v"), "a bracketed value is a vector");
  std::vector<double> d = a.get_vec<double>("v"); vc_check_ieq(d.size(), n, "a vector has as many components as were written"); for (int i = 0; i < n && i < (int)d.size(); ++i) vc_check_same(d[i], x[i], "the components of a vector are in order");
  std::vector<int> e = a.get_vec<int>("i"); vc_check_ieq(e.size(), n, "a vector has as many components as were written"); for (int i = 0; i < n && i < (int)e.size(); ++i) vc_check_ieq(e[i], y[i], "the components of a vector are in order");
  if (n > 0) { std::vector<std::string> w = a.get_vec("s"); vc_check_ieq(w.size(), n, "a vector has as many components as were written"); for (int i = 0; i < n && i < (int)w.size(); ++i) vc_check(w[i] == z[i], "the components of a vector are in order"); }
}
CONTRACT_BOUNDED(P19_fixed_size, "vectors of up to 3 components among four spellings, read with sizes up to 4") {
  const int n = vc_enum_in("n", 1, 3), m = vc_enum_in("size", 1, 4); std::string s = "["; double x[3];
  for (int i = 0; i < n; ++i) { const int c = vc_enum_in("component", 0, 3); if (i) s += ","; s += NUM[c]; x[i] = VAL[c]; }
  arguments a; a.update("v", s + "]"); vec v = a.get_vec("v", m, 0.75f); vc_check_ieq(v.size(), m, "a vector has the requested size");
  for (int i = 0; i < m; ++i) vc_check_same(v[i], i < n ? x[i] : 0.75, "the components of a vector are in order, missing ones have the default value");
}
CONTRACT(P19_scalars) {
  const int c = vc_enum_in("number", 0, 3), k = vc_enum_in("integer", 0, 3); arguments a; a.update("x", NUM[c]); a.update("i", INT[k]); a.update("tenth", "0.1");
  vc_check_same(a.get_double("x", 3), VAL[c], "a number is read as written"); vc_check_same(a.get_float("x", 3), VAL[c], "a number is read as written"); vc_check_ieq(a.get_int("i", 3), IVAL[k], "an integer is read as written");
  vc_check_same(a.get_double("none", 0.25), 0.25, "default value"); vc_check_same(a.get_float("none", 0.25f), 0.25, "default value"); vc_check_ieq(a.get_int("none", 9), 9, "default value"); vc_check_same(a.get_double("none"), 0, "default value"); vc_check_ieq(a.get_int("none"), 0, "default value");
  vec v = a.get_vec("tenth", 2), w = a.get_vec("none", 2, 0.5f); vc_check_ieq(v.size(), 2, "a vector has the requested size"); for (int i = 0; i < 2; ++i) { vc_check_same(v[i], 0.1, "a single number fills the vector exactly"); vc_check_same(w[i], 0.5, "default value"); }
  vc_check_same(a.get_double("tenth"), 0.1, "a number is read exactly"); a.update("p", "3 -4"); std::pair<int, int> p = a.get_pair<int>("p"); vc_check_ieq(p.first, 3, "a pair is read in order"); vc_check_ieq(p.second, -4, "a pair is read in order");
  vc_check_ieq(a.get_vec<double>("none").size(), 0, "an option that was not given has no components"); vc_check_ieq(a.get_vec("none").size(), 0, "an option that was not given has no components");
  a.update("x", "again"); vc_check(a["x"] == "again", "an updated option has its new value"); vc_check(a.is_defined("i"), "updating an option leaves the others");
}
// the description of options given by get_cmd reads back as the same options
CONTRACT_BOUNDED(P19_command, "two options with values of one word or one vector of up to 2 words") {
  static const char* V[4] = {"", "value", "-0.5", "[1, 2]"}; const int i = vc_enum_in("first", 0, 3), j = vc_enum_in("second", 0, 3);
  arguments a; a.update("alpha", V[i]); a.update("beta", V[j]); arguments b = arguments::create_arguments(a.get_cmd());
  vc_check(b["alpha"] == V[i], "the reconstructed command line gives the same options"); vc_check(b["beta"] == V[j], "the reconstructed command line gives the same options");
  vc_check(b.is_defined("alpha") && b.is_defined("beta"), "the reconstructed command line gives the same options");
}
// header lines of data files are options too
CONTRACT_BOUNDED(P19_header, "headers of 3 lines") {
  static const char* V[4] = {"1 2", "COS_TH", "", "[a, b]"}; const int i = vc_enum_in("first", 0, 3), j = vc_enum_in("second", 0, 3), w = vc_enum_in("form", 0, 3);
  std::stringstream s; if (w == 1) s << "#ALTA HEADER BEGIN\n"; s << "#KEY " << V[i] << "\n"; if (w == 2) s << "# a comment\n"; s << "#OTHER" << (w == 3 ? " \t " : " ") << V[j] << "\n"; if (w == 1) s << "#ALTA HEADER END\n"; s << "1 2 3\n#LATER 3\n";
  arguments a = arguments::parse_header(s);
  vc_check(a["KEY"] == V[i], "a header line defines its key"); vc_check(a["OTHER"] == V[j], "a header line defines its key"); vc_check(a.is_defined("KEY") && a.is_defined("OTHER"), "a header line defines its key"); vc_check(!a.is_defined("LATER") && !a.is_defined("a"), "the header ends at the first data line");
  std::string next; s >> next; vc_check(next == "1", "what follows the header is left to be read");
}
