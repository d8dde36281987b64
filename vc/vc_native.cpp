// Native driver for the contracts: replays counterexamples and searches for
// failing inputs on the real code (real libstdc++, real libm, doubles).
#include "vc.h"
#include <map>
#include <string>
#include <vector>
#include <random>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <unistd.h>
struct contract { const char* name; void (*f)(); };
static std::vector<contract>& regs() { static std::vector<contract> r; return r; }
vc_reg::vc_reg(const char* n, void (*f)()) { contract c = {n, f}; regs().push_back(c); }
namespace {
struct reject {};
std::map<std::string, double> fixed;            // replayed values
std::map<std::string, double> used;             // values used in this run
std::vector<std::string> order;
std::map<std::string, int> names;
bool replay = false, allow_abort = false;
std::mt19937_64 rng;
int nfail = 0, nchecks = 0; char failmsg[1024];
FILE* out = 0;
// derivative machinery
enum { CHECK, COLLECT, RECORD } mode = CHECK;
int dcall = 0; std::vector<std::string> dvars; std::vector<double> drec, dres;
sigjmp_buf jb; volatile bool jarmed = false;
double U() { return std::uniform_real_distribution<double>(0, 1)(rng); }
std::string uniq(const char* n) {
  int k = names[n]++; if (!k) return n; return std::string(n) + "#" + std::to_string(k);
}
double get(const std::string& n, double fresh) {
  std::map<std::string, double>::iterator it = fixed.find(n);
  double v = it != fixed.end() ? it->second : fresh;
  if (!used.count(n)) order.push_back(n);
  used[n] = v; return v;
}
double H(const char* s, int k) {
  unsigned long long h = 1469598103934665603ULL; char b[32]; 
  for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ULL; }
  snprintf(b, sizeof b, "|%d", k);
  for (char* p = b; *p; ++p) { h ^= (unsigned char)*p; h *= 1099511628211ULL; }
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
  return (double)(h >> 16) / 281474976710656.0;
}
bool haslast; double last[3];
double fresh_real(double lo, double hi) {
  double r = U(); int k = rng() % 24;
  if (k == 0) return lo; if (k == 1) return hi; if (k == 2 && lo <= 0 && 0 <= hi) return 0;
  if (k == 3) return lo + (hi - lo) * std::round(r * 4) / 4;
  double e = (hi - lo) * std::pow(10.0, -4 * U());
  if (k == 7 && lo > 0 && hi > 100 * lo) return lo * std::pow(hi / lo, U());
  if (k == 4) return lo + e; if (k == 5) return hi - e;
  if (k == 6 && lo < 0 && 0 < hi) return std::min(hi, std::max(lo, rng() % 2 ? e : -e));
  return lo + r * (hi - lo);
}
void dump() {
  for (size_t i = 0; i < order.size(); ++i) fprintf(out, "INPUT %s %.17g\n", order[i].c_str(), used[order[i]]);
  fflush(out);
}
void fail(const char* what, const char* fmt, double a, double b) {
  nchecks++;
  if (mode != CHECK) return;
  if (!nfail++) { char t[512]; snprintf(t, sizeof t, fmt, a, b); snprintf(failmsg, sizeof failmsg, "%s: %s", what, t); }
}
}
extern "C" {
double vc_real(const char* n0) {
  std::string n = uniq(n0); std::normal_distribution<double> N(0, 1.5); double v = N(rng);
  int k = rng() % 12; if (k == 0) v = std::round(v); if (k == 1) v = U();
  return get(n, v);
}
double vc_real_in(const char* n0, double lo, double hi) {
  std::string n = uniq(n0); double v = get(n, fresh_real(lo, hi)); if (!(v >= lo && v <= hi) && mode == CHECK) throw reject(); return v;
}
double vc_real_above(const char* n0, double lo) {
  std::string n = uniq(n0); std::normal_distribution<double> N(0, 1.5); double r = std::fabs(N(rng));
  int k = rng() % 12; if (k == 0) r = std::round(r); if (k == 1) r = U(); if (k == 2) r *= std::pow(10.0, -4 * U()); if (!(r > 0)) r = 1;
  double v = get(n, lo + r); if (!(v > lo)) throw reject(); return v;
}
int vc_int_in(const char* n0, int lo, int hi) {
  std::string n = uniq(n0); if (hi < lo) throw reject();
  int v; if (hi - (long)lo > 50) { int k = rng() % 4; v = k == 0 ? hi - (int)(rng() % 20) : k == 1 ? lo + (int)(rng() % 20) : lo + (int)(rng() % ((unsigned long)(hi - (long)lo) + 1)); }
  else v = lo + (int)(rng() % (hi - lo + 1));
  v = (int)get(n, v); if (v < lo || v > hi) throw reject(); return v;
}
int vc_size_in(const char* n0, int lo, int hi) {
  std::string n = uniq(n0); int h = hi < lo + 5 ? hi : lo + 5; int v = lo + (int)(rng() % (h - lo + 1)); v = (int)get(n, v);
  if (v < lo || v > hi) throw reject(); return v;
}
int vc_upto(const char* n0, int lo, int hi, int more) {
  std::string n = uniq(n0); int v = lo + (int)(rng() % (hi - lo + 1));
  if (rng() % 3 == 0) v = hi + (int)((more - hi) * std::pow(10.0, -3 * U()));
  v = (int)get(n, v); if (v < lo || v > more) throw reject(); return v;
}
int vc_enum_in(const char* n, int lo, int hi) { return vc_int_in(n, lo, hi); }
int vc_bool(const char* n) { return vc_int_in(n, 0, 1); }
void vc_unit3(const char* n0, double* o) {
  std::string n = uniq(n0); std::normal_distribution<double> N(0, 1); double v[3], s;
  do { for (int i = 0; i < 3; ++i) v[i] = N(rng);
    int k = rng() % 16; double e = std::pow(10.0, -4 * U()); // towards the normal, the coordinate planes, the horizon
    if (k < 2) v[0] *= e; if (k == 0 || k == 2) v[1] *= e; if (k == 3) v[2] *= e;
    s = std::sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]); } while (s < 1e-3);
  if (haslast && rng() % 16 == 0) { // close to the previous direction
    const double sg = rng() % 4 ? 1 : -1;     // or opposite to it
    double e = std::pow(10.0, -1 - 3 * U()) / s; for (int i = 0; i < 3; ++i) v[i] = sg * last[i] + e * v[i];
    s = std::sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]);
  }
  haslast = true;
  o[0] = get(n + ".x", v[0]/s); o[1] = get(n + ".y", v[1]/s); o[2] = get(n + ".z", v[2]/s);
  s = std::sqrt(o[0]*o[0]+o[1]*o[1]+o[2]*o[2]); if (!(s > 0.5 && s < 2)) throw reject();
  for (int i = 0; i < 3; ++i) last[i] = o[i] /= s;
}
void vc_array(const char* n0, double* p, long n) {
  std::string b = uniq(n0); std::normal_distribution<double> N(0, 1.5);
  if (n > 4096) { // large: contents made from one seed, replayed elements on top
    unsigned long long h = (unsigned long long)get(b + ".seed", (double)(rng() % 1000000)) * 0x9E3779B97F4A7C15ULL + 1;
    for (long i = 0; i < n; ++i) { h ^= h << 13; h ^= h >> 7; h ^= h << 17; p[i] = (double)(h >> 40) / 4194304.0 - 1.0; }
    for (std::map<std::string, double>::iterator it = fixed.lower_bound(b + "["); it != fixed.end() && it->first.compare(0, b.size() + 1, b + "[") == 0; ++it) { long i = atol(it->first.c_str() + b.size() + 1); if (i >= 0 && i < n) p[i] = it->second; }
    return;
  }
  for (long i = 0; i < n; ++i) p[i] = get(b + "[" + std::to_string(i) + "]", N(rng));
}
double vc_uf(const char* n, int k, const double* a) {
  double t = H(n, 77) * 3; for (int i = 0; i < k; ++i) t += (0.3 + H(n, i + 1)) * a[i]; return 1.2 + std::sin(t);
}
double vc_arr(const char* n, long i) {
  std::string b = std::string(n) + "[" + std::to_string(i) + "]";
  if (used.count(b)) return used[b];
  double v = std::sin((double)i * 12.9898 + H(n, 0) * 7.0) * 43758.5453; v -= std::floor(v); return n[0] == '+' ? v : v * 4 - 2;
}
void vc_assume(bool c) { if (!c && mode == CHECK) throw reject(); if (!c) throw reject(); }
void vc_check(bool c, const char* w) { if (!c) fail(w, "does not hold", 0, 0); else nchecks++; }
static double tol = 1e-6, tolx = 1;
void vc_check_eq(double a, double b, const char* w) {
  if (!std::isfinite(b)) return;
  double t = tol * tolx;
  if (!std::isfinite(a) || std::fabs(a - b) > t * (1 + std::fabs(a) + std::fabs(b))) fail(w, "code gives %.17g, contract requires %.17g", a, b); else nchecks++;
}
void vc_check_same(double a, double b, const char* w) { if (a != b && (a == a || b == b)) fail(w, "code gives %.17g, contract requires exactly %.17g", a, b); else nchecks++; }
void vc_check_ieq(long a, long b, const char* w) { if (a != b) fail(w, "code gives %.0f, contract requires %.0f", a, b); else nchecks++; }
void vc_check_le(double a, double b, const char* w) { if (!(a <= b + tol * tolx * (1 + std::fabs(a) + std::fabs(b)))) fail(w, "%.17g <= %.17g violated", a, b); else nchecks++; }
void vc_check_lt(double a, double b, const char* w) { if (!(a < b + tol * tolx * (1 + std::fabs(a) + std::fabs(b)))) fail(w, "%.17g < %.17g violated", a, b); else nchecks++; }
void vc_cover(const char*) {}
double vc_deriv(double value, double var) {
  int i = dcall++;
  if (mode == COLLECT) {
    std::string nm; int hits = 0; for (size_t k = 0; k < order.size(); ++k) if (used[order[k]] == var) { nm = order[k]; ++hits; }
    if (hits != 1) nm.clear();          // cannot tell the inputs apart: no derivative
    dvars.push_back(nm); return 0;
  }
  if (mode == RECORD) { drec.push_back(value); return 0; }
  return i < (int)dres.size() ? dres[i] : NAN;
}
int vc_symbolic() { return 0; }
void vc_defined(bool) {}
void vc_rounding(double t) { tol = t; }
void vc_allow_abort(bool b) { allow_abort = b; }
void __real_exit(int);
void __wrap_exit(int c) {
  if (jarmed) { if (allow_abort) { jarmed = false; siglongjmp(jb, 1); } snprintf(failmsg, sizeof failmsg, "process exit(%d)", c); jarmed = false; siglongjmp(jb, 2); }
  __real_exit(c);
}
void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
}
static char assertmsg[400];
extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char*) {
  snprintf(assertmsg, sizeof assertmsg, "assertion `%s' failed (%s:%u)", e, f, l); raise(SIGABRT); _exit(98);
}
static void on_abrt(int s) {
  if (jarmed) {
    jarmed = false; snprintf(failmsg, sizeof failmsg, "%s%s", s == SIGABRT ? "abort " : s == SIGSEGV ? "segmentation fault " : "fatal signal ", assertmsg);
    siglongjmp(jb, allow_abort && s == SIGABRT ? 1 : 2);
  }
  _exit(97);
}
static void on_death() { fprintf(out, "VCFAIL memory error reported by AddressSanitizer\n"); dump(); }
static int once(void (*f)()) {     // 0 ok, 1 rejected, 2 aborted, 3 uncaught exception
  used.clear(); haslast = false; order.clear(); names.clear(); allow_abort = false; dcall = 0; assertmsg[0] = 0; 
  int j = sigsetjmp(jb, 1);
  if (j) return j;
  jarmed = true;
  try { f(); jarmed = false; return 0; }
  catch (reject&) { jarmed = false; return 1; }
  catch (...) { jarmed = false; if (allow_abort) return 1; snprintf(failmsg, sizeof failmsg, "uncaught exception"); return 3; }
}
static bool trial(void (*f)()) {   // true: a failure was found (failmsg, used)
  nfail = 0; nchecks = 0; dvars.clear(); dres.clear();
  std::map<std::string, double> keep = fixed; 
  unsigned long s = rng();
  rng.seed(s); mode = COLLECT; int r = once(f);
  if (r == 1) return false;
  if (r >= 2) { mode = CHECK; return true; }
  std::map<std::string, double> in = used; std::vector<std::string> vars = dvars;
  if (!vars.empty()) {
    size_t nd = vars.size(); dres.assign(nd, NAN);
    std::map<std::string, int> uniqv; for (size_t i = 0; i < nd; ++i) if (!vars[i].empty()) uniqv[vars[i]] = 1;
    for (std::map<std::string, int>::iterator v = uniqv.begin(); v != uniqv.end(); ++v) {
      double h0 = 1e-4 * std::max(0.05, std::fabs(in[v->first])); std::vector<double> val[7]; bool ok = true;
      double st[7] = {-2, -1, -0.5, 0.5, 1, 2, 0};
      for (int k = 0; k < 7 && ok; ++k) {
        fixed = in; fixed[v->first] = in[v->first] + st[k] * h0; drec.clear(); mode = RECORD; rng.seed(s);
        if (once(f) != 0 || drec.size() != nd) ok = false; val[k] = drec;
      }
      if (ok) for (size_t i = 0; i < nd; ++i) if (vars[i] == v->first) {
        double d1 = (val[4][i] - val[1][i]) / (2 * h0), d2 = (val[3][i] - val[2][i]) / h0, d4 = (val[5][i] - val[0][i]) / (4 * h0);
        double e1 = (4 * d2 - d1) / 3, e2 = (4 * d1 - d4) / 3;
        double sc = 1e-6 * (1 + std::fabs(e1));
        // no derivative at a kink: the difference of the one-sided slopes must vanish with the step
        double k1 = (val[4][i] + val[1][i] - 2 * val[6][i]) / h0, k2 = (val[3][i] + val[2][i] - 2 * val[6][i]) / (0.5 * h0);
        const bool precise = 1e-15 * std::fabs(val[6][i]) / h0 < sc;     // else rounding drowns the difference
        dres[i] = precise && std::fabs(e1 - e2) < sc && std::fabs(k2 - 0.5 * k1) < 1e-5 * (1 + std::fabs(e1)) ? e1 : NAN;
      }
    }
  }
  fixed = in; rng.seed(s); mode = CHECK; tol = vars.empty() ? 1e-6 : 1e-4;
  r = once(f);
  fixed = keep; rng.seed(s + 1);
  if (r >= 2) return true;
  return r == 0 && nfail > 0;
}
int main(int argc, char** argv) {
  const char* name = argc > 1 ? argv[1] : "list";
  int fd = dup(1); out = fdopen(fd, "w");
  int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
  if (getenv("VC_DEBUG")) dup2(fd, 2);
  if (!strcmp(name, "list")) { for (size_t i = 0; i < regs().size(); ++i) fprintf(out, "%s\n", regs()[i].name); fflush(out); _exit(0); }
  void (*f)() = 0; for (size_t i = 0; i < regs().size(); ++i) if (!strcmp(regs()[i].name, name)) f = regs()[i].f;
  if (!f) { fprintf(out, "NOCONTRACT\n"); fflush(out); _exit(5); }
  signal(SIGABRT, on_abrt); signal(SIGSEGV, on_abrt); signal(SIGFPE, on_abrt); signal(SIGBUS, on_abrt);
  std::set_terminate([]() { raise(SIGABRT); _exit(96); });
  if (__asan_set_death_callback) __asan_set_death_callback(on_death);
  const char* m = argc > 2 ? argv[2] : "random"; bool bad = false; long done = 0;
  if (!strcmp(m, "replay")) {
    FILE* g = fopen(argv[3], "r"); char k[256]; double v; char line[512];
    while (g && fgets(line, sizeof line, g)) if (sscanf(line, "INPUT %255s %lf", k, &v) == 2) fixed[k] = v;
    rng.seed(1); bad = trial(f); done = 1;
  } else {
    unsigned long seed = argc > 3 ? strtoul(argv[3], 0, 10) : 1; long it = argc > 4 ? atol(argv[4]) : 1000; double secs = argc > 5 ? atof(argv[5]) : 10;
    if (argc > 6) tolx = atof(argv[6]);
    rng.seed(seed * 7919 + 13); time_t t0 = time(0);
    for (long i = 0; i < it && !bad && difftime(time(0), t0) < secs; ++i) { bad = trial(f); if (nchecks) ++done; }
  }
  if (bad) { fprintf(out, "VCFAIL %s\n", failmsg); dump(); _exit(1); }
  fprintf(out, "VCPASS %ld\n", done); fflush(out); _exit(0);
}
