// Contract language.  Under clang -> LLVM IR these are the verifier's
// primitives; compiled natively with vc_native.cpp they read concrete values
// (replay of a counterexample, or random search) and evaluate the same contract
// on the real code.
//   vc_check_eq(actual, expected, what): the value computed by the code first.
#pragma once
extern "C" {
double vc_real(const char* name);                          // any real
double vc_real_in(const char* name, double lo, double hi);
double vc_real_above(const char* name, double lo);         // any real > lo
int    vc_int_in(const char* name, int lo, int hi);        // symbolic integer
int    vc_size_in(const char* name, int lo, int hi);       // symbolic size (sampled small)
int    vc_enum_in(const char* name, int lo, int hi);       // finite domain: complete case split
int    vc_upto(const char* name, int lo, int hi, int more); // finite domain lo..hi under the verifier, natively also sizes up to `more'
int    vc_bool(const char* name);                          // idem {0,1}
void   vc_unit3(const char* name, double* out);            // any unit vector
void   vc_array(const char* name, double* p, long n);      // arbitrary contents
double vc_uf(const char* name, int n, const double* args); // arbitrary smooth function of its arguments (contract of an abstract callee)
double vc_arr(const char* name, long i);                   // element i of the array `name'
void   vc_assume(bool);
void   vc_check(bool, const char* what);
void   vc_check_eq(double actual, double expected, const char* what);
void   vc_check_same(double actual, double expected, const char* what); // the very same number, no rounding
void   vc_check_ieq(long, long, const char* what);
void   vc_check_le(double, double, const char* what);
void   vc_check_lt(double, double, const char* what);
void   vc_cover(const char* what);
double vc_deriv(double value, double var);                 // partial derivative of value wrt the input var
int    vc_symbolic();                                      // 1 under the verifier, 0 natively
void   vc_defined(bool);                                   // also oblige definedness (divisors, radicands, acos arguments)
void   vc_allow_abort(bool);                               // an abort/exit on this path is an accepted outcome
void   vc_rounding(double);                                // tolerance of native runs where the code computes in single precision (no effect on proofs)
double vc_poly(const char* name);                          // reserved
}
#define REQUIRES(c) vc_assume(c)
#define ENSURES(c, what) vc_check((c), what)
#ifdef VC_NATIVE
struct vc_reg { vc_reg(const char* n, void (*f)()); };
#define CONTRACT(name) extern "C" void vc_contract_##name(); static vc_reg vc_r_##name(#name, vc_contract_##name); extern "C" void vc_contract_##name()
#else
#define CONTRACT(name) extern "C" void vc_contract_##name()
#endif
// a contract whose quantification is cut at a stated bound: reported as bounded, never as proved
#define CONTRACT_BOUNDED(name, bound) CONTRACT(name)
