// Harness interface.  A harness is compiled twice: once through the IR pass
// and linked with the symbolic runtime (vf_rt.cpp), once as ordinary C++ and
// linked with the replay runtime (vf_native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
// Symbolic inputs ----------------------------------------------------------
// an arbitrary finite real / double in [lo, hi]
double vf_real(const char* name, double lo, double hi);
// an arbitrary unit vector
void vf_unit(const char* name, double* xyz);
// names the value of a term: a proof hint, the result equals the argument
double vf_define(const char* name, double value);
// an arbitrary integer in [0, n); every value is explored
size_t vf_choose(const char* name, size_t n);
// the value generate_canonical returns for an engine in the given state: an
// arbitrary number in [0, 1), equal states giving equal numbers
double vf_uniform(uint64_t engine_state);
// Assumptions ----------------------------------------------------------------
void vf_assume(bool c);
void vf_assume_le(double a, double b);
void vf_assume_lt(double a, double b);
void vf_assume_eq(double a, double b);
void vf_assume_ne(double a, double b);
// Obligations ----------------------------------------------------------------
void vf_check(bool c, const char* msg);
// a == b; a counterexample must differ by more than 10*tol, replay uses
// tol*(1+|a|+|b|)
void vf_check_eq(double a, double b, const char* msg, double tol = 1e-9);
// a <= b, same tolerance convention
void vf_check_le(double a, double b, const char* msg, double tol = 1e-9);
// reachability witness: the driver requires that some path passed here
void vf_reach(const char* label);
// value compared between the encoding and the real code on sampled paths
void vf_observe(const char* name, double v);
// ends the current path without a verdict (outside the stated bound)
[[noreturn]] void vf_stop();
// bound reached: path ends and the evidence says so
[[noreturn]] void vf_bound(const char* what);
// 1 in the symbolic build
int vf_symbolic();
// when set, an abort / uncaught exception / signal on a path is a violation
// (default) or, if 0, silently ends the path
void vf_expect_no_abort(int on);
// tier: 0 quick, 1 thorough
int vf_tier();
// integer parameter given on the command line (--param k=v), else def
long vf_param(const char* name, long def);
// the harness
void vf_main();
// scratch directory, created by the driver, private to the process tree
const char* vf_scratch();
// cooperative threads (see vf_sched.cpp)
void vf_sched_begin();
void vf_sched_end();
}

#include <string>
#include <cstdio>
namespace vf {
// text whose strtod / stream extraction gives back exactly v (symbolic or not)
inline std::string text(double v) {
  char b[64];
  std::snprintf(b, sizeof b, "%.17g", v);
  return b;
}
inline double real(const char* n, double lo, double hi) { return vf_real(n, lo, hi); }
inline double real(const std::string& n, double lo, double hi) { return vf_real(n.c_str(), lo, hi); }
} // namespace vf
