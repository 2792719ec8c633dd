// Contract language: the same text is executed symbolically (all inputs) by vf/ and
// compiled natively against the real code to replay counterexamples.
#pragma once
#include <functional>
extern "C" {
double vf_real(const char* name, double lo, double hi);   // any real; lo/hi only steer replay sampling
int vf_int(const char* name, int lo, int hi);
int vf_choose(const char* name, int n);                    // any of 0..n-1, enumerated
int vf_bool(const char* name);
void vf_assume(bool c);
void vf_assert(bool c, const char* name);
void vf_assert_eq(double a, double b, const char* name);
void vf_assert_eq_tol(double a, double b, const char* name, double reltol); // reltol: replay only
void vf_cover(const char* name);
int vf_symbolic();
void vf_stop();
void vf_no_split();                         // absolute values stay terms instead of splitting the path
void vf_debug(const char* n, double x);
void vf_debug_facts();
int vf_same_int(unsigned long a, unsigned long b);
int vf_same_real(double a, double b);   // syntactically the same value
double vf_uf1(const char* n, double a);
double vf_uf2(const char* n, double a, double b);
double vf_uf3(const char* n, double a, double b, double c);
double vf_uf4(const char* n, double a, double b, double c, double d);
double vf_integral_p(double lo, double hi, const std::function<double(double)>* f);
}
static inline double vf_integral(double lo, double hi, const std::function<double(double)>& f)
{ return vf_integral_p(lo, hi, &f); }
#define VF_CONTRACT(name) extern "C" void vfc_##name()
