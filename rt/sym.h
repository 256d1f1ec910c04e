// Harness interface: the same source is executed symbolically by /verif/engine and natively for replay.
#pragma once
extern "C" {
double sym_real(const char* name, double lo, double hi);              // any real in [lo,hi]
long   sym_int(const char* name, long lo, long hi);                   // any integer in [lo,hi]
double sym_dyadic(const char* name, double lo, double hi, long denom); // any multiple of 1/denom in [lo,hi]
int    sym_bool(const char* name);
int    sym_choice(const char* name, int n);                           // forks on 0..n-1
void   sym_assume(int c);
void   sym_check(int c, const char* id);                              // the property assertion
void   sym_check_close(double a, double b, double tol, const char* id);
void   sym_reach(const char* id);                                     // vacuity witness
void   sym_observe_real(const char* id, double v);
void   sym_observe_int(const char* id, long v);
void   sym_allow_abort(void);                                         // assert/abort from here on is accepted behaviour
int    sym_is_symbolic(void);
}
#define ENTRY extern "C" void
