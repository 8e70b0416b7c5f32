// Harness interface. The same harness source is compiled to LLVM bitcode (where these
// calls are handled by the symbolic executor) and natively (vp_native.cpp) for replay.
#pragma once
extern "C" {
double vp_real(const char*name,double lo,double hi);   // symbolic real in [lo,hi]
int    vp_choice(const char*name,int n);                // symbolic integer in 0..n-1 (one path each)
void   vp_assume(bool c);
void   vp_assert(bool c,const char*label);
void   vp_assert_eq(double a,double b,double tol,const char*label); // |a-b| <= tol
void   vp_assert_le(double a,double b,double tol,const char*label); // a <= b+tol
void   vp_reach(const char*label);                      // reachability witness
void   vp_observe(const char*name,double v);            // compared with the native run
int    vp_tier();                                       // 0 quick, 1 thorough
int    vp_symbolic();
double vp_fresh(const char*name);                       // unconstrained real (abstraction); 0 natively
int    vp_same(double a,double b);                      // syntactically identical terms / equal natively
int    vp_finite(double a);
double vp_name(double a);
void   vp_thread_order(int T,int k);
void   vp_trace(const char*name,double v);
void   vp_end();
void   vp_havoc_loops(int on);                          // abstract iterations of convergence loops
void   vp_wrote(void*stream,int id);                  // marks the file behind an output stream
int    vp_file_count(const char*name);                  // numbers written to a file, -1 if it does not exist
double vp_file_value(const char*name,int i);
}
