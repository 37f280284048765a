// Harness interface. The same harness is (1) lowered to LLVM IR and executed symbolically, where every
// vp_real/vp_unit/vp_int is a solver variable, and (2) compiled natively to replay a counterexample.
#ifndef VP_H
#define VP_H
#include <cstddef>
extern "C" {
  double vp_real(char const * name, double lo, double hi);          // any real in [lo, hi]
  void   vp_unit(char const * name, int n, double * out);           // any point of the unit sphere of R^n
  double vp_angle(char const * name);                               // any angle in (-pi, pi]
  void   vp_know_atan2(double y, double x, double theta);           // checked hint: atan2(y, x) == theta
  int    vp_int(char const * name, int lo, int hi);                 // any int in [lo, hi]
  int    vp_choice(char const * name, int n);                       // structural choice 0..n-1
  void   vp_assume(bool c);
  void   vp_assert(bool c, char const * label);
  void   vp_eq(double a, double b, char const * label);             // exact over the reals; 1e-6 relative natively
  void   vp_le(double a, double b, char const * label);
  void   vp_lt(double a, double b, char const * label);
  void   vp_reach(char const * label);                              // reachability witness
  void   vp_fail(char const * label);
  double vp_rat(long p, long q);                                    // exact rational p/q
  int    vp_sym(void);                                              // 1 when executed symbolically
  void   vp_size_cut(int n);                                        // products of more than n terms get a name of their own (engine knob)
  void   vp_ite_mode(int on);                                       // select of reals: 1 = if-then-else term, 0 = fork
  void   vp_token_real(double v, char * buf, int n);                // text that parses back to v
  void   vp_token_int(int v, char * buf, int n);
  void   vp_dump(double v);
}
#endif
