// Shared pieces of the harnesses of the geometry library.
#ifndef PRIM_H
#define PRIM_H
#include "common.h"
using namespace acme;
// a placement of the local frame: one of n exact rotations and any offset
struct place
{
  mat3 r; vec3 t;
  place(int n = 3, double b = 10.0)
  {
    int k = n > 1 ? vp_choice("place", n) : 0;
    r = mat3::Identity();
    if (k == 1) {r(0,0) = r(1,1) = vp_rat(3, 5); r(0,1) = vp_rat(-4, 5); r(1,0) = vp_rat(4, 5);}
    if (k == 2)
    {
      mat3 a = mat3::Identity(), c = a;
      a(0,0) = a(1,1) = vp_rat(3, 5); a(0,1) = vp_rat(-4, 5); a(1,0) = vp_rat(4, 5);
      c(1,1) = c(2,2) = vp_rat(7, 25); c(1,2) = vp_rat(-24, 25); c(2,1) = vp_rat(24, 25);
      r = a*c;
    }
    t = b > 0 ? vp_vec("at", b) : vec3(0, 0, 0);
  }
  vec3 dir(double x, double y, double z) const {return vp_mul(r, vec3(x, y, z));}
  vec3 dir(vec3 const & v) const {return vp_mul(r, v);}
  point at(double x, double y, double z) const {return point(t + vp_mul(r, vec3(x, y, z)));}
  point at(vec3 const & v) const {return point(t + vp_mul(r, v));}
};
// a number is not in the open band (lo, hi), where tolerances decide
inline void vp_band(double x, double lo, double hi) {vp_assume(x <= lo || x >= hi);}
#endif
