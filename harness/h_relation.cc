// Parallel, orthogonal, collinear and coplanar pieces, of every two kinds and in both orders.
#include "prim.h"
// kinds: 0 line, 1 ray, 2 segment, 3 plane, 4 triangle, 5 disk; the first three are straight
struct piece
{
  entity * e; bool straight;
  // through o, along (or orthogonal to) d = l (v0 e0, v0 e1, v1), with tangents s and t
  piece(int kind, place const & w, vec3 const & o, vec3 const & d, vec3 const & s, vec3 const & t, double a, double b)
  {
    straight = kind < 3;
    switch (kind)
    {
    case 0: e = new line(w.at(o), w.dir(d)); break;
    case 1: e = new ray(w.at(o), w.dir(d)); break;
    case 2: e = new segment(w.at(o), w.at(o + d)); break;
    case 3: e = new plane(w.at(o), w.dir(d)); break;
    case 4: e = new triangle(w.at(o), w.at(o + s*a), w.at(o + t*b)); break;
    default: e = new disk(a, w.at(o), w.dir(d)); break;
    }
  }
};
static bool ask(int relation, entity const * a, entity const * b)
{
  switch (relation)
  {
  case 0: return IsParallel(a, b);
  case 1: return IsOrthogonal(a, b);
  case 2: return IsCollinear(a, b);
  default: return IsCoplanar(a, b);
  }
}
static char const * const WHAT[4] = {"parallel exactly when they are", "orthogonal exactly when they are", "collinear exactly when they are", "coplanar exactly when they are"};
static void relations(int k0, int k1, int places)
{
  place w(places, 5.0);
  double l = vp_real("l", 0.2, 3), m = vp_real("m", 0.2, 3), a = vp_real("a", 0.3, 2), b = vp_real("b", 0.3, 2), v[2] = {0, 1}, e[2] = {1, 0};
  // angle between the two directions: none, straight, or any other
  int how = vp_choice("angle", 3);
  if (how == 1) v[0] = 1, v[1] = 0;
  if (how == 2) {vp_unit("v", 2, v); vp_assume(v[0] > 0.1 || v[0] < -0.1); vp_assume(v[1] > 0.1 || v[1] < -0.1);}
  if (how > 0) vp_unit("e", 2, e);
  int back = vp_choice("back", 2);
  vec3 X(1, 0, 0), Y(0, 1, 0), Z(0, 0, 1), d(v[0]*e[0], v[0]*e[1], v[1]), s(-e[1], e[0], 0), t(-v[1]*e[0], -v[1]*e[1], v[0]);
  // offset between them: along the common plane of the directions (u Z + f d), and across it (g s)
  double f = vp_real("f", -2, 2), u = vp_real("u", -2, 2), g = 0, h = 0;
  if (vp_choice("across", 2)) {g = vp_real("g", -2, 2); vp_assume(g > 0.1 || g < -0.1);}
  bool S0 = k0 < 3, S1 = k1 < 3;
  vec3 o;
  bool parallel, orthogonal, collinear = false, coplanar;
  if (S0 && S1)
  {
    o = Z*u + d*f + s*g;
    parallel = how == 0; orthogonal = how == 1;
    // parallel lines always share a plane
    collinear = how == 0 && g == 0; coplanar = how == 0 || g == 0;
  }
  else if (S0 != S1)
  {
    // the straight one lies in the flat one when orthogonal to its normal and sharing a point
    vec3 n = S0 ? d : Z;   // normal of the flat one; the offset across is along it
    o = S0 ? vec3(s*u + t*f + n*g) : vec3(X*u + Y*f + n*g);
    parallel = how == 1; orthogonal = how == 0;
    coplanar = how == 1 && g == 0;
    if (how != 1) vp_assume(g < -0.1 || g > 0.1 || g == 0);
  }
  else
  {
    o = X*u + Y*f + Z*g;
    parallel = how == 0; orthogonal = how == 1;
    coplanar = how == 0 && g == 0;
  }
  (void)h;
  piece A(k0, w, vec3(0, 0, 0), Z*l, X, Y, a, b), B(k1, w, o, d*(back ? -m : m), s, t, b, a);
  bool want[4] = {parallel, orthogonal, collinear, coplanar};
  int r = vp_choice("relation", 4);
  vp_assert(ask(r, A.e, B.e) == want[r], WHAT[r]);
  vp_assert(ask(r, B.e, A.e) == want[r], WHAT[r]);
  vp_reach(want[r] ? "yes" : "no");
}
extern "C" void relation_straight() {int a = vp_choice("k0", 3), b = vp_choice("k1", 3); relations(a, b, 1);}
extern "C" void relation_mixed() {int a = vp_choice("k0", 3), b = 3 + vp_choice("k1", 3); relations(a, b, 1);}
extern "C" void relation_flat() {int a = 3 + vp_choice("k0", 3), b = 3 + vp_choice("k1", 3); relations(a, b, 1);}
// in other places
extern "C" void relation_place() {int k = vp_choice("k", 4); relations(k == 3 ? 3 : 0, k == 0 ? 0 : k == 1 ? 2 : 4, 3);}
// with a vector
template <class T> static void with(int r, vec3 const & v, T const & t, bool parallel, bool orthogonal)
{
  if (r) vp_assert(IsOrthogonal(v, t) == orthogonal, WHAT[1]); else vp_assert(IsParallel(v, t) == parallel, WHAT[0]);
}
extern "C" void relation_vector()
{
  place w;
  int k = vp_choice("k", 7), how = vp_choice("angle", 3), r = vp_choice("relation", 2);
  double l = vp_real("l", 0.2, 3), m = vp_real("m", 0.2, 3), a = vp_real("a", 0.3, 2), v[2] = {0, 1}, e[2] = {1, 0};
  if (how == 1) v[0] = 1, v[1] = 0;
  if (how == 2) {vp_unit("v", 2, v); vp_assume(v[0] > 0.1 || v[0] < -0.1); vp_assume(v[1] > 0.1 || v[1] < -0.1);}
  if (how > 0) vp_unit("e", 2, e);
  vec3 d = w.dir(v[0]*e[0]*m, v[0]*e[1]*m, v[1]*m), n = w.dir(0, 0, l);
  bool along = how == 0, across = how == 1;
  point o = w.at(0, 0, 0);
  switch (k)
  {
  case 0: with(r, d, n, along, across); break;
  case 1: with(r, d, line(o, n), along, across); break;
  case 2: with(r, d, ray(o, n), along, across); break;
  case 3: with(r, d, segment(o, point(o + n)), along, across); break;
  case 4: with(r, d, plane(o, n), across, along); break;
  case 5: with(r, d, triangle(o, w.at(a, 0, 0), w.at(0, m, 0)), across, along); break;
  default: with(r, d, disk(a, o, n), across, along); break;
  }
  vp_reach("end");
}
