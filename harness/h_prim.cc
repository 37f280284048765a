// Lines, rays and segments against planes and triangles they are not parallel to.
#include "prim.h"
static double const BIG = 0.001;
// a straight piece through P with direction d; the point P is at parameter s from its start
static bool meets(int kind, point const & o, vec3 const & d, plane const & p, point & q)
{
  if (kind == 0) return Intersection(line(o, d), p, q);
  if (kind == 1) return Intersection(ray(o, d), p, q);
  return Intersection(p, segment(o, point(o + d)), q);
}
static bool meets(int kind, point const & o, vec3 const & d, triangle const & p, point & q)
{
  if (kind == 0) return Intersection(line(o, d), p, q);
  if (kind == 1) return Intersection(ray(o, d), p, q);
  return Intersection(segment(o, point(o + d)), p, q);
}
static bool expected(int kind, double s)
{
  if (kind == 0) return true;
  vp_band(s, -BIG, 0);
  if (kind == 2) vp_band(s, 1, 1 + BIG);
  return s >= 0 && (kind == 1 || s <= 1);
}
extern "C" void prim_plane()
{
  place w;
  int kind = vp_choice("kind", 3);
  double c = vp_real("c", 0.1, 10), s = vp_real("s", -5, 5), x = vp_real("x", -5, 5), y = vp_real("y", -5, 5);
  vec3 d = vp_vec("d", 3);
  vp_assume(d.z() > 0.0001 || d.z() < -0.0001);
  plane p(w.at(0, 0, 0), w.dir(0, 0, c));
  point q, P = w.at(x, y, 0), o = w.at(x - s*d.x(), y - s*d.y(), -s*d.z());
  bool e = expected(kind, s), r = meets(kind, o, w.dir(d), p, q);
  vp_assert(r == e, "a straight piece meets a plane exactly when it crosses it");
  if (r) vp_eq3(q, P, "the crossing of the plane");
  vp_reach(r ? "hit" : "miss");
}
extern "C" void prim_triangle()
{
  place w;
  int kind = vp_choice("kind", 3);
  double s = vp_real("s", -5, 5), u = vp_real("u", -1, 2), v = vp_real("v", -1, 2);
  double a = vp_real("a", -3, 3), b = vp_real("b", -3, 3), f = vp_real("f", -3, 3), g = vp_real("g", -3, 3);
  vec3 d = vp_vec("d", 3);
  vp_assume(d.z() > 0.0001 || d.z() < -0.0001);
  vp_assume(a*g - b*f > 0.05 || a*g - b*f < -0.05);
  double x = u*a + v*f, y = u*b + v*g;
  point q, P = w.at(x, y, 0), o = w.at(x - s*d.x(), y - s*d.y(), -s*d.z());
  triangle t(w.at(0, 0, 0), w.at(a, b, 0), w.at(f, g, 0));
  vp_band(u, -BIG, 0); vp_band(v, -BIG, 0); vp_band(u + v, 1, 1 + BIG);
  bool e = expected(kind, s) && u >= 0 && v >= 0 && u + v <= 1, r = meets(kind, o, w.dir(d), t, q);
  vp_assert(r == e, "a straight piece meets a triangle exactly when it crosses it");
  if (r) vp_eq3(q, P, "the crossing of the triangle");
  vp_reach(r ? "hit" : "miss");
}
// parallel to the plane, off or in it: no single crossing
extern "C" void prim_parallel()
{
  place w;
  int kind = vp_choice("kind", 3), tri = vp_choice("tri", 2);
  double h = vp_real("h", -3, 3), x = vp_real("x", -5, 5), y = vp_real("y", -5, 5), a = vp_real("a", 0.1, 3), f = vp_real("f", -3, 3), g = vp_real("g", 0.1, 3);
  double dx = vp_real("dx", -3, 3), dy = vp_real("dy", -3, 3);
  vp_assume(dx*dx + dy*dy > 0.01);
  point q;
  bool r = tri ? meets(kind, w.at(x, y, h), w.dir(dx, dy, 0), triangle(w.at(0, 0, 0), w.at(a, 0, 0), w.at(f, g, 0)), q) : meets(kind, w.at(x, y, h), w.dir(dx, dy, 0), plane(w.at(0, 0, 0), w.dir(0, 0, a)), q);
  vp_assert(!r, "a piece parallel to a plane has no single crossing");
  vp_reach("end");
}
