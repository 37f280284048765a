// Membership of points, and distances from planes.
#include "prim.h"
static double const BIG = 0.001;
// isInside and the intersection of the point with the same thing agree and give the point back
template <class T> static void member(T const & e, point const & p, bool want, char const * what)
{
  point q;
  bool a = e.isInside(p), b = Intersection(p, e, q);
  vp_assert(a == want, what);
  vp_assert(b == want, "a point meets what it lies on");
  if (b) vp_eq3(q, p, "a point meets what it lies on in itself");
  vp_reach(want ? "in" : "out");
}
static double off(char const * n)
{
  if (vp_choice("off", 2)) {double h = vp_real(n, -3, 3); vp_assume(h > 0.05 || h < -0.05); return h;}
  return 0;
}
extern "C" void inside_straight()
{
  place w;
  int kind = vp_choice("kind", 3);
  double e[2], l = vp_real("l", 0.2, 4), s = vp_real("s", -4, 4), h = off("h");
  vp_unit("e", 2, e);
  vec3 d(l*e[0], l*e[1], 0);
  point o = w.at(0, 0, 0), p = w.at(s*d.x() - h*e[1], s*d.y() + h*e[0], 0);
  if (kind > 0) vp_band(s, -BIG, 0);
  if (kind > 1) vp_band(s, 1, 1 + BIG);
  if (kind == 0) member(line(o, w.dir(d)), p, h == 0, "a point lies on a line");
  else if (kind == 1) member(ray(o, w.dir(d)), p, h == 0 && s >= 0, "a point lies on a ray");
  else member(segment(o, w.at(d)), p, h == 0 && s >= 0 && s <= 1, "a point lies on a segment");
}
extern "C" void inside_plane()
{
  place w;
  double c = vp_real("c", 0.2, 5), h = off("h"), x = vp_real("x", -4, 4), y = vp_real("y", -4, 4);
  plane p(w.at(0, 0, 0), w.dir(0, 0, c));
  point q = w.at(x, y, h);
  vp_eq(p.signedDistance(q), h, "signed distance from a plane");
  vp_eq(p.distance(q), h < 0 ? -h : h, "distance from a plane");
  vp_eq(p.squaredDistance(q), h*h, "squared distance from a plane");
  vec3 g(w.t + w.dir(x, y, 0)), n(p.normal());
  vp_eq(vp_dot(n, g) + p.d(), 0.0, "the points of a plane satisfy its equation");
  member(p, q, h == 0, "a point lies on a plane");
}
extern "C" void inside_triangle()
{
  place w;
  double a = vp_real("a", 0.2, 3), f = vp_real("f", -3, 3), g = vp_real("g", 0.2, 3), u = vp_real("u", -1, 2), v = vp_real("v", -1, 2), h = off("h");
  int k = vp_choice("turn", 3);
  vp_band(u, -BIG, 0); vp_band(v, -BIG, 0); vp_band(u + v, 1, 1 + BIG);
  vec3 p[3] = {vec3(0, 0, 0), vec3(a, 0, 0), vec3(f, g, 0)};
  triangle t(w.at(p[k]), w.at(p[(k + 1) % 3]), w.at(p[(k + 2) % 3]));
  point q = w.at(u*a + v*f, v*g, h);
  member(t, q, h == 0 && u >= 0 && v >= 0 && u + v <= 1, "a point lies on a triangle");
  double b[3], z[3] = {1 - u - v, u, v};
  t.barycentric(q, b[0], b[1], b[2]);
  for (int i = 0; i < 3; ++i) vp_eq(b[i], z[(i + k) % 3], "barycentric coordinates");
}
extern "C" void inside_round()
{
  place w;
  int kind = vp_choice("kind", 2);
  double c = vp_real("c", 0.2, 5), R = vp_real("R", 0.1, 4), x = vp_real("x", -5, 5), y = vp_real("y", -5, 5), z = kind ? vp_real("z", -5, 5) : off("h"), k = x*x + y*y + z*z - R*R;
  vp_assume(k > BIG || k < -BIG);
  point q = w.at(x, y, z), m;
  if (kind)
  {
    vp_assert(ball(R, w.at(0, 0, 0)).isInside(q) == (k <= 0), "a point lies in a ball");
    vp_reach(k <= 0 ? "in" : "out");
  }
  else member(disk(R, w.at(0, 0, 0), w.dir(0, 0, c)), q, z == 0 && k <= 0, "a point lies on a disk");
}
extern "C" void inside_point()
{
  double d = vp_real("d", 0.01, 3), x = vp_real("x", -5, 5), y = vp_real("y", -5, 5), z = vp_real("z", -5, 5);
  int k = vp_choice("axis", 4), s = vp_choice("sign", 2);
  vec3 a(x, y, z), b(a);
  if (k < 3) b[k] += s ? -d : d;
  point p(a), q(b), m;
  bool r = Intersection(p, q, m);
  vp_assert(r == (k == 3), "points meet exactly when equal");
  if (r) vp_eq3(m, a, "equal points meet in themselves");
  vp_reach(r ? "in" : "out");
}
