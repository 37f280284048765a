// Lengths, areas, volumes, centroids, normals, boxes and degeneracy of the pieces.
#include "prim.h"
static double const PI_ = 3.141592653589793238;
static double dist(vec3 const & a, vec3 const & b) {vec3 d(a - b); return std::sqrt(vp_dot(d, d));}
// the box is the smallest around the given points
template <class T> static void boxed(T const & e, vec3 const * p, int n, char const * what)
{
  vec3 a(7, 7, 7), b(-7, -7, -7);
  double c[6] = {1, 2, 3, 4, 5, 6};
  bool r = e.clamp(a, b), s = e.clamp(c[0], c[1], c[2], c[3], c[4], c[5]);
  vp_assert(r && s && e.isClampable() && !e.isNonClampable(), "bounded pieces have a box");
  for (int k = 0; k < 3; ++k)
  {
    double lo = p[0][k], hi = p[0][k];
    for (int i = 1; i < n; ++i) {if (p[i][k] < lo) lo = p[i][k]; if (p[i][k] > hi) hi = p[i][k];}
    vp_eq(a[k], lo, what); vp_eq(b[k], hi, what); vp_eq(c[k], lo, what); vp_eq(c[k + 3], hi, what);
  }
}
extern "C" void measure_segment()
{
  vec3 a = vp_vec("a", 5), b = vp_vec("b", 5), d(b - a);
  vp_assume(vp_dot(d, d) > 0.01);
  segment s((point(a)), point(b));
  double l = s.length();
  vp_le(0.0, l, "length of a segment"); vp_eq(l*l, vp_dot(d, d), "length of a segment");
  vp_eq3(s.centroid(), (a + b)/2.0, "middle of a segment");
  vp_eq3(s.toVector(), d, "vector along a segment");
  vec3 u = s.toUnitVector();
  vp_eq3(u*l, d, "unit vector along a segment");
  vp_assert(!s.isDegenerated(), "a segment with different ends is not degenerated");
  segment t(s); t.swap();
  vp_eq3(t.vertex(0), b, "swapped segment"); vp_eq3(t[1], a, "swapped segment");
  vp_assert(segment(point(a), point(a)).isDegenerated(), "a segment with equal ends is degenerated");
  vp_reach("end");
}
extern "C" void measure_boxes()
{
  vec3 p[3] = {vp_vec("a", 5), vp_vec("b", 5), vp_vec("c", 5)};
  int n = vp_choice("n", 3) + 1;
  if (n == 1) boxed(point(p[0]), p, 1, "box of a point");
  else if (n == 2) boxed(segment(point(p[0]), point(p[1])), p, 2, "box of a segment");
  else boxed(triangle(point(p[0]), point(p[1]), point(p[2])), p, 3, "box of a triangle");
  vp_reach("end");
}
extern "C" void measure_round_boxes()
{
  double R = vp_real("R", 0.1, 5);
  vec3 c = vp_vec("c", 5), n = vp_vec("n", 2), r(R, R, R), a(c - r), b(c + r), x, y;
  int k = vp_choice("k", 2);
  bool q;
  double m[6];
  if (k) {ball e(R, point(c)); q = e.clamp(x, y) && e.clamp(m[0], m[1], m[2], m[3], m[4], m[5]);}
  else {disk e(R, point(c), n); q = e.clamp(x, y) && e.clamp(m[0], m[1], m[2], m[3], m[4], m[5]);}
  vp_assert(q, "bounded pieces have a box");
  for (int i = 0; i < 3; ++i)
  {
    vp_eq(x[i], m[i], "one box"); vp_eq(y[i], m[i + 3], "one box");
    if (k) {vp_eq(x[i], a[i], "box of a ball"); vp_eq(y[i], b[i], "box of a ball");}
    else
    {
      // the box of a disk holds its rim and is no larger than that of the ball
      vp_le(a[i], x[i], "box of a disk"); vp_le(y[i], b[i], "box of a disk");
    }
  }
  vp_reach("end");
}
// a point of the rim of a disk is in its box
extern "C" void measure_disk_box()
{
  place w;
  double R = vp_real("R", 0.1, 5), k = vp_real("k", 0.2, 5), u[2];
  vp_unit("u", 2, u);
  vec3 x, y, p(w.t + w.dir(R*u[0], R*u[1], 0));
  disk(R, w.at(0, 0, 0), w.dir(0, 0, k)).clamp(x, y);
  for (int i = 0; i < 3; ++i) {vp_le(x[i], p[i], "the box of a disk holds its rim"); vp_le(p[i], y[i], "the box of a disk holds its rim");}
  vp_reach("end");
}
extern "C" void measure_triangle()
{
  place w;
  double a = vp_real("a", 0.2, 3), f = vp_real("f", -3, 3), g = vp_real("g", 0.2, 3);
  int k = vp_choice("turn", 3), flip = vp_choice("flip", 2);
  vec3 q[3] = {vec3(0, 0, 0), vec3(a, 0, 0), vec3(f, flip ? -g : g, 0)}, p[3];
  for (int i = 0; i < 3; ++i) p[i] = w.at(q[(i + k) % 3]);
  triangle t((point(p[0])), point(p[1]), point(p[2]));
  vp_eq(t.area(), a*g/2, "area of a triangle");
  vp_eq(t.perimeter(), a + std::sqrt(f*f + g*g) + std::sqrt((f - a)*(f - a) + g*g), "perimeter of a triangle");
  vec3 c((p[0] + p[1] + p[2])/3.0), n = w.dir(0, 0, flip ? -1 : 1);
  vp_eq3(t.centroid(), c, "centroid of a triangle");
  vp_eq3(t.normal(), n, "normal of a triangle");
  vp_eq3(t.layingPlane().normal(), n, "plane of a triangle");
  for (int i = 0; i < 3; ++i)
  {
    vp_eq3(t.edge(i).vertex(0), p[i], "edges of a triangle"); vp_eq3(t.edge(i).vertex(1), p[(i + 1) % 3], "edges of a triangle");
    vec3 z = vec3(t.layingPlane().origin()) - p[i];
    vp_eq(vp_dot(z, n), 0.0, "plane of a triangle");
  }
  vp_assert(!t.isDegenerated(), "a triangle with area is not degenerated");
  t.swap(0, 2);
  vp_eq3(t.vertex(0), p[2], "swapped triangle"); vp_eq3(t[1], p[1], "swapped triangle"); vp_eq3(t.vertex(2), p[0], "swapped triangle");
  vp_reach("end");
}
// collinear or equal vertices
extern "C" void measure_degenerate()
{
  place w;
  double l = vp_real("l", 0.1, 3), s = vp_real("s", -2, 3), e[2];
  int k = vp_choice("turn", 3);
  vp_unit("e", 2, e);
  vec3 q[3] = {vec3(0, 0, 0), vec3(l*e[0], l*e[1], 0), vec3(s*l*e[0], s*l*e[1], 0)};
  vp_assert(triangle(w.at(q[k]), w.at(q[(k + 1) % 3]), w.at(q[(k + 2) % 3])).isDegenerated(), "a triangle without area is degenerated");
  vp_assert(line(w.at(q[0]), vec3(0, 0, 0)).isDegenerated() && ray(w.at(q[0]), vec3(0, 0, 0)).isDegenerated() && plane(w.at(q[0]), vec3(0, 0, 0)).isDegenerated(), "without direction a line, ray or plane is degenerated");
  vp_assert(!line(w.at(q[0]), w.dir(q[1])).isDegenerated() && !ray(w.at(q[0]), w.dir(q[1])).isDegenerated() && !plane(w.at(q[0]), w.dir(q[1])).isDegenerated(), "with a direction a line, ray or plane is not degenerated");
  vp_assert(disk(0, w.at(q[0]), w.dir(q[1])).isDegenerated() && disk(l, w.at(q[0]), vec3(0, 0, 0)).isDegenerated() && ball(0, w.at(q[0])).isDegenerated(), "without radius or normal a disk or ball is degenerated");
  vp_assert(!disk(l, w.at(q[0]), w.dir(q[1])).isDegenerated() && !ball(l, w.at(q[0])).isDegenerated(), "with a radius a disk or ball is not degenerated");
  vp_reach("end");
}
extern "C" void measure_round()
{
  double R = vp_real("R", 0.01, 5);
  vec3 c = vp_vec("c", 5), n = vp_vec("n", 2);
  disk d(R, point(c), n); ball b(R, point(c));
  vp_eq(d.perimeter(), 2*PI_*R, "circumference of a disk");
  vp_eq(d.area(), PI_*R*R, "area of a disk");
  vp_eq(b.area(), 4*PI_*R*R, "area of a ball");
  // 4/3 is not a binary fraction
  vp_le((4 - 1e-9)*PI_*R*R*R, 3*b.volume(), "volume of a ball"); vp_le(3*b.volume(), (4 + 1e-9)*PI_*R*R*R, "volume of a ball");
  vp_eq(disk(R, plane(point(c), n)).area(), PI_*R*R, "area of a disk");
  vp_eq(disk(R, c.x(), c.y(), c.z(), n.x(), n.y(), n.z()).perimeter(), 2*PI_*R, "circumference of a disk");
  vp_eq(ball(R, c.x(), c.y(), c.z()).area(), 4*PI_*R*R, "area of a ball");
  vp_eq3(d.center(), c, "centre of a disk"); vp_eq3(d.normal(), n, "normal of a disk"); vp_eq3(b.center(), c, "centre of a ball");
  vp_reach("end");
}
