// Planes, triangles and disks in different planes: the common line and what of it belongs to both.
#include "prim.h"
static double const BIG = 0.001;
// a second plane, containing the local y axis, tilted by v
struct tilted
{
  double v[2];
  tilted() {vp_unit("v", 2, v); vp_assume(v[0] > 0.1 || v[0] < -0.1);}
  vec3 normal() const {return vec3(v[0], 0, v[1]);}
  vec3 at(double x, double y) const {return vec3(-x*v[1], y, x*v[0]);}
};
extern "C" void cut_planes()
{
  place w;
  tilted p;
  double c = vp_real("c", 0.2, 5), k = vp_real("k", 0.2, 5), x = vp_real("x", -5, 5), y = vp_real("y", -5, 5), f = vp_real("f", -5, 5), g = vp_real("g", -5, 5);
  int flip = vp_choice("flip", 2), swap = vp_choice("swap", 2);
  plane a(w.at(x, y, 0), w.dir(0, 0, flip ? -c : c)), b(w.at(p.at(f, g)), w.dir(p.normal()*k));
  line l;
  bool r = swap ? Intersection(b, a, l) : Intersection(a, b, l);
  vp_assert(r, "planes which are not parallel meet");
  if (!r) return;
  vec3 o = vp_mul(w.r.transpose(), vec3(l.origin() - w.t)), d = vp_mul(w.r.transpose(), l.direction());
  vp_eq(o.x(), 0.0, "the common line lies in both planes"); vp_eq(o.z(), 0.0, "the common line lies in both planes");
  vp_eq(d.x(), 0.0, "the common line runs in both planes"); vp_eq(d.z(), 0.0, "the common line runs in both planes");
  vp_lt(0.0, d.y()*d.y(), "the common line has a direction");
  vp_reach("end");
}
extern "C" void cut_parallel()
{
  place w;
  double c = vp_real("c", 0.2, 5), k = vp_real("k", 0.2, 5), x = vp_real("x", -5, 5), y = vp_real("y", -5, 5), h = vp_real("h", 0.05, 5);
  int flip = vp_choice("flip", 2), apart = vp_choice("apart", 2);
  plane a(w.at(x, y, 0), w.dir(0, 0, flip ? -c : c)), b(w.at(y, x, apart ? h : 0), w.dir(0, 0, k)), s;
  line l;
  bool q = Intersection(a, b, l), r = Intersection(a, b, s);
  vp_assert(!q, "parallel planes share no single line");
  vp_assert(r == !apart, "planes coincide exactly when they do");
  if (r)
  {
    vec3 o = vp_mul(w.r.transpose(), vec3(s.origin() - w.t)), n = vp_mul(w.r.transpose(), s.normal());
    vp_eq(o.z(), 0.0, "the common plane"); vp_eq(n.x(), 0.0, "the common plane"); vp_eq(n.y(), 0.0, "the common plane"); vp_lt(0.0, n.z()*n.z(), "the common plane");
  }
  vp_reach(apart ? "apart" : "same");
}
// three planes through one point
extern "C" void cut_point()
{
  place w;
  vec3 n[3], o[3];
  for (int i = 0; i < 3; ++i) n[i] = vec3(vp_real(vp_name("nx", i).c_str(), -2, 2), vp_real(vp_name("ny", i).c_str(), -2, 2), vp_real(vp_name("nz", i).c_str(), -2, 2));
  n[0] = vec3(0, 0, vp_real("c", 0.2, 3));
  double det = n[1].x()*n[2].y() - n[1].y()*n[2].x();
  vp_assume(det > 0.1 || det < -0.1);
  plane p[3];
  for (int i = 0; i < 3; ++i)
  {
    // any point of the plane: the common one plus a combination of two directions normal to n
    double s = vp_real(vp_name("s", i).c_str(), -2, 2), t = vp_real(vp_name("t", i).c_str(), -2, 2);
    vec3 a = i == 0 ? vec3(1, 0, 0) : vec3(-n[i].y(), n[i].x(), 0), b = i == 0 ? vec3(0, 1, 0) : vp_cross(n[i], a);
    p[i] = plane(w.at(a*s + b*t), w.dir(n[i]));
  }
  point q;
  bool r = Intersection(p[0], p[1], p[2], q);
  vp_assert(r, "three planes with independent normals meet");
  if (r) vp_eq3(q, w.at(0, 0, 0), "the point of three planes");
  vp_reach("end");
}
// a triangle cut by the local y axis at lo and hi (or not at all), in the plane given by at(x, y)
struct cutter
{
  vec3 p[3];
  double lo, hi; bool cut;
  template <class F> cutter(char const * n, F at, int turns = 3, int sides = 2)
  {
    cut = !vp_choice(vp_key(n, "miss"), 2);
    int k = turns > 1 ? vp_choice(vp_key(n, "turn"), turns) : 0, side = sides > 1 ? vp_choice(vp_key(n, "side"), sides) : 0;
    double x = vp_real(vp_key(n, "x"), 0.1, 3), y = vp_real(vp_key(n, "y"), -3, 3), e = vp_real(vp_key(n, "e"), 0.1, 2), f = vp_real(vp_key(n, "f"), 0.1, 2);
    lo = vp_real(vp_key(n, "lo"), -4, 4); hi = lo + vp_real(vp_key(n, "w"), 0.1, 3);
    if (!cut) {e = -0.1 - e/4; f = -0.1 - f/4;}   // the far vertices stay on this side
    if (side) x = -x;
    p[k] = at(x, y); p[(k + 1) % 3] = at(-e*x, y + (1 + e)*(lo - y)); p[(k + 2) % 3] = at(-f*x, y + (1 + f)*(hi - y));
  }
  static char const * vp_key(char const * a, char const * b)
  {
    static char s[64][16]; static int n = 0;
    char * o = s[n++ % 64]; int i = 0;
    while (*a) o[i++] = *a++;
    while (*b) o[i++] = *b++;
    o[i] = 0;
    return o;
  }
};
static void ends(place const & w, segment const & s, double lo, double hi, char const * what)
{
  vec3 a = vp_mul(w.r.transpose(), vec3(s.vertex(0) - w.t)), b = vp_mul(w.r.transpose(), vec3(s.vertex(1) - w.t));
  if (b.y() < a.y()) std::swap(a, b);
  vp_eq3(a, vec3(0, lo, 0), what); vp_eq3(b, vec3(0, hi, 0), what);
}
extern "C" void cut_triangle()
{
  place w(2, 5.0);
  tilted p;
  double k = vp_real("k", 0.2, 5), f = vp_real("f", -3, 3), g = vp_real("g", -3, 3);
  cutter c("t", [] (double x, double y) {return vec3(x, y, 0);});
  segment s;
  bool r = Intersection(plane(w.at(p.at(f, g)), w.dir(p.normal()*k)), triangle(w.at(c.p[0]), w.at(c.p[1]), w.at(c.p[2])), s);
  vp_assert(r == c.cut, "a plane cuts a triangle exactly when its vertices are on both sides");
  if (r) ends(w, s, c.lo, c.hi, "the cut of a triangle runs from edge to edge");
  vp_reach(r ? "hit" : "miss");
}
// the interval of the y axis covered by a disk in the plane given by at(x, y)
struct rounder
{
  vec3 o; double R, lo, hi; bool cut;
  template <class F> rounder(F at)
  {
    cut = !vp_choice("dmiss", 2);
    double y = vp_real("dy", -4, 4), h = vp_real("dh", -3, 3), q = vp_real("dq", 0.1, 3);
    R = std::sqrt(h*h + q*q); lo = y - q; hi = y + q;
    if (!cut) h = R + vp_real("dgap", 0.1, 2);
    o = at(h, y);
  }
};
static void apart(double a, double b) {vp_assume(a - b > BIG || a - b < -BIG);}
static bool common(double l0, double h0, double l1, double h1, double & lo, double & hi)
{
  apart(l0, l1); apart(h0, h1); apart(l0, h1); apart(l1, h0);
  lo = l0 > l1 ? l0 : l1; hi = h0 < h1 ? h0 : h1;
  return lo < hi;
}
static void two_triangles(int turns, int sides)
{
  place w(1, 3.0);
  tilted p;
  cutter a("a", [] (double x, double y) {return vec3(x, y, 0);}, 3, sides), b("b", [&] (double x, double y) {return p.at(x, y);}, turns, sides);
  double lo, hi;
  bool e = a.cut && b.cut && common(a.lo, a.hi, b.lo, b.hi, lo, hi);
  segment s;
  bool r = Intersection(triangle(w.at(a.p[0]), w.at(a.p[1]), w.at(a.p[2])), triangle(w.at(b.p[0]), w.at(b.p[1]), w.at(b.p[2])), s);
  vp_assert(r == e, "two triangles meet exactly when their cuts of the common line overlap");
  if (r && e) ends(w, s, lo, hi, "two triangles share the overlap of their cuts");
  vp_reach(r ? "hit" : "miss");
}
extern "C" void cut_two_triangles() {two_triangles(1, 1);}
extern "C" void cut_two_triangles_turned() {two_triangles(3, 2);}
extern "C" void cut_triangle_disk()
{
  place w(1, 3.0);
  tilted p;
  double k = vp_real("k", 0.2, 5);
  cutter a("a", [] (double x, double y) {return vec3(x, y, 0);});
  rounder b([&] (double x, double y) {return p.at(x, y);});
  double lo, hi;
  bool e = a.cut && b.cut && common(a.lo, a.hi, b.lo, b.hi, lo, hi);
  segment s;
  bool r = Intersection(triangle(w.at(a.p[0]), w.at(a.p[1]), w.at(a.p[2])), disk(b.R, w.at(b.o), w.dir(p.normal()*k)), s);
  vp_assert(r == e, "a triangle meets a disk exactly when their cuts of the common line overlap");
  if (r && e) ends(w, s, lo, hi, "a triangle and a disk share the overlap of their cuts");
  vp_reach(r ? "hit" : "miss");
}
extern "C" void cut_two_disks()
{
  place w(1, 3.0);
  tilted p;
  double k = vp_real("k", 0.2, 5), c = vp_real("c", 0.2, 5), h = vp_real("sh", -3, 3), q = vp_real("sq", 0.1, 3), y = vp_real("sy", -4, 4);
  rounder b([&] (double x, double y) {return p.at(x, y);});
  double lo, hi;
  bool e = b.cut && common(y - q, y + q, b.lo, b.hi, lo, hi);
  segment s;
  bool r = Intersection(disk(std::sqrt(h*h + q*q), w.at(h, y, 0), w.dir(0, 0, c)), disk(b.R, w.at(b.o), w.dir(p.normal()*k)), s);
  vp_assert(r == e, "two disks meet exactly when their cuts of the common line overlap");
  if (r && e) ends(w, s, lo, hi, "two disks share the overlap of their cuts");
  vp_reach(r ? "hit" : "miss");
}
// triangles in one plane, at any offset from each other: they share a point exactly when no edge of either separates them
extern "C" void cut_coplanar()
{
  place w(2, 0);
  static double const S[5][3][2] = {{{-2, -1}, {2, -1}, {0, 2}}, {{-2, 1}, {2, 1}, {0, -2}}, {{-3, -0.25}, {3, -0.25}, {0.5, 0.25}}, {{-0.5, -0.25}, {0.5, 0}, {0, 0.5}}, {{-0.25, -3}, {0.25, -3}, {0, 4}}};
  static int const PAIR[6][2] = {{0, 1}, {2, 4}, {0, 3}, {3, 2}, {1, 4}, {0, 0}};
  int q = vp_choice("pair", 6), a = PAIR[q][0], b = PAIR[q][1], ra = q % 2, rb = vp_choice("rb", 2);
  double x = vp_real("x", -6, 6), y = vp_real("y", -6, 6), A[3][2], B[3][2];
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k)
  {
    A[i][k] = S[a][ra ? 2 - i : i][k];
    B[i][k] = S[b][rb ? 2 - i : i][k];
  }
  bool apart = false;
  for (int q = 0; q < 2; ++q) for (int i = 0; i < 3; ++i)
  {
    double (*P)[2] = q ? B : A, (*Q)[2] = q ? A : B;
    int j = (i + 1) % 3, k = (i + 2) % 3;
    double nx = P[j][1] - P[i][1], ny = P[i][0] - P[j][0];
    if (nx*(P[k][0] - P[i][0]) + ny*(P[k][1] - P[i][1]) > 0) {nx = -nx; ny = -ny;}
    // outward normal (nx, ny) of the edge; the other triangle is beyond it when its nearest vertex is
    double m = 1e9;
    for (int l = 0; l < 3; ++l) m = std::min(m, nx*(Q[l][0] - P[i][0]) + ny*(Q[l][1] - P[i][1]));
    double s = q ? -1.0 : 1.0, d = m + s*(nx*x + ny*y);
    vp_band(d, -0.01, 0.01);
    if (d > 0) apart = true;
  }
  triangle t(w.at(A[0][0], A[0][1], 0), w.at(A[1][0], A[1][1], 0), w.at(A[2][0], A[2][1], 0));
  triangle u(w.at(B[0][0] + x, B[0][1] + y, 0), w.at(B[1][0] + x, B[1][1] + y, 0), w.at(B[2][0] + x, B[2][1] + y, 0));
  none n;
  bool r = Intersection(t, u, n);
  vp_assert(r == !apart, "two triangles in one plane meet exactly when no line separates them");
  vp_reach(r ? "hit" : "miss");
}
