// However a piece is built, read, written or copied, it is the same piece.
#include "prim.h"
#include <type_traits>
static void is(entity const & e, char const * type, int level)
{
  vp_assert(e.type() == type, "the name of the kind");
  vp_assert(e.level() == level, "the rank of the kind");
}
static bool nan(vec3 const & v) {return v.x() != v.x() && v.y() != v.y() && v.z() != v.z();}
// copied, assigned and moved pieces; f compares with the data
template <typename T, typename F> static void copies(T const & a, F f)
{
  f(a);
  T b(a), c, d, x(a), y(a);
  f(b);
  c = a; f(c);
  d = std::move(b); f(d);
  T g(std::move(x)); f(g);
  f(y);
}
// lines, rays, planes: a point and a vector
template <typename T> static void straight(char const * type, int level)
{
  vec3 p = vp_vec("p", 10), v = vp_vec("v", 10), q = vp_vec("q", 10), w = vp_vec("w", 10);
  T a(p.x(), p.y(), p.z(), v.x(), v.y(), v.z()), b((point(p)), v), n;
  is(a, type, level); is(n, type, level);
  vp_assert(nan(n.origin()) && nan(n.direction()), "undefined until it is given");
  auto f = [&](T const & x) {vp_eq3(x.origin(), p, "its point"); vp_eq3(x.direction(), v, "its direction"); vp_eq3(x.toVector(), v, "its vector");};
  copies(a, f); copies(b, f);
  b.origin() = point(q); vp_eq3(b.origin(), q, "its point as written"); vp_eq3(b.direction(), v, "its direction as before");
  a.direction() = w; vp_eq3(a.direction(), w, "its direction as written"); vp_eq3(a.origin(), p, "its point as before");
}
extern "C" void form_straight()
{
  if (vp_choice("kind", 2)) straight<line>("line", 3); else straight<ray>("ray", 4);
  vp_reach("end");
}
extern "C" void form_plane()
{
  vec3 p = vp_vec("p", 10), v = vp_vec("v", 10), q = vp_vec("q", 10), w = vp_vec("w", 10);
  plane a(p.x(), p.y(), p.z(), v.x(), v.y(), v.z()), b((point(p)), v), n;
  is(a, "plane", 5); is(n, "plane", 5);
  vp_assert(nan(n.origin()) && nan(n.normal()), "undefined until it is given");
  auto f = [&](plane const & x) {vp_eq3(x.origin(), p, "its point"); vp_eq3(x.normal(), v, "its normal"); vp_eq(x.d(), -vp_dot(p, v), "its constant");};
  copies(a, f); copies(b, f);
  b.origin() = point(q); vp_eq3(b.origin(), q, "its point as written"); vp_eq3(b.normal(), v, "its normal as before");
  a.normal() = w; vp_eq3(a.normal(), w, "its normal as written"); vp_eq3(a.origin(), p, "its point as before");
  vp_reach("end");
}
extern "C" void form_round()
{
  vec3 p = vp_vec("p", 10), v = vp_vec("v", 10), q = vp_vec("q", 10);
  double r = vp_real("r", 0.0, 10.0), t = vp_real("t", 0.0, 10.0);
  int k = vp_choice("kind", 2);
  if (k)
  {
    disk a(r, p.x(), p.y(), p.z(), v.x(), v.y(), v.z()), b(r, point(p), v), c(r, plane(point(p), v)), n;
    is(a, "disk", 8); is(n, "disk", 8);
    vp_assert(nan(n.center()) && nan(n.normal()) && n.radius() != n.radius(), "undefined until it is given");
    auto f = [&](disk const & x) {vp_eq(x.radius(), r, "its radius"); vp_eq3(x.center(), p, "its centre"); vp_eq3(x.normal(), v, "its normal"); vp_eq3(x.layingPlane().origin(), p, "its plane"); vp_eq3(x.layingPlane().normal(), v, "its plane");};
    copies(a, f); copies(b, f); copies(c, f);
    c.layingPlane() = plane(point(q), v); vp_eq3(c.center(), q, "its centre as written"); vp_eq(c.radius(), r, "its radius as before");
    b.center() = point(q); vp_eq3(b.center(), q, "its centre as written"); vp_eq3(b.layingPlane().origin(), q, "its plane follows"); vp_eq3(b.normal(), v, "its normal as before");
    a.radius() = t; vp_eq(a.radius(), t, "its radius as written"); vp_eq3(a.center(), p, "its centre as before");
    a.normal() = q; vp_eq3(a.normal(), q, "its normal as written"); vp_eq3(a.layingPlane().normal(), q, "its plane follows");
  }
  else
  {
    ball a(r, p.x(), p.y(), p.z()), b(r, point(p)), n;
    is(a, "ball", 9); is(n, "ball", 9);
    vp_assert(nan(n.center()) && n.radius() != n.radius(), "undefined until it is given");
    auto f = [&](ball const & x) {vp_eq(x.radius(), r, "its radius"); vp_eq3(x.center(), p, "its centre");};
    copies(a, f); copies(b, f);
    b.center() = point(q); vp_eq3(b.center(), q, "its centre as written"); vp_eq(b.radius(), r, "its radius as before");
    a.radius() = t; vp_eq(a.radius(), t, "its radius as written"); vp_eq3(a.center(), p, "its centre as before");
  }
  vp_reach("end");
}
extern "C" void form_segment()
{
  vec3 p = vp_vec("p", 10), v = vp_vec("v", 10), q = vp_vec("q", 10);
  point u[2] = {point(p), point(v)};
  segment a(p.x(), p.y(), p.z(), v.x(), v.y(), v.z()), b(u[0], u[1]), c(u), n;
  is(a, "segment", 6); is(n, "segment", 6);
  vp_assert(nan(n.vertex(0)) && nan(n.vertex(1)), "undefined until it is given");
  auto f = [&](segment const & x) {vp_eq3(x.vertex(0), p, "its first end"); vp_eq3(x.vertex(1), v, "its second end"); vp_eq3(x[0], p, "its first end"); vp_eq3(x[1], v, "its second end"); vp_eq3(x.toVector(), v - p, "from the first end to the second");};
  copies(a, f); copies(b, f); copies(c, f);
  int k = vp_choice("k", 2);
  vec3 o = k ? p : v;
  b.vertex(k) = point(q); vp_eq3(b.vertex(k), q, "an end as written"); vp_eq3(b.vertex(1 - k), o, "the other end as before");
  c[k] = point(q); vp_eq3(c.vertex(k), q, "an end as written"); vp_eq3(c.vertex(1 - k), o, "the other end as before");
  a.swap(); vp_eq3(a.vertex(0), v, "its ends exchanged"); vp_eq3(a.vertex(1), p, "its ends exchanged");
  vp_reach("end");
}
extern "C" void form_triangle()
{
  vec3 w[3] = {vp_vec("a", 10), vp_vec("b", 10), vp_vec("c", 10)}, q = vp_vec("q", 10);
  point u[3] = {point(w[0]), point(w[1]), point(w[2])};
  triangle a(w[0].x(), w[0].y(), w[0].z(), w[1].x(), w[1].y(), w[1].z(), w[2].x(), w[2].y(), w[2].z()), b(u[0], u[1], u[2]), c(u), n;
  is(a, "triangle", 7); is(n, "triangle", 7);
  vp_assert(nan(n.vertex(0)) && nan(n.vertex(1)) && nan(n.vertex(2)), "undefined until it is given");
  auto f = [&](triangle const & x) {for (int i = 0; i < 3; ++i) {vp_eq3(x.vertex(i), w[i], "its vertices"); vp_eq3(x[i], w[i], "its vertices"); vp_eq3(x.edge(i).vertex(0), w[i], "its edges"); vp_eq3(x.edge(i).vertex(1), w[(i + 1) % 3], "its edges");}};
  copies(a, f); copies(b, f); copies(c, f);
  int k = vp_choice("k", 3), l = vp_choice("l", 3);
  b.vertex(k) = point(q); c[k] = point(q);
  for (int i = 0; i < 3; ++i) {vp_eq3(b.vertex(i), i == k ? q : w[i], "a vertex as written, the others as before"); vp_eq3(c.vertex(i), i == k ? q : w[i], "a vertex as written, the others as before");}
  a.swap(k, l);
  for (int i = 0; i < 3; ++i) vp_eq3(a.vertex(i), w[i == k ? l : i == l ? k : i], "two vertices exchanged");
  vp_reach("end");
}
// vertices and edges that a triangle does not have
extern "C" void form_index()
{
  int i = vp_int("i", -6, 6), k = vp_choice("k", 7);
  triangle t(0, 0, 0, 1, 0, 0, 0, 1, 0);
  triangle const & c = t;
  enve::triangleground g(0, 0.5, point(0, 0, 0), point(1, 0, 0), point(0, 1, 0));
  enve::triangleground const & h = g;
  bool refused = false;
  try
  {
    if (k == 0) t.vertex(i); else if (k == 1) c.vertex(i); else if (k == 2) t[i]; else if (k == 3) c[i]; else if (k == 4) c.edge(i); else if (k == 5) h.vertex(i); else h[i];
  }
  catch (std::exception const &) {refused = true;}
  vp_assert(refused == (i < 0 || i > 2), "a triangle has the vertices and edges 0, 1, 2, and no other");
  vp_reach(refused ? "refused" : "accepted");
}
extern "C" void form_box()
{
  vec3 p = vp_vec("p", 10), q = vp_vec("q", 10), v = vp_vec("v", 10);
  for (int i = 0; i < 3; ++i) vp_assume(p(i) <= q(i));
  int id = vp_int("id", -5, 50), pos = vp_int("pos", -5, 50);
  aabb a(p.x(), p.y(), p.z(), q.x(), q.y(), q.z(), id, pos), b(point(p), point(q), id, pos), n;
  vp_assert(nan(n.min()) && nan(n.max()), "undefined until it is given");
  auto f = [&](aabb const & x)
  {
    vp_eq3(x.min(), p, "its lower corner"); vp_eq3(x.max(), q, "its upper corner");
    for (int i = 0; i < 3; ++i) {vp_eq(x.min(i), p(i), "its lower corner"); vp_eq(x.max(i), q(i), "its upper corner");}
    vp_assert(x.id() == id && x.pos() == pos, "its numbers");
  };
  copies(a, f); copies(b, f);
  int k = vp_choice("k", 6);
  bool up = vp_choice("up", 2);
  vec3 l = p, h = q;
  if (k < 3) {(up ? b.max(k) : b.min(k)) = v(k); (up ? h : l)(k) = v(k);}
  else if (k == 3) {if (up) b.max(v.x(), v.y(), v.z()); else b.min(v.x(), v.y(), v.z()); (up ? h : l) = v;}
  else if (k == 4) {(up ? b.max() : b.min()) = point(v); (up ? h : l) = v;}
  else {b.translate(point(v)); l += v; h += v;}
  vp_eq3(b.min(), l, "its lower corner as written"); vp_eq3(b.max(), h, "its upper corner as written");
  vp_assert(b.checkMaxMin() == (l.x() <= h.x() && l.y() <= h.y() && l.z() <= h.z()), "corners in order");
  b.id() = id + 1; b.pos() = pos + 2; vp_assert(b.id() == id + 1 && b.pos() == pos + 2, "its numbers as written");
  a.clear(); vp_assert(nan(a.min()) && nan(a.max()), "undefined once cleared");
  vp_reach("end");
}
