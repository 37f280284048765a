// Moving, turning, reversing and normalising the pieces, one by one and in collections.
#include "prim.h"
// defining points and vectors of a piece
struct state {int np = 0, nv = 0; vec3 p[3], v[1]; double r = 0;};
static state look(entity const * e)
{
  state s;
  if (point const * x = dynamic_cast<point const *>(e)) {s.p[s.np++] = vec3(*x);}
  else if (line const * x = dynamic_cast<line const *>(e)) {s.p[s.np++] = x->origin(); s.v[s.nv++] = x->direction();}
  else if (ray const * x = dynamic_cast<ray const *>(e)) {s.p[s.np++] = x->origin(); s.v[s.nv++] = x->direction();}
  else if (plane const * x = dynamic_cast<plane const *>(e)) {s.p[s.np++] = x->origin(); s.v[s.nv++] = x->normal();}
  else if (segment const * x = dynamic_cast<segment const *>(e)) {for (int i = 0; i < 2; ++i) s.p[s.np++] = x->vertex(i);}
  else if (triangle const * x = dynamic_cast<triangle const *>(e)) {for (int i = 0; i < 3; ++i) s.p[s.np++] = x->vertex(i);}
  else if (disk const * x = dynamic_cast<disk const *>(e)) {s.p[s.np++] = x->center(); s.v[s.nv++] = x->normal(); s.r = x->radius();}
  else if (ball const * x = dynamic_cast<ball const *>(e)) {s.p[s.np++] = x->center(); s.r = x->radius();}
  return s;
}
static entity * make(int kind, char const * n, double b = 5)
{
  std::string s(n);
  vec3 p = vp_vec((s + "p").c_str(), b), q(1, 0, 0), u(0, 1, 0);
  double r = 1;
  if (kind == 1 || kind == 2 || kind == 3 || kind == 6) q = vp_vec((s + "q").c_str(), b);
  if (kind == 4 || kind == 5) q = vp_vec((s + "q").c_str(), b);
  if (kind == 5) u = vp_vec((s + "u").c_str(), b);
  if (kind > 5) r = vp_real((s + "r").c_str(), 0.1, 5);
  switch (kind)
  {
  case 0: return new point(p);
  case 1: return new line(point(p), q);
  case 2: return new ray(point(p), q);
  case 3: return new plane(point(p), q);
  case 4: return new segment(point(p), point(q));
  case 5: return new triangle(point(p), point(q), point(u));
  case 6: return new disk(r, point(p), q);
  case 7: return new ball(r, point(p));
  default: return new none();
  }
}
// the rotation by an angle about an axis
static mat3 rodrigues(double a, vec3 const & k)
{
  double c = std::cos(a), s = std::sin(a);
  mat3 m;
  m << c + k.x()*k.x()*(1 - c), k.x()*k.y()*(1 - c) - k.z()*s, k.x()*k.z()*(1 - c) + k.y()*s,
       k.y()*k.x()*(1 - c) + k.z()*s, c + k.y()*k.y()*(1 - c), k.y()*k.z()*(1 - c) - k.x()*s,
       k.z()*k.x()*(1 - c) - k.y()*s, k.z()*k.y()*(1 - c) + k.x()*s, c + k.z()*k.z()*(1 - c);
  return m;
}
struct motion
{
  int how; mat3 r; vec3 t, axis; double angle;
  motion()
  {
    how = vp_choice("how", 3);   // translate, rotate, transform
    r = mat3::Identity(); t = axis = vec3(0, 0, 0); angle = 0;
    if (how != 1) t = vp_vec("t", 10);
    if (how == 1)
    {
      int a = vp_choice("axis", 4);
      angle = vp_angle("angle");
      if (a < 3) axis[a] = 1; else axis = vec3(vp_rat(2, 7), vp_rat(3, 7), vp_rat(6, 7));
      r = rodrigues(angle, axis);
    }
    if (how == 2) r = vp_rot("rot");
  }
  template <class T> void apply(T & e) const
  {
    if (how == 0) e.translate(t);
    else if (how == 1) e.rotate(angle, axis);
    else e.transform(vp_affine(r, t));
  }
};
static void compare(state const & a, state const & b, motion const & m)
{
  vp_assert(a.np == b.np && a.nv == b.nv, "a moved piece stays of its kind");
  for (int i = 0; i < a.np; ++i) vp_eq3(b.p[i], vec3(vp_mul(m.r, a.p[i]) + m.t), "points move with the motion");
  for (int i = 0; i < a.nv; ++i) vp_eq3(b.v[i], vp_mul(m.r, a.v[i]), "directions turn with the motion");
  vp_eq(a.r, b.r, "the radius is kept");
}
extern "C" void motion_entity()
{
  int kind = vp_choice("kind", 9);
  entity * e = make(kind, "a");
  motion m;
  state a = look(e);
  m.apply(*e);
  compare(a, look(e), m);
  vp_reach("end");
}
extern "C" void motion_collection()
{
  static int const KINDS[4][3] = {{0, 4, 7}, {1, 5, 8}, {2, 6, 0}, {3, 5, 4}};
  int k = vp_choice("k", 4);
  collection c;
  entity::ptr e[3];
  state a[3];
  for (int i = 0; i < 3; ++i) {e[i] = entity::ptr(make(KINDS[k][i], i == 0 ? "a" : i == 1 ? "b" : "c")); a[i] = look(e[i].get()); c.push_back(e[i]);}
  motion m;
  m.apply(c);
  vp_assert(c.size() == 3, "moving keeps the number of entities");
  for (int i = 0; i < 3; ++i) compare(a[i], look(c[i].get()), m);
  vp_reach("end");
}
template <class T> static void turned(T e, vec3 const & d)
{
  T f(e), g(e);
  state a = look(&e), b, c;
  f.reverse(); b = look(&f);
  vp_eq3(b.p[0], a.p[0], "reversing keeps the place"); vp_eq3(b.v[0], -d, "reversing turns the direction round");
  vp_eq(a.r, b.r, "reversing keeps the radius");
  g.normalize(); c = look(&g);
  vp_eq3(c.p[0], a.p[0], "normalising keeps the place"); vp_eq(a.r, c.r, "normalising keeps the radius");
  vp_eq(vp_dot(c.v[0], c.v[0]), 1.0, "a normalised direction has unit length");
  vp_eq3(vp_cross(c.v[0], d), vec3(0, 0, 0), "normalising keeps the direction"); vp_lt(0.0, vp_dot(c.v[0], d), "normalising keeps the direction");
}
template <class T> static void straight(T const & e, vec3 const & d)
{
  vec3 u(e.toUnitVector());
  vp_eq3(e.toVector(), d, "vector along");
  vp_eq(vp_dot(u, u), 1.0, "unit vector along"); vp_eq3(vp_cross(u, d), vec3(0, 0, 0), "unit vector along"); vp_lt(0.0, vp_dot(u, d), "unit vector along");
}
extern "C" void motion_reverse()
{
  int kind = vp_choice("kind", 4);
  vec3 p = vp_vec("p", 5), d = vp_vec("d", 3);
  vp_assume(vp_dot(d, d) > 0.01);
  point o(p);
  if (kind == 0) {turned(line(o, d), d); straight(line(o, d), d);}
  else if (kind == 1) {turned(ray(o, d), d); straight(ray(o, d), d);}
  else if (kind == 2) {turned(plane(o, d), d); vec3 u(plane(o, d).unitNormal()); vp_eq(vp_dot(u, u), 1.0, "unit normal"); vp_eq3(vp_cross(u, d), vec3(0, 0, 0), "unit normal"); vp_lt(0.0, vp_dot(u, d), "unit normal");}
  else turned(disk(vp_real("r", 0.1, 3), o, d), d);
  vp_reach("end");
}
