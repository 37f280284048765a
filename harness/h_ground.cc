// Ground elements: facets, planes, meshes; refusal of invalid input; copies.
#include "common.h"
using namespace enve;
typedef triangleground::vecptr vecptr;
static vec3 const E0(0, 0, 0);
extern "C" void facet()
{
  vp_ite_mode(0);
  int ctor = vp_choice("ctor", 3), id = vp_int("id", -1000, 1000);
  double mu = vp_real("mu", 0, 10);
  vec3 a = vp_vec("a", 10), b = vp_vec("b", 10), c = vp_vec("c", 10), k = vp_cross(b - a, c - a);
  vp_assume(vp_dot(k, k) > 0.000001 && (k.z() > 0.0001 || k.z() < -0.0001));
  point v[3] = {point(a), point(b), point(c)};
  std::shared_ptr<triangleground> t = ctor == 0 ? std::make_shared<triangleground>(id, mu, v[0], v[1], v[2])
    : ctor == 1 ? std::make_shared<triangleground>(id, mu, v) : std::make_shared<triangleground>(id, mu, a.x(), a.y(), a.z(), b.x(), b.y(), b.z(), c.x(), c.y(), c.z());
  triangleground const & g = *t;
  vec3 n = g.normal();
  vp_eq(vp_dot(n, n), 1.0, "the normal is a unit vector");
  vp_eq(vp_dot(n, b - a), 0.0, "the normal is orthogonal to the facet"); vp_eq(vp_dot(n, c - a), 0.0, "the normal is orthogonal to the facet");
  vp_lt(0.0, n.z(), "the normal points upward");
  vp_eq(g.friction(), mu, "friction as given"); vp_assert(g.id() == id, "id as given");
  for (int i = 0; i < 3; ++i) {vp_eq3(g.vertex(i), v[i], "vertex as given"); vp_eq3(g[i], v[i], "vertex as given");}
  vp_reach("end");
}
extern "C" void facet_box()
{
  vp_ite_mode(0);
  int axis = vp_choice("axis", 3);
  double q[3][3] = {{0, 1, 0.25}, {2, -1, 0.5}, {-0.5, 3, 0.125}};
  for (int i = 0; i < 3; ++i) q[i][axis] = vp_real(vp_name("v", i).c_str(), -10, 10);
  vec3 a(q[0][0], q[0][1], q[0][2]), b(q[1][0], q[1][1], q[1][2]), c(q[2][0], q[2][1], q[2][2]), k = vp_cross(b - a, c - a);
  vp_assume(vp_dot(k, k) > 0.000001 && (k.z() > 0.0001 || k.z() < -0.0001));
  triangleground t(5, 0.5, point(a), point(b), point(c));
  triangleground const & g = t;
  for (int j = 0; j < 3; ++j)
  {
    bool lo = false, hi = false;
    for (int i = 0; i < 3; ++i)
    {
      vp_le(g.bbox().min(j), q[i][j], "the box contains the facet"); vp_le(q[i][j], g.bbox().max(j), "the box contains the facet");
      lo = lo || q[i][j] == g.bbox().min(j); hi = hi || q[i][j] == g.bbox().max(j);
    }
    vp_assert(lo && hi, "the box is tight");
  }
  vp_assert(g.bbox().id() == 5, "the box is the facet's");
  vp_reach("end");
}
extern "C" void plane_ground()
{
  vp_ite_mode(0);
  int ctor = vp_choice("ctor", 3);
  double mu = vp_real("mu", 0, 10);
  vec3 o = vp_vec("o", 10), n = vp_vec("n", 10);
  vp_assume(n.z() > 0.001);
  std::shared_ptr<ground::flat> p = ctor == 0 ? std::make_shared<ground::flat>(mu, point(o), n)
    : ctor == 1 ? std::make_shared<ground::flat>(mu, o.x(), o.y(), o.z(), n.x(), n.y(), n.z()) : std::make_shared<ground::flat>(mu, acme::plane(point(o), n));
  ground::flat const & f = *p;
  vec3 m = f.normal();
  vp_eq(vp_dot(m, m), 1.0, "the normal is a unit vector"); vp_eq3(vp_cross(m, n), E0, "the normal has the given direction"); vp_lt(0.0, m.z(), "the normal points upward");
  vp_eq(vp_dot(vec3(f.origin()) - o, n), 0.0, "the ground passes through the given point");
  vp_eq(f.friction(), mu, "friction as given");
  vp_reach("end");
}
template <class F> static bool refuses(F f)
{
  try {f();} catch (std::exception const &) {return true;}
  return false;
}
extern "C" void refuse_values()
{
  vp_ite_mode(0);
  int k = vp_choice("k", 9);
  double v = vp_real("v", -2, 2);
  point a(0, 0, 0), b(1, 0, 0), c(0, 1, 0);
  point q[3] = {a, b, c};
  bool r = false, bad = v < 0;
  if (k == 0) r = refuses([&]{triangleground t(0, v, a, b, c);});
  if (k == 1) r = refuses([&]{triangleground t(0, v, q);});
  if (k == 2) r = refuses([&]{triangleground t(0, v, 0, 0, 0, 1, 0, 0, 0, 1, 0);});
  if (k == 3) r = refuses([&]{ground::flat f(v, a, vec3(0, 0, 1));});
  if (k == 4) r = refuses([&]{ground::flat f(v, 0, 0, 0, 0, 0, 1);});
  if (k == 5) r = refuses([&]{ground::flat f(v, acme::plane(a, vec3(0, 0, 1)));});
  if (k > 5) bad = v <= 0;
  if (k == 6) r = refuses([&]{ground::flat f(0.5, a, vec3(0.5, 0, v));});
  if (k == 7) r = refuses([&]{ground::flat f(0.5, 0, 0, 0, 0, 0.5, v);});
  if (k == 8) r = refuses([&]{ground::flat f(0.5, acme::plane(a, vec3(0.5, 0.25, v)));});
  vp_assert(r == bad, bad ? "an invalid value is refused" : "a valid value is accepted");
  vp_reach(bad ? "refused" : "accepted");
}
extern "C" void refuse_methods()
{
  vp_ite_mode(0);
  static char const * M[] = {"geometric", "sampling", "", "Geometric", "geometric ", "geometri", "samplings", "sample", " sampling"};
  int k = vp_choice("k", 9), w = vp_choice("w", 5);
  double z = vp_real("z", 0.3, 0.7);
  ground::flat f(0.5, point(0, 0, 0), vec3(0, 0, 1));
  vecptr v;
  v.push_back(std::make_shared<triangleground const>(0, 0.5, point(-9, -9, 0), point(9, -9, 0), point(0, 9, 0)));
  ground::mesh m(v);
  affine p = vp_affine(mat3::Identity(), vec3(0, 0, z));
  shell s(2, 0.5, 2.0, 0.5, 2.0, 0.25);
  rib b(0, 0.5, 0, 0.1, 0);
  output o;
  bool r = false, bad = k > 1;
  if (w == 0) r = refuses([&]{b.envelop(f, p, M[k], o);});
  if (w == 1) r = refuses([&]{b.envelop(v, p, M[k], o);});
  if (w == 2) r = refuses([&]{s.setup(f, p, M[k]);});
  if (w == 3) {vp_assume(z < 0.49); r = refuses([&]{s.setup(m, p, M[k]);});}
  if (w == 4) {bad = true; r = refuses([&]{shell n(0, 0.5, 2.0, 0.5, 2.0, 0.25);}) && refuses([&]{s.resize(0);});}
  vp_assert(r == bad, bad ? "invalid input is refused" : "valid input is accepted");
  vp_reach(bad ? "refused" : "accepted");
}
// copies
static void same_out(output const & a, output const & b)
{
  vp_eq3(a.point, b.point, "the copy answers as the original"); vp_eq3(a.normal, b.normal, "the copy answers as the original");
  vp_eq(a.friction, b.friction, "the copy answers as the original"); vp_eq(a.depth, b.depth, "the copy answers as the original");
  vp_eq(a.area, b.area, "the copy answers as the original"); vp_eq(a.volume, b.volume, "the copy answers as the original");
}
extern "C" void copy_shape()
{
  vp_ite_mode(0);
  int ctor = vp_choice("ctor", 2);
  double rx = vp_real("rx", 0.1, 2), mx = vp_real("mx", 1, 5), ry = vp_real("ry", 0.1, 2), my = vp_real("my", 1, 5), ly = vp_real("ly", 0.01, 0.1);
  shape a(rx, mx, ry, my, ly), b(a), c(1, 2, 3, 4, 0.5);
  if (ctor) c.copy(a);
  shape const & d = ctor ? c : b;
  vp_eq(d.Rx(), rx, "semi-axis"); vp_eq(d.Mx(), mx, "degree"); vp_eq(d.Ry(), ry, "semi-axis"); vp_eq(d.My(), my, "degree"); vp_eq(d.Ly(), ly, "half width");
  vp_eq(d.surfaceMaxRadius(), rx, "greatest radius"); vp_eq(d.surfaceWidth(), ly, "half width"); vp_eq(d.surfaceMaxWidth(), ly, "half width");
  vp_assert(d.isApprox(a, 1e-9) && a.isApprox(d, 1e-9), "the copy is equal");
  vp_reach("end");
}
extern "C" void copy_rib()
{
  vp_ite_mode(0);
  int ctor = vp_choice("ctor", 2), m = vp_choice("m", 2), g = vp_choice("g", 2), id = 17*vp_choice("id", 2);
  double y = vp_real("y", -1, 1), w = vp_real("w", 0.01, 0.3), t = vp_real("t", -1, 1);
  rib a(id, 0.5, y, w, t), b(a), c(3, 0.25, 0.125, 0.5, 0.25);
  if (ctor) c.copy(a);
  rib const & d = ctor ? c : b;
  vp_eq(d.radius(), 0.5, "radius"); vp_eq(d.width(), w, "width"); vp_eq(d.angle(), t, "angle");
  vp_eq3(d.center(), vec3(0, y, 0), "centre"); vp_eq3(d.normal(), vec3(0, 1, 0), "axle");
  vp_assert(d.isApprox(a) && a.isApprox(d), "the copy is equal");
  output o, p;
  affine pose = vp_affine(mat3::Identity(), vec3(0, 0, 0.25));
  vecptr v;
  v.push_back(std::make_shared<triangleground const>(0, 0.5, point(-9, -9, 0), point(9, -9, 0), point(0, 9, 0)));
  ground::flat f(0.5, point(0, 0, 0), vec3(0, 0, 1));
  if (g) {a.envelop(v, pose, m ? "sampling" : "geometric", o); d.envelop(v, pose, m ? "sampling" : "geometric", p);}
  else {a.envelop(f, pose, m ? "sampling" : "geometric", o); d.envelop(f, pose, m ? "sampling" : "geometric", p);}
  same_out(o, p);
  vp_reach("end");
}
extern "C" void copy_ground()
{
  vp_ite_mode(0);
  int k = vp_choice("k", 2), id = vp_int("id", 0, 1000);
  double mu = vp_real("mu", 0, 10);
  vec3 a = vp_vec("a", 10);
  if (k == 0)
  {
    triangleground t(id, mu, point(a), point(a + vec3(1, 0, 0.25)), point(a + vec3(0, 1, 0.5))), u(7, 0.125, point(0, 0, 0), point(2, 0, 0), point(0, 2, 0));
    u.copy(t);
    triangleground const & s = t, & d = u;
    for (int i = 0; i < 3; ++i) vp_eq3(d.vertex(i), s.vertex(i), "vertex");
    vp_eq3(d.normal(), s.normal(), "normal"); vp_eq(d.friction(), mu, "friction"); vp_assert(d.id() == id, "id");
    vp_eq3(d.bbox().min(), s.bbox().min(), "box"); vp_eq3(d.bbox().max(), s.bbox().max(), "box");
  }
  else
  {
    ground::flat f(mu, point(a), vec3(0.25, 0.5, 1)), g;
    g.copy(f);
    vp_eq3(vec3(g.origin()), a, "point"); vp_eq3(g.normal(), f.normal(), "normal"); vp_eq(g.friction(), mu, "friction");
  }
  vp_reach("end");
}
static vecptr road(int n, double mu, double o = 0)
{
  vecptr v;
  for (int i = 0; i < n; ++i) v.push_back(std::make_shared<triangleground const>(i, mu + i, point(o - 9 + 4*i, -9, 0), point(o + 9 + 4*i, -9, 0), point(o + 4*i, 9, 0)));
  return v;
}
extern "C" void copy_mesh()
{
  vp_ite_mode(0);
  int n = vp_choice("n", 4), m = vp_choice("m", 2), old = vp_choice("old", 4), off = old ? vp_choice("off", 2 + (old > 1 && old <= n)) : 0;
  double x = m ? vp_real("x", -2, 2) : 0.625*vp_choice("x", 3), mu = vp_real("mu", 0, 3);
  vecptr v = road(n, mu), w = road(old, 1, off ? 64 : 0);
  if (off == 2) {w.front() = v.front(); w.back() = v[old - 1];}
  ground::mesh a(v), b(w);
  b.copy(a);
  vp_assert(b.size() == size_t(n), "same number of facets");
  for (int i = 0; i < n; ++i) vp_assert(b.ptrTriangleground(i).get() == v[i].get() && b[i].get() == v[i].get() && b.vecptrTriangleground()[i].get() == v[i].get(), "same facets");
  affine p = vp_affine(mat3::Identity(), vec3(x, 0, 0.375));
  shell s(2, 0.5, 2.0, 0.5, 2.0, 0.25), t(2, 0.5, 2.0, 0.5, 2.0, 0.25);
  bool ra = s.setup(a, p, m ? "sampling" : "geometric"), rb = t.setup(b, p, m ? "sampling" : "geometric");
  vp_assert(ra == rb, "the copy answers as the original");
  for (int i = 0; i < 2; ++i)
  {
    output o, q;
    s.contactPoint(i, o.point); s.contactNormal(i, o.normal); s.contactFriction(i, o.friction); s.contactDepth(i, o.depth); s.contactArea(i, o.area); s.contactVolume(i, o.volume);
    t.contactPoint(i, q.point); t.contactNormal(i, q.normal); t.contactFriction(i, q.friction); t.contactDepth(i, q.depth); t.contactArea(i, q.area); t.contactVolume(i, q.volume);
    same_out(o, q);
  }
  vp_reach("end");
}
// nothing to touch: no contact, whatever the history of the mesh
extern "C" void mesh_empty()
{
  vp_ite_mode(0);
  int k = vp_choice("k", 4), m = vp_choice("m", 2);
  double z = vp_real("z", 0.1, 0.4);
  ground::mesh a, b(road(2, 1)), c(vecptr{});
  if (k > 1) {b.clear(); if (k == 3) b.copy(a);}
  ground::mesh const & g = k == 0 ? a : k == 1 ? c : b;
  vp_assert(g.size() == 0, "no facets");
  shell s(2, 0.5, 2.0, 0.5, 2.0, 0.25);
  bool r = s.setup(g, vp_affine(mat3::Identity(), vec3(0, 0, z)), m ? "sampling" : "geometric");
  vp_assert(!r, "no contact with an empty mesh");
  for (int i = 0; i < 2; ++i)
  {
    double d, ar, vo, fr;
    vec3 n; point p;
    s.contactDepth(i, d); s.contactArea(i, ar); s.contactVolume(i, vo); s.contactFriction(i, fr); s.contactNormal(i, n); s.contactPoint(i, p);
    vp_eq(d, 0.0, "no depth"); vp_eq(ar, 0.0, "no area"); vp_eq(vo, 0.0, "no volume"); vp_eq(fr, 0.0, "no friction"); vp_eq3(n, vec3(0, 0, 1), "vertical of the shell");
    vp_eq3(p, vec3(0, vec3(s.ribCenter(i)).y(), z - s.ribRadius(i)), "point under the rib");
  }
  vp_reach("end");
}
