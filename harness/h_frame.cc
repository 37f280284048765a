// Contact reference frames and relative angles of a shell.
#include "common.h"
using namespace enve;
static void frame(affine const & a, vec3 const & p, vec3 const & n, vec3 const & axle)
{
  vec3 x(a.linear()(0,0), a.linear()(1,0), a.linear()(2,0)), y(a.linear()(0,1), a.linear()(1,1), a.linear()(2,1)), z(a.linear()(0,2), a.linear()(1,2), a.linear()(2,2));
  vp_eq3(a.translation(), p, "the frame is at the contact point");
  vp_eq3(z, n, "the third axis is the contact normal");
  vp_eq(vp_dot(x, x), 1.0, "the first axis is a unit vector"); vp_eq(vp_dot(y, y), 1.0, "the second axis is a unit vector");
  vp_eq(vp_dot(x, axle), 0.0, "the first axis is normal to the axle"); vp_eq(vp_dot(x, z), 0.0, "the first axis is on the ground");
  vp_eq3(vp_cross(z, x), y, "the frame is right handed");
  vp_lt(0.0, vp_dot(y, axle), "the second axis is on the side of the axle");
  for (int i = 0; i < 4; ++i) vp_eq(a.matrix()(3,i), i == 3 ? 1.0 : 0.0, "the frame is rigid");
}
static vec3 up(int c)
{
  if (c == 1) return vec3(vp_rat(7, 25), 0, vp_rat(24, 25));
  if (c == 2) return vec3(0, vp_rat(-7, 25), vp_rat(24, 25));
  if (c == 3) return vec3(vp_rat(9, 25), vp_rat(12, 25), vp_rat(4, 5));
  return vec3(0, 0, 1);
}
static mat3 euler(vec3 const & a)
{
  double cz = std::cos(a.x()), sz = std::sin(a.x()), cx = std::cos(a.y()), sx = std::sin(a.y()), cy = std::cos(a.z()), sy = std::sin(a.z());
  mat3 m;
  m(0,0) = cz*cy - sz*sx*sy; m(0,1) = -sz*cx; m(0,2) = cz*sy + sz*sx*cy;
  m(1,0) = sz*cy + cz*sx*sy; m(1,1) = cz*cx;  m(1,2) = sz*sy - cz*sx*cy;
  m(2,0) = -cx*sy;           m(2,1) = sx;     m(2,2) = cx*cy;
  return m;
}
static void same(mat3 const & a, mat3 const & b, char const * l)
{
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vp_eq(a(i,j), b(i,j), l);
}
// any heading, lean and rotation of the shell
extern "C" void frame_pose()
{
  vp_ite_mode(0);
  int m = vp_choice("m", 2), g = vp_choice("g", 4);
  double z[2], x[2];
  vp_unit("z", 2, z); vp_unit("x", 2, x);
  vp_assume(x[0] > 0.5);
  mat3 r;
  r << z[0], -z[1]*x[0], z[1]*x[1], z[1], z[0]*x[0], -z[0]*x[1], 0, x[1], x[0];
  vec3 t = vp_vec("t", 100), n = up(g);
  vec3 nw = vp_mul(r, n), p = t - 0.25*nw;
  vp_assume(nw.z() > 0.1);
  ground::flat f(0.5, point(p), nw);
  shell s(1, 0.5, 2.0, 0.5, 2.0, 0.25);
  bool c = s.setup(f, vp_affine(r, t), m ? "sampling" : "geometric");
  vp_reach(c ? "hit" : "rest");
  affine a, b;
  point q; vec3 k;
  s.contactPointAffine(0, a); s.contactPoint(0, q); s.contactNormal(0, k);
  frame(a, q, k, vec3(r(0,1), r(1,1), r(2,1)));
  if (g == 0)
  {
    s.contactPointAffine(b); s.contactPoint(q); s.contactNormal(k);
    frame(b, q, k, vec3(r(0,1), r(1,1), r(2,1)));
  }
  vp_reach("end");
}
// any ground direction
extern "C" void frame_ground()
{
  vp_ite_mode(0);
  double a[2], b[2];
  vp_unit("a", 2, a); vp_unit("b", 2, b);
  vp_assume(a[0] > 0.5 && b[0] > 0.5);
  vec3 n(a[1], a[0]*b[1], a[0]*b[0]);
  vec3 t(3, 4, 0.5), p = t - 0.0625*n;
  ground::flat f(0.5, point(p), n);
  shell s(1, 0.5, 2.0, 0.5, 2.0, 0.25);
  bool c = s.setup(f, vp_affine(mat3::Identity(), t), "sampling");
  vp_assert(c, "contact");
  affine e;
  point q; vec3 k;
  s.contactPointAffine(0, e); s.contactPoint(0, q); s.contactNormal(0, k);
  vp_eq3(k, n, "normal of the ground");
  frame(e, q, k, vec3(0, 1, 0));
  vp_reach("end");
}
// the lists hold one entry per rib, whatever they held before
extern "C" void frame_lists()
{
  vp_ite_mode(0);
  int n = 1 + vp_choice("n", 3), old = vp_choice("old", 3);
  double z = vp_real("z", 0.3, 0.45);
  ground::flat f(0.5, point(0, 0, 0), up(2));
  shell s(n, 0.5, 2.0, 0.5, 2.0, 0.25);
  s.setup(f, vp_affine(mat3::Identity(), vec3(0, 0, z)), "sampling");
  std::vector<affine> a(old == 0 ? 0 : old == 1 ? n : n + 2);
  std::vector<vec3> v(a.size());
  s.contactPointAffine(a); s.relativeAngles(v);
  vp_assert(a.size() == size_t(n), "one frame per rib"); vp_assert(v.size() == size_t(n), "one set of angles per rib");
  for (int i = 0; i < n; ++i)
  {
    affine b; vec3 w; point q; vec3 k;
    s.contactPointAffine(i, b); s.relativeAngles(i, w); s.contactPoint(i, q); s.contactNormal(i, k);
    same(a[i].linear(), b.linear(), "frame of the rib"); vp_eq3(a[i].translation(), b.translation(), "frame of the rib");
    vp_eq3(v[i], w, "angles of the rib");
    frame(b, q, k, vec3(0, 1, 0));
  }
  vp_reach("end");
}
extern "C" void euler_pose()
{
  vp_ite_mode(0);
  mat3 r = vp_rot("r");
  shell s(1, 0.5, 2.0, 0.5, 2.0, 0.25);
  s.transform(vp_affine(r, vec3(1, 2, 3)));
  vec3 a;
  s.eulerAngles(a);
  same(euler(a), r, "the angles rebuild the rotation, sequence ZXY");
  vp_reach("end");
}
// angles between the contact frame and the shell; per rib the first one less the rib angle
extern "C" void euler_relative()
{
  vp_ite_mode(0);
  int g = vp_choice("g", 4), n = 1 + vp_choice("n", 2);
  double z[2];
  vp_unit("z", 2, z);
  mat3 r = mat3::Identity();
  r(0,0) = z[0]; r(0,1) = -z[1]; r(1,0) = z[1]; r(1,1) = z[0];
  vec3 k = up(g), t(3, 4, 0), nw = vp_mul(r, k);
  ground::flat f(0.5, point(t - 0.25*nw), nw);
  shell s(n, 0.5, 2.0, 0.5, 2.0, 0.25);
  s.setup(f, vp_affine(r, t), "sampling");
  affine a; vec3 w;
  mat3 l;
  if (n == 1)
  {
    s.contactPointAffine(a); s.relativeAngles(w);
    l = a.linear();
    same(euler(w), mat3(l.transpose()*r), "the angles rebuild the rotation from the contact frame to the shell");
  }
  for (int i = 0; i < n; ++i)
  {
    s.contactPointAffine(i, a); s.relativeAngles(i, w);
    l = a.linear();
    w.x() += s.ribAngle(i);
    same(euler(w), mat3(l.transpose()*r), "the angles rebuild the rotation from the rib contact frame to the rib");
  }
  vp_reach("end");
}
