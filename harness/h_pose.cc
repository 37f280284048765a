// The pose of a shell and its surface functions.
#include "common.h"
using namespace enve;
static mat3 about(int a, double c, double s)
{
  mat3 m = mat3::Identity();
  int p = (a + 1) % 3, q = (a + 2) % 3;
  m(p,p) = c; m(p,q) = -s; m(q,p) = s; m(q,q) = c;
  return m;
}
static mat3 times(mat3 const & a, mat3 const & b)
{
  mat3 m;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i,j) = a(i,0)*b(0,j) + a(i,1)*b(1,j) + a(i,2)*b(2,j);
  return m;
}
static void check(shell const & s, mat3 const & r, vec3 const & t)
{
  vp_eq3(s.translation(), t, "the position reported");
  mat3 l = s.linear();
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
  {
    vp_eq(l(i,j), r(i,j), "the orientation reported");
    vp_eq(s.transformation().matrix()(i,j), r(i,j), "the orientation within the transformation");
  }
  for (int i = 0; i < 3; ++i) {vp_eq(s.transformation().matrix()(i,3), t(i), "the position within the transformation"); vp_eq(s.transformation().matrix()(3,i), 0.0, "an affine transformation");}
  vp_eq(s.transformation().matrix()(3,3), 1.0, "an affine transformation");
  vp_eq3(s.x(), vec3(r(0,0), r(1,0), r(2,0)), "the first axis reported"); vp_eq3(s.y(), vec3(r(0,1), r(1,1), r(2,1)), "the second axis reported");
  vp_eq3(s.z(), vec3(r(0,2), r(1,2), r(2,2)), "the third axis reported");
}
// moves and turns in the axes of the shell, one after the other
extern "C" void pose_moves()
{
  vp_ite_mode(0);
  shell s(2, 0.5, 2.0, 0.5, 2.0, 0.25);
  mat3 r = mat3::Identity();
  vec3 t(0, 0, 0);
  check(s, r, t);
  for (int k = 0; k < 3; ++k)
  {
    int how = vp_choice(vp_name("how", k).c_str(), 5);
    if (how == 0)
    {
      vec3 v = vp_vec(vp_name("v", k).c_str(), 10);
      s.translate(v); t += vp_mul(r, v);
    }
    else if (how == 1)
    {
      int a = vp_choice(vp_name("axis", k).c_str(), 3);
      double g = vp_angle(vp_name("g", k).c_str());
      vec3 e(0, 0, 0); e(a) = 1;
      s.rotate(g, e); r = times(r, about(a, std::cos(g), std::sin(g)));
    }
    else if (how == 4) s.resize(1 + vp_choice(vp_name("n", k).c_str(), 2)*2);
    else
    {
      mat3 q = vp_rot_axis(vp_name("q", k).c_str(), k);
      vec3 v = vp_vec(vp_name("w", k).c_str(), 10);
      affine p = vp_affine(q, v);
      if (how == 2) s.transform(p);
      else {ground::flat g(0.5, 0.0, 0.0, -100.0, 0.0, 0.0, 1.0); s.setup(g, p, "sampling");}
      r = q; t = v;
    }
  }
  check(s, r, t);
  vp_reach("end");
}
// a contact computation on a mesh leaves the shell where it was put; a second one elsewhere moves it there
extern "C" void pose_mesh()
{
  vp_ite_mode(0);
  int m = vp_choice("m", 2), far = vp_choice("far", 3);
  triangleground::vecptr v;
  v.push_back(std::make_shared<triangleground const>(0, 0.5, point(-9, -9, 0), point(9, -9, 0), point(0, 9, 0)));
  ground::mesh g(v);
  shell s(2, 0.5, 2.0, 0.5, 2.0, 0.25);
  mat3 q = vp_rot_axis("q", 2), i = mat3::Identity();
  vec3 a(far == 1 ? 100 : 0, 0, vp_real("z", 0.2, 0.6)), b(far == 2 ? 100 : 0.25, 0.5, 0.375);
  s.setup(g, vp_affine(i, a), m ? "sampling" : "geometric");
  check(s, i, a);
  if (far == 2) {s.setup(g, vp_affine(q, b), m ? "sampling" : "geometric"); check(s, q, b);}
  else {s.setup(g, vp_affine(i, b), m ? "sampling" : "geometric"); check(s, i, b);}
  vp_reach("end");
}
// the surface functions of a shell are those of its shape, before and after resizing and moving
extern "C" void pose_surface()
{
  double Rx = vp_real("Rx", 0.1, 2.0), Ry = vp_real("Ry", 0.1, 2.0), Ly = vp_real("Ly", 0.05, 1.5), y = vp_real("y", -2.0, 2.0);
  double const M[] = {1, 2, 3};
  double Mx = M[vp_choice("Mx", 2)], My = M[vp_choice("My", 3)];
  vp_assume(Ly < 0.9*Ry && (y < Ly - 0.001 || y > Ly + 0.001) && (y > -Ly + 0.001 || y < -Ly - 0.001));
  vp_assume(y > 0.001 || y < -0.001);
  shape p(Rx, Mx, Ry, My, Ly);
  shell s(1, Rx, Mx, Ry, My, Ly);
  if (vp_choice("later", 2)) {s.resize(2); s.translate(vec3(1, 2, 3));}
  vp_eq(s.surfaceMaxRadius(), Rx, "largest radius"); vp_eq(s.surfaceMaxWidth(), p.surfaceMaxWidth(), "largest half width as of the shape"); vp_eq(s.surfaceWidth(), Ly, "half width");
  bool in = y <= Ly && y >= -Ly;
  vp_assert(s.checkWidthBound(y) == in, "lateral position within the width");
  if (in)
  {
    vp_eq(s.surfaceRadius(y), p.surfaceRadius(y), "radius as of the shape"); vp_eq(s.surfaceDerivative(y), p.surfaceDerivative(y), "slope as of the shape");
    vp_eq(s.surfaceAngle(y), p.surfaceAngle(y), "angle as of the shape");
    vp_reach("in");
  }
  else
  {
    int n = 0;
    try {s.surfaceRadius(y);} catch (std::exception const &) {n += 1;}
    try {s.surfaceAngle(y);} catch (std::exception const &) {n += 10;}
    try {s.surfaceDerivative(y);} catch (std::exception const &) {n += 100;}
    vp_assert(n == 111, "positions outside the width are refused");
    vp_reach("out");
  }
}
// rigid transformations pass, scaled or mirrored ones do not
extern "C" void pose_check()
{
  shell s(1, 0.5, 2.0, 0.5, 2.0, 0.25);
  double k = vp_real("k", -3.0, 3.0), tol = vp_choice("tol", 2) ? 0.0625 : 1e-6;
  mat3 r = vp_rot_axis("r", vp_choice("axis", 3));
  r.col(vp_choice("col", 3)) *= k;
  affine p = vp_affine(r, vp_vec("t", 100));
  vp_assume((k < 1 + 0.5*tol && k > 1 - 0.5*tol) || k > 1 + 2*tol || k < 1 - 2*tol);
  bool in = k < 1 + tol && k > 1 - tol;
  vp_assert(s.checkTransformation(p, tol) == in, "rigid transformations, and only those, pass the check");
  vp_assert(s.checkTransformation(p.matrix(), tol) == in, "rigid transformations, and only those, pass the check");
  vp_reach(in ? "yes" : "no");
}
