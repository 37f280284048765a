// Comparing within a tolerance.
#include "prim.h"
using namespace enve;
// the data of a piece: three vectors of norm between 0.9 and 1.7 each, scalars between 1 and 2
struct data {vec3 v[3]; double r[5]; int id;};
static data any()
{
  data d;
  for (int i = 0; i < 3; ++i)
  {
    std::string n = vp_name("v", i);
    d.v[i] = vec3(0, 0, 0);
    d.v[i](i) = vp_real((n + "u").c_str(), 1.0, 1.5); d.v[i]((i + 1) % 3) = vp_real((n + "v").c_str(), -0.5, 0.5); d.v[i]((i + 2) % 3) = 0.25;
  }
  for (int i = 0; i < 5; ++i) d.r[i] = vp_real(vp_name("r", i).c_str(), 1.0, 2.0);
  d.id = 3;
  return d;
}
// the vectors and scalars used by a kind
static int const NV[] = {2, 2, 2, 2, 3, 2, 1, 2, 0, 0, 1, 3, 1}, NR[] = {0, 0, 0, 0, 0, 1, 1, 0, 5, 4, 1, 1, 0};
static bool same(int kind, data const & a, data const & b, double t, bool given)
{
#define CMP(x, y) (given ? (x).isApprox(y, t) : (x).isApprox(y))
  switch (kind)
  {
  case 0: {line x(point(a.v[0]), a.v[1]), y(point(b.v[0]), b.v[1]); return CMP(x, y);}
  case 1: {ray x(point(a.v[0]), a.v[1]), y(point(b.v[0]), b.v[1]); return CMP(x, y);}
  case 2: {plane x(point(a.v[0]), a.v[1]), y(point(b.v[0]), b.v[1]); return CMP(x, y);}
  case 3: {segment x(point(a.v[0]), point(a.v[1])), y(point(b.v[0]), point(b.v[1])); return CMP(x, y);}
  case 4: {triangle x(point(a.v[0]), point(a.v[1]), point(a.v[2])), y(point(b.v[0]), point(b.v[1]), point(b.v[2])); return CMP(x, y);}
  case 5: {disk x(a.r[0], point(a.v[0]), a.v[1]), y(b.r[0], point(b.v[0]), b.v[1]); return CMP(x, y);}
  case 6: {ball x(a.r[0], point(a.v[0])), y(b.r[0], point(b.v[0])); return CMP(x, y);}
  case 7: {aabb x, y; x.min() = point(a.v[0]); x.max() = point(a.v[1]); y.min() = point(b.v[0]); y.max() = point(b.v[1]); return CMP(x, y);}
  case 8: {shape x(a.r[0], a.r[1], a.r[2], a.r[3], a.r[4]), y(b.r[0], b.r[1], b.r[2], b.r[3], b.r[4]); return CMP(x, y);}
  case 9: {rib x(a.id, a.r[0], a.r[1], a.r[2], a.r[3]), y(b.id, b.r[0], b.r[1], b.r[2], b.r[3]); return CMP(x, y);}
  case 10: {ground::flat x(a.r[0], point(a.v[0]), vec3(0, 0, 1)), y(b.r[0], point(b.v[0]), vec3(0, 0, 1)); return CMP(x, y);}
  case 11: {triangleground x(a.id, a.r[0], point(a.v[0]), point(a.v[1]), point(a.v[2])), y(a.id, b.r[0], point(b.v[0]), point(b.v[1]), point(b.v[2])); return CMP(x, y);}
  default: {point x(a.v[0]), y(b.v[0]); return CMP(x, y);}
  }
#undef CMP
}
static char const * const YES = "pieces that agree within the tolerance are equal", * const NO = "pieces that differ by more than the tolerance are not equal";
static void both(int kind, data const & a, data const & b, double t, bool given, bool want)
{
  vp_assert(same(kind, a, b, t, given) == want, want ? YES : NO);
  vp_assert(same(kind, b, a, t, given) == want, want ? YES : NO);
}
// data further apart than the tolerance in one place, or nearer everywhere
extern "C" void approx_pieces()
{
  int kind = vp_choice("kind", 13), tol = vp_choice("tol", 4);
  bool given = tol > 0 || kind == 12;
  double t = tol == 0 ? 1e-8 : tol == 1 ? 1e-6 : tol == 2 ? 0.0009765625 : 0.0625;
  data a = any(), b = a;
  both(kind, a, b, t, given, true);
  int n = NV[kind] + NR[kind], k = vp_choice("datum", 9);
  if (k == n)
  {
    // all data a little off
    for (int i = 0; i < NV[kind]; ++i) b.v[i](vp_choice("axis", 3)) += 0.25*t;
    double e = vp_real("e", -0.5, 0.5)*t;
    for (int i = 0; i < NR[kind]; ++i) b.r[i] += e;
    both(kind, a, b, t, given, true);
    vp_reach("yes");
  }
  else if (k < n)
  {
    double e = vp_real("e", 4, 12)*t;
    if (vp_choice("sign", 2)) e = -e;
    if (k < NV[kind]) b.v[k](vp_choice("axis", 3)) += e; else b.r[k - NV[kind]] += e;
    both(kind, a, b, t, given, false);
    vp_reach("no");
  }
}
// ribs of other numbers and grounds of other directions are not equal
extern "C" void approx_other()
{
  data a = any(), b = a;
  int k = vp_choice("k", 4);
  if (k == 3)
  {
    // the other way round, exchanged, or longer
    int kind = vp_choice("kind", 8), how = vp_choice("how", 3);
    if (kind == 6 || kind == 7) return;
    if (how == 0) b.v[1] = -a.v[1]; else if (how == 1) {b.v[0] = a.v[1]; b.v[1] = a.v[0];} else b.v[1] = 1.25*a.v[1];
    both(kind, a, b, 0.0625, true, false);
  }
  else if (k == 2)
  {
    // turned vertices, exchanged corners
    b.v[0] = a.v[1]; b.v[1] = a.v[2]; b.v[2] = a.v[0];
    if (vp_choice("odd", 2)) std::swap(b.v[0], b.v[1]);
    both(vp_choice("grd", 2) ? 11 : 4, a, b, 0.0625, true, false);
  }
  else if (k == 0) {b.id = vp_int("id", 0, 9); vp_assume(b.id != 3); both(9, a, b, 0.0625, true, false);}
  else
  {
    double u[2];
    vp_unit("n", 2, u);
    vp_assume(u[0] > 0.1 && (u[1] > 0.25 || u[1] < -0.25));
    ground::flat x(0.5, point(a.v[0]), vec3(0, 0, 1)), y(0.5, point(a.v[0]), vec3(u[1], 0, u[0]));
    vp_assert(!x.isApprox(y, 0.0625) && !y.isApprox(x, 0.0625), NO); vp_assert(x.isApprox(x, 0.0625) && y.isApprox(y), YES);
  }
  vp_reach("no");
}
extern "C" void approx_number()
{
  double a = vp_real("a", -1000, 1000), b = vp_real("b", -1000, 1000), t = vp_real("t", 1e-6, 10);
  double d = a > b ? a - b : b - a;
  vp_assume(d < 0.999*t || d > 1.001*t);
  vp_assert(acme::IsApprox(a, b, t) == (d < t), "numbers are equal when they differ by less than the tolerance");
  vp_assert(acme::IsApprox(a, a), "a number equals itself");
  vp_reach(d < t ? "yes" : "no");
}
