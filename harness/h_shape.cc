// The surface of revolution: radius, slope, angle and their domain.
#include "common.h"
using namespace enve;

struct par {double Rx, Mx, Ry, My, Ly, m, M;};
static par params(bool wide)
{
  par p;
  p.Rx = vp_real("Rx", 0.05, 2.0); p.Ry = vp_real("Ry", 0.05, 2.0); p.Ly = vp_real("Ly", 0.01, 2.0);
  vp_assume(p.Ly < p.Ry);
  p.m = 1 + vp_choice("Mx", wide ? 4 : 2); p.M = 1 + vp_choice("My", wide ? 6 : 4);
  p.Mx = p.m; p.My = p.M;
  return p;
}
static double ipow(double x, int k) {double r = 1.0; for (int i = 0; i < k; ++i) r = r * x; return r;}

// radius: implicit equation (r/Rx)^Mx + (|y|/Ry)^My = 1, 0 < r <= Rx, even in y
extern "C" void shape_radius()
{
  par p = params(true);
  double y = vp_real("y", -2.0, 2.0);
  vp_assume(-p.Ly <= y); vp_assume(y <= p.Ly);
  shape s(p.Rx, p.Mx, p.Ry, p.My, p.Ly);
  double r = s.surfaceRadius(y), a = y < 0 ? -y : y;
  vp_eq(ipow(r, p.m) * ipow(p.Ry, p.M), ipow(p.Rx, p.m) * (ipow(p.Ry, p.M) - ipow(a, p.M)), "radius satisfies the superellipse equation");
  vp_lt(0.0, r, "radius positive inside the half width");
  vp_le(r, p.Rx, "radius never exceeds the maximum radius");
  vp_eq(r, s.surfaceRadius(-y), "radius is symmetric");
  vp_eq(s.surfaceRadius(0.0), p.Rx, "radius at the middle plane is the maximum radius");
  vp_eq(s.surfaceMaxRadius(), p.Rx, "maximum radius");
  vp_reach("end");
}
// the radius does not grow away from the middle plane
extern "C" void shape_monotone()
{
  par p = params(false);
  double y1 = vp_real("y1", 0.0, 2.0), y2 = vp_real("y2", 0.0, 2.0);
  vp_assume(y1 <= y2); vp_assume(y2 <= p.Ly);
  shape s(p.Rx, p.Mx, p.Ry, p.My, p.Ly);
  vp_le(s.surfaceRadius(y2), s.surfaceRadius(y1), "radius does not grow away from the middle plane");
  vp_reach("end");
}
// slope: derivative of the implicit equation, odd in y, zero at the middle; angle = atan(slope)
extern "C" void shape_slope()
{
  par p = params(true);
  double y = vp_real("y", 0.0, 2.0);
  vp_assume(y > 1e-6); vp_assume(y <= p.Ly);
  shape s(p.Rx, p.Mx, p.Ry, p.My, p.Ly);
  double r = s.surfaceRadius(y), d = s.surfaceDerivative(y);
  vp_eq(p.m * ipow(r, p.m - 1) * d * ipow(p.Ry, p.M), -p.M * ipow(p.Rx, p.m) * ipow(y, p.M - 1), "slope is the derivative of the radius");
  vp_eq(s.surfaceDerivative(-y), -d, "slope is antisymmetric");
  vp_le(d, 0.0, "radius decreases outwards");
  vp_eq(s.surfaceDerivative(0.0), 0.0, "slope at the middle plane is zero");
  vp_reach("end");
}
extern "C" void shape_angle()
{
  par p = params(false);
  double y = vp_real("y", -2.0, 2.0);
  vp_assume(-p.Ly <= y); vp_assume(y <= p.Ly);
  shape s(p.Rx, p.Mx, p.Ry, p.My, p.Ly);
  double a = s.surfaceAngle(y), d = s.surfaceDerivative(y);
  vp_eq(std::sin(a), d * std::cos(a), "angle has the slope as its tangent");
  vp_lt(0.0, std::cos(a), "angle within a right angle");
  vp_reach("end");
}
// outside [-Ly, Ly] radius, slope and angle are refused; inside they are not
extern "C" void shape_domain()
{
  par p = params(false);
  double y = vp_real("y", -5.0, 5.0);
  shape s(p.Rx, p.Mx, p.Ry, p.My, p.Ly);
  int f = vp_choice("f", 3);
  bool threw = false;
  try {f == 0 ? s.surfaceRadius(y) : f == 1 ? s.surfaceDerivative(y) : s.surfaceAngle(y);}
  catch (std::runtime_error const &) {threw = true;}
  bool inside = y <= p.Ly && -y <= p.Ly;
  vp_assert(threw == !inside, "coordinates outside the half width are refused, those inside accepted");
  vp_assert(s.checkWidthBound(y) == inside, "checkWidthBound");
  vp_reach(threw ? "refused" : "accepted");
}
// any real curve degrees
extern "C" void shape_real_degrees()
{
  double Rx = vp_real("Rx", 0.05, 2.0), Ry = vp_real("Ry", 0.05, 2.0), Ly = vp_real("Ly", 0.01, 2.0), Mx = vp_real("Mx", 1.0, 20.0), My = vp_real("My", 1.0, 20.0);
  vp_assume(Ly < Ry);
  double y = vp_real("y", -2.0, 2.0), z = vp_real("z", -2.0, 2.0);
  vp_assume(-Ly <= y); vp_assume(y <= Ly);
  vp_assume(-Ly <= z); vp_assume(z <= Ly);
  shape s(Rx, Mx, Ry, My, Ly);
  double r = s.surfaceRadius(y);
  vp_lt(0.0, r, "radius positive inside the half width");
  vp_le(r, Rx, "radius never exceeds the maximum radius");
  vp_eq(r, s.surfaceRadius(-y), "radius is symmetric");
  if (z * z > y * y) vp_le(s.surfaceRadius(z), r, "radius does not grow away from the middle plane");
  vp_reach("end");
}
