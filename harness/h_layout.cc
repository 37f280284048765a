// Rib layout of a shell and the surface of revolution it samples.
#include "common.h"
using namespace enve;

// ribs tile [-Ly, Ly]: equal strips, centred disks, radius and angle of the surface at the strip centre
static void layout(shell const & s, int n, double Rx, double Ry, double Ly)
{
  vp_assert(s.size() == size_t(n), "number of ribs");
  double edge = -Ly;
  for (int i = 0; i < n; ++i)
  {
    point c(s.ribCenter(i));
    double w = s.ribWidth(i), r = s.ribRadius(i);
    vp_eq(w * n, 2.0 * Ly, "every rib has width 2 Ly / n");
    vp_eq(c.x(), 0.0, "rib centre on the axle (x)");
    vp_eq(c.z(), 0.0, "rib centre on the axle (z)");
    vp_eq(2.0 * (c.y() - edge), w, "ribs are adjacent and centred in their strip");
    edge += w;
    // ellipse: Mx = My = 2
    vp_eq(r * r * Ry * Ry, Rx * Rx * (Ry * Ry - c.y() * c.y()), "rib radius is the surface radius at the rib centre");
    vp_lt(0.0, r, "rib radius positive");
    vp_eq(r, s.surfaceRadius(c.y()), "rib radius equals surfaceRadius");
    vp_eq(s.ribAngle(i), s.surfaceAngle(c.y()), "rib angle equals surfaceAngle");
  }
  vp_eq(edge, Ly, "ribs cover the whole width");
}
extern "C" void layout_any()
{
  int n = 1 + vp_choice("n", 8);
  double Rx = vp_real("Rx", 0.05, 2.0), Ry = vp_real("Ry", 0.05, 2.0), Ly = vp_real("Ly", 1e-5, 1.0);
  vp_assume(Ly <= Ry);
  shell s(n, Rx, 2.0, Ry, 2.0, Ly);
  layout(s, n, Rx, Ry, Ly);
  vp_eq(s.surfaceMaxRadius(), Rx, "maximum radius");
  vp_eq(s.surfaceMaxWidth(), Ly, "half width");
  vp_eq(s.surfaceWidth(), Ly, "half width");
  vp_reach("end");
}
extern "C" void layout_resize()
{
  static int const sz[] = {1, 2, 3, 5, 11, 200, 204};
  int a = 1 + vp_choice("a", 4), n = sz[vp_choice("n", 7)];
  double Rx = 0.5, Ry = 0.75, Ly = 0.25;
  shell s(a, Rx, 2.0, Ry, 2.0, Ly);
  s.resize(n);
  layout(s, n, Rx, Ry, Ly);
  vp_reach("end");
}
// symmetric: ribs i and n-1-i mirror each other
extern "C" void layout_mirror()
{
  int n = 2 + vp_choice("n", 6);
  double Rx = vp_real("Rx", 0.05, 2.0), Ry = vp_real("Ry", 0.05, 2.0), Ly = vp_real("Ly", 1e-5, 1.0);
  vp_assume(Ly <= Ry);
  double Mx = 1.0 + vp_choice("Mx", 3), My = 1.0 + vp_choice("My", 4);
  if (n > 4 && (Mx > 2.5 || My > 2.5)) return;
  shell s(n, Rx, Mx, Ry, My, Ly);
  for (int i = 0; i < n; ++i)
  {
    int j = n - 1 - i;
    vp_eq(s.ribRadius(i), s.ribRadius(j), "mirrored ribs have equal radius");
    vp_eq(s.ribAngle(i), -s.ribAngle(j), "mirrored ribs have opposite angle");
    vp_eq(point(s.ribCenter(i)).y(), -point(s.ribCenter(j)).y(), "mirrored ribs have opposite position");
  }
  vp_reach("end");
}
