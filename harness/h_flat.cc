// Geometric contact of one rib with a flat ground.
#include "common.h"
using namespace enve;

struct setup
{
  double R, W, y0, mu; mat3 rot; vec3 t, c, axis, nl, ol, n, o; affine pose;
  setup(double Wfix = 0.0)
  {
    R = vp_real("R", 0.1, 2.0); W = Wfix > 0 ? Wfix : vp_real("W", 0.01, 0.5); y0 = vp_real("y0", -0.5, 0.5); mu = vp_real("mu", 0.0, 2.0);
    rot = vp_rot("q");
    t = vp_mul(rot, vp_vec("t", 3.0));
    pose = vp_affine(rot, t);
    c = t + vp_mul(rot, vec3(0, y0, 0));
    axis = vp_mul(rot, vec3(0, 1, 0));
    nl = vp_dir("n");                       // ground normal and origin in the rib frame
    ol = vp_vec("o", 3.0);
    n = vp_mul(rot, nl);
    vp_assume(n.z() > 0);
    o = c + vp_mul(rot, ol);
  }
};

extern "C" void flat_geometric()
{
  setup s;
  ground::flat g(s.mu, s.o.x(), s.o.y(), s.o.z(), s.n.x(), s.n.y(), s.n.z());
  rib r(0, s.R, s.y0, s.W, 0.0);
  output out;
  bool hit = r.envelop(g, s.pose, "geometric", out);
  if (hit)
  {
    vp_reach("hit");
    vp_eq(vp_dot(out.point - s.o, s.n), 0.0, "contact point lies on the ground plane");
    vp_eq(vp_dot(out.point - s.c, s.axis), 0.0, "contact point lies on the rib plane");
    vp_eq3(out.normal, s.n, "contact normal is the ground normal");
    vp_eq(out.friction, s.mu, "friction is the ground friction");
    double d = s.R - out.depth;
    vp_eq(d*d, vp_dot(out.point - s.c, out.point - s.c), "depth is the radius minus the distance of the contact point from the rib centre");
    vp_le(out.depth, s.R, "depth at most the radius");
    vp_le(0.0, out.depth, "depth non negative");
    // the contact point is the point of the ground in the rib plane closest to the rib centre
    vec3 u = vp_cross(s.axis, s.n);
    vp_eq(vp_dot(out.point - s.c, u), 0.0, "contact point is the middle of the chord");
  }
  else
  {
    vp_reach("miss");
    vp_eq3(out.point, s.t + vp_mul(s.rot, vec3(0, s.y0, -s.R)), "no contact: point below the centre");
    vp_eq3(out.normal, vp_mul(s.rot, vec3(0, 0, 1)), "no contact: normal is the rib vertical");
    vp_eq(out.friction, 0.0, "no contact: friction zero"); vp_eq(out.depth, 0.0, "no contact: depth zero");
    vp_eq(out.area, 0.0, "no contact: area zero"); vp_eq(out.volume, 0.0, "no contact: volume zero");
  }
}
// contact exactly when the ground plane cuts the rib disk
extern "C" void flat_when()
{
  setup s;
  ground::flat g(s.mu, s.o.x(), s.o.y(), s.o.z(), s.n.x(), s.n.y(), s.n.z());
  rib r(0, s.R, s.y0, s.W, 0.0);
  output out;
  bool hit = r.envelop(g, s.pose, "geometric", out);
  double h = vp_dot(s.ol, s.nl);             // distance of the centre from the ground
  double k = 1.0 - s.nl.y()*s.nl.y();        // squared sine of the angle between the axis and the ground normal
  // squared half chord * k
  double q = s.R*s.R*k - h*h;
  if (hit) {vp_le(0.0, q, "contact only when the ground plane cuts the rib"); vp_reach("hit");}
  else
  {
    vp_reach("miss");
    vp_assert(!(k > 0.01 && q > 1e-5), "a ground plane that cuts the rib is in contact");
  }
}
// patch area and volume follow from the depth: circular segment times the width
extern "C" void flat_segment()
{
  double R = vp_real("R", 0.1, 2.0), W = vp_real("W", 0.01, 0.5), h = vp_real("h", -0.1, 2.5);
  rib r(0, R, 0.0, W, 0.0);
  ground::flat g(1.0, 0.0, 0.0, -h, 0.0, 0.0, 1.0);
  output out;
  bool hit = r.envelop(g, vp_affine(mat3::Identity(), vec3(0, 0, 0)), "geometric", out);
  if (hit)
  {
    vp_reach("hit");
    double a = h < 0 ? -h : h;
    vp_eq(out.depth, R - a, "depth");
    vp_eq(out.area * out.area, 4.0 * (R*R - a*a) * W * W, "area is the chord times the width");
    vp_le(0.0, out.area, "area non negative");
    double th = std::acos(a / R);
    vp_eq(out.volume, (R*R*th - a*out.area / (2.0*W)) * W, "volume is the circular segment times the width");
  }
  else {vp_reach("miss"); vp_assert(!(R*R - h*h > 1e-5), "penetrating rib is in contact");}
}
// deeper is never less volume or area
extern "C" void flat_monotone()
{
  double R = vp_real("R", 0.1, 2.0), W = vp_real("W", 0.01, 0.5), h = vp_real("h", 0.0, 2.5), k = vp_real("k", 0.0, 2.5);
  vp_assume(h <= k);
  rib r(0, R, 0.0, W, 0.0);
  ground::flat g(1.0, 0.0, 0.0, -h, 0.0, 0.0, 1.0), f(1.0, 0.0, 0.0, -k, 0.0, 0.0, 1.0);
  output a, b;
  bool ha = r.envelop(g, vp_affine(mat3::Identity(), vec3(0, 0, 0)), "geometric", a);
  bool hb = r.envelop(f, vp_affine(mat3::Identity(), vec3(0, 0, 0)), "geometric", b);
  vp_assert(!hb || ha, "a deeper rib stays in contact");
  vp_le(b.depth, a.depth, "depth grows as the rib goes down");
  vp_le(b.area, a.area, "area grows as the rib goes down");
  vp_reach(ha && hb ? "both" : "one");
}
// a ground given by a scaled normal or another point of the same plane is the same ground
extern "C" void flat_representation()
{
  setup s;
  double k = vp_real("k", 0.1, 10.0);
  vec3 e = vp_vec("e", 2.0);
  double w = vp_dot(e, s.nl);
  vec3 o2 = s.o + vp_mul(s.rot, vec3(e.x() - w*s.nl.x(), e.y() - w*s.nl.y(), e.z() - w*s.nl.z()));
  ground::flat g(s.mu, s.o.x(), s.o.y(), s.o.z(), s.n.x(), s.n.y(), s.n.z());
  ground::flat f(s.mu, point(o2.x(), o2.y(), o2.z()), vec3(k*s.n));
  rib r(0, s.R, s.y0, s.W, 0.0);
  output a, b;
  bool ha = r.envelop(g, s.pose, "geometric", a), hb = r.envelop(f, s.pose, "geometric", b);
  vp_assert(ha == hb, "contact does not depend on how the ground plane is given");
  vp_eq3(a.point, b.point, "contact point does not depend on how the ground plane is given");
  vp_eq3(a.normal, b.normal, "normal does not depend on how the ground plane is given");
  vp_eq(a.depth, b.depth, "depth does not depend on how the ground plane is given");
  vp_reach(ha ? "hit" : "miss");
}
