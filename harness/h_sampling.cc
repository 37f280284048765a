// Sampling contact of one rib with flat and mesh grounds.
#include "common.h"
using namespace enve;

static void nocontact(output const & out, vec3 const & p, vec3 const & z)
{
  vp_eq3(out.point, p, "no contact: point at the bottom of the rib");
  vp_eq3(out.normal, z, "no contact: normal is the rib vertical");
  vp_eq(out.friction, 0.0, "no contact: friction zero"); vp_eq(out.depth, 0.0, "no contact: depth zero");
  vp_eq(out.area, 0.0, "no contact: area zero"); vp_eq(out.volume, 0.0, "no contact: volume zero");
}
// any pose with the rib vertical above the horizon, any ground plane
extern "C" void sampling_flat()
{
  double R = vp_real("R", 0.1, 2.0), W = vp_real("W", 0.01, 0.5), y0 = vp_real("y0", -0.5, 0.5), mu = vp_real("mu", 0.0, 2.0);
  mat3 yaw = vp_rot_axis("z", 2);
  mat3 rot = mat3(yaw * vp_rot_axis("x", 0)) * vp_rot_axis("y", 1);       // any rotation
  vp_assume(rot(2,2) > 0.01);
  vec3 t = vp_vec("t", 3.0);
  vec3 axis = vp_mul(rot, vec3(0, 1, 0));
  vec3 c = t + vp_mul(rot, vec3(0, y0, 0));
  // ground plane: slopes a, b, vertical distance d below the rib centre
  double a = vp_real("a", -2.0, 2.0), b = vp_real("b", -2.0, 2.0), d = vp_real("d", -3.0, 3.0), ex = vp_real("ex", -3.0, 3.0), ey = vp_real("ey", -3.0, 3.0);
  vec3 n = vp_mul(yaw, vec3(-a, -b, 1.0));
  double nn = a*a + b*b + 1.0;
  vec3 o = c + vp_mul(yaw, vec3(ex, ey, a*ex + b*ey - d));
  ground::flat g(mu, o.x(), o.y(), o.z(), n.x(), n.y(), n.z());
  rib r(0, R, y0, W, 0.0);
  output out;
  bool hit = r.envelop(g, vp_affine(rot, t), "sampling", out);
  if (hit)
  {
    vp_reach("hit");
    vp_eq(vp_dot(out.point - o, n), 0.0, "contact point lies on the ground plane");
    vp_eq(out.point.x(), c.x(), "contact point is vertically aligned with the rib centre (x)");
    vp_eq(out.point.y(), c.y(), "contact point is vertically aligned with the rib centre (y)");
    vp_eq3(vp_cross(out.normal, n), vec3(0, 0, 0), "contact normal is the ground normal");
    vp_eq(vp_dot(out.normal, out.normal), 1.0, "contact normal is a unit vector");
    vp_lt(0.0, out.normal.z(), "contact normal points up");
    vp_eq(out.friction, mu, "friction is the ground friction");
    double v = d < 0 ? -d : d;
    double s = out.depth + v, k = nn - vp_dot(n, axis) * vp_dot(n, axis);
    vp_eq(s*s*nn, R*R*k, "depth is the tilted radius minus the vertical distance");
    vp_lt(0.0, out.depth, "depth positive");
  }
  else
  {
    vp_reach("miss");
    nocontact(out, t + vp_mul(rot, vec3(0, y0, -R)), vp_mul(rot, vec3(0, 0, 1)));
  }
}
// area and volume from the depth, any rib pose over level ground
extern "C" void sampling_volume()
{
  double R = vp_real("R", 0.1, 2.0), W = vp_real("W", 0.01, 0.5), d = vp_real("d", 0.0, 3.0);
  mat3 rot = mat3(vp_rot_axis("z", 2) * vp_rot_axis("x", 0)) * vp_rot_axis("y", 1);
  vp_assume(rot(2,2) > 0.01);
  ground::flat g(1.0, 0.0, 0.0, -d, 0.0, 0.0, 1.0);
  rib r(0, R, 0.0, W, 0.0);
  output out;
  if (!r.envelop(g, vp_affine(rot, vec3(0, 0, 0)), "sampling", out)) {vp_reach("miss"); return;}
  vp_reach("hit");
  vp_eq(out.area * out.area, 4.0 * out.depth * (2.0*R - out.depth) * W * W, "area is the chord times the width");
  vp_le(0.0, out.area, "area non negative");
  double th = std::acos((R - out.depth) / R);
  vp_eq(out.volume, (R*R*th - (R - out.depth)*out.area / (2.0*W)) * W, "volume is the circular segment times the width");
}
extern "C" void sampling_flat_when()
{
  double R = vp_real("R", 0.1, 2.0), W = vp_real("W", 0.01, 0.5), mu = 1.0;
  mat3 rot = vp_rot("q");
  vp_assume(rot(2,2) > 0.01);
  vec3 axis = vp_mul(rot, vec3(0, 1, 0));
  double h = vp_real("h", 0.0, 4.0);
  ground::flat g(mu, 0.0, 0.0, -h, 0.0, 0.0, 1.0);
  rib r(0, R, 0.0, W, 0.0);
  output out;
  bool hit = r.envelop(g, vp_affine(rot, vec3(0, 0, 0)), "sampling", out);
  double k = 1.0 - axis.z()*axis.z();
  if (hit) {vp_lt(h*h, R*R*k, "contact only when the rib reaches the ground"); vp_reach("hit");}
  else {vp_le(R*R*k, h*h, "a rib that reaches the ground is in contact"); vp_reach("miss");}
}
static triangleground::ptr tri(int id, double mu, vec3 const & a, vec3 const & b, vec3 const & c)
{return std::make_shared<triangleground const>(id, mu, point(a.x(), a.y(), a.z()), point(b.x(), b.y(), b.z()), point(c.x(), c.y(), c.z()));}

// several horizontal layers that cover the rib, in any order: the highest one is the ground
extern "C" void sampling_highest()
{
  double R = 0.5, W = 0.25;
  int n = 1 + vp_choice("n", 3);
  double h[3], f[3];
  triangleground::vecptr ts;
  for (int i = 0; i < n; ++i)
  {
    h[i] = vp_real(vp_name("h", i).c_str(), -1.0, 1.0);
    f[i] = vp_real(vp_name("f", i).c_str(), 0.0, 2.0);
    ts.push_back(tri(i, f[i], vec3(-4.0, -4.0, h[i]), vec3(4.0, -4.0, h[i]), vec3(0.0, 8.0, h[i])));
  }
  rib r(0, R, 0.0, W, 0.0);
  double z = vp_real("z", -1.0, 2.0);
  output out;
  bool hit = r.envelop(ts, vp_affine(mat3::Identity(), vec3(0, 0, z)), "sampling", out);
  if (hit)
  {
    double m = h[0], mf = f[0];
    for (int i = 1; i < n; ++i) if (h[i] > m) {m = h[i]; mf = f[i];}
    vp_eq3(out.point, vec3(0, 0, m), "contact point on the highest layer");
    vp_eq(out.friction, mf, "friction of the highest layer");
    vp_eq3(out.normal, vec3(0, 0, 1), "normal of the highest layer");
    vp_reach("hit");
  }
  else {nocontact(out, vec3(0, 0, z - R), vec3(0, 0, 1)); vp_reach("miss");}
}
// one tilted triangle that covers the rib gives the same contact as the plane it lies in
extern "C" void sampling_agrees()
{
  double R = vp_real("R", 0.1, 0.5), W = vp_real("W", 0.01, 0.5), mu = vp_real("mu", 0.0, 2.0);
  mat3 yaw = vp_rot_axis("z", 2);
  mat3 rot = yaw * vp_rot_axis("x", 0);
  vp_assume(rot(2,2) > 0.01);
  vec3 tl = vp_vec("t", 0.25), t = vp_mul(yaw, tl);
  double a = vp_real("a", -0.5, 0.5), b = vp_real("b", -0.5, 0.5), h = vp_real("h", -1.0, 1.0);   // z = a x + b y + h, yawed frame
  triangleground::vecptr ts;
  ts.push_back(tri(0, mu, vp_mul(yaw, vec3(-8.0, -8.0, h - 8.0*a - 8.0*b)), vp_mul(yaw, vec3(8.0, -8.0, h + 8.0*a - 8.0*b)), vp_mul(yaw, vec3(0.0, 8.0, h + 8.0*b))));
  vec3 n = vp_mul(yaw, vec3(-a, -b, 1.0));
  ground::flat g(mu, 0.0, 0.0, h, n.x(), n.y(), n.z());
  rib r(0, R, 0.0, W, 0.0);
  output o1, o2;
  affine pose = vp_affine(rot, t);
  bool h1 = r.envelop(ts, pose, "sampling", o1), h2 = r.envelop(g, pose, "sampling", o2);
  vp_assert(h1 == h2, "a covering triangle and its plane agree on contact");
  vp_eq3(o1.point, o2.point, "a covering triangle and its plane give the same point");
  vp_eq3(o1.normal, o2.normal, "a covering triangle and its plane give the same normal");
  vp_eq(o1.depth, o2.depth, "a covering triangle and its plane give the same depth");
  vp_eq(o1.friction, o2.friction, "a covering triangle and its plane give the same friction");
  vp_reach(h1 ? "hit" : "miss");
}
// a sampling line that finds no triangle means no contact, whatever the other lines find
extern "C" void sampling_edge()
{
  double R = 0.5, W = 0.25, x = vp_real("x", -1.0, 1.0), y = vp_real("y", -1.0, 1.0), z = vp_real("z", -1.0, 1.0);
  triangleground::vecptr ts;
  ts.push_back(tri(0, 1.0, vec3(0.0, -4.0, 0.0), vec3(8.0, 0.0, 0.0), vec3(0.0, 4.0, 0.0)));      // half plane x >= 0 around the origin
  rib r(0, R, 0.0, W, 0.0);
  output out;
  bool hit = r.envelop(ts, vp_affine(mat3::Identity(), vec3(x, y, z)), "sampling", out);
  vp_assert(!(hit && x < 0.0499), "no contact when a sampling line leaves the mesh");
  vp_assert(!(!hit && x > 0.0501 && z*z < 0.24), "contact when every sampling line meets the mesh within the radius");
  if (!hit) nocontact(out, vec3(x, y, z - R), vec3(0, 0, 1));
  vp_reach(hit ? "hit" : "miss");
}
// no ground at all
extern "C" void sampling_empty()
{
  double R = vp_real("R", 0.1, 2.0);
  mat3 rot = vp_rot("q");
  vec3 t = vp_vec("t", 3.0);
  triangleground::vecptr ts;
  rib r(0, R, 0.0, 0.25, 0.0);
  output out;
  out.friction = 3.0; out.depth = 1.0; out.area = 1.0; out.volume = 1.0;
  bool hit = r.envelop(ts, vp_affine(rot, t), vp_choice("m", 2) ? "sampling" : "geometric", out);
  vp_assert(!hit, "no ground, no contact");
  nocontact(out, t + vp_mul(rot, vec3(0, 0, -R)), vp_mul(rot, vec3(0, 0, 1)));
  vp_reach("miss");
}
