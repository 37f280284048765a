// Geometric contact of one rib with triangles.
#include "common.h"
using namespace enve;
typedef triangleground::ptr tp;
static void addtri(triangleground::vecptr & v, vec3 const & a, vec3 const & b, vec3 const & c, double mu)
{v.push_back(std::make_shared<triangleground>(int(v.size()), mu, point(a), point(b), point(c)));}
static void nocontact(output const & out, vec3 const & p, vec3 const & z)
{
  vp_eq3(out.point, p, "no contact: point at the bottom of the rib");
  vp_eq3(out.normal, z, "no contact: normal is the rib vertical");
  vp_eq(out.friction, 0.0, "no contact: friction zero"); vp_eq(out.depth, 0.0, "no contact: depth zero");
  vp_eq(out.area, 0.0, "no contact: area zero"); vp_eq(out.volume, 0.0, "no contact: volume zero");
}
// a chord P Q of the rib disk in polar form: P at angle g - e, Q at angle g + e
struct chord
{
  double g, e, ra, rb, ta, tb; vec3 P, Q, A, B;
  chord(double R, std::string const & k, int inside_a, int inside_b, int wrap)
  {
    g = vp_angle((k + "g").c_str()); e = vp_angle((k + "e").c_str());
    vp_assume(std::sin(e) > 0.05); vp_assume(std::cos(e) > 0.01);
    ta = g - e; tb = g + e;
    if (wrap == 0) {vp_assume(ta > -3.14159265); vp_assume(tb < 3.14159265);}
    else if (wrap == 1) {vp_assume(tb > 3.1415927); tb = tb - 2.0*3.14159265358979323846;}
    else {vp_assume(ta < -3.1415927); ta = ta + 2.0*3.14159265358979323846;}
    ra = inside_a ? vp_real((k + "ra").c_str(), 0.05, 2.0) : R; rb = inside_b ? vp_real((k + "rb").c_str(), 0.05, 2.0) : R;
    if (inside_a) vp_assume(ra < 0.99*R);
    if (inside_b) vp_assume(rb < 0.99*R);
    P = vec3(ra*std::cos(ta), 0, ra*std::sin(ta)); Q = vec3(rb*std::cos(tb), 0, rb*std::sin(tb));
    vp_know_atan2(P.z(), P.x(), ta);
    vp_know_atan2(Q.z(), Q.x(), tb);
    vp_assume(P.x() != Q.x()); vp_assume(P.z() != Q.z());
    // not grazing
    double l2 = ra*ra + rb*rb - 2*ra*rb*(1 - 2*std::sin(e)*std::sin(e)), cr = 2*ra*rb*std::sin(e)*std::cos(e);
    vp_assume(l2 > 1e-4); vp_assume(R*R*l2 - cr*cr > 1e-6);
    A = P; B = Q;
    if (!inside_a) A = P + vp_real((k + "u").c_str(), 0.01, 2.0)*(P - Q);
    if (!inside_b) B = Q + vp_real((k + "v").c_str(), 0.01, 2.0)*(Q - P);
  }
};
static void single(int wrap, double lean)
{
  vp_ite_mode(0);
  double R = vp_real("R", 0.2, 2.0), W = vp_real("W", 0.01, 0.5), mu = vp_real("mu", 0.0, 2.0);
  int ia = vp_choice("ia", 2), ib = vp_choice("ib", 2);
  chord k(R, "", ia, ib, wrap);
  vec3 y(0, 1, 0), s = 2.0*y + lean*vec3(std::cos(k.g), 0, std::sin(k.g));
  triangleground::vecptr ts;
  addtri(ts, k.A - 0.5*s, 1.5*k.B - 0.5*k.A - 0.5*s, k.A + s, mu);
  rib r(0, R, 0.0, W, 0.0);
  output out;
  bool hit = r.envelop(ts, vp_affine(mat3::Identity(), vec3(0, 0, 0)), "geometric", out);
  vp_assert(hit, "a triangle that cuts the rib is in contact");
  if (!hit) return;
  vp_reach("hit");
  vp_eq(out.friction, mu, "friction is the triangle friction");
  vp_eq(out.point.y(), 0.0, "contact point on the rib plane");
  vec3 d = k.Q - k.P;
  double len = std::sqrt(d.x()*d.x() + d.z()*d.z());
  vp_eq(out.area, len * W, "area is the chord times the width");
  vp_eq(out.volume, (R*R*k.e - k.ra*k.rb*std::sin(k.e)*std::cos(k.e)) * W, "volume is the sector minus the triangle times the width");
  vec3 q = out.point - k.P;
  vp_eq(q.x()*d.z() - q.z()*d.x(), 0.0, "contact point lies on the cut");
  vp_eq(out.point.x()*std::sin(k.g) - out.point.z()*std::cos(k.g), 0.0, "contact point is on the bisector of the cut");
  double rc = R - out.depth;
  vp_eq(rc*rc, out.point.x()*out.point.x() + out.point.z()*out.point.z(), "depth is the radius minus the distance of the contact point");
  vp_le(0.0, out.depth, "depth non negative");
  vp_le(out.depth, R, "depth at most the radius");
  vp_eq(vp_dot(out.normal, out.normal), 1.0, "contact normal is a unit vector");
  vp_eq(out.normal.x()*std::sin(k.g) - out.normal.z()*std::cos(k.g), 0.0, "contact normal points to the axle");
  vp_lt(out.normal.x()*std::cos(k.g) + out.normal.z()*std::sin(k.g), 0.0, "contact normal points inwards");
  if (lean == 0) vp_eq(out.normal.y(), 0.0, "upright ground: no lateral normal");
}
extern "C" void mesh_single() {single(0, 0.0);}
extern "C" void mesh_wrap() {single(1 + vp_choice("side", 2), 0.0);}
// a covering triangle gives the same contact as the flat ground in its plane
extern "C" void mesh_agrees()
{
  vp_ite_mode(0);
  double R = vp_real("R", 0.2, 2.0), W = vp_real("W", 0.01, 0.5), mu = vp_real("mu", 0.0, 2.0);
  chord k(R, "", 0, 0, 0);
  vec3 y(0, 1, 0), n(-std::cos(k.g), 0, -std::sin(k.g));
  vp_assume(n.z() > 0.05);
  triangleground::vecptr ts;
  addtri(ts, k.A - y, 1.5*k.B - 0.5*k.A - y, k.A + 2.0*y, mu);
  affine pose = vp_affine(mat3::Identity(), vec3(0, 0, 0));
  rib r(0, R, 0.0, W, 0.0);
  output m, f;
  ground::flat g(mu, point(k.P), n);
  bool hm = r.envelop(ts, pose, "geometric", m), hf = r.envelop(g, pose, "geometric", f);
  vp_assert(hm, "the covering triangle is in contact"); vp_assert(hf, "the flat ground is in contact");
  if (!hm || !hf) return;
  vp_reach("hit");
  vp_eq3(m.point, f.point, "contact point equals that of the flat ground");
  vp_eq3(m.normal, f.normal, "contact normal equals that of the flat ground");
  vp_eq(m.friction, f.friction, "friction equals that of the flat ground");
  vp_eq(m.depth, f.depth, "depth equals that of the flat ground");
  vp_eq(m.area, f.area, "area equals that of the flat ground");
}
// triangles that do not cut the disk: beside the rib plane, or with their trace outside the disk
extern "C" void mesh_miss()
{
  vp_ite_mode(0);
  double R = vp_real("R", 0.2, 2.0), W = vp_real("W", 0.01, 0.5), mu = vp_real("mu", 0.0, 2.0), z = vp_real("z", -5.0, 5.0), d = vp_real("d", 0.01, 3.0);
  double a = vp_real("a", -5.0, 5.0), l = vp_real("l", 0.1, 5.0);
  triangleground::vecptr ts;
  vec3 y(0, 1, 0), x(1, 0, 0);
  int c = vp_choice("c", 4);
  if (c == 0) addtri(ts, vec3(a, d, z), vec3(a + l, d + vp_real("d1", 0.0, 1.0), z), vec3(a, d + vp_real("d2", 0.0, 1.0), z + vp_real("h", -1.0, 1.0)), mu);
  if (c == 1) addtri(ts, vec3(a, -d, z), vec3(a + l, -d - vp_real("d1", 0.0, 1.0), z), vec3(a, -d - vp_real("d2", 0.0, 1.0), z + vp_real("h", -1.0, 1.0)), mu);
  if (c == 2) {vec3 A(a, 0, -R - d), B(a + l, 0, -R - d); addtri(ts, A - y, 1.5*B - 0.5*A - y, A + 2.0*y, mu);}
  if (c == 3) {vp_assume(z < R - 0.01); vp_assume(z > 0.01 - R); vec3 A(R + d, 0, z), B(R + d + l, 0, z); addtri(ts, A - y, 1.5*B - 0.5*A - y, A + 2.0*y, mu);}
  rib r(0, R, 0.0, W, 0.0);
  output out;
  affine pose = vp_affine(mat3::Identity(), vec3(0, 0, 0));
  bool hit = r.envelop(ts, pose, "geometric", out);
  vp_assert(!hit, "a triangle that does not cut the disk gives no contact");
  if (hit) return;
  vp_reach("miss");
  nocontact(out, vec3(0, 0, -R), vec3(0, 0, 1));
}
// horizontal layers: totals and volume weighted averages, any order; triangles that only graze or miss add nothing
extern "C" void mesh_layers()
{
  vp_ite_mode(0);
  double R = vp_real("R", 0.2, 2.0), W = vp_real("W", 0.01, 0.5);
  triangleground::vecptr f, b;
  double V = 0, S = 0, F = 0, Z = 0; vec3 y(0, 1, 0);
  int extra = vp_choice("extra", 4), at = vp_choice("at", 2);
  for (int i = 0; i < 2; ++i)
  {
    if (at == i && extra == 1) addtri(f, vec3(-1, -1, -R), vec3(4, -1, -R), vec3(-1, 1, -R), 9.0);          // tangent below
    if (at == i && extra == 2) addtri(f, vec3(-9, -1, -R - 0.5), vec3(9, -1, -R - 0.5), vec3(0, 2, -R - 0.5), 9.0);  // below
    if (at == i && extra == 3) addtri(f, vec3(-9, 1, 0), vec3(9, 1, 0), vec3(0, 2, 0), 9.0);                // beside
    double e = vp_angle(vp_name("e", i).c_str()), mu = vp_real(vp_name("mu", i).c_str(), 0.0, 2.0), s = std::sin(e), c = std::cos(e);
    vp_assume(s > 0.05); vp_assume(c > 0.05);
    double t = -1.57079632679489661923;
    vec3 P(-R*s, 0, -R*c), Q(R*s, 0, -R*c), A = 2.0*P - Q, B = 2.0*Q - P;
    vp_know_atan2(P.z(), P.x(), t - e); vp_know_atan2(Q.z(), Q.x(), t + e);
    addtri(f, A - y, 1.5*B - 0.5*A - y, A + 2.0*y, mu);
    double v = R*R*(e - s*c)*W;
    V += v; S += 2.0*R*s*W; F += v*mu; Z -= v*R*c;
  }
  for (int i = int(f.size()) - 1; i >= 0; --i) b.push_back(f[i]);
  rib r(0, R, 0.0, W, 0.0);
  output o, p;
  affine pose = vp_affine(mat3::Identity(), vec3(0, 0, 0));
  bool h1 = r.envelop(f, pose, "geometric", o), h2 = r.envelop(b, pose, "geometric", p);
  vp_assert(h1 && h2, "contact with every layer");
  if (!(h1 && h2)) return;
  vp_reach("hit");
  vp_eq(o.area, S, "area adds up over the triangles");
  vp_eq(o.volume, V, "volume adds up over the triangles");
  vp_eq(o.point.x(), 0.0, "contact point under the centre"); vp_eq(o.point.y(), 0.0, "contact point on the rib plane");
  vp_eq(o.point.z() * V, Z, "contact point is the volume weighted average");
  vp_eq(o.friction * V, F, "friction is the volume weighted average");
  vp_eq3(o.normal, vec3(0, 0, 1), "normal is up");
  vp_eq(o.area, p.area, "area does not depend on the order of the triangles");
  vp_eq(o.volume, p.volume, "volume does not depend on the order of the triangles");
  vp_eq3(o.point, p.point, "contact point does not depend on the order of the triangles");
  vp_eq(o.friction, p.friction, "friction does not depend on the order of the triangles");
}
// a cut along a radius encloses nothing: never an undefined answer
extern "C" void mesh_radial()
{
  vp_ite_mode(0);
  double R = vp_real("R", 0.2, 2.0), W = vp_real("W", 0.01, 0.5), a = vp_real("a", 0.1, 5.0), l = vp_real("l", 0.1, 5.0);
  vec3 A(0, 0, -a - l), B(0, 0, -a), y(0, 1, 0);
  vp_assume(a < 0.9*R);
  triangleground::vecptr ts;
  addtri(ts, A - y, 1.5*B - 0.5*A - y, A + 2.0*y, 1.0);
  rib r(0, R, 0.0, W, 0.0);
  output out;
  r.envelop(ts, vp_affine(mat3::Identity(), vec3(0, 0, 0)), "geometric", out);
  vp_reach("end");
  vp_le(out.depth, R, "depth is defined and at most the radius");
  vp_le(0.0, out.friction, "friction is defined");
  vp_le(out.volume, R*R*W, "volume is defined");
  vp_le(out.point.z(), 10.0, "contact point is defined");
  vp_le(out.normal.z(), 10.0, "contact normal is defined");
}
