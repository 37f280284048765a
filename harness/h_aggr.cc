// Totals and averages of the per-rib contact results, for arbitrary per-rib results.
#include "common.h"
using namespace enve;

static void fill(shell & s, int n, bool contact)
{
  for (int i = 0; i < n; ++i)
  {
    output & o = s.m_out[i];
    std::string k = vp_name("r", i);
    vec3 p = vp_vec((k + "p").c_str(), 5.0);
    o.point = point(p.x(), p.y(), p.z());
    o.normal = vp_dir((k + "n").c_str());
    o.friction = vp_real((k + "f").c_str(), 0.0, 2.0);
    o.depth = vp_real((k + "d").c_str(), 0.0, 1.0);
    o.area = vp_real((k + "a").c_str(), 0.0, 1.0);
    o.volume = contact ? vp_real((k + "v").c_str(), 0.0, 1.0) : 0.0;
  }
}
static void vectors(shell & s, int n)
{
  std::vector<point> ps; std::vector<vec3> ns; std::vector<double> fs, ds, as, vs;
  s.contactPoint(ps); s.contactNormal(ns); s.contactFriction(fs); s.contactDepth(ds); s.contactArea(as); s.contactVolume(vs);
  for (int i = 0; i < n; ++i)
  {
    point p; vec3 v; double f, d, a, w;
    s.contactPoint(i, p); s.contactNormal(i, v); s.contactFriction(i, f); s.contactDepth(i, d); s.contactArea(i, a); s.contactVolume(i, w);
    output const & o = s.m_out[i];
    vp_eq3(p, o.point, "per-rib point"); vp_eq3(ps[i], o.point, "per-rib point (list)");
    vp_eq3(v, o.normal, "per-rib normal"); vp_eq3(ns[i], o.normal, "per-rib normal (list)");
    vp_eq(f, o.friction, "per-rib friction"); vp_eq(fs[i], o.friction, "per-rib friction (list)");
    vp_eq(d, o.depth, "per-rib depth"); vp_eq(ds[i], o.depth, "per-rib depth (list)");
    vp_eq(a, o.area, "per-rib area"); vp_eq(as[i], o.area, "per-rib area (list)");
    vp_eq(w, o.volume, "per-rib volume"); vp_eq(vs[i], o.volume, "per-rib volume (list)");
  }
}
extern "C" void aggr_sums()
{
  int k = vp_choice("n", 8), n = k < 6 ? 1 + k : k == 6 ? 12 : 24;
  shell s(n, 1.0, 2.0, 1.0, 2.0, 0.5);
  fill(s, n, true);
  double A = 0.0, V = 0.0, a, v;
  for (int i = 0; i < n; ++i) {A += s.m_out[i].area; V += s.m_out[i].volume;}
  s.contactArea(a); s.contactVolume(v);
  vp_eq(a, A, "total area is the sum of the rib areas");
  vp_eq(v, V, "total volume is the sum of the rib volumes");
  vectors(s, n);
  vp_reach("end");
}
extern "C" void aggr_weighted()
{
  int k = vp_choice("n", 7), n = k < 5 ? 1 + k : k == 5 ? 11 : 18;
  shell s(n, 1.0, 2.0, 1.0, 2.0, 0.5);
  fill(s, n, true);
  double V = 0.0;
  for (int i = 0; i < n; ++i) V += s.m_out[i].volume;
  vp_assume(V > 1e-6);
  point p; vec3 nn; double f, d;
  s.contactPoint(p); s.contactFriction(f); s.contactDepth(d);
  vec3 P(0, 0, 0); double F = 0.0, D = 0.0;
  for (int i = 0; i < n; ++i)
  {
    output const & o = s.m_out[i];
    P += o.point * o.volume; F += o.friction * o.volume; D += o.depth * o.volume;
  }
  vp_eq3(p * V, P, "average point is volume weighted");
  vp_eq(f * V, F, "average friction is volume weighted");
  vp_eq(d * V, D, "average depth is volume weighted");
  vp_reach("end");
}
extern "C" void aggr_normal()
{
  int n = 1 + vp_choice("n", 3);
  shell s(n, 1.0, 2.0, 1.0, 2.0, 0.5);
  fill(s, n, true);
  double V = 0.0;
  vec3 N(0, 0, 0);
  for (int i = 0; i < n; ++i) {V += s.m_out[i].volume; N += s.m_out[i].normal * s.m_out[i].volume;}
  vp_assume(V > 1e-6);
  double m = N.dot(N);
  vp_assume(m > 0);
  vec3 nn;
  s.contactNormal(nn);
  vp_eq(nn.dot(nn), 1.0, "average normal is a unit vector");
  vp_eq3(vp_cross(nn, N), vec3(0, 0, 0), "average normal is parallel to the volume weighted sum");
  vp_lt(0.0, vp_dot(nn, N), "average normal points the same way as the volume weighted sum");
  vp_reach("end");
}
// the averages lie between the smallest and the largest rib value
extern "C" void aggr_hull()
{
  int n = 1 + vp_choice("n", 4);
  shell s(n, 1.0, 2.0, 1.0, 2.0, 0.5);
  fill(s, n, true);
  double lo = vp_real("lo", 0.0, 2.0), hi = vp_real("hi", 0.0, 2.0), f;
  int which = vp_choice("which", 3);
  for (int i = 0; i < n; ++i)
  {
    output const & o = s.m_out[i];
    double q = which == 0 ? o.friction : which == 1 ? o.depth : o.point.z();
    vp_assume(lo <= q); vp_assume(q <= hi);
  }
  point p;
  if (which == 0) s.contactFriction(f); else if (which == 1) s.contactDepth(f); else {s.contactPoint(p); f = p.z();}
  vp_le(lo, f, "average is at least the smallest rib value");
  vp_le(f, hi, "average is at most the largest rib value");
  vp_reach("end");
}
// no contact anywhere: averages are plain means, totals are zero
extern "C" void aggr_none()
{
  int n = 1 + vp_choice("n", 5);
  shell s(n, 1.0, 2.0, 1.0, 2.0, 0.5);
  fill(s, n, false);
  point p; vec3 nn; double f, d, v;
  s.contactPoint(p); s.contactFriction(f); s.contactDepth(d); s.contactVolume(v);
  vec3 P(0, 0, 0); double F = 0.0, D = 0.0;
  for (int i = 0; i < n; ++i) {P += s.m_out[i].point; F += s.m_out[i].friction; D += s.m_out[i].depth;}
  vp_eq3(p * double(n), P, "without contact the average point is the plain mean");
  vp_eq(f * n, F, "without contact the average friction is the plain mean");
  vp_eq(d * n, D, "without contact the average depth is the plain mean");
  vp_eq(v, 0.0, "without contact the total volume is zero");
  vp_reach("end");
}
extern "C" void aggr_none_normal()
{
  int n = 1 + vp_choice("n", 3);
  shell s(n, 1.0, 2.0, 1.0, 2.0, 0.5);
  fill(s, n, false);
  vec3 N(0, 0, 0), nn;
  for (int i = 0; i < n; ++i) N += s.m_out[i].normal;
  double m = N.dot(N);
  vp_assume(m > 1e-6);
  s.contactNormal(nn);
  vp_eq(nn.dot(nn), 1.0, "without contact the average normal is a unit vector");
  vp_eq3(vp_cross(nn, N), vec3(0, 0, 0), "without contact the average normal is parallel to the sum");
  vp_lt(0.0, vp_dot(nn, N), "without contact the average normal points the same way as the sum");
  vp_reach("end");
}
