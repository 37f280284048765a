// Lines, rays, segments and planes against disks and balls.
#include "prim.h"
static double const BIG = 0.001;
// interval of parameters covered by a piece of kind 0 line, 1 ray, 2 segment (0..1), cut to [lo, hi]; false when nothing is left
static bool cut(int kind, double & lo, double & hi)
{
  if (kind == 0) return true;
  if (kind == 1)
  {
    vp_band(hi, -BIG, BIG);
    if (hi < 0) return false;
    lo = lo > 0 ? lo : 0;
    return true;
  }
  vp_band(hi, -BIG, BIG); vp_band(lo, 1 - BIG, 1 + BIG);
  if (hi < 0 || lo > 1) return false;
  lo = lo > 0 ? lo : 0; hi = hi < 1 ? hi : 1;
  return true;
}
template <class T> static bool chord(int kind, point const & o, vec3 const & d, T const & e, segment & s)
{
  if (kind == 0) return Intersection(line(o, d), e, s);
  if (kind == 1) return Intersection(ray(o, d), e, s);
  return Intersection(segment(o, point(o + d)), e, s);
}
template <class T> static bool single(int kind, point const & o, vec3 const & d, T const & e, point & s)
{
  if (kind == 0) return Intersection(line(o, d), e, s);
  if (kind == 1) return Intersection(ray(o, d), e, s);
  return Intersection(segment(o, point(o + d)), e, s);
}
// the piece runs at distance h from the centre, along the unit vector (c, s) of the local xy plane, length L per unit of
// parameter; the chord is [(-a - q)/L, (-a + q)/L]
static void chords(bool round)
{
  place w(2);
  int kind = vp_choice("kind", 3);
  double R = vp_real("R", 0.1, 5), u[2], L = vp_real("L", 0.1, 4), a = vp_real("a", -8, 8);
  double e2[2]; vp_unit("e", 2, e2);
  double c = e2[0], s = e2[1], z = vp_real("c", 0.1, 10);
  int in = vp_choice("in", 2);
  double h, q = 0;
  if (in) {vp_unit("u", 2, u); h = R*u[0]; q = R*u[1]; vp_assume(u[1] > 0.05);} else {h = vp_real("h", -8, 8); vp_assume(h > R + 0.05 || h < -R - 0.05);}
  vec3 f(-h*s, h*c, 0), d(L*c, L*s, 0);
  point o = w.at(vec3(f.x() + a*c, f.y() + a*s, 0)), A, B;
  segment out;
  bool r = round ? chord(kind, o, w.dir(d), ball(R, w.at(0, 0, 0)), out) : chord(kind, o, w.dir(d), disk(R, w.at(0, 0, 0), w.dir(0, 0, z)), out);
  double lo = (-a - q)/L, hi = (-a + q)/L;
  bool e = in && cut(kind, lo, hi);
  vp_assert(r == e, "the piece meets the round one exactly when it passes close enough");
  if (r)
  {
    A = point(o + w.dir(d)*lo); B = point(o + w.dir(d)*hi);
    vec3 x = out.vertex(0), y = out.vertex(1), m = vp_mul(w.r.transpose(), vec3(y - x));
    if (m.x()*d.x() + m.y()*d.y() < 0) std::swap(x, y);
    vp_eq3(x, A, "first end of the chord"); vp_eq3(y, B, "second end of the chord");
  }
  vp_reach(r ? "hit" : "miss");
}
extern "C" void round_disk() {chords(false);}
extern "C" void round_ball() {chords(true);}
// pieces crossing the plane of a disk
extern "C" void round_through()
{
  place w;
  int kind = vp_choice("kind", 3);
  double c = vp_real("c", 0.1, 10), s = vp_real("s", -5, 5), x = vp_real("x", -5, 5), y = vp_real("y", -5, 5), R = vp_real("R", 0.1, 5), k = x*x + y*y;
  vec3 d = vp_vec("d", 3);
  vp_assume(d.z() > 0.01 || d.z() < -0.01);
  vp_band(k - R*R, -BIG, BIG);
  if (kind > 0) vp_band(s, -BIG, 0);
  if (kind > 1) vp_band(s, 1, 1 + BIG);
  point q, P = w.at(x, y, 0), o = w.at(x - s*d.x(), y - s*d.y(), -s*d.z());
  bool e = k <= R*R && (kind == 0 || s >= 0) && (kind < 2 || s <= 1), r = single(kind, o, w.dir(d), disk(R, w.at(0, 0, 0), w.dir(0, 0, c)), q);
  vp_assert(r == e, "a straight piece meets a disk exactly when it crosses it");
  if (r) vp_eq3(q, P, "the crossing of the disk");
  vp_reach(r ? "hit" : "miss");
}
// a plane cuts a ball in a disk
extern "C" void round_plane_ball()
{
  place w;
  double c = vp_real("c", 0.1, 10), R = vp_real("R", 0.1, 5), h = vp_real("h", -6, 6), x = vp_real("x", -5, 5), y = vp_real("y", -5, 5);
  int flip = vp_choice("flip", 2);
  vp_band(h*h - R*R, -BIG, BIG);
  disk out;
  bool r = Intersection(plane(w.at(x, y, 0), w.dir(0, 0, flip ? -c : c)), ball(R, w.at(0, 0, h)), out);
  vp_assert(r == (h*h <= R*R), "a plane meets a ball exactly when it is close enough");
  if (r)
  {
    vp_eq3(out.center(), w.at(0, 0, 0), "centre of the cut of a ball");
    vp_eq(out.radius()*out.radius(), R*R - h*h, "radius of the cut of a ball"); vp_le(0.0, out.radius(), "radius of the cut of a ball");
    vec3 n = vp_mul(w.r.transpose(), out.normal());
    vp_eq(n.x(), 0.0, "the cut of a ball lies in the plane"); vp_eq(n.y(), 0.0, "the cut of a ball lies in the plane"); vp_eq(n.z()*n.z(), 1.0, "the cut of a ball lies in the plane");
  }
  vp_reach(r ? "hit" : "miss");
}
// a plane cuts a disk in a chord: the chord lies on the plane, on the disk plane and on the rim
extern "C" void round_plane_disk()
{
  place w(2, 5.0);
  double c = vp_real("c", 0.2, 5), k = vp_real("k", 0.2, 5), R = vp_real("R", 0.1, 5), h = vp_real("h", -6, 6), v[2], g = vp_real("g", -5, 5), l = vp_real("l", -5, 5);
  vp_unit("v", 2, v);
  vp_assume(v[0] > 0.1 || v[0] < -0.1);   // the planes are not parallel
  vp_band(h*h - R*R, -BIG, BIG);
  // disk in the local xy plane; the plane contains the line x = h, is spanned by y and (-v1, 0, v0), and is described by any of its points
  segment out;
  point o = w.at(h - g*v[1], l, g*v[0]);
  bool r = Intersection(plane(o, w.dir(k*v[0], 0, k*v[1])), disk(R, w.at(0, 0, 0), w.dir(0, 0, c)), out);
  vp_assert(r == (h*h <= R*R), "a plane meets a disk exactly when it is close enough");
  if (r)
  {
    double s = 0;
    for (int i = 0; i < 2; ++i)
    {
      vec3 p = vp_mul(w.r.transpose(), vec3(out.vertex(i) - w.t));
      vp_eq(p.x(), h, "the chord lies in the plane"); vp_eq(p.z(), 0.0, "the chord lies in the disk"); vp_eq(p.y()*p.y(), R*R - h*h, "the chord ends on the rim");
      s += p.y();
    }
    vp_eq(s, 0.0, "the chord runs from rim to rim");
  }
  vp_reach(r ? "hit" : "miss");
}
