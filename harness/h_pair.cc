// Pairs of lines, rays and segments in a common plane, or on a common line.
#include "prim.h"
static double const BIG = 0.001;
struct piece
{
  int kind; point o; vec3 d;
  bool covers(double s) const {return kind == 0 || (s >= 0 && (kind == 1 || s <= 1));}
};
static void clear(int kind, double s)
{
  if (kind > 0) vp_band(s, -BIG, 0);
  if (kind > 1) vp_band(s, 1, 1 + BIG);
}
static bool point_of(piece const & a, piece const & b, point & q)
{
  segment s(a.o, point(a.o + a.d)), t(b.o, point(b.o + b.d));
  if (a.kind == 0 && b.kind == 0) return Intersection(line(a.o, a.d), line(b.o, b.d), q);
  if (a.kind == 0 && b.kind == 1) return Intersection(line(a.o, a.d), ray(b.o, b.d), q);
  if (a.kind == 0 && b.kind == 2) return Intersection(line(a.o, a.d), t, q);
  if (a.kind == 1 && b.kind == 1) return Intersection(ray(a.o, a.d), ray(b.o, b.d), q);
  if (a.kind == 1 && b.kind == 2) return Intersection(ray(a.o, a.d), t, q);
  return Intersection(s, t, q);
}
static int const KINDS[6][2] = {{0, 0}, {0, 1}, {0, 2}, {1, 1}, {1, 2}, {2, 2}};
// coplanar, not parallel: they meet where the lines cross, if both get there
extern "C" void pair_cross()
{
  place w(2);
  int k = vp_choice("k", 6);
  double s = vp_real("s", -5, 5), t = vp_real("t", -5, 5), l = vp_real("l", 0.1, 4), m = vp_real("m", 0.1, 4), e2[2], r2[2];
  vp_unit("e", 2, e2); vp_unit("r", 2, r2);
  vp_assume(r2[1] > 0.05 || r2[1] < -0.05);   // not parallel
  double a = l*e2[0], b = l*e2[1], f = m*(e2[0]*r2[0] - e2[1]*r2[1]), g = m*(e2[0]*r2[1] + e2[1]*r2[0]);
  piece A = {KINDS[k][0], w.at(-s*a, -s*b, 0), w.dir(a, b, 0)}, B = {KINDS[k][1], w.at(-t*f, -t*g, 0), w.dir(f, g, 0)};
  clear(A.kind, s); clear(B.kind, t);
  point q;
  bool e = A.covers(s) && B.covers(t), r = point_of(A, B, q);
  vp_assert(r == e, "two coplanar pieces meet exactly when both reach the crossing");
  if (r) vp_eq3(q, w.at(0, 0, 0), "the crossing of two pieces");
  vp_reach(r ? "hit" : "miss");
}
// result of a collinear intersection as an interval of the common line: kind 0 line, 1 ray to +, -1 ray to -, 2 segment
struct span {bool ok; double lo, hi; bool inflo, infhi;};
static span cover(int kind, double o, double d)
{
  span s = {true, o, o, kind == 0 || (kind == 1 && d < 0), kind == 0 || (kind == 1 && d > 0)};
  if (kind == 2) {if (d > 0) s.hi = o + d; else s.lo = o + d;}
  return s;
}
// collinear pieces overlap in the common part
extern "C" void pair_overlap()
{
  place w(2, 5.0);
  int k = vp_choice("k", 6), tilt = vp_choice("tilt", 2);
  double a = vp_real("a", -5, 5), b = vp_real("b", -5, 5), f = vp_real("f", 0.1, 3), g = vp_real("g", 0.1, 3);
  int sf = vp_choice("sf", 2), sg = vp_choice("sg", 2);
  if (sf) f = -f;
  if (sg) g = -g;
  double c = tilt ? vp_rat(3, 5) : 1, s = tilt ? vp_rat(4, 5) : 0;
  piece A = {KINDS[k][0], w.at(a*c, a*s, 0), w.dir(f*c, f*s, 0)}, B = {KINDS[k][1], w.at(b*c, b*s, 0), w.dir(g*c, g*s, 0)};
  span x = cover(A.kind, a, f), y = cover(B.kind, b, g), z;
  // the ends stay apart
  double xe[2] = {x.lo, x.hi}, ye[2] = {y.lo, y.hi};
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {double d = xe[i] - ye[j]; vp_assume(d > BIG || d < -BIG);}
  z.inflo = x.inflo && y.inflo; z.infhi = x.infhi && y.infhi;
  z.lo = x.inflo ? y.lo : y.inflo ? x.lo : x.lo > y.lo ? x.lo : y.lo;
  z.hi = x.infhi ? y.hi : y.infhi ? x.hi : x.hi < y.hi ? x.hi : y.hi;
  z.ok = z.inflo || z.infhi || z.lo <= z.hi;
  line L; ray R; segment S;
  int got = -1;      // 0 line, 1 ray, 2 segment
  segment sa(A.o, point(A.o + A.d)), sb(B.o, point(B.o + B.d));
  if (A.kind == 0 && B.kind == 0) {if (Intersection(line(A.o, A.d), line(B.o, B.d), L)) got = 0;}
  else if (A.kind == 0 && B.kind == 1) {if (Intersection(line(A.o, A.d), ray(B.o, B.d), R)) got = 1;}
  else if (A.kind == 0 && B.kind == 2) {if (Intersection(line(A.o, A.d), sb, S)) got = 2;}
  else if (A.kind == 1 && B.kind == 1)
  {
    if (Intersection(ray(A.o, A.d), ray(B.o, B.d), R)) got = 1;
    if (Intersection(ray(A.o, A.d), ray(B.o, B.d), S)) {vp_assert(got < 0, "one kind of overlap"); got = 2;}
  }
  else if (A.kind == 1 && B.kind == 2) {if (Intersection(ray(A.o, A.d), sb, S)) got = 2;}
  else if (Intersection(sa, sb, S)) got = 2;
  vp_assert((got >= 0) == z.ok, "collinear pieces overlap exactly when they share points");
  if (got < 0 || !z.ok) {vp_reach("miss"); return;}
  int want = z.inflo && z.infhi ? 0 : z.inflo || z.infhi ? 1 : 2;
  vp_assert(got == want, "the overlap is of the right kind");
  if (got != want) return;
  vec3 u = w.dir(c, s, 0), o = got == 0 ? L.origin() : got == 1 ? R.origin() : vec3(0, 0, 0), d = got == 0 ? L.direction() : got == 1 ? R.direction() : vec3(0, 0, 0);
  if (got < 2)
  {
    vec3 m = vp_cross(vec3(o - w.t), u), n = vp_cross(d, u);
    vp_eq3(m, vec3(0, 0, 0), "the overlap lies on the common line"); vp_eq3(n, vec3(0, 0, 0), "the overlap runs along the common line");
    vp_lt(0.0, vp_dot(d, d), "the overlap has a direction");
    if (got == 1)
    {
      double e = z.inflo ? z.hi : z.lo;
      vp_eq3(o, w.at(e*c, e*s, 0), "the overlapping ray starts where the common part starts");
      vp_lt(0.0, z.inflo ? -vp_dot(d, u) : vp_dot(d, u), "the overlapping ray points along the common part");
    }
  }
  else
  {
    vec3 p = S.vertex(0), q = S.vertex(1);
    if (vp_dot(vec3(q - p), u) < 0) std::swap(p, q);
    vp_eq3(p, w.at(z.lo*c, z.lo*s, 0), "first end of the overlap"); vp_eq3(q, w.at(z.hi*c, z.hi*s, 0), "second end of the overlap");
  }
  vp_reach("hit");
}
// parallel pieces on different lines share nothing
extern "C" void pair_apart()
{
  place w(2, 5.0);
  int k = vp_choice("k", 6);
  double a = vp_real("a", -5, 5), b = vp_real("b", -5, 5), f = vp_real("f", 0.1, 3), g = vp_real("g", 0.1, 3), h = vp_real("h", 0.01, 3);
  int sf = vp_choice("sf", 2);
  if (sf) f = -f;
  piece A = {KINDS[k][0], w.at(a, 0, 0), w.dir(f, 0, 0)}, B = {KINDS[k][1], w.at(b, h, 0), w.dir(g, 0, 0)};
  point q; line L; ray R; segment S;
  segment sa(A.o, point(A.o + A.d)), sb(B.o, point(B.o + B.d));
  bool r = point_of(A, B, q);
  if (A.kind == 0 && B.kind == 0) r = Intersection(line(A.o, A.d), line(B.o, B.d), L) || r;
  else if (A.kind == 0 && B.kind == 1) r = Intersection(line(A.o, A.d), ray(B.o, B.d), R) || r;
  else if (A.kind == 0 && B.kind == 2) r = Intersection(line(A.o, A.d), sb, S) || r;
  else if (A.kind == 1 && B.kind == 1) r = Intersection(ray(A.o, A.d), ray(B.o, B.d), R) || Intersection(ray(A.o, A.d), ray(B.o, B.d), S) || r;
  else if (A.kind == 1 && B.kind == 2) r = Intersection(ray(A.o, A.d), sb, S) || r;
  else r = Intersection(sa, sb, S) || r;
  vp_assert(!r, "parallel pieces on different lines share nothing");
  vp_reach("end");
}
