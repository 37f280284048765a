// Axis aligned boxes and their tree against brute force.
#include "common.h"
using acme::aabb; using acme::AABBtree;
typedef std::shared_ptr<AABBtree> tptr;
static aabb::ptr box(double x0, double x1, double y0, double y1, double z0, double z1, int id)
{return std::make_shared<aabb const>(x0, y0, z0, x1, y1, z1, id, id);}
static bool touch(aabb const & a, aabb const & b)
{
  for (int i = 0; i < 3; ++i)
    if (a.min(i) > b.max(i) || a.max(i) < b.min(i)) return false;
  return true;
}
// which: the axis along which the boxes are placed freely; elsewhere concrete, possibly flat
static aabb::ptr any(std::string const & n, int axis, int k, int id, double b)
{
  double lo = vp_real((n + ".lo").c_str(), -b, b), len = k % 3 == 2 ? 0.0 : vp_real((n + ".len").c_str(), 0.0, b), v[6];
  for (int i = 0; i < 3; ++i) {v[2*i] = -1 + 0.25*((k + i) % 3); v[2*i + 1] = v[2*i] + ((k + i) % 4 == 3 ? 0.0 : 0.75 + 0.5*k);}
  v[2*axis] = lo; v[2*axis + 1] = lo + len;
  return box(v[0], v[1], v[2], v[3], v[4], v[5], id);
}
static void check_pairs(aabb::vecptr const & a, aabb::vecptr const & b)
{
  AABBtree ta, tb;
  ta.build(a); tb.build(b);
  aabb::vecpairptr l;
  ta.intersection(tb, l);
  int hits = 0;
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < b.size(); ++j)
    {
      int n = 0;
      for (size_t k = 0; k < l.size(); ++k)
        if (l[k].first.get() == a[i].get() && l[k].second.get() == b[j].get()) ++n;
      bool t = touch(*a[i], *b[j]);
      if (t) ++hits;
      vp_assert(n == (t ? 1 : 0), t ? "a pair of touching boxes is found once" : "a pair of distant boxes is not found");
    }
  vp_assert(int(l.size()) == hits, "nothing else is found");
  vp_reach(hits ? "hit" : "miss");
}
static void pairs(bool large)
{
  vp_ite_mode(0);
  int axis = vp_choice("axis", 3), na = large ? 3 : 1 + vp_choice("na", 3), nb = large ? 2 : na == 3 ? 1 : 1 + vp_choice("nb", 2);
  aabb::vecptr a, b;
  for (int i = 0; i < na; ++i) a.push_back(any(vp_name("a", i), axis, i, i, 5));
  for (int i = 0; i < nb; ++i) b.push_back(any(vp_name("b", i), axis, i + 1, 10 + i, 5));
  check_pairs(a, b);
}
extern "C" void tree_pairs() {pairs(false);}
extern "C" void tree_pairs_large() {pairs(true);}
// one query box against a fixed set of many boxes: grid, stack, duplicates
extern "C" void tree_query()
{
  vp_ite_mode(0);
  int shape = vp_choice("shape", 4), axis = vp_choice("axis", 3), n = 5 + vp_choice("n", 2);
  aabb::vecptr a;
  for (int i = 0; i < n; ++i)
  {
    double t = shape == 0 ? i : shape == 1 ? 0.5*(i / 2) : shape == 2 ? (i*3) % n : i*i*0.25, v[6];
    for (int j = 0; j < 3; ++j) {double u = j == axis ? t : j == (axis + 1) % 3 ? 0.25*(i % 2) : 0; v[2*j] = u; v[2*j + 1] = u + (j == 2 ? 0 : 0.75);}
    a.push_back(box(v[0], v[1], v[2], v[3], v[4], v[5], i));
  }
  double lo = vp_real("q.lo", -2, 12), len = vp_real("q.len", 0, 3), w[6] = {0.25, 1, 0.25, 1, -0.25, 1};
  w[2*axis] = lo; w[2*axis + 1] = lo + len;
  aabb::vecptr b;
  b.push_back(box(w[0], w[1], w[2], w[3], w[4], w[5], 99));
  check_pairs(a, b);
}
// two sets of many boxes, the second one moved along an axis
extern "C" void tree_shift()
{
  vp_ite_mode(0);
  int shape = vp_choice("shape", 4), axis = vp_choice("axis", 3), na = 3 + 2*vp_choice("na", 2), nb = 4 + 3*vp_choice("nb", 2);
  double t = vp_real("t", -8, 8);
  aabb::vecptr a, b;
  for (int k = 0; k < na + nb; ++k)
  {
    bool first = k < na;
    int i = first ? k : k - na;
    double u[3], w = 0.5 + 0.25*(i % 3);
    u[0] = shape == 0 ? i : shape == 1 ? i / 2 : shape == 2 ? 0.75*((i*3) % 5) : 0.25*i*i;   // along the axis
    u[1] = shape == 3 ? 1.5*(i % 2) : 0.25*(i % 3); u[2] = shape == 2 ? 2.0*(i % 2) : 0;
    double v[6];
    for (int j = 0; j < 3; ++j)
    {
      double x = u[(j - axis + 3) % 3];
      v[2*j] = first || j != axis ? x : x + t; v[2*j + 1] = v[2*j] + (j == axis ? w : i == 2 ? 0 : 1);
    }
    (first ? a : b).push_back(box(v[0], v[1], v[2], v[3], v[4], v[5], k));
  }
  check_pairs(a, b);
}
// two boxes: intersects, merged
extern "C" void box_pair()
{
  vp_ite_mode(0);
  double a[6], b[6];
  for (int i = 0; i < 3; ++i)
  {
    a[2*i] = vp_real(vp_name("al", i).c_str(), -5, 5); a[2*i + 1] = a[2*i] + vp_real(vp_name("aw", i).c_str(), 0, 5);
    b[2*i] = vp_real(vp_name("bl", i).c_str(), -5, 5); b[2*i + 1] = b[2*i] + vp_real(vp_name("bw", i).c_str(), 0, 5);
  }
  aabb p(a[0], a[2], a[4], a[1], a[3], a[5], 1, 1), q(b[0], b[2], b[4], b[1], b[3], b[5], 2, 2);
  bool t = true;
  for (int i = 0; i < 3; ++i) t = t && a[2*i] <= b[2*i + 1] && b[2*i] <= a[2*i + 1];
  vp_assert(p.intersects(q) == t && q.intersects(p) == t, "boxes intersect when they share a point");
  vp_reach(t ? "hit" : "miss");
}
extern "C" void box_merged()
{
  vp_ite_mode(0);
  int axis = vp_choice("axis", 3), n = 1 + vp_choice("n", 4);
  aabb::vecptr v;
  for (int i = 0; i < n; ++i) v.push_back(any(vp_name("a", i), axis, i, i, 5));
  aabb m(v, 7, 8);
  for (int j = 0; j < 3; ++j)
  {
    bool lo = false, hi = false;
    for (int i = 0; i < n; ++i)
    {
      vp_le(m.min(j), v[i]->min(j), "the merged box contains every box"); vp_le(v[i]->max(j), m.max(j), "the merged box contains every box");
      lo = lo || m.min(j) == v[i]->min(j); hi = hi || m.max(j) == v[i]->max(j);
    }
    vp_assert(lo && hi, "the merged box is the smallest");
  }
  vp_assert(m.id() == 7 && m.pos() == 8, "the merged box has the given identity");
  vp_reach("end");
}
// distance of a point: lower bound to the box, upper bound to what it contains; flat boxes too
static double sq(double x) {return x*x;}
static double low(aabb const & b, double const * p)
{
  double s = 0;
  for (int i = 0; i < 3; ++i) s += p[i] < b.min(i) ? sq(b.min(i) - p[i]) : p[i] > b.max(i) ? sq(p[i] - b.max(i)) : 0;
  return s;
}
static double high(aabb const & b, double const * p)
{
  double s = 0;
  for (int i = 0; i < 3; ++i) {double u = sq(p[i] - b.min(i)), v = sq(b.max(i) - p[i]); s += u > v ? u : v;}
  return s;
}
extern "C" void box_distance()
{
  vp_ite_mode(0);
  double p[3], v[6];
  int flat = vp_choice("flat", 4);
  for (int i = 0; i < 3; ++i)
  {
    p[i] = vp_real(vp_name("p", i).c_str(), -5, 5);
    v[2*i] = vp_real(vp_name("l", i).c_str(), -5, 5); v[2*i + 1] = v[2*i] + (flat == i ? 0.0 : vp_real(vp_name("w", i).c_str(), 0.01, 5));
  }
  aabb b(v[0], v[2], v[4], v[1], v[3], v[5], 1, 1);
  double c = b.centerDistance(point(p[0], p[1], p[2])), e = b.exteriorDistance(point(p[0], p[1], p[2]));
  vp_assert(c >= 0 && e >= 0, "distances are defined");
  vp_eq(c*c, low(b, p), "distance of a point from a box");
  vp_eq(e*e, high(b, p), "distance of a point from the farthest point of a box");
  vp_reach("end");
}
// trees built again over other boxes, more, fewer or none; boxes of arbitrary and repeated numbers
extern "C" void tree_again()
{
  vp_ite_mode(0);
  int axis = vp_choice("axis", 3), old = vp_choice("old", 3), n = vp_choice("n", 4), which = vp_choice("which", 2);
  double t = vp_real("t", -6, 6);
  aabb::vecptr a, b, o;
  for (int i = 0; i < 2*old; ++i) o.push_back(box(i, i + 2, -1, 1, -1, 1, i));
  for (int i = 0; i < n + 3; ++i)
  {
    double v[6];
    bool q = i >= n;
    int k = q ? i - n : i;
    for (int j = 0; j < 3; ++j) {v[2*j] = j == axis ? (q ? t + 1.5*k : 1.25*k*k) : 0.25*k; v[2*j + 1] = v[2*j] + 1;}
    (q ? b : a).push_back(box(v[0], v[1], v[2], v[3], v[4], v[5], which ? 7 : 9 - k));
  }
  AABBtree ta, tb;
  if (old) {ta.build(o); tb.build(o); if (old == 2) {ta.clear(); vp_assert(ta.isEmpty(), "a cleared tree is empty");}}
  ta.build(a); tb.build(b);
  vp_assert(ta.isEmpty() == a.empty() && !tb.isEmpty(), "a tree is empty when it has no boxes");
  aabb::vecpairptr l;
  if (which) tb.intersection(ta, l); else ta.intersection(tb, l);
  int hits = 0;
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < b.size(); ++j)
    {
      int m = 0;
      for (size_t k = 0; k < l.size(); ++k)
        if ((which ? l[k].second : l[k].first).get() == a[i].get() && (which ? l[k].first : l[k].second).get() == b[j].get()) ++m;
      bool c = touch(*a[i], *b[j]);
      if (c) ++hits;
      vp_assert(m == (c ? 1 : 0), c ? "a pair of touching boxes is found once" : "a pair of distant boxes is not found");
    }
  vp_assert(int(l.size()) == hits, "nothing else is found");
  vp_reach(hits ? "hit" : "miss");
}
// candidates for the closest object: exactly the boxes that may contain something as close as the best guarantee
extern "C" void tree_closest()
{
  vp_ite_mode(0);
  int axis = vp_choice("axis", 3), n = 1 + vp_choice("n", 4);
  aabb::vecptr a;
  for (int i = 0; i < n; ++i)
  {
    double v[6];
    for (int j = 0; j < 3; ++j) {double u = j == axis ? i + 0.25*i*i : 0.25*((i + j) % 2); v[2*j] = u; v[2*j + 1] = u + (j == 2 && i % 2 ? 0 : 0.75);}
    a.push_back(box(v[0], v[1], v[2], v[3], v[4], v[5], i));
  }
  double p[3] = {0.125, 0.5, 1.25};
  p[axis] = vp_real("p", -3, 9);
  AABBtree t;
  t.build(a);
  aabb::vecptr l;
  t.selectMinimumDistance(point(p[0], p[1], p[2]), l);
  double best = high(*a[0], p);
  for (int i = 1; i < n; ++i) {double h = high(*a[i], p); if (h < best) best = h;}
  size_t m = 0;
  for (int i = 0; i < n; ++i)
  {
    int k = 0;
    for (size_t j = 0; j < l.size(); ++j) if (l[j].get() == a[i].get()) ++k;
    bool in = low(*a[i], p) <= best;
    if (in) ++m;
    vp_assert(k == (in ? 1 : 0), in ? "a possible closest box is a candidate, once" : "a box certainly farther is no candidate");
  }
  vp_assert(l.size() == m, "no other candidates");
  vp_reach("end");
}
// boxes from any two corners: what they hold and what they share
extern "C" void box_common()
{
  vp_ite_mode(0);
  int how = vp_choice("how", 3);
  vec3 a = vp_vec("a", 5), b = vp_vec("b", 5), p = vp_vec("p", 6), lo, hi;
  for (int i = 0; i < 3; ++i) {lo[i] = a[i] < b[i] ? a[i] : b[i]; hi[i] = a[i] < b[i] ? b[i] : a[i];}
  aabb x = how == 1 ? aabb(acme::point(a), acme::point(b), 4, 5) : aabb(a.x(), a.y(), a.z(), b.x(), b.y(), b.z(), 4, 5);
  vec3 t(0, 0, 0);
  if (how == 2) {t = vp_vec("t", 3); x.translate(acme::point(t));}
  for (int i = 0; i < 3; ++i) {vp_eq(x.min(i), lo[i] + t[i], "a box lies between its corners"); vp_eq(x.max(i), hi[i] + t[i], "a box lies between its corners");}
  vp_assert(x.id() == 4 && x.pos() == 5 && x.checkMaxMin(), "a box keeps its identity");
  bool in = true;
  for (int i = 0; i < 3; ++i) in = in && lo[i] + t[i] <= p[i] && p[i] <= hi[i] + t[i];
  vp_assert(x.isInside(acme::point(p)) == in, "a box holds the points between its corners");
  vp_reach("end");
}
extern "C" void box_shared()
{
  vp_ite_mode(0);
  int axis = vp_choice("axis", 3);
  aabb::ptr x = any("x", axis, vp_choice("k", 3), 1, 5), y = any("y", axis, 1, 2, 5);
  aabb s(0, 0, 0, 0, 0, 0, 9, 9);
  bool t = touch(*x, *y), r = acme::Intersection(*x, *y, s);
  vp_assert(r == t, "boxes share something when they touch");
  if (r) for (int i = 0; i < 3; ++i)
  {
    vp_eq(s.min(i), x->min(i) > y->min(i) ? x->min(i) : y->min(i), "what two boxes share");
    vp_eq(s.max(i), x->max(i) < y->max(i) ? x->max(i) : y->max(i), "what two boxes share");
  }
  vp_reach(r ? "hit" : "miss");
}
extern "C" void box_points()
{
  vp_ite_mode(0);
  aabb s(0, 0, 0, 0, 0, 0, 9, 9);
  vec3 p[3] = {vp_vec("p", 5), vec3(vp_real("q", -5, 5), 1, -1), vec3(-1, vp_real("r", -5, 5), 1)};
  acme::point q[3] = {acme::point(p[0]), acme::point(p[1]), acme::point(p[2])};
  if (vp_choice("list", 2)) s.clamp(q); else s.clamp(q[0], q[1], q[2]);
  for (int i = 0; i < 3; ++i)
  {
    bool lo = false, hi = false;
    for (int j = 0; j < 3; ++j) {vp_le(s.min(i), p[j][i], "the box of three points"); vp_le(p[j][i], s.max(i), "the box of three points"); lo = lo || s.min(i) == p[j][i]; hi = hi || s.max(i) == p[j][i];}
    vp_assert(lo && hi, "the box of three points");
  }
  vp_reach("end");
}
