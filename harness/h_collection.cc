// Collections of entities: kinds, counts, removal, boxes and candidates, pairwise intersections.
#include "prim.h"
enum {NONE, POINT, LINE, RAY, PLANE, SEGMENT, TRIANGLE, DISK, BALL, KINDS};
static entity::ptr make(int kind, vec3 const & o, double l)
{
  switch (kind)
  {
  case POINT: return entity::ptr(new point(o));
  case LINE: return entity::ptr(new line(point(o), vec3(l, 0, 0)));
  case RAY: return entity::ptr(new ray(point(o), vec3(0, l, 0)));
  case PLANE: return entity::ptr(new plane(point(o), vec3(0, 0, l)));
  case SEGMENT: return entity::ptr(new segment(point(o), point(o + vec3(l, 0, 0))));
  case TRIANGLE: return entity::ptr(new triangle(point(o), point(o + vec3(l, 0, 0)), point(o + vec3(0, l, 0.5*l))));
  case DISK: return entity::ptr(new disk(l, point(o), vec3(0, 0, 1)));
  case BALL: return entity::ptr(new ball(l, point(o)));
  default: return entity::ptr(new none());
  }
}
static bool boxed(int kind) {return kind == POINT || kind >= SEGMENT;}
// what a collection says of one sort of entities
struct sort {bool contain, are; int count; std::vector<char> is; std::vector<entity::ptr> rest;};
#define SORT(K) static sort sort##K(collection const & c) \
{ \
  sort s; collection d(c); \
  s.contain = c.contain##K(); s.are = c.are##K(); s.count = c.count##K(); \
  for (int i = 0; i < c.size(); ++i) s.is.push_back(c.is##K(i)); \
  d.remove##K(); \
  for (int i = 0; i < d.size(); ++i) s.rest.push_back(d[i]); \
  return s; \
}
SORT(None) SORT(Point) SORT(Line) SORT(Ray) SORT(Plane) SORT(Segment) SORT(Triangle) SORT(Disk) SORT(Ball) SORT(Clampable) SORT(NonClampable)
static void agree(sort const & s, std::vector<entity::ptr> const & e, std::vector<char> const & is)
{
  int n = 0, m = 0;
  for (size_t i = 0; i < e.size(); ++i) if (is[i]) ++n;
  vp_assert(s.contain == (n > 0), "a collection contains a sort when one of its entities is of it");
  vp_assert(s.are == (n == int(e.size())), "all entities are of a sort when each is");
  vp_assert(s.count == n, "the entities of a sort are counted");
  for (size_t i = 0; i < e.size(); ++i) vp_assert(s.is[i] == is[i], "each entity is of its own sort");
  vp_assert(s.rest.size() == e.size() - n, "removing a sort keeps the others");
  if (s.rest.size() != e.size() - n) return;
  for (size_t i = 0; i < e.size(); ++i) if (!is[i]) vp_assert(s.rest[m++].get() == e[i].get(), "removing a sort keeps the others in order");
}
extern "C" void collection_kinds()
{
  static sort (* const of[])(collection const &) = {sortNone, sortPoint, sortLine, sortRay, sortPlane, sortSegment, sortTriangle, sortDisk, sortBall};
  static char const * const names[] = {"none", "point", "line", "ray", "plane", "segment", "triangle", "disk", "ball"};
  static int const ORDER[4][4] = {{0, 1, 0, 2}, {1, 0, 0, 1}, {0, 0, 1, 0}, {1, 2, 0, 1}};
  int k[3] = {vp_choice("a", KINDS), vp_choice("b", KINDS), 0}, n = vp_choice("n", 5), o = vp_choice("order", 4);
  k[2] = (k[0] + 5) % KINDS;
  vec3 p = vp_vec("p", 5);
  collection c;
  std::vector<entity::ptr> e;
  std::vector<int> kind;
  for (int i = 0; i < n; ++i) {kind.push_back(k[ORDER[o][i]]); e.push_back(make(kind[i], p*(i + 1), 1.0 + i)); c.push_back(e[i]);}
  vp_assert(c.size() == n, "a collection has what is added to it");
  for (int i = 0; i < n; ++i) vp_assert(c[i].get() == e[i].get(), "a collection has what is added to it");
  std::map<std::string, acme::integer> all = c.count();
  std::vector<char> is(n);
  for (int j = 0; j < KINDS; ++j)
  {
    int m = 0;
    for (int i = 0; i < n; ++i) if ((is[i] = kind[i] == j)) ++m;
    agree(of[j](c), e, is);
    vp_assert(all[names[j]] == m, "the overall count agrees");
  }
  int m = 0;
  for (int i = 0; i < n; ++i) if ((is[i] = boxed(kind[i]))) ++m;
  agree(sortClampable(c), e, is);
  vp_assert(all["clampable"] == m, "the overall count agrees");
  for (int i = 0; i < n; ++i) is[i] = kind[i] == LINE || kind[i] == RAY || kind[i] == PLANE;
  vp_assert(all["non-clampable"] == std::count(is.begin(), is.end(), char(1)), "the overall count agrees");
  agree(sortNonClampable(c), e, is);
  c.resize(n/2);
  vp_assert(c.size() == n/2, "resizing a collection keeps its head");
  for (int i = 0; i < n/2; ++i) vp_assert(c[i].get() == e[i].get(), "resizing a collection keeps its head");
  c.clear();
  vp_assert(c.size() == 0, "clearing a collection leaves nothing");
  collection d(e);
  vp_assert(d.size() == n, "a collection has what it is made of");
  for (int i = 0; i < n; ++i) vp_assert(d[i].get() == e[i].get(), "a collection has what it is made of");
  vp_reach("end");
}
// degenerated entities, of any size against any tolerance
extern "C" void collection_degenerated()
{
  int n = 1 + vp_choice("n", 3);
  static int const K[8] = {SEGMENT, TRIANGLE, DISK, BALL, LINE, RAY, PLANE, POINT};
  double tol = vp_choice("tol", 2) ? 0.125 : 1e-6;
  collection c;
  std::vector<entity::ptr> e;
  std::vector<char> is(n);
  int k = vp_choice("k", 8), m = 0;
  for (int i = 0; i < n; ++i)
  {
    double l = vp_real(vp_name("l", i).c_str(), 0, 1);
    e.push_back(make(K[(k + 3*i) % 8], vec3(i, -i, 0.5), l));
    c.push_back(e[i]);
  }
  for (int i = 0; i < n; ++i) if ((is[i] = e[i]->isDegenerated(tol))) ++m;
  sort s; collection d(c);
  s.contain = c.containDegenerated(tol); s.are = c.areDegenerated(tol); s.count = c.countDegenerated(tol);
  for (int i = 0; i < n; ++i) s.is.push_back(c.isDegenerated(i, tol));
  vp_assert(c.count(tol)["degenerated"] == m, "the overall count agrees");
  d.removeDegenerated(tol);
  for (int i = 0; i < d.size(); ++i) s.rest.push_back(d[i]);
  agree(s, e, is);
  vp_reach(m ? "some" : "none");
}
extern "C" void collection_boxes()
{
  int n = vp_choice("n", 4), k = vp_choice("k", KINDS);
  collection c;
  std::vector<entity::ptr> e;
  bool all = true;
  for (int i = 0; i < n; ++i)
  {
    int j = (k + 5*i) % KINDS;
    if (!boxed(j)) all = false;
    e.push_back(make(j, vp_vec(vp_name("p", i).c_str(), 5), vp_real(vp_name("l", i).c_str(), 0.1, 2)));
    c.push_back(e[i]);
  }
  acme::aabb::vecptr b(2);
  bool thrown = false;
  try {c.clamp(b);} catch (std::exception const &) {thrown = true;}
  vp_assert(thrown == !all, "only bounded entities have boxes");
  if (!thrown)
  {
    vp_assert(int(b.size()) == n, "each entity has its box");
    if (int(b.size()) == n) for (int i = 0; i < n; ++i)
    {
      vec3 lo, hi;
      e[i]->clamp(lo, hi);
      vp_assert(b[i]->id() == i, "each box tells its entity");
      for (int j = 0; j < 3; ++j) {vp_eq(b[i]->min(j), lo[j], "each entity has its box"); vp_eq(b[i]->max(j), hi[j], "each entity has its box");}
    }
  }
  vp_reach(thrown ? "refused" : "end");
}
static void fill(collection & c, std::vector<entity::ptr> & e, int n, int k, int axis, char const * name, double side)
{
  static int const K[5] = {SEGMENT, BALL, POINT, TRIANGLE, DISK};
  for (int i = 0; i < n; ++i)
  {
    vec3 o(side, 0.25*i, -side);
    o[axis] = vp_real(vp_name(name, i).c_str(), -4, 4);
    e.push_back(make(K[(k + i) % 5], o, 1 + 0.5*i));
    c.push_back(e[i]);
  }
}
static bool touch(vec3 const & a, vec3 const & b, vec3 const & c, vec3 const & d)
{
  for (int i = 0; i < 3; ++i) if (a[i] > d[i] || b[i] < c[i]) return false;
  return true;
}
// candidates of two collections: the pairs whose boxes touch
extern "C" void collection_candidates()
{
  vp_ite_mode(0);
  int k = 2*vp_choice("k", 3), n = 1 + vp_choice("n", 2), how = vp_choice("how", 4), axis = vp_choice("axis", 3), hits = 0;
  collection a, b, r;
  std::vector<entity::ptr> x, y;
  fill(a, x, n, k, axis, "a", 0.25); fill(b, y, how == 3 ? 1 : 2, k + 1, axis, "b", 0);
  r.push_back(x[0]);
  a.buildAABBtree(); b.buildAABBtree();
  acme::aabb::vecptr boxes;
  b.clamp(boxes);
  bool some = how == 0 ? a.intersection(b, r) : how == 1 ? a.intersection(b.ptrAABBtree(), r) : how == 2 ? a.intersection(boxes, r) : a.intersection(boxes[0], r);
  int w = how ? 1 : 2;
  for (size_t i = 0; i < x.size(); ++i)
  {
    vec3 lo, hi; x[i]->clamp(lo, hi);
    int hit = 0, got = 0;
    for (size_t j = 0; j < y.size(); ++j)
    {
      vec3 l, h; y[j]->clamp(l, h);
      bool t = touch(lo, hi, l, h);
      if (t) ++hit;
      if (how) continue;
      int g = 0;
      for (int m = 0; m + 1 < r.size(); m += 2) if (r[m].get() == x[i].get() && r[m + 1].get() == y[j].get()) ++g;
      vp_assert(g == (t ? 1 : 0), "the candidates are the pairs whose boxes touch");
    }
    for (int m = 0; m < r.size(); m += w) if (r[m].get() == x[i].get()) ++got;
    vp_assert(got == hit, "the candidates are the entities whose boxes touch");
    hits += hit;
  }
  vp_assert(r.size() == hits*w, "there are no other candidates");
  vp_assert(some == (hits > 0), "candidates are told");
  vp_reach(some ? "some" : "none");
}
// the tree follows the entities when built again
extern "C" void collection_rebuild()
{
  vp_ite_mode(0);
  collection a, r;
  std::vector<entity::ptr> x;
  int k = vp_choice("k", 5), how = vp_choice("how", 3);
  fill(a, x, 2, k, 0, "a", 0.25);
  a.buildAABBtree();
  if (how == 0) a.translate(vec3(vp_real("t", -3, 3), 0, 0));
  else if (how == 1) a.resize(1), x.resize(1);
  else {x.push_back(make(BALL, vec3(vp_real("t", -3, 3), 0, 0), 0.5)); a.push_back(x.back());}
  a.buildAABBtree();
  acme::aabb::ptr box = std::make_shared<acme::aabb const>(-0.5, -1, -1, 0.5, 1, 1, 0, 0);
  bool some = a.intersection(box, r);
  int hits = 0;
  for (size_t i = 0; i < x.size(); ++i)
  {
    vec3 lo, hi; x[i]->clamp(lo, hi);
    int got = 0, t = touch(lo, hi, vec3(-0.5, -1, -1), vec3(0.5, 1, 1));
    for (int m = 0; m < r.size(); ++m) if (r[m].get() == x[i].get()) ++got;
    vp_assert(got == t, "the candidates are the entities whose boxes touch");
    hits += t;
  }
  vp_assert(r.size() == hits && some == (hits > 0), "there are no other candidates");
  vp_reach("end");
}
static void same(entity const * a, entity const * b)
{
  char const * what = "pairwise intersections come in order";
  vp_assert(a && b && a->level() == b->level(), what);
  if (!a || !b || a->level() != b->level()) return;
  if (a->isPoint()) vp_eq3(*dynamic_cast<point const *>(a), *dynamic_cast<point const *>(b), what);
  if (a->isSegment()) for (int i = 0; i < 2; ++i) vp_eq3(dynamic_cast<segment const *>(a)->vertex(i), dynamic_cast<segment const *>(b)->vertex(i), what);
}
extern "C" void collection_pairwise()
{
  static int const K[3][3] = {{SEGMENT, LINE, PLANE}, {POINT, SEGMENT, RAY}, {TRIANGLE, SEGMENT, POINT}};
  int k = vp_choice("k", 2), n = vp_choice("n", 4), m = 0;
  double tol = vp_choice("tol", 2) ? 0.5 : 1e-6;
  collection c, r;
  std::vector<entity::ptr> e;
  for (int i = 0; i < n; ++i) {e.push_back(make(K[k][i], vec3(0.5*i, vp_real(vp_name("y", i).c_str(), -2, 2), 0), 1.0 + i)); c.push_back(e[i]);}
  r.push_back(make(BALL, vec3(0, 0, 0), 1));
  c.intersection(r, tol);
  vp_assert(r.size() == n*(n + 1)/2, "each pair of entities is intersected once");
  if (r.size() == n*(n + 1)/2) for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) same(r[m++].get(), Intersection(e[i].get(), e[j].get(), tol));
  vp_reach("end");
}
