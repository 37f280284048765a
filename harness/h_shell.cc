// A contact computation of a shell depends on its inputs only; no contact; pruning loses nothing.
#include "common.h"
using namespace enve;
typedef std::shared_ptr<triangleground const> tptr;
struct res {point p; vec3 n; double f, d, a, v;};
static res get(shell const & s, size_t i)
{
  res r;
  s.contactPoint(i, r.p); s.contactNormal(i, r.n); s.contactFriction(i, r.f); s.contactDepth(i, r.d); s.contactArea(i, r.a); s.contactVolume(i, r.v);
  return r;
}
static void same(shell const & s, shell const & t, int n)
{
  vp_assert(s.size() == size_t(n) && t.size() == size_t(n), "same number of ribs");
  for (int i = 0; i < n; ++i)
  {
    res a = get(s, i), b = get(t, i);
    vp_eq3(a.p, b.p, "contact point as from a fresh shell"); vp_eq3(a.n, b.n, "contact normal as from a fresh shell");
    vp_eq(a.f, b.f, "friction as from a fresh shell"); vp_eq(a.d, b.d, "depth as from a fresh shell");
    vp_eq(a.a, b.a, "area as from a fresh shell"); vp_eq(a.v, b.v, "volume as from a fresh shell");
  }
}
// ground and pose of one computation: kind 0 flat, 1 mesh near, 2 mesh far away; sampling or geometric
static affine at(double x, double y, double z) {return vp_affine(mat3::Identity(), vec3(x, y, z));}
static void tri(triangleground::vecptr & v, double mu, vec3 const & a, vec3 const & b, vec3 const & c)
{v.push_back(std::make_shared<triangleground const>(int(v.size()), mu, point(a), point(b), point(c)));}
static bool compute(shell & s, int kind, int meth, double z, double mu, double x0, bool lean = false)
{
  mat3 r = mat3::Identity();
  if (lean) {r(1,1) = r(2,2) = vp_rat(24, 25); r(1,2) = vp_rat(-7, 25); r(2,1) = vp_rat(7, 25);}
  affine p = vp_affine(r, vec3(0, 0, z));
  std::string m = meth ? "sampling" : "geometric";
  if (kind == 0) {ground::flat g(mu, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0); return s.setup(g, p, m);}
  triangleground::vecptr v;
  tri(v, mu, vec3(x0 - 9, -9, 0), vec3(x0 + 9, -9, 0), vec3(x0, 9, 0));
  ground::mesh g(v);
  return s.setup(g, p, m);
}
static void contacts(shell const & s, int n, bool ret, affine const & pose, shell const & shape)
{
  bool any = false;
  for (int i = 0; i < n; ++i)
  {
    res a = get(s, i);
    bool c = a.a > 0.0;
    any = any || c;
    if (c) continue;
    vp_eq(a.p.x(), pose.translation().x(), "no contact: point under the rib centre (x)");
    vp_eq(a.p.y(), pose.translation().y() + point(s.ribCenter(i)).y(), "no contact: point under the rib centre (y)");
    vp_eq(a.p.z(), pose.translation().z() - s.ribRadius(i), "no contact: point at the bottom of the rib");
    vp_eq3(a.n, vec3(0, 0, 1), "no contact: normal is the shell vertical");
    vp_eq(a.f, 0.0, "no contact: friction zero"); vp_eq(a.d, 0.0, "no contact: depth zero"); vp_eq(a.v, 0.0, "no contact: volume zero");
  }
  vp_assert(ret == any, "setup reports contact when and only when some rib is in contact");
}
extern "C" void shell_history()
{
  vp_ite_mode(0);
  int n = 2 + vp_choice("n", 2), k1 = vp_choice("k1", 3), k2 = vp_choice("k2", 3), m1 = vp_choice("m1", 2), m2 = vp_choice("m2", 2);
  if (k1 == 2 && m1) return;
  // concrete first computation, symbolic second one; heights span all ribs / some / no rib in contact
  double z1 = vp_choice("z1", 2) ? 0.45 : 0.55, z2 = vp_real("z2", 0.2, 0.6), mu2 = vp_real("mu2", 0.0, 2.0);
  shell s(n, 0.5, 2.0, 0.5, 2.0, 0.3), t(n, 0.5, 2.0, 0.5, 2.0, 0.3);
  // upright both times, or leaning the first or the second time
  int lean = n == 2 && k1 < 2 && m1 == m2 ? vp_choice("lean", 3) : 0;
  compute(s, k1, m1, z1, 1.5, k1 == 2 ? 50.0 : 0.0, lean == 1);
  bool a = compute(s, k2, m2, z2, mu2, k2 == 2 ? 50.0 : 0.0, lean == 2), b = compute(t, k2, m2, z2, mu2, k2 == 2 ? 50.0 : 0.0, lean == 2);
  vp_assert(a == b, "result as from a fresh shell");
  same(s, t, n);
  if (lean < 2) contacts(s, n, a, at(0, 0, z2), s);
  vp_reach("end");
}
// the ribs of a shell are those of the rib class, at the pose of the shell
extern "C" void shell_ribs()
{
  vp_ite_mode(0);
  int n = 1 + vp_choice("n", 3), m = vp_choice("m", 2);
  double z = vp_real("z", 0.2, 0.6), x = vp_real("x", -50.0, 50.0), y = vp_real("y", -50.0, 50.0), u[2];
  vp_unit("yaw", 2, u);
  mat3 r = mat3::Identity();
  r(0,0) = u[0]; r(0,1) = -u[1]; r(1,0) = u[1]; r(1,1) = u[0];
  affine pose = vp_affine(r, vec3(x, y, z));
  shell s(n, 0.5, 2.0, 0.5, 2.0, 0.3);
  ground::flat g(0.5, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0);
  bool a = s.setup(g, pose, m ? "sampling" : "geometric"), any = false;
  for (int i = 0; i < n; ++i)
  {
    output o;
    rib b(i, s.ribRadius(i), point(s.ribCenter(i)).y(), s.ribWidth(i), s.ribAngle(i));
    any = b.envelop(g, pose, m ? "sampling" : "geometric", o) || any;
    res q = get(s, i);
    vp_eq3(q.p, o.point, "shell point is that of its rib"); vp_eq3(q.n, o.normal, "shell normal is that of its rib");
    vp_eq(q.f, o.friction, "shell friction is that of its rib"); vp_eq(q.d, o.depth, "shell depth is that of its rib");
    vp_eq(q.a, o.area, "shell area is that of its rib"); vp_eq(q.v, o.volume, "shell volume is that of its rib");
  }
  vp_assert(a == any, "setup reports contact when and only when some rib is in contact");
  vp_reach("end");
}
// "fins": flat triangles far wider than the shell, side by side and overlapping, ordered and oriented differently
struct fin {double x, y, l, h, mu;};
static fin const FIN[] = {{0, -1, 0.75, 0, 0.25}, {0, -0.5, 1.0, 0.0625, 0.5}, {1, 1.5, -1.25, 0.03125, 0.75}, {60, 0, 1, 0, 1.0}, {-1, 0.25, 0.5, -0.03125, 1.25}, {0, 1, 2, -0.5, 1.5}};
static void fins(triangleground::vecptr & v, int n, int id0, int idstep)
{
  for (int i = 0; i < n; ++i)
  {
    fin const & f = FIN[i];
    v.push_back(std::make_shared<triangleground const>(id0 + idstep*i, f.mu, point(f.x - 20, f.y, f.h), point(f.x + 20, f.y, f.h), point(f.x, f.y + f.l, f.h)));
  }
}
// the rib plane yr and the disk about x keep away from the edges of the fins (tolerances decide there)
static void clear(int n, double yr, double x, bool wide)
{
  for (int i = 0; i < n; ++i)
  {
    fin const & f = FIN[i];
    double t = (yr - f.y) / f.l;
    vp_assume(t < -0.001 || t > 1.001 || (t > 0.001 && t < 0.9));
    if (wide) {double w = 20*(1 - t), d = x > f.x ? x - f.x : f.x - x; vp_assume(d - w > 0.75 || w - d > 0.75);}
  }
}
// the shell computation on the mesh against every rib on all triangles
static void prune(ground::mesh const & g, triangleground::vecptr const & v, shell & s, affine const & pose, int m)
{
  bool a = s.setup(g, pose, m ? "sampling" : "geometric"), any = false;
  for (int i = 0; i < int(s.size()); ++i)
  {
    output o;
    rib b(i, s.ribRadius(i), point(s.ribCenter(i)).y(), s.ribWidth(i), s.ribAngle(i));
    any = b.envelop(v, pose, m ? "sampling" : "geometric", o) || any;
    res q = get(s, i);
    vp_eq3(q.p, o.point, "contact point as with all triangles"); vp_eq3(q.n, o.normal, "contact normal as with all triangles");
    vp_eq(q.f, o.friction, "friction as with all triangles"); vp_eq(q.d, o.depth, "depth as with all triangles");
    vp_eq(q.a, o.area, "area as with all triangles"); vp_eq(q.v, o.volume, "volume as with all triangles");
  }
  vp_assert(a == any, "contact reported as with all triangles");
  vp_reach(any ? "hit" : "miss");
}
static void start() {vp_ite_mode(0); vp_size_cut(400);}
// lateral position of the shell over the fins
extern "C" void prune_y()
{
  start();
  int n = 1 + vp_choice("n", 3), m = vp_choice("m", 2), nf = 3 + vp_choice("nf", 3);
  double y = vp_real("y", -3.0, 3.0);
  for (int i = 0; i < n; ++i) clear(nf, y + 0.25*(2*i + 1 - n)/n, 0, false);
  triangleground::vecptr v;
  fins(v, nf, 0, 1);
  ground::mesh g(v);
  shell s(n, 0.5, 2.0, 0.5, 2.0, 0.25);
  prune(g, v, s, vp_affine(mat3::Identity(), vec3(0.125, y, 0.4375)), m);
}
// forward position; triangle ids are arbitrary
extern "C" void prune_x()
{
  start();
  int n = 2, m = vp_choice("m", 2), nf = 3 + vp_choice("nf", 2);
  double x = vp_real("x", -70.0, 70.0);
  for (int i = 0; i < n; ++i) clear(nf, 0.25*(2*i + 1 - n)/n, x, true);
  triangleground::vecptr v;
  int id0 = vp_choice("id0", 2), step = id0 ? 7 : -1;
  fins(v, nf, id0 ? 100 : nf - 1, step);
  ground::mesh g(v);
  shell s(n, 0.5, 2.0, 0.5, 2.0, 0.25);
  prune(g, v, s, vp_affine(mat3::Identity(), vec3(x, 0, 0.4375)), m);
}
// a shell driven along one mesh, which is emptied or changed on the way, answers as a fresh one does there
extern "C" void shell_path()
{
  start();
  int m = vp_choice("m", 2), change = vp_choice("change", 5), n = change == 4 ? 3 : 2;
  int shared = change % 2 ? vp_choice("shared", 4) : 0, first = shared ? 0 : vp_choice("first", 3);
  double z = m ? vp_real("z", 0.25, 0.6) : 0.375, x = m ? 0.0 : shared ? 0.25 : vp_real("x", -1.0, 1.0);
  double const H[5] = {0, -0.03125, 0, -0.5, -0.25};
  triangleground::vecptr v, w;
  // overlapping flat facets one after the other; those of the second road are lower and in another order
  for (int i = 0; i < 5; ++i) tri(v, 0.125*(i + 1), vec3(-20 + 8*i, -20, H[i]), vec3(20 + 8*i, -20, H[i]), vec3(8*i, 20, H[i]));
  for (int i = 0; i < 4; ++i) tri(w, 0.75 - 0.125*i, vec3(-20 - 8*i, -20, H[i] - 0.0625), vec3(20 - 8*i, -20, H[i] - 0.0625), vec3(-8*i, 20, H[i] - 0.0625));
  // or the second road has one of the upper facets, and the lower ones, of the first road
  if (shared)
  {
    triangleground::vecptr u;
    for (int i = 0; i < 5; ++i)
      if (i > 2 || i == shared - 1) u.push_back(v[i]); else tri(u, 0.75 - 0.125*i, vec3(-20 + 8*i, -20, H[i] - 0.0625), vec3(20 + 8*i, -20, H[i] - 0.0625), vec3(8*i, 20, H[i] - 0.0625));
    w = u;
  }
  ground::mesh g(v), h(w);
  shell s(2, 0.5, 2.0, 0.5, 2.0, 0.25), f(n, 0.5, 2.0, 0.5, 2.0, 0.25);
  std::string how = m ? "sampling" : "geometric";
  s.setup(g, at(first == 0 ? 0.0 : first == 1 ? 6.0 : 300.0, 0, 0.40625), how);
  if (change == 1) g.copy(h); else if (change == 2) g.clear(); else if (change == 3) s.setup(h, at(0, 0, 0.3125), m ? "geometric" : "sampling"); else if (change == 4) s.resize(3);
  affine p = at(x, 0.03125, z);
  bool a = s.setup(g, p, how), b = f.setup(g, p, how);
  vp_assert(a == b, "result as from a fresh shell");
  vp_assert(!a || change != 2, "nothing to touch on an emptied mesh");
  same(s, f, n);
  vp_reach(a ? "hit" : "miss");
}
// lanes of different heights whose edges run between the middle of a rib and its sides
extern "C" void prune_lanes()
{
  start();
  int n = 1 + vp_choice("n", 2), m = 1;
  double E[6] = {-3, -0.0625, -0.015625, 0.03125, 0.125, 3}, H[5] = {0, 0.0625, 0.03125, 0.125, 0.015625};
  double y = vp_real("y", -0.375, 0.375), w = 0.5/n;
  for (int i = 0; i < n; ++i)
    for (int k = -1; k < 2; ++k)
      for (int j = 1; j < 5; ++j) {double d = y + 0.25*(2*i + 1 - n)/n + 0.3*k*w - E[j]; vp_assume(d > 0.001 || d < -0.001);}
  triangleground::vecptr v;
  for (int j = 0; j < 5; ++j)
  {
    tri(v, 0.25*(j + 1), vec3(-5, E[j], H[j]), vec3(5, E[j], H[j]), vec3(5, E[j+1], H[j]));
    tri(v, 0.25*(j + 1), vec3(-5, E[j], H[j]), vec3(5, E[j+1], H[j]), vec3(-5, E[j+1], H[j]));
  }
  ground::mesh g(v);
  shell s(n, 0.5, 2.0, 0.5, 2.0, 0.25);
  prune(g, v, s, vp_affine(mat3::Identity(), vec3(2.125, y, 0.40625)), m);
}
// height of the shell
extern "C" void prune_z()
{
  start();
  int n = 2, m = vp_choice("m", 2), nf = 3 + vp_choice("nf", 2);
  double z = m ? vp_real("z", 0.02, 0.7) : 0.1015625 + 0.15625*vp_choice("zc", 4), y = 0.1875 + 0.5*vp_choice("y", 3);
  triangleground::vecptr v;
  fins(v, nf, 0, 1);
  ground::mesh g(v);
  shell s(n, 0.5, 2.0, 0.5, 2.0, 0.25);
  for (int j = 0; j < nf; ++j)
  {
    double d = z - FIN[j].h, e = s.ribRadius(0)*s.ribRadius(0) - d*d;
    vp_assume((e > 0.001 || e < -0.001) && (d > 0.001 || d < -0.001));
  }
  prune(g, v, s, vp_affine(mat3::Identity(), vec3(0.125, y, z)), m);
}
// a wide roller, upright or leaning, over fins that reach only its outer ribs; with a roof above, that nothing reaches,
// the ribs get their triangles by the plane of the rib
extern "C" void prune_wide()
{
  start();
  int m = vp_choice("m", 2), lean = vp_choice("lean", 3), roof = m ? 0 : vp_choice("roof", 2);
  double c = lean ? vp_rat(24, 25) : 1, q = lean ? lean == 1 ? vp_rat(7, 25) : vp_rat(-7, 25) : 0, x = vp_real("x", -10.0, 10.0), z = m ? vp_real("z", 0.1, 0.6) : 0.1015625 + 0.15625*vp_choice("zc", 4);
  double e0 = roof ? 1.16 : 0.8;
  mat3 r = mat3::Identity();
  r(1,1) = c; r(1,2) = -q; r(2,1) = q; r(2,2) = c;
  shell s(4, 0.5, 4.0, 2.0, 2.0, 1.5);
  triangleground::vecptr v;
  // two fins, beyond +-e0 in y, and a distant one
  tri(v, 0.5, vec3(-60, e0, 0), vec3(60, e0, 0), vec3(0, 3.0, 0));
  tri(v, 0.75, vec3(-60, -e0, 0), vec3(60, -e0, 0), vec3(0, -3.0, 0));
  tri(v, 0.25, vec3(90, -1, 0), vec3(91, -1, 0), vec3(90, 1, 0));
  if (roof) for (int k = 0; k < 3; ++k) tri(v, 0.25, vec3(-60, -2, 1.65), vec3(60, -2, 1.65), vec3(0, 2 + k, 1.65));
  ground::mesh g(v);
  for (int i = 0; i < 4; ++i)
  {
    double yi = point(s.ribCenter(i)).y(), h = (z + q*yi)/c, e = s.ribRadius(i)*s.ribRadius(i) - h*h, w = c*yi + q*h;
    vp_assume((e > 0.001 || e < -0.001) && (h > 0.001 || h < -0.001));
    vp_assume((w < e0 - 0.01 && w > 0.01 - e0) || (w > e0 + 0.01 && w < 2.0) || (w < -e0 - 0.01 && w > -2.0));
  }
  prune(g, v, s, vp_affine(r, vec3(x, 0, z)), m);
}
// the box of the shell encloses every rib, in any orientation: the extreme points of a disk of radius R at y
// on an axle of direction a are at y a(j) -+ R sqrt(1 - a(j)^2) along the world axis j
extern "C" void box_encloses()
{
  vp_ite_mode(0);
  int wide = vp_choice("wide", 2), how = vp_choice("how", 2), n = 1 + vp_choice("n", 3);
  mat3 r = vp_rot("r");
  vec3 t = vp_vec("t", 100);
  shell s(n, 0.5, 1.0, 2.0, 2.0, wide ? 1.5 : 0.25);
  ground::flat g(0.5, 0.0, 0.0, -500.0, 0.0, 0.0, 1.0);
  if (how) s.setup(g, vp_affine(r, t), "sampling");
  else {s.transform(vp_affine(r, t)); s.updateBBox();}
  double ct[3] = {t.x(), t.y(), t.z()};
  for (int i = 0; i < n; ++i)
  {
    double R = s.ribRadius(i), y = vec3(s.ribCenter(i)).y();
    for (int j = 0; j < 3; ++j)
    {
      double a = r(j,1), w = std::sqrt(1 - a*a);
      if (vp_sym()) vp_assume(a*a + w*w == 1);  // over the reals
      vp_le(s.bbox()->min(j), ct[j] + y*a - R*w, "the box encloses every rib"); vp_le(ct[j] + y*a + R*w, s.bbox()->max(j), "the box encloses every rib");
    }
  }
  vp_reach("end");
}
