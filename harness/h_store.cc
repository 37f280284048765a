// Per-rib storage for any number of ribs and any history of construction, resize, setup and queries.
#include "common.h"
using namespace enve;

static void query(shell & s, size_t n, bool vecs)
{
  vp_assert(s.size() == n, "size reports the number of ribs");
  for (size_t i = 0; i < n; ++i)
  {
    point p; vec3 v; double f, d, a, w;
    s.contactPoint(i, p); s.contactNormal(i, v); s.contactFriction(i, f); s.contactDepth(i, d); s.contactArea(i, a); s.contactVolume(i, w);
    vp_le(0.0, f, "per-rib friction is defined");
    vp_le(-10.0, d, "per-rib depth is defined");
    vp_le(0.0, a, "per-rib area is defined");
    vp_le(-10.0, w, "per-rib volume is defined");
    vp_le(-100.0, p.x() + p.y() + p.z(), "per-rib point is defined");
    vp_le(-100.0, v.x() + v.y() + v.z(), "per-rib normal is defined");
    vp_lt(0.0, s.ribRadius(i), "rib radius positive");
    vp_lt(0.0, s.ribWidth(i), "rib width positive");
  }
  if (!vecs) return;
  // lists: empty before, or left over from a larger shell
  for (int k = 0; k < 2; ++k)
  {
    size_t m = k ? n + 2 : 0;
    std::vector<point> ps(m); std::vector<vec3> ns(m); std::vector<double> fs(m, 7.5), ds(m, 7.5), as(m, 7.5), vs(m, 7.5);
    s.contactPoint(ps); s.contactNormal(ns); s.contactFriction(fs); s.contactDepth(ds); s.contactArea(as); s.contactVolume(vs);
    vp_assert(ps.size() == n && ns.size() == n && fs.size() == n && ds.size() == n && as.size() == n && vs.size() == n, "one entry per rib");
    if (n > 20) continue;
    for (size_t i = 0; i < n; ++i)
    {
      point p; vec3 v; double f, d, a, w;
      s.contactPoint(i, p); s.contactNormal(i, v); s.contactFriction(i, f); s.contactDepth(i, d); s.contactArea(i, a); s.contactVolume(i, w);
      vp_eq3(ps[i], p, "list of points holds the point of each rib"); vp_eq3(ns[i], v, "list of normals holds the normal of each rib");
      vp_eq(fs[i], f, "list of frictions holds the friction of each rib"); vp_eq(ds[i], d, "list of depths holds the depth of each rib");
      vp_eq(as[i], a, "list of areas holds the area of each rib"); vp_eq(vs[i], w, "list of volumes holds the volume of each rib");
    }
  }
}

#define FLAT(g, h) ground::flat g(1.0, 0.0, 0.0, h, 0.0, 0.0, 1.0)

// one shell, one setup, all queries; any rib count
extern "C" void store_once()
{
  static int const sizes[] = {1, 2, 3, 5, 20, 64, 200, 201, 256};
  size_t n = sizes[vp_choice("n", 9)];
  double h = vp_real("h", -2.0, 2.0);
  shell s(n, 1.0, 2.0, 1.0, 2.0, 0.5);
  affine pose = vp_affine(mat3::Identity(), vec3(0.0, 0.0, 0.0));
  int far = vp_choice("far", 2);
  FLAT(g, far ? -3.0 : h);
  if (!far && n > 3) return;
  s.setup(g, pose, "geometric");
  query(s, n, true);
  vp_reach("queried");
}
// construct, [setup], resize, setup again: every order of growing and shrinking
extern "C" void store_history()
{
  int a = 1 + vp_choice("a", 4), b = 1 + vp_choice("b", 4), c = 1 + vp_choice("c", 4);
  int early = vp_choice("early", 2), twice = vp_choice("twice", 2);
  double h = vp_real("h", -0.99, -0.9);
  shell s(a, 1.0, 2.0, 1.0, 2.0, 0.1);
  affine pose = vp_affine(mat3::Identity(), vec3(0.0, 0.0, 0.0));
  FLAT(g, h);
  if (early) {s.setup(g, pose, "geometric"); query(s, a, true);}
  s.resize(b);
  if (twice) s.resize(c);
  size_t n = twice ? c : b;
  s.setup(g, pose, "geometric");
  query(s, n, true);
  vp_reach("queried");
}
// queries between resize and setup stay inside the storage, whatever value they give
extern "C" void store_before_setup()
{
  int a = 1 + vp_choice("a", 4), b = 1 + vp_choice("b", 4);
  shell s(a, 1.0, 2.0, 1.0, 2.0, 0.5);
  if (vp_choice("resize", 2)) s.resize(b); else b = a;
  std::vector<point> ps; std::vector<vec3> ns; std::vector<double> fs, ds, as, vs;
  s.contactPoint(ps); s.contactNormal(ns); s.contactFriction(fs); s.contactDepth(ds); s.contactArea(as); s.contactVolume(vs);
  vp_assert(ps.size() == size_t(b) && ns.size() == size_t(b) && fs.size() == size_t(b) && vs.size() == size_t(b), "one entry per rib");
  for (int i = 0; i < b; ++i)
  {
    // before any setup the outputs are the declared "not a number" placeholders, never stale or indeterminate memory
    vp_assert(fs[i] != fs[i] && ds[i] != ds[i] && as[i] != as[i] && vs[i] != vs[i], "outputs are NaN before the first setup");
  }
  vp_reach("queried");
}
// mesh ground
extern "C" void store_mesh()
{
  static int const sizes[] = {1, 2, 7, 201};
  size_t n = sizes[vp_choice("n", 4)], m = sizes[vp_choice("m", 4)];
  double h = vp_real("h", -3.5, -1.5);
  shell s(n, 1.0, 2.0, 1.0, 2.0, 0.5);
  triangleground::vecptr t;
  t.push_back(std::make_shared<triangleground const>(0, 1.0, point(-9.0, -9.0, h), point(9.0, -9.0, h), point(0.0, 9.0, h)));
  ground::mesh g(t);
  affine pose = vp_affine(mat3::Identity(), vec3(0.0, 0.0, 0.0));
  s.setup(g, pose, "geometric");
  query(s, n, true);
  s.resize(m);
  s.setup(g, pose, "sampling");
  query(s, m, true);
  vp_reach("queried");
}
