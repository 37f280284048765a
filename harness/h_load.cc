// Mesh files: an .rdf or .obj file gives exactly the facets it describes, or is refused.
#include "common.h"
using namespace enve;
typedef ground::mesh mesh;
template <class F> static bool refuses(F f)
{
  try {f();} catch (std::exception const &) {return true;}
  return false;
}
static std::string real_text(double v) {char b[64]; vp_token_real(v, b, 64); return b;}
static std::string int_text(int v) {char b[64]; vp_token_int(v, b, 64); return b;}
static double const XY[5][2] = {{0, 0}, {1, 0.25}, {-0.5, 1.5}, {2, 2}, {0.25, -3}};
static int const F[4][3] = {{0, 1, 2}, {1, 3, 2}, {4, 1, 0}, {3, 0, 4}};
static affine pose(int k)
{
  if (k == 0) return vp_affine(mat3::Identity(), vec3(0, 0, 0));
  mat3 r = mat3::Identity(), q = r;
  int a = vp_choice("axis", 3), b = (a + 1) % 3, c = (a + 2) % 3;
  r(b,b) = r(c,c) = vp_rat(3, 5); r(b,c) = vp_rat(-4, 5); r(c,b) = vp_rat(4, 5);
  q(a,a) = q(b,b) = vp_rat(24, 25); q(a,b) = vp_rat(-7, 25); q(b,a) = vp_rat(7, 25);
  return vp_affine(mat3(r*q), vp_vec("t", 100));
}
static std::string sep(std::string const & a, std::string const & b, std::string const & c, std::string const & s) {return a + s + b + s + c;}
// text of a file with nn nodes and nf facets; the heights, the friction and (through idx) the indices are those given
struct spec
{
  bool obj; int nn, nf; double z[5], mu[4]; int f[4][3];
  std::string node[5], elem[4];      // when not empty, the line instead of the regular one
  std::string sp, eol, head, mid, pre;    // separator, line end, junk line before each line, indent
  bool last_eol, brackets;
  spec() : obj(false), nn(3), nf(1), sp(" "), eol("\n"), last_eol(true), brackets(true)
  {
    for (int i = 0; i < 5; ++i) z[i] = 0;
    for (int i = 0; i < 4; ++i) {mu[i] = 0.5; for (int j = 0; j < 3; ++j) f[i][j] = F[i][j];}
  }
  std::string text() const
  {
    std::string t = pre;
    if (!obj) t += head + (brackets ? "[NODES]" : "NODES") + eol;
    for (int i = 0; i < nn; ++i)
      t += head + mid + (!node[i].empty() ? node[i] : (obj ? std::string("v") : int_text(i)) + sp + sep(real_text(XY[i][0]), real_text(XY[i][1]), real_text(z[i]), sp)) + eol;
    if (!obj) t += head + (brackets ? "[ELEMENTS]" : "ELEMENTS") + eol;
    for (int i = 0; i < nf; ++i)
    {
      int o = obj ? 1 : 0;
      std::string e = sep(int_text(f[i][0] + o), int_text(f[i][1] + o), int_text(f[i][2] + o), sp);
      t += head + mid + (!elem[i].empty() ? elem[i] : obj ? "f" + sp + e : e + sp + real_text(mu[i]));
      if (i + 1 < nf || last_eol) t += eol;
    }
    return t;
  }
};
static void check(mesh const & m, spec const & s, affine const & p, double mu, char const * l)
{
  vp_assert(int(m.size()) == s.nf, "one facet per element");
  if (int(m.size()) != s.nf) return;
  for (int i = 0; i < s.nf; ++i)
  {
    triangleground const & t = *m.ptrTriangleground(i);
    for (int j = 0; j < 3; ++j)
    {
      int n = s.f[i][j];
      vp_eq3(t.vertex(j), vp_mul(p.linear(), vec3(XY[n][0], XY[n][1], s.z[n])) + vec3(p.translation()), l);
    }
    vp_eq(t.friction(), s.obj ? mu : s.mu[i], "the friction is the one given");
    vp_assert(t.id() == i, "facets are numbered in file order");
    vec3 v = t.normal(), a = vec3(t.vertex(1) - t.vertex(0)), b = vec3(t.vertex(2) - t.vertex(0));
    vp_eq(vp_dot(v, a), 0.0, "the normal belongs to the facet"); vp_eq(vp_dot(v, b), 0.0, "the normal belongs to the facet");
  }
}
// the collision structure holds the loaded facets: a box around everything finds all, once each
static void check_found(mesh const & m)
{
  triangleground::vecptr l;
  aabb::ptr all = std::make_shared<aabb const>(-1e4, -1e4, -1e4, 1e4, 1e4, 1e4, 0, 0);
  m.intersection(all, l);
  vp_assert(l.size() == m.size(), "every facet can be found");
  for (size_t i = 0; i < m.size(); ++i)
  {
    int k = 0;
    for (size_t j = 0; j < l.size(); ++j) if (l[j].get() == m.ptrTriangleground(i).get()) ++k;
    vp_assert(k == 1, "every facet can be found");
  }
}
static char const * NAME(bool obj) {return obj ? "file.obj" : "file.rdf";}
static void style(spec & s, int k)
{
  if (k == 1) s.eol = "\r\n";
  if (k == 2) s.head = s.obj ? "# comment 1 2 3\n" : "{ n1 n2 n3 }\n";
  if (k == 3) s.head = "% 1 2 3 4\n";
  if (k == 4) s.head = "\n";
  if (k == 5) {s.head = "\r\n"; s.eol = "\r\n";}
  if (k == 6) s.sp = "   ";
  if (k == 7) s.mid = "  ";
  if (k == 8) s.last_eol = false;
  if (k == 9) {s.eol = " \n"; s.brackets = false;}
  if (k == 10) s.head = "  \n";
  // what stands before the first section, or is neither vertex nor face, is not part of the mesh
  if (k == 11) s.pre = s.obj ? "o road\ns off\nvn 0 0 1\nvt 0.5 0.5\ng all\n" : "[MDI_HEADER]\nFILE_TYPE = 'rdf'\n7 1.5 2.5 3.5\n";
}
static void load(mesh & m, bool obj, double mu, affine const & p)
{
  if (obj) m.load("file.obj", mu, p); else m.load("file.rdf", p);
}
extern "C" void load_file()
{
  vp_ite_mode(0);
  spec s;
  s.obj = vp_choice("obj", 2);
  int k = vp_choice("style", 12), how = vp_choice("how", 2);
  style(s, k);
  s.nn = 5; s.nf = k < 2 ? 4 : 2;
  for (int i = 0; i < s.nn; ++i) s.z[i] = k < 2 || i != 1 + 2*(k % 2) ? 0.25*i*i - 1 : vp_real(vp_name("z", i).c_str(), -50, 50);
  for (int i = 0; i < s.nf; ++i) s.mu[i] = vp_real(vp_name("mu", i).c_str(), 0, 5);
  double mu = vp_real("mu", 0, 5);
  affine p = pose(k < 2 ? 1 : 0);
  std::string t = s.text();
  vp_file(NAME(s.obj), t.c_str());
  if (how == 0)
  {
    mesh m;
    load(m, s.obj, mu, p);
    check(m, s, p, mu, "vertices as in the file, moved by the pose");
    if (k < 2) check_found(m);
  }
  else
  {
    std::shared_ptr<mesh> m = s.obj ? std::make_shared<mesh>("file.obj", mu, p) : std::make_shared<mesh>("file.rdf", p);
    check(*m, s, p, mu, "vertices as in the file, moved by the pose");
    if (k >= 2) check_found(*m);
  }
  vp_reach("end");
}
// any node index: a facet naming a node the file does not have is refused
extern "C" void load_index()
{
  vp_ite_mode(0);
  spec s;
  s.obj = vp_choice("obj", 2);
  s.nn = 3 + vp_choice("nn", 2); s.nf = 1 + vp_choice("nf", 2);
  int w = vp_choice("w", 3), at = s.nf - 1, i = vp_int("i", -3, 8);
  s.f[at][w] = i;
  int a = s.f[at][(w + 1) % 3], b = s.f[at][(w + 2) % 3];
  vp_assume(i != a && i != b);
  bool bad = i < 0 || i >= s.nn;
  for (int k = 0; k < at; ++k) for (int j = 0; j < 3; ++j) if (s.f[k][j] >= s.nn) bad = true;
  if (a >= s.nn || b >= s.nn) bad = true;
  s.z[0] = vp_real("z0", 1, 2);
  double mu = vp_real("mu", 0, 5);
  affine p = pose(0);
  std::string t = s.text();
  vp_file(NAME(s.obj), t.c_str());
  mesh m;
  bool r = refuses([&]{load(m, s.obj, mu, p);});
  vp_assert(r == bad, bad ? "a facet naming a missing node is refused" : "a valid file is accepted");
  vp_reach(r ? "refused" : "accepted");
  if (!r) {s.f[at][w] = i; check(m, s, p, mu, "vertices as in the file");}
}
extern "C" void load_refuse()
{
  vp_ite_mode(0);
  spec s;
  s.obj = vp_choice("obj", 2);
  s.nn = 3; s.nf = 1;
  int k = vp_choice("k", 19);
  double v = vp_real("v", -2, 2);
  s.z[1] = v; s.mu[0] = 0.5;
  std::string a = s.obj ? "v" : "0", e = s.obj ? "f" : "";
  bool bad = true, by_file = true;
  double mu = 0.5;
  if (k == 0) {s.mu[0] = v; mu = v; bad = v < 0; s.z[1] = 0;}
  if (k == 1) s.node[1] = a + " 1 2";
  if (k == 2) s.node[1] = a + " 1 2 3 4";
  if (k == 3) s.node[0] = a;
  if (k == 4) s.node[2] = a + " 1 x 3";
  if (k == 5) s.elem[0] = s.obj ? "f 1 2" : "0 1 2";
  if (k == 6) s.elem[0] = s.obj ? "f 1 2 3 1" : "0 1 2 0.5 1";
  if (k == 7) s.elem[0] = s.obj ? "f 1 x 3" : "0 x 2 0.5";
  if (k == 8) s.nf = 0;
  if (k == 9) {s.nf = 0; s.nn = 0;}
  if (k == 10) s.elem[0] = s.obj ? "f" : "0 1 2 x";
  if (k == 11) {s.nn = 0; s.nf = 1;}
  if (k >= 14 && k <= 16) {s.nn = 4; s.nf = 2;}
  if (k == 14) s.elem[0] = s.obj ? "f -1 2 3" : "-1 1 2 0.5";
  if (k == 15) s.elem[0] = s.obj ? "f 1 -2 3" : "0 1 -2 0.5";
  if (k == 16) s.elem[0] = s.obj ? "f 0 1 2" : "0 1 2 -0.5";
  if (k == 17) {s.node[0] = a + " -0.5 -1.25e1 +2"; bad = false;}
  if (k == 18) {s.node[0] = s.obj ? "v -1 .5 -2." : "0 -1 .5 -2."; bad = false;}
  std::string t = s.text();
  char const * n = NAME(s.obj), * l = n;
  if (k == 12) n = s.obj ? "other.obj" : "other.rdf";
  if (k == 13) {n = "file.txt"; l = n;}
  vp_file(k == 12 ? "file.txt" : n, t.c_str());
  mesh m;
  affine p = pose(0);
  bool r = refuses([&]{if (s.obj) m.load(k == 13 ? l : "file.obj", mu, p); else m.load(k == 13 ? l : "file.rdf", p);});
  bool q = refuses([&]{if (s.obj) mesh x(k == 13 ? l : "file.obj", mu, p); else mesh x(k == 13 ? l : "file.rdf", p);});
  vp_assert(r == bad && q == bad, bad ? "a malformed file is refused" : "a valid file is accepted");
  if (!bad)
  {
    vp_assert(m.size() == 1, "one facet per element");
    if (m.size() == 1 && k >= 17)
    {
      vp_eq3(m[0]->vertex(0), k == 17 ? vec3(-0.5, -12.5, 2) : vec3(-1, 0.5, -2), "vertices as in the file");
      vp_eq3(m[0]->vertex(1), vec3(XY[1][0], XY[1][1], v), "vertices as in the file");
    }
  }
  vp_reach(bad ? "refused" : "accepted");
}
// sections may alternate: nodes and facets in several blocks
extern "C" void load_blocks()
{
  vp_ite_mode(0);
  spec s;
  s.obj = vp_choice("obj", 2);
  int k = vp_choice("style", 3), how = vp_choice("how", 2);
  std::string e = k == 1 ? "\r\n" : "\n", N = k == 2 ? "NODES" : "[NODES]", L = k == 2 ? "ELEMENTS" : "[ELEMENTS]";
  s.nn = 5; s.nf = 3;
  int f[3][3] = {{0, 1, 2}, {1, 3, 2}, {4, 1, 0}};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) s.f[i][j] = f[i][j];
  for (int i = 0; i < 5; ++i) s.z[i] = i % 2 ? 0.25*i*i - 1 : vp_real(vp_name("z", i).c_str(), -50, 50);
  for (int i = 0; i < 3; ++i) s.mu[i] = vp_real(vp_name("mu", i).c_str(), 0, 5);
  double mu = vp_real("mu", 0, 5);
  int to[3] = {3, 4, 5}, o = s.obj ? 1 : 0, at = 0;
  std::string t;
  for (int i = 0; i < 3; ++i)
  {
    if (!s.obj) t += N + e;
    for (; at < to[i]; ++at) t += (s.obj ? std::string("v") : int_text(at)) + " " + sep(real_text(XY[at][0]), real_text(XY[at][1]), real_text(s.z[at]), " ") + e;
    if (!s.obj) t += L + e;
    std::string q = sep(int_text(s.f[i][0] + o), int_text(s.f[i][1] + o), int_text(s.f[i][2] + o), " ");
    t += (s.obj ? "f " + q : q + " " + real_text(s.mu[i])) + e;
  }
  vp_file(NAME(s.obj), t.c_str());
  affine p = pose(0);
  mesh m;
  if (how) {vp_file(NAME(s.obj), t.c_str()); mesh q; load(q, s.obj, mu, p); m.copy(q);} else load(m, s.obj, mu, p);
  check(m, s, p, mu, "vertices as in the file, whatever the blocks");
  check_found(m);
  vp_reach("end");
}
// loading replaces what the mesh held
extern "C" void load_again()
{
  vp_ite_mode(0);
  spec s, u;
  s.obj = vp_choice("obj", 2); u.obj = vp_choice("obj2", 2);
  s.nn = 4; s.nf = 2; u.nn = 5; u.nf = 1 + vp_choice("nf", 3);
  if (u.nf == 1) {u.f[0][0] = 2; u.f[0][2] = 3;}
  u.z[1] = vp_real("z", -5, 5);
  affine p = pose(0);
  mesh m;
  std::string t = s.text(), w = u.text();
  vp_file(NAME(s.obj), t.c_str());
  load(m, s.obj, 0.5, p);
  vp_file(NAME(u.obj), w.c_str());
  load(m, u.obj, 0.75, p);
  check(m, u, p, 0.75, "vertices as in the file read last");
  check_found(m);
  vp_reach("end");
}
