// The S-function buses carry exactly what a shell answers.
#include "common.h"
#include <cstdlib>
#include "enve_sfun_interface.h"
using namespace enve;
template <class F> static bool refuses(F f)
{
  try {f();} catch (std::exception const &) {return true;}
  return false;
}
static char const * const RDF = "[NODES]\n0 -3 -3 0\n1 3 -3 0\n2 3 3 0\n3 -3 3 0\n[ELEMENTS]\n0 1 2 0.5\n0 2 3 0.25\n";
static char const * const OBJ = "v -3 -3 0\nv 3 -3 0\nv 3 3 0\nv -3 3 0\nf 1 2 3\nf 1 3 4\n";
static char const * start(int obj)
{
  char const * n = obj ? "road.obj" : "road.rdf";
  vp_file(n, obj ? OBJ : RDF);
  setenv("ENVE_GROUND_PATH", n, 1);
  return n;
}
static mat3 turn(int k)
{
  mat3 r = mat3::Identity(), q = r;
  if (k == 0) return r;
  int a = k == 1 ? 2 : 0, b = (a + 1) % 3, c = (a + 2) % 3;
  r(b,b) = r(c,c) = vp_rat(3, 5); r(b,c) = vp_rat(-4, 5); r(c,b) = vp_rat(4, 5);
  if (k == 1) return r;
  q(0,0) = q(1,1) = vp_rat(24, 25); q(0,1) = vp_rat(-7, 25); q(1,0) = vp_rat(7, 25); // steer after a camber of a smaller angle
  r(b,b) = r(c,c) = vp_rat(24, 25); r(b,c) = vp_rat(-7, 25); r(c,b) = vp_rat(7, 25);
  return q*r;
}
static void same(double a, double b, char const * l) {vp_eq(a, b, l);}
static void put(affine const & a, EnveInputBus & in)
{
  for (int i = 0; i < 16; ++i) in.HubAffine[i] = -77;
  for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) in.HubAffine[4*c + r] = a.matrix()(r, c);
}
static void stale(EnveOutputBus & o)
{
  double * p = reinterpret_cast<double *>(&o);
  for (size_t i = 0; i < sizeof(o)/sizeof(double); ++i) p[i] = -99;
}
static void compare(shell const & s, EnveOutputBus const & o, bool in, char const * l)
{
  affine a;
  double v;
  int n = int(s.size());
  s.contactPointAffine(a);
  for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) same(o.ShellAffine[4*c + r], a.matrix()(r, c), l);
  s.contactDepth(v); same(o.ShellRho, v, l);
  s.contactFriction(v); same(o.ShellFriction, v, l);
  for (int i = 0; i < ENVE_MAX_RIBS; ++i)
    if (i < n)
    {
      s.contactPointAffine(i, a);
      for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) same(o.RibsAffine[16*i + 4*c + r], a.matrix()(r, c), l);
      s.contactDepth(i, v); same(o.RibsRho[i], v, l);
      s.contactFriction(i, v); same(o.RibsFriction[i], v, l);
    }
    else
    {
      char const * nan = "slots without a rib are not a number";
      for (int k = 0; k < 16; ++k) vp_assert(o.RibsAffine[16*i + k] != o.RibsAffine[16*i + k], nan);
      vp_assert(o.RibsRho[i] != o.RibsRho[i] && o.RibsFriction[i] != o.RibsFriction[i], nan);
    }
  vp_assert(o.InMesh == (in ? 1.0 : 0.0), "the flag tells whether the shell is on the mesh");
}
static void init(double n, double mx, double ry, double h, double mu)
{
  double rx = 0.5, my = 2.0, ly = 0.25;
  enve_sfun_init(&n, &rx, &mx, &ry, &my, &ly, &h, &mu);
}
// one or two outputs: on the mesh, off the mesh (back-up plane), on the plane by request
extern "C" void sfun_bus()
{
  vp_ite_mode(0);
  int n = 1 + vp_choice("n", 3), m = vp_choice("method", 2), obj = vp_choice("obj", 2), t = vp_choice("turn", 3), steps = 1 + (n == 2);
  double h = vp_real("h", 0.0, 0.05), mu = vp_real("mu", 0, 2);
  if (t != 0 && (m == 0 || n == 2)) return;
  start(obj);
  ground::flat f(mu, point(0, 0, h), vec3(0, 0, 1));
  std::shared_ptr<ground::mesh> g = obj ? std::make_shared<ground::mesh>("road.obj", 1.0, vp_affine(mat3::Identity(), vec3(0, 0, 0))) : std::make_shared<ground::mesh>("road.rdf", vp_affine(mat3::Identity(), vec3(0, 0, 0)));
  init(n, 2.0, 0.5, h, mu);
  EnveOutputBus out;                 // one bus for all steps: what a step leaves is stale for the next
  stale(out);
  for (int k = 0; k < steps; ++k)
  {
    int w = vp_choice(vp_name("where", k).c_str(), 3);
    if (w == 0 && (n == 3 || (m == 0 && n == 2))) return;
    double z = m == 0 && w == 0 ? vp_rat(3, 10) : vp_real(vp_name("z", k).c_str(), 0.2, 0.4);
    affine a = vp_affine(turn(t), vec3(w == 1 ? 50 : 1.25, 0.375, n == 3 ? z + 0.5 : z));  // three ribs: clear of the ground
    EnveInputBus in;
    put(a, in);
    double mm = m, fe = w == 2 ? 1 : 0;
    enve_sfun_out(&in, &out, &mm, &fe);
    shell s(n, 0.5, 2.0, 0.5, 2.0, 0.25);
    char const * M = m ? "sampling" : "geometric";
    if (w == 0) s.setup(*g, a, M); else s.setup(f, a, M);
    compare(s, out, w != 1, w == 0 ? "buses carry the answers of the shell on the mesh" : w == 1 ? "off the mesh the back-up plane answers" : "the plane answers when asked for");
  }
  vp_reach("end");
}
// the parameters reach the shell
extern "C" void sfun_parameters()
{
  vp_ite_mode(0);
  int n = 1 + vp_choice("n", 3), obj = vp_choice("obj", 2);
  if (n == 3) n = 20;
  double p[5] = {0.5, 2, 0.5, 2, 0.125}, h = vp_real("h", -1, 1), mu = vp_real("mu", 0, 5), d = n;
  // one parameter at a time is arbitrary
  int w = vp_choice("w", 5);
  if (n == 20 && w > 0) return;
  if (w == 0) p[0] = vp_real("Rx", 0.3, 0.6);
  if (w == 1) p[1] = vp_real("Mx", 2, 20);
  if (w == 2) p[2] = vp_real("Ry", 0.3, 0.6);
  if (w == 3) p[3] = vp_real("My", 2, 20);
  if (w == 4) p[4] = vp_real("Ly", 0.1, 0.25);
  start(obj);
  enve_sfun_init(&d, &p[0], &p[1], &p[2], &p[3], &p[4], &h, &mu);
  shell s(n, p[0], p[1], p[2], p[3], p[4]);
  EnveInputBus in;
  EnveOutputBus out;
  double z = vp_real("z", 0.5, 0.8), on = 1, off = 0;
  affine a = vp_affine(mat3::Identity(), vec3(0, 0, h + p[0] + z));  // clear of the plane: no contact
  put(a, in); stale(out);
  enve_sfun_out(&in, &out, &off, &on);
  ground::flat f(mu, point(0, 0, h), vec3(0, 0, 1));
  s.setup(f, a, "geometric");
  compare(s, out, true, "shape parameters reach the shell");
  a = vp_affine(mat3::Identity(), vec3(0, 0, h + 0.5*p[0]));         // pressed into the plane
  put(a, in); stale(out);
  enve_sfun_out(&in, &out, &off, &on);
  s.setup(f, a, "geometric");
  compare(s, out, true, "shape, height and friction reach the shell");
  vp_reach("end");
}
extern "C" void sfun_refuse()
{
  vp_ite_mode(0);
  int k = vp_choice("k", 5);
  double v = vp_real("v", -2, 3);
  bool r, bad = true;
  if (k == 0) {unsetenv("ENVE_GROUND_PATH"); r = refuses([&]{init(2, 2, 0.5, 0, 0.5);});}
  if (k == 1) {vp_file("road.txt", RDF); setenv("ENVE_GROUND_PATH", "road.txt", 1); r = refuses([&]{init(2, 2, 0.5, 0, 0.5);});}
  if (k == 2) {vp_file("road.txt", RDF); setenv("ENVE_GROUND_PATH", "road.rdf", 1); r = refuses([&]{init(2, 2, 0.5, 0, 0.5);});}
  if (k > 2)
  {
    start(0);
    init(2, 2, 0.5, 0, 0.5);
    EnveInputBus in;
    EnveOutputBus out;
    put(vp_affine(mat3::Identity(), vec3(1.25, 0.375, 0.25)), in);
    double one = 1;
    bad = !(v == 0 || v == 1);
    if (k == 3) r = refuses([&]{enve_sfun_out(&in, &out, &v, &one);}); else r = refuses([&]{enve_sfun_out(&in, &out, &one, &v);});
  }
  vp_assert(r == bad, bad ? "an invalid setting is refused" : "a valid setting is accepted");
  vp_reach(bad ? "refused" : "accepted");
}
