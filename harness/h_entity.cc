// Intersections of pieces given as entities: the right function for the configuration, whatever the order.
#include "prim.h"
enum {POINT, LINE, RAY, SEGMENT, PLANE, TRIANGLE, DISK, BALL};
// what the pieces share according to the function for these types, as a new entity (none when nothing)
template <class R, class A, class B> static entity * typed(A const & a, B const & b)
{
  R r;
  if (Intersection(a, b, r)) return new R(r);
  return new none();
}
static entity * rays(ray const & a, ray const & b)
{
  entity * r = typed<ray>(a, b);
  return r->isNone() ? typed<segment>(a, b) : r;
}
enum {COLLINEAR, COPLANAR, GENERAL};
#define AS(T, e) (*dynamic_cast<T const *>(e))
// kinds in increasing order; null when not supported
static entity * expected(int cls, int k0, int k1, entity const * a, entity const * b)
{
  int k = k0*10 + k1;
  if (cls == COLLINEAR) switch (k)
  {
  case LINE*10 + LINE: return typed<line>(AS(line, a), AS(line, b));
  case LINE*10 + RAY: return typed<ray>(AS(line, a), AS(ray, b));
  case LINE*10 + SEGMENT: return typed<segment>(AS(line, a), AS(segment, b));
  case RAY*10 + RAY: return rays(AS(ray, a), AS(ray, b));
  case RAY*10 + SEGMENT: return typed<segment>(AS(ray, a), AS(segment, b));
  default: return typed<segment>(AS(segment, a), AS(segment, b));
  }
  if (cls == COPLANAR) switch (k)
  {
  case LINE*10 + LINE: return typed<point>(AS(line, a), AS(line, b));
  case LINE*10 + RAY: return typed<point>(AS(line, a), AS(ray, b));
  case LINE*10 + SEGMENT: return typed<point>(AS(line, a), AS(segment, b));
  case RAY*10 + RAY: return typed<point>(AS(ray, a), AS(ray, b));
  case RAY*10 + SEGMENT: return typed<point>(AS(ray, a), AS(segment, b));
  case SEGMENT*10 + SEGMENT: return typed<point>(AS(segment, a), AS(segment, b));
  case LINE*10 + PLANE: return typed<line>(AS(line, a), AS(plane, b));
  case RAY*10 + PLANE: return typed<ray>(AS(ray, a), AS(plane, b));
  case SEGMENT*10 + PLANE: return typed<segment>(AS(plane, b), AS(segment, a));
  case LINE*10 + TRIANGLE: return typed<segment>(AS(line, a), AS(triangle, b));
  case RAY*10 + TRIANGLE: return typed<segment>(AS(ray, a), AS(triangle, b));
  case SEGMENT*10 + TRIANGLE: return typed<segment>(AS(segment, a), AS(triangle, b));
  case LINE*10 + DISK: return typed<segment>(AS(line, a), AS(disk, b));
  case RAY*10 + DISK: return typed<segment>(AS(ray, a), AS(disk, b));
  case SEGMENT*10 + DISK: return typed<segment>(AS(segment, a), AS(disk, b));
  case PLANE*10 + PLANE: return typed<plane>(AS(plane, a), AS(plane, b));
  case PLANE*10 + TRIANGLE: return typed<triangle>(AS(plane, a), AS(triangle, b));
  case PLANE*10 + DISK: return typed<disk>(AS(plane, a), AS(disk, b));
  default: return 0;
  }
  switch (k)
  {
  case LINE*10 + PLANE: return typed<point>(AS(line, a), AS(plane, b));
  case RAY*10 + PLANE: return typed<point>(AS(ray, a), AS(plane, b));
  case SEGMENT*10 + PLANE: return typed<point>(AS(plane, b), AS(segment, a));
  case LINE*10 + TRIANGLE: return typed<point>(AS(line, a), AS(triangle, b));
  case RAY*10 + TRIANGLE: return typed<point>(AS(ray, a), AS(triangle, b));
  case SEGMENT*10 + TRIANGLE: return typed<point>(AS(segment, a), AS(triangle, b));
  case LINE*10 + DISK: return typed<point>(AS(line, a), AS(disk, b));
  case RAY*10 + DISK: return typed<point>(AS(ray, a), AS(disk, b));
  case SEGMENT*10 + DISK: return typed<point>(AS(segment, a), AS(disk, b));
  case LINE*10 + BALL: return typed<segment>(AS(line, a), AS(ball, b));
  case RAY*10 + BALL: return typed<segment>(AS(ray, a), AS(ball, b));
  case SEGMENT*10 + BALL: return typed<segment>(AS(segment, a), AS(ball, b));
  case PLANE*10 + PLANE: return typed<line>(AS(plane, a), AS(plane, b));
  case PLANE*10 + TRIANGLE: return typed<segment>(AS(plane, a), AS(triangle, b));
  case PLANE*10 + DISK: return typed<segment>(AS(plane, a), AS(disk, b));
  case PLANE*10 + BALL: return typed<disk>(AS(plane, a), AS(ball, b));
  case TRIANGLE*10 + TRIANGLE: return typed<segment>(AS(triangle, a), AS(triangle, b));
  case TRIANGLE*10 + DISK: return typed<segment>(AS(triangle, a), AS(disk, b));
  case DISK*10 + DISK: return typed<segment>(AS(disk, a), AS(disk, b));
  default: return k0 < PLANE && k1 < PLANE ? new none() : 0;
  }
}
static void compare(entity const * a, entity const * b)
{
  char const * what = "what two entities share is what their types share";
  vp_assert(a != 0, what);
  if (!a) return;
  vp_assert(a->level() == b->level(), what);
  if (a->level() != b->level()) return;
  if (a->isPoint()) vp_eq3(AS(point, a), AS(point, b), what);
  else if (a->isLine()) {vp_eq3(AS(line, a).origin(), AS(line, b).origin(), what); vp_eq3(AS(line, a).direction(), AS(line, b).direction(), what);}
  else if (a->isRay()) {vp_eq3(AS(ray, a).origin(), AS(ray, b).origin(), what); vp_eq3(AS(ray, a).direction(), AS(ray, b).direction(), what);}
  else if (a->isPlane()) {vp_eq3(AS(plane, a).origin(), AS(plane, b).origin(), what); vp_eq3(AS(plane, a).normal(), AS(plane, b).normal(), what);}
  else if (a->isSegment()) for (int i = 0; i < 2; ++i) vp_eq3(AS(segment, a).vertex(i), AS(segment, b).vertex(i), what);
  else if (a->isTriangle()) for (int i = 0; i < 3; ++i) vp_eq3(AS(triangle, a).vertex(i), AS(triangle, b).vertex(i), what);
  else if (a->isDisk()) {vp_eq3(AS(disk, a).center(), AS(disk, b).center(), what); vp_eq3(AS(disk, a).normal(), AS(disk, b).normal(), what); vp_eq(AS(disk, a).radius(), AS(disk, b).radius(), what);}
}
static entity * build(int kind, place const & w, vec3 const & o, vec3 const & d, vec3 const & s, vec3 const & t)
{
  switch (kind)
  {
  case POINT: return new point(w.at(o));
  case LINE: return new line(w.at(o), w.dir(d));
  case RAY: return new ray(w.at(o), w.dir(d));
  case SEGMENT: return new segment(w.at(o), w.at(o + d));
  case PLANE: return new plane(w.at(o), w.dir(d));
  case TRIANGLE: return new triangle(w.at(o - s - t), w.at(o + s*2), w.at(o + t*2));
  case DISK: return new disk(1.25, w.at(o), w.dir(d));
  default: return new ball(1.25, w.at(o));
  }
}
static void both(int cls, int k0, int k1, entity const * a, entity const * b)
{
  entity * e = expected(cls, k0, k1, a, b);
  bool thrown[2] = {false, false};
  entity * r[2] = {0, 0};
  for (int i = 0; i < 2; ++i) try {r[i] = i ? Intersection(b, a) : Intersection(a, b);} catch (std::exception const &) {thrown[i] = true;}
  vp_assert(thrown[0] == !e && thrown[1] == !e, "pairs of entities are refused exactly when not supported");
  if (e && !thrown[0] && !thrown[1])
  {
    compare(r[0], e);
    // pieces of one kind: the other order is that function with the pieces exchanged
    compare(r[1], k0 == k1 ? expected(cls, k0, k1, b, a) : e);
  }
  vp_reach(!e ? "refused" : e->isNone() ? "none" : "some");
}
extern "C" void entity_collinear()
{
  static int const P[6][2] = {{LINE, LINE}, {LINE, RAY}, {LINE, SEGMENT}, {RAY, RAY}, {RAY, SEGMENT}, {SEGMENT, SEGMENT}};
  place w(2, 5.0);
  int k = vp_choice("k", 6), back = vp_choice("back", 2);
  double x = vp_real("x", -3, 3), d[4] = {0, 1, 0.75, 1.75};
  for (int i = 0; i < 4; ++i) vp_assume(x > d[i] + 0.01 || x < d[i] - 0.01), vp_assume(x > -d[i] + 0.01 || x < -d[i] - 0.01);
  vec3 X(1, 0, 0), Y(0, 1, 0), Z(0, 0, 1);
  both(COLLINEAR, P[k][0], P[k][1], build(P[k][0], w, vec3(0, 0, 0), Z, X, Y), build(P[k][1], w, Z*x, Z*(back ? -0.75 : 0.75), X, Y));
}
extern "C" void entity_coplanar()
{
  static int const P[20][2] = {{LINE, LINE}, {LINE, RAY}, {LINE, SEGMENT}, {RAY, RAY}, {RAY, SEGMENT}, {SEGMENT, SEGMENT},
    {LINE, PLANE}, {RAY, PLANE}, {SEGMENT, PLANE}, {LINE, TRIANGLE}, {RAY, TRIANGLE}, {SEGMENT, TRIANGLE}, {LINE, DISK}, {RAY, DISK}, {SEGMENT, DISK},
    {PLANE, PLANE}, {PLANE, TRIANGLE}, {PLANE, DISK}, {TRIANGLE, DISK}, {DISK, DISK}};
  int k = vp_choice("k", 20);
  place w(1, 5.0);
  double x = vp_real("x", -3, 3), y = vp_real("y", -3, 3);
  vec3 X(1, 0, 0), Y(0, 1, 0), Z(0, 0, 1), D(0.6, 0.8, 0), N(-0.8, 0.6, 0);
  bool s0 = P[k][0] < PLANE, s1 = P[k][1] < PLANE;
  vp_assume(y > 0.01 || y < -0.01);
  both(COPLANAR, P[k][0], P[k][1], build(P[k][0], w, vec3(0, 0, 0), s0 ? X : Z, X, Y), build(P[k][1], w, X*x + Y*y, s1 ? D : Z, D, N));
}
extern "C" void entity_general()
{
  static int const P[25][2] = {{LINE, LINE}, {LINE, RAY}, {LINE, SEGMENT}, {RAY, RAY}, {RAY, SEGMENT}, {SEGMENT, SEGMENT},
    {LINE, PLANE}, {RAY, PLANE}, {SEGMENT, PLANE}, {LINE, TRIANGLE}, {RAY, TRIANGLE}, {SEGMENT, TRIANGLE}, {LINE, DISK}, {RAY, DISK}, {SEGMENT, DISK},
    {LINE, BALL}, {RAY, BALL}, {SEGMENT, BALL}, {PLANE, PLANE}, {PLANE, TRIANGLE}, {PLANE, DISK}, {PLANE, BALL}, {TRIANGLE, BALL}, {DISK, BALL}, {BALL, BALL}};
  int k = vp_choice("k", 25);
  place w(1, 5.0);
  double x = vp_real("x", -3, 3), z = vp_real("z", -3, 3), y = 0;
  vec3 X(1, 0, 0), Y(0, 1, 0), Z(0, 0, 1), D(0.6, 0.8, 0), N(-0.8, 0.6, 0);
  bool s0 = P[k][0] < PLANE, s1 = P[k][1] < PLANE;
  if (s0 && s1) {y = z; z = vp_real("off", 0.1, 2);}
  both(GENERAL, P[k][0], P[k][1], build(P[k][0], w, vec3(0, 0, 0), X, Y, Z), build(P[k][1], w, X*x + Y*y + Z*z, D, N, Z));
}
// pairs of flat pieces, in one direction of motion
extern "C" void entity_flat()
{
  static int const P[3][2] = {{TRIANGLE, TRIANGLE}, {TRIANGLE, DISK}, {DISK, DISK}};
  int k = vp_choice("k", 3);
  place w(1, 0);
  double z = vp_real("z", -4, 4);
  vec3 X(1, 0, 0), Y(0, 1, 0), Z(0, 0, 1);
  both(GENERAL, P[k][0], P[k][1], build(P[k][0], w, vec3(0, 0, 0), X, Y, Z), build(P[k][1], w, X*0.75 + Y*0.75 + Z*z, Y, X, Z));
}
extern "C" void entity_point()
{
  place w(2, 5.0);
  int k = vp_choice("k", 7);
  double x = vp_real("x", -3, 3), z = 0;
  if (vp_choice("off", 2)) {z = vp_real("z", -3, 3); vp_assume(z > 0.05 || z < -0.05);}
  double d[4] = {0, 1, 2, 1.25};
  for (int i = 0; i < 4; ++i) vp_assume(x > d[i] + 0.01 || x < d[i] - 0.01), vp_assume(x > -d[i] + 0.01 || x < -d[i] - 0.01);
  vec3 X(1, 0, 0), Y(0, 1, 0), Z(0, 0, 1);
  point p(w.at(X*x + Z*z));
  entity * e = build(k, w, vec3(0, 0, 0), k < PLANE ? X : Z, X, Y);
  bool in;
  switch (k)
  {
  case POINT: in = false; break;
  case LINE: in = z == 0; break;
  case RAY: in = z == 0 && x > 0; break;
  case SEGMENT: in = z == 0 && x > 0 && x < 1; break;
  case PLANE: in = z == 0; break;
  case TRIANGLE: in = z == 0 && x > -2/3.0 && x < 2; break;
  default: in = z == 0 && x < 1.25 && x > -1.25; break;
  }
  if (k == TRIANGLE) vp_assume(x > -0.65 || x < -0.68);
  for (int i = 0; i < 2; ++i)
  {
    entity * r = i ? Intersection(e, &p) : Intersection(&p, e);
    vp_assert(in ? r->isPoint() : r->isNone(), "a point shares itself with what it lies on");
    if (in && r->isPoint()) vp_eq3(AS(point, r), p, "a point shares itself with what it lies on");
  }
  vp_reach(in ? "some" : "none");
}
