// Shared pieces of the harnesses.
#ifndef VP_COMMON_H
#define VP_COMMON_H
#include "vp.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <Eigen/Dense>
#ifdef VP_FSTREAM
// symbolic build: file texts by path
__attribute__((weak)) char const * g_file_path = 0;
__attribute__((weak)) char const * g_file_text = 0;
extern "C" __attribute__((used)) inline char const * vp_file_text(char const * path) {return g_file_path && !std::strcmp(path, g_file_path) ? g_file_text : 0;}
inline void vp_file(char const * path, char const * text) {g_file_path = path; g_file_text = text;}
#else
// native replay: a real file below the scratch directory the replay runs in
inline void vp_file(char const * path, char const * text) {std::ofstream f(path, std::ios::binary); f << text;}
#endif
#define private public
#define protected public
#include "enve.hh"
#undef private
#undef protected
typedef acme::real real_t;
using acme::vec3; using acme::mat3; using acme::point; using acme::affine;

// name with an index: "r" + "3" (indices below 100)
inline std::string vp_name(char const * stem, int i)
{
  std::string s(stem);
  if (i > 9) s += char('0' + i / 10);
  s += char('0' + i % 10);
  return s;
}
// rotation matrix of the unit quaternion (q0, q1, q2, q3)
inline mat3 vp_quat(double const * q)
{
  mat3 m;
  double w = q[0], x = q[1], y = q[2], z = q[3];
  m << 1 - 2*(y*y + z*z), 2*(x*y - w*z),     2*(x*z + w*y),
       2*(x*y + w*z),     1 - 2*(x*x + z*z), 2*(y*z - w*x),
       2*(x*z - w*y),     2*(y*z + w*x),     1 - 2*(x*x + y*y);
  return m;
}
// any rotation, as Rz * Rx * Ry with three arbitrary angles (every rotation has this form)
inline mat3 vp_rot(char const * name)
{
  std::string n(name);
  double z[2], x[2], y[2];
  vp_unit((n + ".z").c_str(), 2, z);
  vp_unit((n + ".x").c_str(), 2, x);
  vp_unit((n + ".y").c_str(), 2, y);
  mat3 m;
  m(0,0) = z[0]*y[0] - z[1]*x[1]*y[1]; m(0,1) = -z[1]*x[0]; m(0,2) = z[0]*y[1] + z[1]*x[1]*y[0];
  m(1,0) = z[1]*y[0] + z[0]*x[1]*y[1]; m(1,1) =  z[0]*x[0]; m(1,2) = z[1]*y[1] - z[0]*x[1]*y[0];
  m(2,0) = -x[0]*y[1];                 m(2,1) = x[1];       m(2,2) = x[0]*y[0];
  return m;
}
// any rotation about an axis 0, 1, 2
inline mat3 vp_rot_axis(char const * name, int axis)
{
  double u[2];
  vp_unit(name, 2, u);
  mat3 m = mat3::Identity();
  int a = (axis + 1) % 3, b = (axis + 2) % 3;
  m(a,a) = u[0]; m(a,b) = -u[1]; m(b,a) = u[1]; m(b,b) = u[0];
  return m;
}
inline vec3 vp_vec(char const * name, double b)
{
  std::string n(name);
  double x = vp_real((n + ".x").c_str(), -b, b);
  double y = vp_real((n + ".y").c_str(), -b, b);
  double z = vp_real((n + ".z").c_str(), -b, b);
  return vec3(x, y, z);
}
inline vec3 vp_dir(char const * name)
{
  double u[3];
  vp_unit(name, 3, u);
  return vec3(u[0], u[1], u[2]);
}
inline affine vp_affine(mat3 const & r, vec3 const & t)
{
  affine a;
  a.linear() = r;
  a.translation() = t;
  a.makeAffine();
  return a;
}
inline double vp_dot(vec3 const & a, vec3 const & b) {return a.x()*b.x() + a.y()*b.y() + a.z()*b.z();}
inline vec3 vp_cross(vec3 const & a, vec3 const & b)
{return vec3(a.y()*b.z() - a.z()*b.y(), a.z()*b.x() - a.x()*b.z(), a.x()*b.y() - a.y()*b.x());}
inline vec3 vp_mul(mat3 const & m, vec3 const & v)
{return vec3(m(0,0)*v.x() + m(0,1)*v.y() + m(0,2)*v.z(), m(1,0)*v.x() + m(1,1)*v.y() + m(1,2)*v.z(), m(2,0)*v.x() + m(2,1)*v.y() + m(2,2)*v.z());}
inline void vp_eq3(vec3 const & a, vec3 const & b, char const * label)
{
  vp_eq(a.x(), b.x(), label);
  vp_eq(a.y(), b.y(), label);
  vp_eq(a.z(), b.z(), label);
}
#endif
