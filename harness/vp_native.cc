// Native replay of a counterexample: inputs are read from the file named by argv[2].
#include "vp.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <string>
#include <vector>
static std::map<std::string, std::vector<double> > g_in;
static std::map<std::string, int> g_seq;
static std::vector<double> const & get(char const * name)
{
  std::string n(name);
  int k = g_seq[n]++;
  if (k) n += "#" + std::to_string(k);
  static std::vector<double> z(16, 0.0);
  std::map<std::string, std::vector<double> >::iterator it = g_in.find(n);
  if (it == g_in.end()) {fprintf(stderr, "VP-MISSING %s\n", n.c_str()); return z;}
  return it->second;
}
static void fail(char const * label, double a, double b)
{
  printf("VP-FAIL %s (%.17g vs %.17g)\n", label, a, b);
  fflush(stdout);
  _Exit(42);
}
extern "C" {
  double vp_real(char const * name, double lo, double hi)
  {
    double v = get(name)[0];
    if (v < lo) v = lo;
    if (v > hi) v = hi;
    return v;
  }
  void vp_unit(char const * name, int n, double * out)
  {
    std::vector<double> v = get(name);
    v.resize(n, 0.0);
    double s = 0;
    for (int i = 0; i < n; ++i) s += v[i]*v[i];
    s = std::sqrt(s);
    for (int i = 0; i < n; ++i) out[i] = v[i]/s;
  }
  double vp_angle(char const * name)
  {
    double o[2];
    vp_unit(name, 2, o);
    return std::atan2(o[1], o[0]);
  }
  void vp_know_atan2(double, double, double) {}
  int vp_int(char const * name, int, int) {return (int)get(name)[0];}
  int vp_choice(char const * name, int) {return (int)get(name)[0];}
  void vp_assume(bool c) {if (!c) {printf("VP-ASSUME\n"); fflush(stdout); _Exit(43);}}
  void vp_assert(bool c, char const * label) {if (!c) fail(label, 0, 1);}
  static double tol(double a, double b) {return 1e-6*std::max(1.0, std::max(std::fabs(a), std::fabs(b)));}
  void vp_eq(double a, double b, char const * label)
  {
    if (a != a && b != b) return;
    if (a == b) return;
    if (!(std::fabs(a-b) <= tol(a, b))) fail(label, a, b);
  }
  void vp_le(double a, double b, char const * label) {if (a != a || b != b || a > b + tol(a, b)) fail(label, a, b);}
  void vp_lt(double a, double b, char const * label) {if (a != a || b != b || a > b + tol(a, b)) fail(label, a, b);}
  void vp_reach(char const * l) {printf("\nREACH %s\n", l);}
  void vp_fail(char const * label) {fail(label, 0, 1);}
  double vp_rat(long p, long q) {return double(p)/double(q);}
  int vp_sym(void) {return 0;}
  void vp_ite_mode(int) {}
  void vp_size_cut(int) {}
  void vp_token_real(double v, char * buf, int n) {snprintf(buf, n, "%.17g", v);}
  void vp_token_int(int v, char * buf, int n) {snprintf(buf, n, "%d", v);}
  void vp_dump(double v) {printf("DUMP %.17g\n", v);}
}
static void onterm() {printf("VP-TERMINATE\n"); fflush(stdout); _Exit(44);}
int main(int argc, char ** argv)
{
  if (argc < 3) {fprintf(stderr, "usage: %s entry inputs\n", argv[0]); return 2;}
  FILE * f = fopen(argv[2], "r");
  if (!f) return 2;
  char line[4096];
  while (fgets(line, sizeof line, f))
  {
    if (line[0] == '#') continue;
    char * e = strchr(line, '=');
    if (!e) continue;
    *e = 0;
    std::vector<double> v;
    char * p = e+1;
    while (true) {char * q; double x = strtod(p, &q); if (q == p) break; v.push_back(x); p = q;}
    g_in[line] = v;
  }
  fclose(f);
  std::set_terminate(onterm);
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) {fprintf(stderr, "no entry %s\n", argv[1]); return 2;}
  fn();
  printf("VP-OK\n");
  return 0;
}
