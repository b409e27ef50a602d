// The table of Earth orientation parameters: storage, interpolation and
// regularisation.  Compiled and analysed, never run.
#include <cassert>
#include <cmath>
#include <cstdio>
#include "eop.hpp"
#include "iers2010/iers2010.hpp"
#include "datetime/utcdates.hpp"
#include <utility>
#define X extern "C" void
using T = dso::EopLookUpTable;
// columns in the order of the record
static double *col(T &t, int k, int i) { return k == 0 ? t.mjd(i) : k == 1 ? t.xp(i) : k == 2 ? t.yp(i) : k == 3 ? t.dut(i) : k == 4 ? t.dx(i) : k == 5 ? t.dy(i) : k == 6 ? t.lod(i) : t.omega(i); }
static const double *ccol(const T &t, int k, int i) { return k == 0 ? t.mjd(i) : k == 1 ? t.xp(i) : k == 2 ? t.yp(i) : k == 3 ? t.dut(i) : k == 4 ? t.dx(i) : k == 5 ? t.dy(i) : k == 6 ? t.lod(i) : t.omega(i); }
#ifdef TABLE
static void fill(T &t, int n, const double *in) { for (int k = 0; k < 8; k++) for (int i = 0; i < n; i++) *col(t, k, i) = in[8 * i + k]; }
static void dump(const T &t, int n, double *o) { for (int k = 0; k < 8; k++) for (int i = 0; i < n; i++) o[8 * i + k] = *ccol(t, k, i); }
static void want(int n, const double *in, double *o) { for (int k = 0; k < 8 * n; k++) o[k] = in[k]; }
#define C static_cast<const T &>
// N rows used of a table made for M
#define SIZES(N, M) \
  X impl_rows_##N##_##M(const double *a, double *o, int *s) { T t(M); t.resize(N); fill(t, N, a); dump(C(t), N, o); s[0] = t.size(); } \
  X spec_rows_##N##_##M(const double *a, double *o, int *s) { want(N, a, o); s[0] = N; } \
  X impl_copy_##N##_##M(const double *a, const double *b, double *o, double *p, int *s) { T t(M); t.resize(N); fill(t, N, a); T u(C(t)); fill(t, N, b); dump(C(u), N, o); dump(C(t), N, p); s[0] = u.size(); } \
  X spec_copy_##N##_##M(const double *a, const double *b, double *o, double *p, int *s) { want(N, a, o); want(N, b, p); s[0] = N; } \
  X impl_assign_##N##_##M(const double *a, const double *b, double *o, double *p, int *s) { T t(M); t.resize(N); fill(t, N, a); T u(2); u = C(t); fill(t, N, b); u = C(u); dump(C(u), N, o); dump(C(t), N, p); s[0] = u.size(); } \
  X spec_assign_##N##_##M(const double *a, const double *b, double *o, double *p, int *s) { want(N, a, o); want(N, b, p); s[0] = N; } \
  X impl_big_##N##_##M(const double *a, const double *b, double *o, double *p, int *s) { T t(M); t.resize(N); fill(t, N, a); T u(7); u = C(t); fill(t, N, b); dump(C(u), N, o); dump(C(t), N, p); s[0] = u.size(); } \
  X spec_big_##N##_##M(const double *a, const double *b, double *o, double *p, int *s) { want(N, a, o); want(N, b, p); s[0] = N; } \
  X impl_move_##N##_##M(const double *a, double *o, int *s) { T t(M); t.resize(N); fill(t, N, a); T u(std::move(t)); dump(C(u), N, o); s[0] = u.size(); s[1] = t.size(); } \
  X spec_move_##N##_##M(const double *a, double *o, int *s) { want(N, a, o); s[0] = N; s[1] = 0; } \
  X impl_moveassign_##N##_##M(const double *a, double *o, int *s) { T t(M); t.resize(N); fill(t, N, a); T u(3); u = std::move(t); dump(C(u), N, o); s[0] = u.size(); s[1] = t.size(); } \
  X spec_moveassign_##N##_##M(const double *a, double *o, int *s) { want(N, a, o); s[0] = N; s[1] = 0; } \
  X impl_moved_copy_##N##_##M(const double *a, double *o, double *p) { T t(M); t.resize(N); fill(t, N, a); T u(std::move(t)); T v(C(u)); T w(4); w = C(u); dump(C(v), N, o); dump(C(w), N, p); } \
  X spec_moved_copy_##N##_##M(const double *a, double *o, double *p) { want(N, a, o); want(N, a, p); } \
  X impl_moved_again_##N##_##M(const double *a, double *o, double *p) { T t(M); t.resize(N); fill(t, N, a); T x(1); x = std::move(t); T v(C(x)); T w(6); w = C(x); t = C(v); dump(C(t), N, o); dump(C(w), N, p); } \
  X spec_moved_again_##N##_##M(const double *a, double *o, double *p) { want(N, a, o); want(N, a, p); } \
  X impl_regrown_##N##_##M(const double *a, double *o, int *s) { T t(M); t.resize(1); t.resize(M + 2); t.resize(N); fill(t, N, a); T u(C(t)); u.resize(N + 3); fill(u, N, a); dump(C(u), N, o); s[0] = u.size(); } \
  X spec_regrown_##N##_##M(const double *a, double *o, int *s) { want(N, a, o); s[0] = N + 3; }
SIZES(1, 1)
SIZES(3, 3)
SIZES(3, 5)
SIZES(2, 4)
SIZES(5, 3)
#else
extern "C" double pure_lagrange(double, double, double, double, double, double, double, int) __attribute__((const));
extern "C" bool pure_misses(double, double, double, double, int) __attribute__((const));
extern "C" double pure_zonal(int, double) __attribute__((const));
extern "C" double pure_ocean(int, double) __attribute__((const));
extern "C" double pure_libration(int, double) __attribute__((const));
namespace iers2010 {
inline __attribute__((always_inline)) int zonal(double t, double &a, double &b, double &c) { a = pure_zonal(0, t); b = pure_zonal(1, t); c = pure_zonal(2, t); return 0; }
int rg_zont2(double t, double &a, double &b, double &c) noexcept { return zonal(t, a, b, c); }
namespace interp {
int lagint(const double *x, const double *y, int n, double t, double &o, int &, int order) noexcept {
  if (n != 3) { o = 0; return 1; }
  o = pure_lagrange(x[0], x[1], x[2], y[0], y[1], y[2], t, order);
  return pure_misses(x[0], x[1], x[2], t, order) ? 1 : 0;
}
int pmut1_oceans(double t, double &a, double &b, double &c, double &d) noexcept { a = pure_ocean(0, t); b = pure_ocean(1, t); c = pure_ocean(2, t); d = pure_ocean(3, t); return 0; }
int pm_gravi(double t, double &a, double &b) noexcept { a = pure_libration(0, t); b = pure_libration(1, t); return 0; }
}
}
extern "C" double modf(double x, double *i) noexcept { *i = __builtin_trunc(x); return x - *i; }
// Julian centuries of TT since J2000
static double centuries(double mjd) { double i, f = std::modf(mjd, &i); return ((i - 51544.5) + f) / 36525.; }
static double L(const T &t, int k, double at, int order) { return pure_lagrange(*ccol(t, 0, 0), *ccol(t, 0, 1), *ccol(t, 0, 2), *ccol(t, k, 0), *ccol(t, k, 1), *ccol(t, k, 2), at, order); }
static bool misses(const T &t, double at, int order) { return pure_misses(*ccol(t, 0, 0), *ccol(t, 0, 1), *ccol(t, 0, 2), at, order); }
static void put(double *o, const dso::EopRecord &r) { o[0] = r.mjd; o[1] = r.xp; o[2] = r.yp; o[3] = r.dut; o[4] = r.dx; o[5] = r.dy; o[6] = r.lod; }
X impl_lagrange(const T &t, double at, int order, double *o, int *s) { if (t.size() == 3) { dso::EopRecord r{}; s[0] = t.interpolate_lagrange(at, r, order) != 0; if (!s[0]) put(o, r); } }
X spec_lagrange(const T &t, double at, int order, double *o, int *s) { if (t.size() == 3) { s[0] = misses(t, at, order); if (!s[0]) { o[0] = at; for (int k = 1; k < 7; k++) o[k] = L(t, k, at, order); } } }
X impl_corrected(const T &t, double at, int order, double *o, int *s) { if (t.size() == 3) { dso::EopRecord r{}; s[0] = t.interpolate(at, r, order) != 0; if (!s[0]) put(o, r); } }
X spec_corrected(const T &t, double at, int order, double *o, int *s) {
  if (t.size() == 3) {
    s[0] = misses(t, at, order);
    if (!s[0]) {
      const double j = centuries(at);
      o[0] = at;
      o[1] = L(t, 1, at, order) + pure_ocean(0, j) + pure_libration(0, j);
      o[2] = L(t, 2, at, order) + pure_ocean(1, j) + pure_libration(1, j);
      o[3] = L(t, 3, at, order) + pure_zonal(0, j) + pure_ocean(2, j);
      o[4] = L(t, 4, at, order);
      o[5] = L(t, 5, at, order);
      o[6] = L(t, 6, at, order) + pure_zonal(1, j) + pure_ocean(3, j);
    }
  }
}
X impl_regular(double *a, double *o) { T t(3); for (int k = 0; k < 8; k++) for (int i = 0; i < 3; i++) *col(t, k, i) = a[8 * i + k]; t.regularize(); for (int k = 0; k < 7; k++) for (int i = 0; i < 3; i++) o[8 * i + k] = *ccol(t, k, i); }
X spec_regular(double *a, double *o) { for (int k = 0; k < 7; k++) for (int i = 0; i < 3; i++) o[8 * i + k] = a[8 * i + k] - (k == 3 ? pure_zonal(0, centuries(a[8 * i])) : k == 6 ? pure_zonal(1, centuries(a[8 * i])) : 0.); }
#endif
