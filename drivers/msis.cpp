// Numerical kernels of NRLMSISE-00 (Picone, Hedin and Drob 2002, released
// Fortran/C sources) and the exponential atmosphere (Vallado, table 8-4).
// Never executed.
#include "eigen3/Eigen/Eigen"
#include <cmath>
#include <cstring>
#include <fstream>
#include <algorithm>
#include "datetime/dtcalendar.hpp"
#include "var_utils.hpp"
#define private public
#include "atmosphere.hpp"
#undef private
#define X extern "C" void
using std::exp; using std::pow; using std::fabs;
namespace D = dso::nrlmsise00::detail;
#ifdef KERNEL
static double z2(double x) { return x * x; }
X impl_ccor(double alt, double r, double h, double zh, double *o) { *o = D::ccor(alt, r, h, zh); }
X spec_ccor(double alt, double r, double h, double zh, double *o) {
  double e = (alt - zh) / h;
  if (e > 70.) { *o = 1.; return; }
  if (e < -70.) { *o = exp(r); return; }
  *o = exp(r / (1. + exp(e)));
}
X impl_ccor2(double alt, double r, double h1, double zh, double h2, double *o) { *o = D::ccor2(alt, r, h1, zh, h2); }
X spec_ccor2(double alt, double r, double h1, double zh, double h2, double *o) {
  double e1 = (alt - zh) / h1, e2 = (alt - zh) / h2;
  if (e1 > 70. || e2 > 70.) { *o = 1.; return; }
  if (e1 < -70. && e2 < -70.) { *o = exp(r); return; }
  *o = exp(r / (1. + 0.5 * (exp(e1) + exp(e2))));
}
// both densities positive, or one of them zero
X impl_dnet(double a, double b, double zhm, double xmm, double xm, double *o) { double dd = a; if (dd > 1e-6 && b > 1e-6) *o = D::dnet(dd, b, zhm, xmm, xm); else *o = 0; }
X spec_dnet(double a, double b, double zhm, double xmm, double xm, double *o) {
  *o = 0;
  if (a > 1e-6 && b > 1e-6) {
    double k = zhm / (xmm - xm), y = k * std::log(b / a);
    *o = y < -10. ? a : y > 10. ? b : a * pow(1. + exp(y), 1. / k);
  }
}
X impl_dnet_zero(double a, double zhm, double xmm, double xm, double *o) { if (a > 1e-6) { double d0 = 0, d1 = a, d2 = 0; o[0] = D::dnet(d0, a, zhm, xmm, xm); o[1] = D::dnet(d1, 0., zhm, xmm, xm); o[2] = D::dnet(d2, 0., zhm, xmm, xm); } }
X spec_dnet_zero(double a, double, double, double, double *o) { if (a > 1e-6) { o[0] = a; o[1] = a; o[2] = 1; } }
X impl_g0(double a, const double *p, double *o) { *o = D::g0(a, p); }
X spec_g0(double a, const double *p, double *o) { double q = fabs(p[24]); *o = a - 4. + (p[25] - 1.) * (a - 4. + (exp(-q * (a - 4.)) - 1.) / q); }
X impl_sumex(double e, double *o) { *o = D::sumex(e); }
X spec_sumex(double e, double *o) { *o = 1. + (1. - pow(e, 19.)) / (1. - e) * pow(e, 0.5); }
static double g(double a, const double *p) { double o; spec_g0(a, p, &o); return o; }
X impl_sg0(double e, const double *p, const double *ap, double *o) { *o = D::sg0(e, p, ap); }
X spec_sg0(double e, const double *p, const double *ap, double *o) {
  double s; spec_sumex(e, &s);
  *o = (g(ap[1], p) + (g(ap[2], p) * e + g(ap[3], p) * e * e + g(ap[4], p) * pow(e, 3.) + (g(ap[5], p) * pow(e, 4.) + g(ap[6], p) * pow(e, 12.)) * (1. - pow(e, 8.)) / (1. - e))) / s;
}
// ---- cubic spline with given end slopes (or natural ends)
template <int n> static void spline(const double *x, const double *y, double a, double b, bool na, bool nb, double *y2) {
  double u[n], p, sg;
  y2[0] = na ? 0. : -0.5; u[0] = na ? 0. : 3. / (x[1] - x[0]) * ((y[1] - y[0]) / (x[1] - x[0]) - a);
  for (int i = 1; i < n - 1; i++) {
    sg = (x[i] - x[i - 1]) / (x[i + 1] - x[i - 1]); p = sg * y2[i - 1] + 2.; y2[i] = (sg - 1.) / p;
    u[i] = (6. * ((y[i + 1] - y[i]) / (x[i + 1] - x[i]) - (y[i] - y[i - 1]) / (x[i] - x[i - 1])) / (x[i + 1] - x[i - 1]) - sg * u[i - 1]) / p;
  }
  double q = nb ? 0. : 0.5, w = nb ? 0. : 3. / (x[n - 1] - x[n - 2]) * (b - (y[n - 1] - y[n - 2]) / (x[n - 1] - x[n - 2]));
  y2[n - 1] = (w - q * u[n - 2]) / (q * y2[n - 2] + 1.);
  for (int k = n - 2; k >= 0; k--) y2[k] = y2[k] * y2[k + 1] + u[k];
}
// knots of unequal spacing: the recursions are rational in the knots and
// linear in the ordinates and slopes, which stay arbitrary
static const double K0[6][5] = {{0}, {0}, {0}, {0., 0.25, 1.}, {0., 0.3125, 0.5, 1.}, {0., 0.125, 0.5, 0.625, 1.}};
#define SPL(nm, n) X impl_spline_##nm(const double *y, double a, double b, double *o) { double w[n], r[n]; if (a < 1e9 && b < 1e9) { D::spline(K0[n], y, n, a, b, r, w); for (int i = 0; i < n; i++) o[i] = r[i]; } } \
X spec_spline_##nm(const double *y, double a, double b, double *o) { double r[n]; if (a < 1e9 && b < 1e9) { spline<n>(K0[n], y, a, b, false, false, r); for (int i = 0; i < n; i++) o[i] = r[i]; } }
SPL(3, 3)
SPL(4, 4)
SPL(5, 5)
X impl_spline_natural(const double *y, double *o) { double w[4], r[4]; D::spline(K0[4], y, 4, 1e30, 1e30, r, w); for (int i = 0; i < 4; i++) o[i] = r[i]; }
X spec_spline_natural(const double *y, double *o) { double r[4]; spline<4>(K0[4], y, 0, 0, true, true, r); for (int i = 0; i < 4; i++) o[i] = r[i]; }
// value of the spline
template <int n> static double value(const double *xa, const double *ya, const double *y2, double x) {
  int k = 0; while (k < n - 2 && !(xa[k + 1] > x)) k++;
  double h = xa[k + 1] - xa[k];
  if (h == 0.) return 1e-30;
  double a = (xa[k + 1] - x) / h, b = (x - xa[k]) / h;
  return a * ya[k] + b * ya[k + 1] + ((a * a * a - a) * y2[k] + (b * b * b - b) * y2[k + 1]) * h * h / 6.;
}
#define SPV(n) X impl_splint_##n(const double *y, double *z, double t, double *o) { *o = 0; if (t < 1e9) *o = D::splint(K0[n], y, z, n, t); } \
X spec_splint_##n(const double *y, double *z, double t, double *o) { *o = 0; if (t < 1e9) *o = value<n>(K0[n], y, z, t); }
SPV(4)
SPV(5)
// integral from the first knot, t not before the first one
template <int n> static double integral(const double *xa, const double *ya, const double *y2, double x) {
  double s = 0;
  for (int k = 0; k < n - 1; k++) {
    if (!(x > xa[k])) break;
    double e = k + 1 < n - 1 && xa[k + 1] < x ? xa[k + 1] : x, h = xa[k + 1] - xa[k], a = (xa[k + 1] - e) / h, b = (e - xa[k]) / h;
    s += ((1. - a * a) * ya[k] / 2. + b * b * ya[k + 1] / 2. + ((-(1. + z2(a * a)) / 4. + a * a / 2.) * y2[k] + (z2(b * b) / 4. - b * b / 2.) * y2[k + 1]) * h * h / 6.) * h;
  }
  return s;
}
#define SPI(n) X impl_splini_##n(const double *y, double *z, double t, double *o) { *o = 0; if (t < 1e9 && t > 0.) *o = D::splini(K0[n], y, z, n, t); } \
X spec_splini_##n(const double *y, double *z, double t, double *o) { *o = 0; if (t < 1e9 && t > 0.) *o = integral<n>(K0[n], y, z, t); }
SPI(4)
SPI(5)
X impl_gravity(const dso::Nrlmsise00 *m, double lat, double *o) { double g; o[1] = m->glatf(lat, g); o[0] = g; }
X spec_gravity(const dso::Nrlmsise00 *m, double lat, double *o) {
  const double c = std::cos(2. * (lat * 3.14159265358979323846264338327950288e0 / 180.));
  o[0] = 980.665 * (1. - 0.0026373 * c); o[1] = 2. * GRAVITY / (3.085462e-6 + 2.27e-9 * c) * 1e-5;
}
X impl_zeta(const dso::Nrlmsise00 *m, double a, double b, double *o) { *o = m->zeta(a, b); }
X spec_zeta(const dso::Nrlmsise00 *m, double a, double b, double *o) { *o = (a - b) * (m->re + b) / (m->re + a); }
X impl_scalh(const dso::Nrlmsise00 *m, double alt, double xm, double t, double *o) { *o = m->scalh(alt, xm, t); }
X spec_scalh(const dso::Nrlmsise00 *m, double alt, double xm, double t, double *o) { *o = D::r100gas * t / (m->gsurf / pow(1. + alt / m->re, 2.) * xm); }
#endif
#ifdef PROFILE
extern "C" double pure_y2(int i, double x0, double x1, double x2, double x3, double x4, double y0, double y1, double y2, double y3, double y4, double a, double b) __attribute__((const));
extern "C" double pure_v(double x0, double x1, double x2, double x3, double x4, double y0, double y1, double y2, double y3, double y4, double z0, double z1, double z2, double z3, double z4, double x) __attribute__((const));
extern "C" double pure_i(double x0, double x1, double x2, double x3, double x4, double y0, double y1, double y2, double y3, double y4, double z0, double z1, double z2, double z3, double z4, double x) __attribute__((const));
#define A5(p) p[0], p[1], p[2], p[3], n > 4 ? p[4] : 0.
namespace dso { namespace nrlmsise00 { namespace detail {
inline __attribute__((always_inline)) void spline_(const double *x, const double *y, int n, double a, double b, double *z) { for (int i = 0; i < n; i++) z[i] = pure_y2(i, A5(x), A5(y), a, b); }
void spline(const double *x, const double *y, int n, double a, double b, double *z, double *) noexcept { spline_(x, y, n, a, b, z); }
double splint(const double *x, const double *y, double *z, int n, double t) noexcept { return pure_v(A5(x), A5(y), A5(z), t); }
double splini(const double *x, const double *y, double *z, int n, double t) noexcept { return pure_i(A5(x), A5(y), A5(z), t); }
} } }
static double zeta(const dso::Nrlmsise00 *m, double a, double b) { return (a - b) * (m->re + b) / (m->re + a); }
// one spline segment of the temperature profile, in geopotential height
struct Seg { double tz, yi, gam; };
static Seg segment(const dso::Nrlmsise00 *m, int n, const double *zn, const double *tn, double g0, double g1, double z, double xm) {
  double z1 = zn[0], zl = zn[n - 1], d = zeta(m, zl, z1), x = zeta(m, z, z1) / d, xs[5] = {0}, ys[5] = {0}, w[5] = {0};
  for (int k = 0; k < n; k++) { xs[k] = zeta(m, zn[k], z1) / d; ys[k] = 1. / tn[k]; }
  double r = (m->re + zl) / (m->re + z1);
  D::spline(xs, ys, n, -g0 / (tn[0] * tn[0]) * d, -g1 / (tn[n - 1] * tn[n - 1]) * d * (r * r), w, nullptr);
  Seg s; s.tz = 1. / D::splint(xs, ys, w, n, x); s.yi = D::splini(xs, ys, w, n, x);
  double q = 1. + z1 / m->re; s.gam = xm * (m->gsurf / (q * q)) * d / D::r100gas;
  return s;
}
X impl_lower(const dso::Nrlmsise00 *m, double alt, double d0, double xm, double t0, double *o) { double t = t0; o[0] = m->densm(alt, d0, xm, t); o[1] = t; }
X spec_lower(const dso::Nrlmsise00 *m, double alt, double d0, double xm, double t0, double *o) {
  double d = d0, t = t0; const bool dens = fabs(xm) > 1e-6;
  if (alt <= m->zn2[0]) {
    double z = alt < m->zn2[3] ? m->zn2[3] : alt;
    Seg s = segment(m, 4, m->zn2, m->tn2, m->tgn2[0], m->tgn2[1], z, xm);
    t = s.tz;
    if (dens) { double e = s.gam * s.yi; d = d * (m->tn2[0] / t) * exp(-(e > 50. ? 50. : e)); }
    if (alt <= m->zn3[0]) {
      s = segment(m, 5, m->zn3, m->tn3, m->tgn3[0], m->tgn3[1], alt, xm);
      t = s.tz;
      if (dens) { double e = s.gam * s.yi; d = d * (m->tn3[0] / t) * exp(-(e > 50. ? 50. : e)); }
    }
  }
  o[0] = fabs(xm) < 1e-6 ? t : d; o[1] = t;
}
// zn: altitudes of the five nodes below the joining altitude zn[0]
X impl_upper(dso::Nrlmsise00 *m, double alt, double dlb, double t1, double t2, double xm, double xa, double zlb, double s2, const double *zn, double *o) {
  double t; o[0] = m->densu(alt, dlb, t1, t2, xm, xa, t, zlb, s2, zn); o[1] = t;
}
X spec_upper(dso::Nrlmsise00 *m, double alt, double dlb, double t1, double t2, double xm, double xa, double zlb, double s2, const double *zn, double *o) {
  double za = zn[0], z = alt < za ? za : alt, zg = zeta(m, z, zlb), tt = t1 - (t1 - t2) * exp(-s2 * zg), tz = tt;
  Seg s{0, 0, 0};
  if (alt < za) {
    double r = (m->re + zlb) / (m->re + za);
    m->tgn1[0] = (t1 - tt) * s2 * (r * r); m->tn1[0] = tt;
    double zz = alt < zn[4] ? zn[4] : alt;
    s = segment(m, 5, zn, m->tn1, m->tgn1[0], m->tgn1[1], zz, xm);
    tz = s.tz;
  }
  o[0] = tz; o[1] = tz;
  if (fabs(xm) > 1e-6) {
    double q = 1. + zlb / m->re, gam = xm * (m->gsurf / (q * q)) / (s2 * D::r100gas * t1), e = exp(-s2 * gam * zg);
    if (e > 50. || tt <= 0.) e = 50.;
    o[0] = dlb * pow(t2 / tt, 1. + xa + gam) * e;
    if (alt < za) {
      double f = s.gam * s.yi;
      if (f > 50. || tz <= 0.) f = 50.;
      o[0] = o[0] * pow(tt / tz, 1. + xa) * exp(-f);
    }
  }
}
#endif
#ifdef EXPO
// h0 [km], nominal density [kg/m^3], scale height [km]
static const double T[28][3] = {{0, 1.225, 7.249}, {25, 3.899e-2, 6.349}, {30, 1.774e-2, 6.682}, {40, 3.972e-3, 7.554}, {50, 1.057e-3, 8.382}, {60, 3.206e-4, 7.714}, {70, 8.770e-5, 6.549},
  {80, 1.905e-5, 5.799}, {90, 3.396e-6, 5.382}, {100, 5.297e-7, 5.877}, {110, 9.661e-8, 7.263}, {120, 2.438e-8, 9.473}, {130, 8.484e-9, 12.636}, {140, 3.845e-9, 16.149},
  {150, 2.070e-9, 22.523}, {180, 5.464e-10, 29.740}, {200, 2.789e-10, 37.105}, {250, 7.248e-11, 45.546}, {300, 2.418e-11, 53.628}, {350, 9.518e-12, 53.298}, {400, 3.725e-12, 58.515},
  {450, 1.585e-12, 60.828}, {500, 6.967e-13, 63.822}, {600, 1.454e-13, 71.835}, {700, 3.614e-14, 88.667}, {800, 1.170e-14, 124.64}, {900, 5.245e-15, 181.05}, {1000, 3.019e-15, 268.00}};
X impl_layer(double h, double *o) { *o = 0; if (h > LO && h < HI) *o = dso::air_density_models::exponential::density(h); }
X spec_layer(double h, double *o) { *o = 0; if (h > LO && h < HI) *o = T[LAYER][1] * exp(-(h - T[LAYER][0]) / T[LAYER][2]); }
#endif
