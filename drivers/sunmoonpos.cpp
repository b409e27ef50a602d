// Low precision Sun and Moon series: Montenbruck & Gill 3.3.2, Vallado 5.1.1 /
// 5.3 (Astronomical Almanac), Curtis 10.9.  Never executed.
#include "planetpos.hpp"
#include "iers2010/iau.hpp"
#include "geodesy/units.hpp"
#include "gcem.hpp"
#include <cmath>
#define X extern "C" void
extern "C" double pure_arg(int k, double t) __attribute__((const));
namespace iers2010 { namespace sofa {
double fal03(double t) noexcept { return pure_arg(0, t); }
double falp03(double t) noexcept { return pure_arg(1, t); }
double faf03(double t) noexcept { return pure_arg(2, t); }
double fad03(double t) noexcept { return pure_arg(3, t); }
} }
extern "C" double modf(double x, double *i) { *i = __builtin_trunc(x); return x - *i; }
static double frac(double x) { return x - __builtin_trunc(x); }
using std::sin; using std::cos; using std::fmod;
static double rad(double d) { return d * 3.14159265358979323846264338327950288e0 / 180.; }
static const double AUK = 149597870.7, P2 = iers2010::D2PI;
X impl_sun_montenbruck(double t, double *o, int *s) { *s = dso::sun_vector_montenbruck(t, o); }
X spec_sun_montenbruck(double t, double *o, int *s) {
  double M = P2 * frac(0.9931267 + 99.9973583 * t), L = P2 * frac(0.7859444 + M / P2 + (6892. * sin(M) + 72. * sin(2. * M)) / 1296.0e3);
  double r = (149.619e9 - 2.499e9 * cos(M) - 0.021e9 * cos(2. * M)) / 1e3;
  constexpr double e = 23.43929111 * 3.14159265358979323846264338327950288e0 / 180.;
  constexpr double c = gcem::cos(-e), z = gcem::sin(-e);
  o[0] = r * cos(L); o[1] = r * sin(L) * c; o[2] = -r * sin(L) * z; *s = 0;
}
X impl_sun_vallado(double t, double *o, int *s) { *s = dso::sun_vector_vallado(t, o); }
X spec_sun_vallado(double t, double *o, int *s) {
  double l = fmod(280.460 + 36000.771 * t, 360.), M = rad(fmod(357.5291092 + 35999.05034 * t, 360.));
  double L = rad(fmod(l + 1.914666471 * sin(M) + 0.019994643 * sin(2. * M), 360.)), e = rad(23.439291 - 0.0130042 * t);
  double r = 1.000140612 - 0.016708617 * cos(M) - 0.000139589 * cos(2. * M);
  o[0] = r * cos(L) * AUK; o[1] = r * cos(e) * sin(L) * AUK; o[2] = r * sin(e) * sin(L) * AUK; *s = 0;
}
X impl_sun_curtis(double n, double *o, int *s) { n *= 1e4; *s = dso::sun_vector_curtis(n, o); }
X spec_sun_curtis(double n, double *o, int *s) { n *= 1e4;
  double M = rad(fmod(357.529 + 0.98560023 * n, 360.)), L = fmod(280.459 + 0.98564736 * n, 360.);
  double l = rad(fmod(L + 1.915 * sin(M) + 0.0200 * sin(2. * M), 360.)), e = rad(23.439 - 3.56e-7 * n);
  double r = 1.00014 - 0.01671 * cos(M) - 0.000140 * cos(2. * M);
  o[0] = r * cos(l) * AUK; o[1] = r * sin(l) * cos(e) * AUK; o[2] = r * sin(l) * sin(e) * AUK; *s = 0;
}
X impl_moon_montenbruck(double t, double *o, int *s) { *s = dso::moon_vector_approx(t, o); }
X spec_moon_montenbruck(double t, double *o, int *s) {
  double l = pure_arg(0, t), p = pure_arg(1, t), F = pure_arg(2, t), D = pure_arg(3, t), L0 = P2 * frac(0.606433 + 1336.851344 * t);
  double dl = 22640. * sin(l) + 769. * sin(2. * l) - 4586. * sin(l - 2. * D) + 2370. * sin(2. * D) - 668. * sin(p) - 412. * sin(2. * F) - 212. * sin(2. * l - 2. * D) -
              206. * sin(l + p - 2. * D) + 192. * sin(l + 2. * D) - 165. * sin(p - 2. * D) + 148. * sin(l - p) - 125. * sin(D) - 110. * sin(l + p) - 55. * sin(2. * F - 2. * D);
  double L = fmod(L0 * iers2010::DR2AS + dl, 1296000.) * iers2010::DAS2R, h = F - 2. * D;
  double S = fmod(F + (dl + 412. * sin(2. * F) + 541. * sin(p)) * iers2010::DAS2R, P2);
  double N = -526. * sin(h) + 44. * sin(l + h) - 31. * sin(-l + h) - 23. * sin(p + h) + 11. * sin(-p + h) - 25. * sin(-2. * l + F) + 21. * sin(-l + F);
  double B = fmod(18520. * sin(S) + N, 1296000.) * iers2010::DAS2R;
  double r = 385000. - 20905. * cos(l) - 3699. * cos(2. * D - l) - 2956. * cos(2. * D) - 570. * cos(2. * l) + 246. * cos(2. * l - 2. * D) - 205. * cos(p - 2. * D) - 171. * cos(l + 2. * D) -
             152. * cos(l + p - 2. * D);
  double x = r * cos(L) * cos(B), y = r * sin(L) * cos(B), z = r * sin(B);
  constexpr double e = 23.43929111 * 3.14159265358979323846264338327950288e0 / 180.;
  o[0] = x; o[1] = cos(e) * y - sin(e) * z; o[2] = sin(e) * y + cos(e) * z; *s = 0;
}
X impl_moon_vallado(double t, double *o, int *s) { *s = dso::moon_vector_vallado(t, o); }
X spec_moon_vallado(double t, double *o, int *s) {
  double l = 218.32 + 481267.8813 * t + 6.29 * sin(rad(134.9 + 477198.85 * t)) - 1.27 * sin(rad(259.2 - 413335.38 * t)) + 0.66 * sin(rad(235.7 + 890534.23 * t)) +
             0.21 * sin(rad(269.9 + 954397.70 * t)) - 0.19 * sin(rad(357.5 + 35999.05 * t)) - 0.11 * sin(rad(186.6 + 966404.05 * t));
  double b = 5.13 * sin(rad(93.3 + 483202.03 * t)) + 0.28 * sin(rad(228.2 + 960400.87 * t)) - 0.28 * sin(rad(318.3 + 6003.18 * t)) - 0.17 * sin(rad(217.6 - 407332.20 * t));
  double p = 0.9508 + 0.0518 * cos(rad(134.9 + 477198.85 * t)) + 0.0095 * cos(rad(259.2 - 413335.38 * t)) + 0.0078 * cos(rad(235.7 + 890534.23 * t)) + 0.0028 * cos(rad(269.9 + 954397.70 * t));
  double e = 23.439291 - 0.0130042 * t - 1.64e-7 * t * t + 5.04e-7 * t * t * t;
  l = fmod(rad(l), P2); b = fmod(rad(b), P2); p = fmod(rad(p), P2); e = fmod(rad(e), P2);
  double r = 6378.1366 / sin(p);
  o[0] = r * cos(b) * cos(l); o[1] = r * (cos(e) * cos(b) * sin(l) - sin(e) * sin(b)); o[2] = r * (sin(e) * cos(b) * sin(l) + cos(e) * sin(b)); *s = 0;
}
