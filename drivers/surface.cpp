// Reference formulas for radiation pressure, eclipse models, relativistic
// clock rates and the ionospheric phase correction.  Never executed.
#include "astrodynamics.hpp"
#include "doris_observation_equations.hpp"
#include "geodesy/geodesy.hpp"
#include "geodesy/ellipsoid.hpp"
#include "iers2010/iersc.hpp"
#include "gcem.hpp"
#include <cmath>
using V3 = Eigen::Matrix<double, 3, 1>;
using M3 = Eigen::Matrix<double, 3, 3>;
extern "C" double pure_longitude(double, double, double) __attribute__((const));
extern "C" double pure_latitude(double, double, double) __attribute__((const));
extern "C" double pure_height(double, double, double) __attribute__((const));
namespace dso {
template <> V3 car2ell<ellipsoid::grs80>(const V3 &p) noexcept { V3 r; r(0) = pure_longitude(p(0), p(1), p(2)); r(1) = pure_latitude(p(0), p(1), p(2)); r(2) = pure_height(p(0), p(1), p(2)); return r; }
}
static V3 v3(const double *p) { V3 v; v(0) = p[0]; v(1) = p[1]; v(2) = p[2]; return v; }
static dso::Vector3 w3(const double *p) { return dso::Vector3{{p[0], p[1], p[2]}}; }
static void put(double *o, const V3 &v) { o[0] = v(0); o[1] = v(1); o[2] = v(2); }
static void putm(double *o, const M3 &m) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o[3 * i + j] = m(i, j); }
static double dot(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
#define X extern "C" void

// ---- radiation pressure: Montenbruck & Gill 3.75 and 7.3.3
static void radiation(const double *r, const double *s, double A, double m, double C, double *o) {
  double d[3] = {r[0] - s[0], r[1] - s[1], r[2] - s[2]}, q = dot(d, d), n = std::sqrt(q);
  for (int k = 0; k < 3; k++) o[k] = C * A / m * 4.56316e-6 * iers2010::AU * iers2010::AU * d[k] / (q * n);
}
X impl_radiation(const double *r, const double *s, double A, double m, double C, double *o) { put(o, dso::solar_radiation_acceleration(v3(r), v3(s), A, m, C)); }
X spec_radiation(const double *r, const double *s, double A, double m, double C, double *o) { radiation(r, s, A, m, C, o); }
X impl_radiation_partials(const double *r, const double *s, double A, double m, double C, double *o, double *J, double *c) {
  M3 P; V3 D; put(o, dso::solar_radiation_acceleration(v3(r), v3(s), A, m, C, P, D)); putm(J, P); put(c, D);
}
X spec_radiation_partials(const double *r, const double *s, double A, double m, double C, double *o, double *J, double *c) {
  radiation(r, s, A, m, C, o); radiation(r, s, A, m, 1., c);
  double d[3] = {r[0] - s[0], r[1] - s[1], r[2] - s[2]}, q = dot(d, d), n = std::sqrt(q);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) J[3 * i + j] = C * A / m * 4.56316e-6 * iers2010::AU * iers2010::AU * ((i == j ? 1. : 0.) / (q * n) - 3. * d[i] * d[j] / (q * q * n));
}
// ---- eclipse models
X impl_cylinder(const double *r, const double *s, double *o) { *o = utest::montebruck_shadow(w3(r), w3(s)); }
X spec_cylinder(const double *r, const double *s, double *o) {
  double n = std::sqrt(dot(s, s)), e[3] = {s[0] / n, s[1] / n, s[2] / n}, p = dot(r, e), q[3] = {r[0] - p * e[0], r[1] - p * e[1], r[2] - p * e[2]};
  *o = 1.; if (!(p > 0.) && !(std::sqrt(dot(q, q)) > iers2010::Re)) *o = 0.;
}
X impl_two_cones(const double *r, const double *s, double *o) { *o = utest::vallado_shadow(w3(r), w3(s)); }
X spec_two_cones(const double *r, const double *s, double *o) {
  double p = dot(r, s); *o = 1.;
  if (p >= 0.) return;
  double R = std::sqrt(dot(r, r)), S = std::sqrt(dot(s, s));
  // distance behind the Earth and from the shadow axis
  double z = std::acos(-p / (R * S)), h = R * std::cos(z), v = R * std::sin(z);
  constexpr double sp = (iers2010::Rs + iers2010::Re) / iers2010::AU, su = (iers2010::Rs - iers2010::Re) / iers2010::AU;
  constexpr double tp = gcem::tan(gcem::asin(sp)), tu = gcem::tan(gcem::asin(su)), xp = iers2010::Re / sp, xu = iers2010::Re / su;
  if (v <= tp * (xp + h)) *o = v <= tu * (xu - h) ? 0. : 0.5;
}
X impl_cylinder_flattened(const double *r, const double *s, double *o) { *o = utest::bernese_shadow1(w3(r), w3(s)); }
X spec_cylinder_flattened(const double *r, const double *s, double *o) {
  const double g = 1. + 1. / 298.257222101;
  double a[3] = {r[0], r[1], r[2] * g}, b[3] = {s[0], s[1], s[2] * g}, c = dot(a, b) / std::sqrt(dot(b, b)), q = std::sqrt(dot(a, a) - c * c);
  *o = 1.; if (c < 0. && q < iers2010::Re) *o = 0.;
}
X impl_cone(const double *r, const double *s, double *o) { *o = utest::conical_shadow(w3(r), w3(s)); }
X spec_cone(const double *r, const double *s, double *o) {
  double d[3] = {s[0] - r[0], s[1] - r[1], s[2] - r[2]}, R = std::sqrt(dot(r, r)), D = std::sqrt(dot(d, d));
  double b = std::asin(iers2010::Re / R), a = std::asin(iers2010::Rs / D), c = std::acos(-dot(r, d) / (D * R));
  if (c >= b + a) { *o = 1.; return; }
  if (c <= b - a) { *o = 0.; return; }
  // overlap of two circles of radii a (Sun) and b (Earth), centres c apart
  double u = std::acos((a * a + c * c - b * b) / (2. * a * c)), w = std::acos((b * b + c * c - a * a) / (2. * b * c));
  double S = a * a * (u - std::sin(u) * std::cos(u)) + b * b * (w - std::sin(w) * std::cos(w));
  *o = 1. - S / (iers2010::DPI * a * a);
}
// ---- (U + v^2/2) / c
X impl_clock(const double *r, const double *v, double GM, double *o) { *o = dso::relativistic_clock_correction(v3(r), v3(v), GM); }
X spec_clock(const double *r, const double *v, double GM, double *o) { *o = (GM / std::sqrt(dot(r, r)) + dot(v, v) / 2.) / iers2010::C; }
X impl_clock_oblate(const double *r, const double *v, double GM, double J2, double Re, double *o) { *o = dso::relativistic_clock_correction(v3(r), v3(v), GM, J2, Re); }
X spec_clock_oblate(const double *r, const double *v, double GM, double J2, double Re, double *o) {
  double n2 = dot(r, r), n = std::sqrt(n2), s = std::sin(pure_latitude(r[0], r[1], r[2]));
  *o = (GM / n * (1. - Re * Re / n2 * J2 * (3. * s * s - 1.) / 2.) + dot(v, v) / 2.) / iers2010::C;
}
// ---- ionospheric correction of the 2 GHz phase [cycles]
X impl_iono(double a, double b, double *o) { *o = dso::carrier_iono_correction(a, b); }
X spec_iono(double a, double b, double *o) { const double q = 2036.25 / 401.25; *o = (a - q * b) / (q * q - 1.); }
