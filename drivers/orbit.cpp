// Two-body formulas (Montenbruck & Gill 2.2; Curtis ch. 4; Vallado ch. 2)
// next to thin wrappers around the repository functions.  Never executed.
#include "astrodynamics.hpp"
#include "geodesy/units.hpp"
#include <cmath>
#define X extern "C" void
using V6 = Eigen::Matrix<double, 6, 1>;
extern "C" double pure_kepler(double e, double M, double tol) __attribute__((const));
extern "C" int pure_keplerstat(double e, double M, double tol) __attribute__((const));
extern "C" double pure_norm(double) __attribute__((const));
double dso::kepler(double e, double M, int &ok, double tol) noexcept { ok = pure_keplerstat(e, M, tol); return pure_kepler(e, M, tol); }
namespace dso { template <> double norm_angle<double, AngleUnit::Radians>(double a) noexcept { return pure_norm(a); } }
static constexpr double TOL = 1e2 * std::numeric_limits<double>::epsilon();
static dso::OrbitalElements el(const double *p) { dso::OrbitalElements e; for (int i = 0; i < 6; i++) e.elements[i] = p[i]; return e; }
static void put6(double *o, const V6 &v) { for (int i = 0; i < 6; i++) o[i] = v(i); }
static V6 v6(const double *p) { V6 v; for (int i = 0; i < 6; i++) v(i) = p[i]; return v; }
static dso::Vector3 v3(const double *p) { return dso::Vector3{{p[0], p[1], p[2]}}; }
static void put3(double *o, const dso::Vector3 &v) { for (int i = 0; i < 3; i++) o[i] = v.data[i]; }

// ---- Rz(-node) Rx(-incl) Rz(-peri)
static void gauss(double O, double w, double i, double *m) {
  double cO = std::cos(O), sO = std::sin(O), cw = std::cos(w), sw = std::sin(w), ci = std::cos(i), si = std::sin(i);
  double A[9] = {cO, -sO, 0, sO, cO, 0, 0, 0, 1}, B[9] = {1, 0, 0, 0, ci, -si, 0, si, ci}, C[9] = {cw, -sw, 0, sw, cw, 0, 0, 0, 1}, T[9];
  for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) { T[3 * r + c] = 0; for (int k = 0; k < 3; k++) T[3 * r + c] += A[3 * r + k] * B[3 * k + c]; }
  for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) { m[3 * r + c] = 0; for (int k = 0; k < 3; k++) m[3 * r + c] += T[3 * r + k] * C[3 * k + c]; }
}
X impl_matrix(double O, double w, double i, double *m) { dso::Mat3x3 M = dso::perifocal2equatorial_matrix(O, w, i); for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) m[3 * r + c] = M(r, c); }
X spec_matrix(double O, double w, double i, double *m) { gauss(O, w, i, m); }
static void mul(const double *m, const double *v, double *o, bool t = false) {
  for (int r = 0; r < 3; r++) { o[r] = 0; for (int c = 0; c < 3; c++) o[r] += (t ? m[3 * c + r] : m[3 * r + c]) * v[c]; }
}
// ---- perifocal coordinates
static void peri(double GM, double E, double e, double a, double *o) {
  double f = std::sqrt(1. - e * e), r = a * (1. - e * std::cos(E)), v = std::sqrt(GM * a) / r;
  o[0] = a * (std::cos(E) - e); o[1] = a * f * std::sin(E); o[2] = 0; o[3] = -v * std::sin(E); o[4] = v * f * std::cos(E); o[5] = 0;
}
X impl_perifocal(double GM, double E, double e, double a, double *o) { put6(o, dso::core::elements2perifocal(GM, E, e, a)); }
X spec_perifocal(double GM, double E, double e, double a, double *o) { peri(GM, E, e, a, o); }
static double anomaly(double GM, const double *p, double dt) { double a = p[0]; return pure_kepler(p[1], p[5] + std::sqrt(GM / (a * a * a)) * dt, TOL); }
X impl_perifocal_at(double GM, const double *p, double dt, double *o) { put6(o, dso::elements2perifocal(GM, el(p), dt)); }
X spec_perifocal_at(double GM, const double *p, double dt, double *o) { peri(GM, anomaly(GM, p, dt), p[1], p[0], o); }
X impl_perifocal_epoch(double GM, const double *p, double *o) { put6(o, dso::elements2perifocal(GM, el(p))); }
X spec_perifocal_epoch(double GM, const double *p, double *o) { peri(GM, pure_kepler(p[1], p[5], TOL), p[1], p[0], o); }
// ---- frame changes
X impl_to_equatorial(const double *p, const double *r, const double *v, double *o, double *q) { dso::Vector3 a, b; dso::perifocal2equatorial(el(p), v3(r), v3(v), a, b); put3(o, a); put3(q, b); }
X spec_to_equatorial(const double *p, const double *r, const double *v, double *o, double *q) { double m[9]; gauss(p[3], p[4], p[2], m); mul(m, r, o); mul(m, v, q); }
X impl_to_equatorial6(const double *p, const double *y, double *o) { put6(o, dso::perifocal2equatorial(el(p), v6(y))); }
X spec_to_equatorial6(const double *p, const double *y, double *o) { double m[9]; gauss(p[3], p[4], p[2], m); mul(m, y, o); mul(m, y + 3, o + 3); }
X impl_to_perifocal(const double *p, const double *r, const double *v, double *o, double *q) { dso::Vector3 a, b; dso::equatorial2perifocal(el(p), v3(r), v3(v), a, b); put3(o, a); put3(q, b); }
X spec_to_perifocal(const double *p, const double *r, const double *v, double *o, double *q) { double m[9]; gauss(p[3], p[4], p[2], m); mul(m, r, o, true); mul(m, v, q, true); }
X impl_to_perifocal6(const double *p, const double *y, double *o) { put6(o, dso::equatorial2perifocal(el(p), v6(y))); }
X spec_to_perifocal6(const double *p, const double *y, double *o) { double m[9]; gauss(p[3], p[4], p[2], m); mul(m, y, o, true); mul(m, y + 3, o + 3, true); }
// ---- elements to state
static void state(double GM, const double *p, double dt, double *o) {
  double q[6], m[9]; peri(GM, anomaly(GM, p, dt), p[1], p[0], q); gauss(p[3], p[4], p[2], m); mul(m, q, o); mul(m, q + 3, o + 3);
}
X impl_state(double GM, const double *p, double dt, double *o, int *s) { dso::Vector3 r, v; *s = dso::elements2state(el(p), dt, r, v, GM); put3(o, r); put3(o + 3, v); }
X spec_state(double GM, const double *p, double dt, double *o, int *s) { state(GM, p, dt, o); *s = pure_keplerstat(p[1], p[5] + std::sqrt(GM / (p[0] * p[0] * p[0])) * dt, TOL); }
X impl_state6(double GM, const double *p, double dt, double *o, int *s) { int e; put6(o, dso::elements2state(GM, dt, el(p), e)); *s = e; }
X spec_state6(double GM, const double *p, double dt, double *o, int *s) { spec_state(GM, p, dt, o, s); }
X impl_propagate(double GM, const double *p, double dt, double *o) { put6(o, dso::propagate_state(GM, el(p), dt)); }
X spec_propagate(double GM, const double *p, double dt, double *o) { state(GM, p, dt, o); }
// ---- state to elements (2.56 - 2.68)
static void elements(double GM, const double *y, double *p) {
  double h[3] = {y[1] * y[5] - y[2] * y[4], y[2] * y[3] - y[0] * y[5], y[0] * y[4] - y[1] * y[3]};
  double H = std::sqrt(h[0] * h[0] + h[1] * h[1] + h[2] * h[2]), r = std::sqrt(y[0] * y[0] + y[1] * y[1] + y[2] * y[2]), v2 = y[3] * y[3] + y[4] * y[4] + y[5] * y[5];
  p[3] = pure_norm(std::atan2(h[0], -h[1]));
  p[2] = std::atan2(std::sqrt(h[0] * h[0] + h[1] * h[1]), h[2]);
  double a = 1. / (2. / r - v2 / GM), ec = 1. - r / a, es = (y[0] * y[3] + y[1] * y[4] + y[2] * y[5]) / std::sqrt(GM * a), e2 = ec * ec + es * es;
  p[0] = a; p[1] = std::sqrt(e2);
  p[5] = pure_norm(std::atan2(es, ec) - es);
  double u = std::atan2(y[2] * H, -y[0] * h[1] + y[1] * h[0]), nu = std::atan2(std::sqrt(1. - e2) * es, ec - e2);
  p[4] = pure_norm(u - nu);
}
X impl_elements(double GM, const double *y, double *o) { dso::OrbitalElements e; dso::state2elements(v3(y), v3(y + 3), e, GM); for (int i = 0; i < 6; i++) o[i] = e.elements[i]; }
X spec_elements(double GM, const double *y, double *o) { elements(GM, y, o); }
X impl_elements6(double GM, const double *y, double *o) { dso::OrbitalElements e = dso::state2elements(GM, v6(y)); for (int i = 0; i < 6; i++) o[i] = e.elements[i]; }
X spec_elements6(double GM, const double *y, double *o) { elements(GM, y, o); }
// ---- classical elements with the angular momentum (Curtis algorithm 4.2)
static void curtis(const double *y, double *k, double GM) {
  double h[3] = {y[1] * y[5] - y[2] * y[4], y[2] * y[3] - y[0] * y[5], y[0] * y[4] - y[1] * y[3]};
  double H = std::sqrt(h[0] * h[0] + h[1] * h[1] + h[2] * h[2]), r = std::sqrt(y[0] * y[0] + y[1] * y[1] + y[2] * y[2]), v2 = y[3] * y[3] + y[4] * y[4] + y[5] * y[5];
  double rv = y[0] * y[3] + y[1] * y[4] + y[2] * y[5], n[2] = {-h[1], h[0]}, N = std::sqrt(n[0] * n[0] + n[1] * n[1]), e[3];
  for (int i = 0; i < 3; i++) e[i] = (y[i] * (v2 - GM / r) - rv * y[3 + i]) / GM;
  double E = std::sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2]), tp = iers2010::D2PI;
  k[0] = H; k[1] = std::acos(h[2] / H); k[3] = E;
  double O = std::acos(n[0] / N); k[2] = n[1] < 0 ? tp - O : O;
  double w = std::acos((n[0] * e[0] + n[1] * e[1]) / (N * E)); k[4] = e[2] < 0 ? tp - w : w;
  double t = std::acos((e[0] * y[0] + e[1] * y[1] + e[2] * y[2]) / (E * r)); k[5] = rv < 0 ? tp - t : t;
}
X impl_kepler(const double *y, double *k, double GM) { dso::state2kepler(y, k, GM); }
X spec_kepler(const double *y, double *k, double GM) { curtis(y, k, GM); }
X impl_kepler_vallado(const double *y, double *k, double GM) { dso::alternatives::state2kepler_vallado(y, k, GM); }
X spec_kepler_vallado(const double *y, double *k, double GM) { curtis(y, k, GM); }
X impl_kepler_mg(const double *y, double *k, double GM) { dso::alternatives::state2kepler_montenbruck(y, k, GM); }
X spec_kepler_mg(const double *y, double *k, double GM) {
  double h[3] = {y[1] * y[5] - y[2] * y[4], y[2] * y[3] - y[0] * y[5], y[0] * y[4] - y[1] * y[3]};
  double H2 = h[0] * h[0] + h[1] * h[1] + h[2] * h[2], H = std::sqrt(H2), r = std::sqrt(y[0] * y[0] + y[1] * y[1] + y[2] * y[2]), v2 = y[3] * y[3] + y[4] * y[4] + y[5] * y[5];
  k[0] = H;
  double W[3] = {h[0] / H, h[1] / H, h[2] / H};
  k[1] = std::atan2(std::sqrt(W[0] * W[0] + W[1] * W[1]), W[2]);
  k[2] = std::atan2(W[0], -W[1]);
  double a = 1. / (2. / r - v2 / GM), e = std::sqrt(1. - H2 / GM / a), n = std::sqrt(GM / (a * a * a));
  k[3] = e;
  double E = std::atan2((y[0] * y[3] + y[1] * y[4] + y[2] * y[5]) / (a * a * n), 1. - r / a);
  double t = std::atan2(std::sqrt(1. - e * e) * std::sin(E), std::cos(E) - e), u = std::atan2(y[2], -y[0] * W[1] + y[1] * W[0]);
  k[5] = t; k[4] = u - t;
}
// ---- right ascension and declination
X impl_ad(const double *y, double *o) { double a, d; dso::pos2ad(v3(y), a, d); o[0] = a; o[1] = d; }
X spec_ad(const double *y, double *o) {
  double r = std::sqrt(y[0] * y[0] + y[1] * y[1] + y[2] * y[2]), d = std::asin(y[2] / r), a = std::acos(y[0] / r / std::cos(d));
  o[1] = d; o[0] = y[1] > 0 ? a : iers2010::D2PI - a;
}
// ---- partials of the state with respect to the elements at epoch, for an
// ellipse written with positive parameters: n, a, e = 2t/(1+t^2), sin i > 0
static dso::OrbitalElements ell(double a, double t, double i, double O, double w, double M) { double p[6] = {a, 2. * t / (1. + t * t), i, O, w, M}; return el(p); }
X impl_partials(double n, double a, double t, double i, double O, double w, double M, double dt, double *J) {
  Eigen::Matrix<double, 6, 6> D = dso::state_partials(n * n * a * a * a, ell(a, t, i, O, w, M), dt); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) J[6 * i + j] = D(i, j); }
// the square roots of an ellipse, by their positive values
X roots_partials(double n, double a, double t, double i, double O, double w, double M, double dt, double *R) {
  const double e = 2. * t / (1. + t * t), E = pure_kepler(e, M + n * dt, TOL);
  R[0] = n; R[1] = n * a; R[2] = n * a * a; R[3] = n * a * a * a; R[4] = (1. - t * t) / (1. + t * t); R[5] = a * (1. - e * std::cos(E)); R[6] = std::sin(i); R[7] = a; R[8] = 1. - t * t; R[9] = 1. - e * std::cos(E);
}
X spec_partials(double n, double a, double t, double i, double O, double w, double M, double dt, double *J) {
  const double e = 2. * t / (1. + t * t), f = (1. - t * t) / (1. + t * t), p[6] = {a, e, i, O, w, M}, g = n * a * a, E = pure_kepler(e, M + n * dt, TOL), c = std::cos(E), s = std::sin(E), D = 1. - e * c;
  double m[9]; gauss(p[3], p[4], p[2], m);
  // derivatives of (x,y,vx,vy) with respect to E at fixed a,e
  const double xE = -a * s, yE = a * f * c, wE = -g / a * (c - e) / (D * D), zE = g / a * f * -s / (D * D);
  // E depends on e (E - e sin E = M) and on M = M0 + n dt
  const double Ee = s / D, EM = 1. / D, Ea = -1.5 * n / a * dt / D;
  const double x = a * (c - e), y = a * f * s, vx = -g / a * s / D, z = g / a * f * c / D;
  // explicit derivatives
  const double q[3][4] = {{x / a + xE * Ea, y / a + yE * Ea, -vx / (2. * a) + wE * Ea, -z / (2. * a) + zE * Ea},
                          {-a + xE * Ee, -a * e / f * s + yE * Ee, -g / a * s * (c * D + c - e) / (D * D * D), g / a * (-e / f * c * D * D + f * c * c * D - f * s * s) / (D * D * D)},
                          {xE * EM, yE * EM, wE * EM, zE * EM}};
  const int col[3] = {0, 1, 5};
  for (int k = 0; k < 3; k++)
    for (int i = 0; i < 3; i++) {
      J[6 * i + col[k]] = m[3 * i] * q[k][0] + m[3 * i + 1] * q[k][1];
      J[6 * (i + 3) + col[k]] = m[3 * i] * q[k][2] + m[3 * i + 1] * q[k][3];
    }
  // rotations: node about z, inclination about the node line, perigee about W
  const double cO = std::cos(p[3]), sO = std::sin(p[3]);
  for (int h = 0; h < 2; h++) {
    const double u = h ? vx : x, v = h ? z : y;
    double r[3]; for (int i = 0; i < 3; i++) r[i] = m[3 * i] * u + m[3 * i + 1] * v;
    const double N[3] = {cO, sO, 0}, W[3] = {m[2], m[5], m[8]}, Z[3] = {0, 0, 1};
    const double *ax[3] = {N, Z, W};
    for (int k = 0; k < 3; k++)
      for (int i = 0; i < 3; i++) {
        int i1 = (i + 1) % 3, i2 = (i + 2) % 3;
        J[6 * (i + 3 * h) + 2 + k] = ax[k][i1] * r[i2] - ax[k][i2] * r[i1];
      }
  }
}
