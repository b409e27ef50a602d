// Reference formulas for the force models, written from the equations
// (Montenbruck & Gill, ch. 3 and 7), next to thin wrappers around the
// repository functions.  Never executed: both sides are compiled and compared.
#include "egravity.hpp"
#include "astrodynamics.hpp"
#include "iers2010/iersc.hpp"
#include <cmath>
using V3 = Eigen::Matrix<double, 3, 1>;
using M3 = Eigen::Matrix<double, 3, 3>;
static V3 v3(const double *p) { V3 v; v(0) = p[0]; v(1) = p[1]; v(2) = p[2]; return v; }
static M3 m3(const double *p) { M3 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = p[3 * i + j]; return m; }
static void put(double *o, const V3 &v) { o[0] = v(0); o[1] = v(1); o[2] = v(2); }
static void putm(double *o, const M3 &m) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o[3 * i + j] = m(i, j); }
#define X extern "C" void

// ---- third body
X impl_pm(double GM, const double *r, const double *s, double *o) { put(o, dso::point_mass_accel(GM, v3(r), v3(s))); }
X spec_pm(double GM, const double *r, const double *s, double *o) {
  double d[3] = {r[0] - s[0], r[1] - s[1], r[2] - s[2]};
  double dn2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2], sn2 = s[0] * s[0] + s[1] * s[1] + s[2] * s[2];
  double dn = std::sqrt(dn2), sn = std::sqrt(sn2);
  for (int k = 0; k < 3; k++) o[k] = -GM * (d[k] / (dn * dn2) + s[k] / (sn * sn2));
}
X impl_pmp(double GM, const double *r, const double *s, double *o, double *J) { M3 P; put(o, dso::point_mass_accel(GM, v3(r), v3(s), P)); putm(J, P); }
X spec_pmp(double GM, const double *r, const double *s, double *o, double *J) {
  spec_pm(GM, r, s, o);
  double d[3] = {r[0] - s[0], r[1] - s[1], r[2] - s[2]};
  double dn2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2];
  double dn = std::sqrt(dn2);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) J[3 * i + j] = -GM * ((i == j ? 1. : 0.) / (dn2 * dn) - 3. * d[i] * d[j] / (dn2 * dn2 * dn));
}
// ---- drag
static void drag0(const double *r, const double *v, double A, double C, double M, double rho, double *o, double *vr) {
  const double w = iers2010::OmegaEarth;
  vr[0] = v[0] + w * r[1]; vr[1] = v[1] - w * r[0]; vr[2] = v[2];
  double n = std::sqrt(vr[0] * vr[0] + vr[1] * vr[1] + vr[2] * vr[2]);
  for (int k = 0; k < 3; k++) o[k] = -0.5 * C * (A / M) * rho * n * vr[k];
}
X impl_drag(const double *r, const double *v, double A, double C, double M, double rho, double *o) { put(o, dso::drag_accel(v3(r), v3(v), A, C, M, rho)); }
X spec_drag(const double *r, const double *v, double A, double C, double M, double rho, double *o) { double vr[3]; drag0(r, v, A, C, M, rho, o, vr); }
X impl_dragt(const double *r, const double *v, const double *T, double A, double C, double M, double rho, double *o) { put(o, dso::drag_accel(v3(r), v3(v), m3(T), A, C, M, rho)); }
X spec_dragt(const double *r, const double *v, const double *T, double A, double C, double M, double rho, double *o) {
  double rt[3], vt[3], a[3], vr[3];
  for (int i = 0; i < 3; i++) { rt[i] = T[3*i]*r[0] + T[3*i+1]*r[1] + T[3*i+2]*r[2]; vt[i] = T[3*i]*v[0] + T[3*i+1]*v[1] + T[3*i+2]*v[2]; }
  drag0(rt, vt, A, C, M, rho, a, vr);
  for (int i = 0; i < 3; i++) o[i] = T[i] * a[0] + T[3 + i] * a[1] + T[6 + i] * a[2];
}
X impl_dragp(const double *r, const double *v, double A, double C, double M, double rho, const double *g, double *o, double *dr, double *dv, double *dc) {
  M3 a, b; V3 c; put(o, dso::drag_accel(v3(r), v3(v), A, C, M, rho, v3(g), a, b, c)); putm(dr, a); putm(dv, b); put(dc, c);
}
X spec_dragp(const double *r, const double *v, double A, double C, double M, double rho, const double *g, double *o, double *dr, double *dv, double *dc) {
  double vr[3]; drag0(r, v, A, C, M, rho, o, vr);
  const double w = iers2010::OmegaEarth;
  double n = std::sqrt(vr[0] * vr[0] + vr[1] * vr[1] + vr[2] * vr[2]);
  for (int k = 0; k < 3; k++) dc[k] = -0.5 * (A / M) * rho * n * vr[k];
  double V[9];
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) V[3 * i + j] = -0.5 * C * (A / M) * rho * ((i == j ? n : 0.) + vr[i] * vr[j] / n);
  for (int i = 0; i < 9; i++) dv[i] = V[i];
  // vrel = v - w x r,  d(vrel)/dr = -[w x]
  for (int i = 0; i < 3; i++) {
    dr[3 * i + 0] = -0.5 * C * (A / M) * n * vr[i] * g[0] - V[3 * i + 1] * w;
    dr[3 * i + 1] = -0.5 * C * (A / M) * n * vr[i] * g[1] + V[3 * i + 0] * w;
    dr[3 * i + 2] = -0.5 * C * (A / M) * n * vr[i] * g[2];
  }
}
