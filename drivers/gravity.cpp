// Potential terms, gravity acceleration and its partials against the
// recursions and derivative operators of Montenbruck & Gill 3.2.4-3.2.5 and
// 7.2.  Never executed.
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdio>
#include "egravity.hpp"
#ifdef VAR_COPY
#include "gravity_acceleration.cpp"
#include "lagrange_poly.cpp"
#endif
#ifndef DN
#define DN 3
#define DM 3
#endif
constexpr int N = DN, M = DM;
#define X extern "C"
using dso::Mat2D;
using dso::HarmonicCoeffs;
constexpr auto TRI = dso::MatrixStorageType::Trapezoid;
// degree and order of the terms themselves
constexpr int TN = N + 2, TM = M + 2, D = TN + 1;
struct Terms { double v[D][D], w[D][D]; };
// 3.29-3.31
static inline __attribute__((always_inline)) void terms(Terms &t, double x, double y, double z, double R, int l, int k) {
  const double r2 = x * x + y * y + z * z;
  t.v[0][0] = R / std::sqrt(r2); t.w[0][0] = 0;
  for (int m = 0; m <= k; m++) {
    if (m) {
      t.v[m][m] = (2 * m - 1) * (x * R / r2 * t.v[m - 1][m - 1] - y * R / r2 * t.w[m - 1][m - 1]);
      t.w[m][m] = (2 * m - 1) * (x * R / r2 * t.w[m - 1][m - 1] + y * R / r2 * t.v[m - 1][m - 1]);
    }
    for (int n = m + 1; n <= l; n++) {
      t.v[n][m] = (2 * n - 1) * (z * R / r2) * t.v[n - 1][m]; t.w[n][m] = (2 * n - 1) * (z * R / r2) * t.w[n - 1][m];
      if (n > m + 1) { t.v[n][m] -= (n + m - 1) * (R * R / r2) * t.v[n - 2][m]; t.w[n][m] -= (n + m - 1) * (R * R / r2) * t.w[n - 2][m]; }
      t.v[n][m] /= n - m; t.w[n][m] /= n - m;
    }
  }
}
#if PART == 3
// arbitrary terms
extern "C" double pure_v(double x, double y, double z, double R, int n, int m) __attribute__((const));
extern "C" double pure_w(double x, double y, double z, double R, int n, int m) __attribute__((const));
int dso::lagrange_polynomials(double x, double y, double z, double R, int l, int k, Mat2D<TRI> &V, Mat2D<TRI> &W) noexcept {
  for (int m = 0; m <= k; m++) for (int n = m; n <= l; n++) { V(n, m) = pure_v(x, y, z, R, n, m); W(n, m) = m ? pure_w(x, y, z, R, n, m) : 0.; }
  return 0;
}
static inline __attribute__((always_inline)) void some_terms(Terms &t, double x, double y, double z, double R, int l, int k) {
  for (int m = 0; m <= k; m++) for (int n = m; n <= l; n++) { t.v[n][m] = pure_v(x, y, z, R, n, m); t.w[n][m] = m ? pure_w(x, y, z, R, n, m) : 0.; }
}
#define terms some_terms
#endif
#define AT(n, m) ((n) * D + (m))
template <typename A> static inline __attribute__((always_inline)) void give(const A &V, const A &W, int l, int k, double *v, double *w) {
  for (int m = 0; m <= k; m++) for (int n = m; n <= l; n++) { v[AT(n, m)] = V(n, m); w[AT(n, m)] = W(n, m); }
}
#if PART == 1
X int impl_terms(double x, double y, double z, double R, double *v, double *w) {
  Mat2D<TRI> V(N + 1, M + 1), W(N + 1, M + 1);
  int s = dso::lagrange_polynomials(x, y, z, R, N, M, V, W);
  give(V, W, N, M, v, w);
  return s;
}
X int spec_terms(double x, double y, double z, double R, double *v, double *w) {
  Terms t; terms(t, x, y, z, R, N, M);
  for (int m = 0; m <= M; m++) for (int n = m; n <= N; n++) { v[AT(n, m)] = t.v[n][m]; w[AT(n, m)] = t.w[n][m]; }
  return 0;
}
// room to spare
X int impl_wide(double x, double y, double z, double R, double *v, double *w) {
  Mat2D<TRI> V(N + 3, M + 3), W(N + 3, M + 3);
  int s = dso::lagrange_polynomials(x, y, z, R, N, M, V, W);
  give(V, W, N, M, v, w);
  return s;
}
X int spec_wide(double x, double y, double z, double R, double *v, double *w) { return spec_terms(x, y, z, R, v, w); }
#ifndef VAR_COPY
X int impl_vector(double x, double y, double z, double R, double *v, double *w) {
  Mat2D<TRI> V(N + 1, M + 1), W(N + 1, M + 1);
  Eigen::Matrix<double, 3, 1> p; p << x, y, z;
  int s = dso::lagrange_polynomials(p, R, N, M, V, W);
  give(V, W, N, M, v, w);
  return s;
}
X int spec_vector(double x, double y, double z, double R, double *v, double *w) { return spec_terms(x, y, z, R, v, w); }
#endif
#ifdef DEBUG
X int impl_rowwise(double x, double y, double z, double R, double *v, double *w) {
  Mat2D<dso::MatrixStorageType::RowWise> V(N + 1, M + 1), W(N + 1, M + 1);
  int s = dso::lagrange_polynomials(x, y, z, R, N, M, V, W);
  give(V, W, N, M, v, w);
  return s;
}
X int spec_rowwise(double x, double y, double z, double R, double *v, double *w) { return spec_terms(x, y, z, R, v, w); }
#endif
// an order above the degree is refused
X int impl_order(double x, double y, double z, double R, int *o) {
  Mat2D<TRI> V(5, 5), W(5, 5);
  o[0] = dso::lagrange_polynomials(x, y, z, R, 2, 3, V, W) != 0;
  return 0;
}
X int spec_order(double x, double y, double z, double R, int *o) { o[0] = 1; return 0; }
#else
// (C - iS) times a derivative of V + iW at degree n and order m
template <int L> static inline __attribute__((always_inline)) double along(const Terms &t, const int *axes, double c, double s, int n, int m) {
  if constexpr (L == 0) return c * t.v[n][m] + (m ? s * t.w[n][m] : 0.);
  else {
    const double f = (n - m + 1) * (n - m + 2);
    const int a = axes[0];
    if (a == 2) return -(n - m + 1) * along<L - 1>(t, axes + 1, c, s, n + 1, m);
    if (m == 0) return a == 0 ? -along<L - 1>(t, axes + 1, c, 0, n + 1, 1) : -along<L - 1>(t, axes + 1, 0, c, n + 1, 1);
    // d/dx: (-Z+ + f Z-)/2; d/dy: i (Z+ + f Z-)/2 turns C - iS into S + iC
    const double up = a == 0 ? along<L - 1>(t, axes + 1, -c, -s, n + 1, m + 1) : along<L - 1>(t, axes + 1, s, -c, n + 1, m + 1);
    const double dn = a == 0 ? along<L - 1>(t, axes + 1, c, s, n + 1, m - 1) : along<L - 1>(t, axes + 1, s, -c, n + 1, m - 1);
    return 0.5 * up + 0.5 * f * dn;
  }
}
template <int L> static inline __attribute__((always_inline)) double sum(const Terms &t, const double *c, const double *s, int i, int j = 0) {
  const int axes[2] = {i, j};
  double q = 0;
  for (int n = 0; n <= N; n++) for (int m = 0; m <= n && m <= M; m++) q += along<L>(t, axes, c[AT(n, m)], m ? s[AT(n, m)] : 0., n, m);
  return q;
}
#define IN double gm, double re, const double *c, const double *s
static inline __attribute__((always_inline)) void model(HarmonicCoeffs &h, const double *c, const double *s) { for (int n = 0; n <= N + EXTRA; n++) for (int m = 0; m <= n; m++) { h.C(n, m) = c[AT(n, m)]; if (m) h.S(n, m) = s[AT(n, m)]; } }
static inline __attribute__((always_inline)) void put(Mat2D<TRI> &V, Mat2D<TRI> &W, int l, int k, const double *v, const double *w) {
  for (int m = 0; m <= k; m++) for (int n = m; n <= l; n++) { V(n, m) = v[AT(n, m)]; W(n, m) = m ? w[AT(n, m)] : 0.; }
}
static inline __attribute__((always_inline)) void take(Terms &t, int l, int k, const double *v, const double *w) {
  for (int m = 0; m <= k; m++) for (int n = m; n <= l; n++) { t.v[n][m] = v[AT(n, m)]; t.w[n][m] = m ? w[AT(n, m)] : 0.; }
}
#if PART == 3
// from a position: the terms of degree and order one (two) more
X int impl_pos(IN, double x, double y, double z, double *a) {
  Mat2D<TRI> V(N + 2, M + 2), W(N + 2, M + 2);
  HarmonicCoeffs h(N + EXTRA); model(h, c, s); h.GM() = gm; h.Re() = re;
  Eigen::Matrix<double, 3, 1> p; p << x, y, z;
  Eigen::Matrix<double, 3, 1> r = dso::grav_potential_accel(p, N, M, V, W, h);
  for (int i = 0; i < 3; i++) a[i] = r(i);
  return 0;
}
X int spec_pos(IN, double x, double y, double z, double *a) {
  Terms t; terms(t, x, y, z, re, N + 1, M + 1);
  for (int i = 0; i < 3; i++) a[i] = gm / (re * re) * sum<1>(t, c, s, i);
  return 0;
}
X int impl_pospart(IN, double x, double y, double z, double *a, double *q) {
  Mat2D<TRI> V(N + 3, M + 3), W(N + 3, M + 3);
  HarmonicCoeffs h(N + EXTRA); model(h, c, s); h.GM() = gm; h.Re() = re;
  Eigen::Matrix<double, 3, 1> p; p << x, y, z;
  Eigen::Matrix<double, 3, 3> d;
  Eigen::Matrix<double, 3, 1> r = dso::grav_potential_accel(p, N, M, V, W, h, d);
  for (int i = 0; i < 3; i++) { a[i] = r(i); for (int j = 0; j < 3; j++) q[3 * i + j] = d(i, j); }
  return 0;
}
X int spec_pospart(IN, double x, double y, double z, double *a, double *q) {
  Terms t; terms(t, x, y, z, re, N + 2, M + 2);
  for (int i = 0; i < 3; i++) { a[i] = gm / (re * re) * sum<1>(t, c, s, i); for (int j = 0; j < 3; j++) q[3 * i + j] = gm / (re * re * re) * sum<2>(t, c, s, i, j); }
  return 0;
}
#else
#ifdef VAR_COPY
X int impl_acc(IN, const double *v, const double *w, double *a) {
  Mat2D<TRI> V(N + 2, M + 2), W(N + 2, M + 2); put(V, W, N + 1, M + 1, v, w);
  HarmonicCoeffs h(N + EXTRA); model(h, c, s);
  return dso::grav_potential_accel(N, M, re, gm, V, W, h, a);
}
#else
X int impl_acc(IN, const double *v, const double *w, double *a) {
  Mat2D<TRI> V(N + 2, M + 2), W(N + 2, M + 2); put(V, W, N + 1, M + 1, v, w);
  HarmonicCoeffs h(N + EXTRA); model(h, c, s);
  Eigen::Matrix<double, 3, 1> r = dso::grav_potential_accel(N, M, re, gm, V, W, h);
  for (int i = 0; i < 3; i++) a[i] = r(i);
  return 0;
}
X int impl_own(IN, const double *v, const double *w, double *a) {
  Mat2D<TRI> V(N + 2, M + 2), W(N + 2, M + 2); put(V, W, N + 1, M + 1, v, w);
  HarmonicCoeffs h(N + EXTRA); model(h, c, s); h.GM() = gm; h.Re() = re;
  Eigen::Matrix<double, 3, 1> r = dso::grav_potential_accel(N, M, V, W, h);
  for (int i = 0; i < 3; i++) a[i] = r(i);
  return 0;
}
X int impl_part(IN, const double *v, const double *w, double *a, double *p) {
  Mat2D<TRI> V(N + 3, M + 3), W(N + 3, M + 3); put(V, W, N + 2, M + 2, v, w);
  HarmonicCoeffs h(N + EXTRA); model(h, c, s);
  Eigen::Matrix<double, 3, 3> q;
  Eigen::Matrix<double, 3, 1> r = dso::grav_potential_accel(N, M, re, gm, V, W, h, q);
  for (int i = 0; i < 3; i++) { a[i] = r(i); for (int j = 0; j < 3; j++) p[3 * i + j] = q(i, j); }
  return 0;
}
X int impl_ownpart(IN, const double *v, const double *w, double *a, double *p) {
  Mat2D<TRI> V(N + 3, M + 3), W(N + 3, M + 3); put(V, W, N + 2, M + 2, v, w);
  HarmonicCoeffs h(N + EXTRA); model(h, c, s); h.GM() = gm; h.Re() = re;
  Eigen::Matrix<double, 3, 3> q;
  Eigen::Matrix<double, 3, 1> r = dso::grav_potential_accel(N, M, V, W, h, q);
  for (int i = 0; i < 3; i++) { a[i] = r(i); for (int j = 0; j < 3; j++) p[3 * i + j] = q(i, j); }
  return 0;
}
#endif
X int spec_acc(IN, const double *v, const double *w, double *a) {
  Terms t; take(t, N + 1, M + 1, v, w);
  for (int i = 0; i < 3; i++) a[i] = gm / (re * re) * sum<1>(t, c, s, i);
  return 0;
}
X int spec_own(IN, const double *v, const double *w, double *a) { return spec_acc(gm, re, c, s, v, w, a); }
X int spec_part(IN, const double *v, const double *w, double *a, double *p) {
  Terms t; take(t, N + 2, M + 2, v, w);
  for (int i = 0; i < 3; i++) { a[i] = gm / (re * re) * sum<1>(t, c, s, i); for (int j = 0; j < 3; j++) p[3 * i + j] = gm / (re * re * re) * sum<2>(t, c, s, i, j); }
  return 0;
}
X int spec_ownpart(IN, const double *v, const double *w, double *a, double *p) { return spec_part(gm, re, c, s, v, w, a, p); }
#endif
#endif
