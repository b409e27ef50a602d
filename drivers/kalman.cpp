// The scalar-measurement Kalman filter.  Compiled and analysed, never run.
#define EIGEN_MAX_ALIGN_BYTES 0
#define EIGEN_DONT_VECTORIZE
#define EIGEN_NO_DEBUG
#include <cassert>
#include <cstdio>
#include "datetime/dtcalendar.hpp"
#include "filters/ekf.hpp"
#define X extern "C" void
#ifndef DIM
#define DIM 2
#endif
using S = dso::nanoseconds;
using F = dso::ExtendedKalmanFilter<S>;
static F make(const double *x, const double *P) {
  Eigen::VectorXd x0(DIM); Eigen::MatrixXd P0(DIM, DIM);
  for (int i = 0; i < DIM; i++) { x0(i) = x[i]; for (int j = 0; j < DIM; j++) P0(i, j) = P[i * DIM + j]; }
  return F(dso::datetime<S>(dso::modified_julian_day(5), S(7)), x0, P0);
}
static void out(const F &f, double *xo, double *Po) { for (int i = 0; i < DIM; i++) { xo[i] = f.x(i); for (int j = 0; j < DIM; j++) Po[i * DIM + j] = f.P(i, j); } }
X impl_measurement(const double *x, const double *P, double z, double g, double s, const double *h, double *xo, double *Po) {
  F f = make(x, P); Eigen::VectorXd H(DIM); for (int i = 0; i < DIM; i++) H(i) = h[i];
  f.observation_update(z, g, s, H); out(f, xo, Po);
}
X spec_measurement(const double *x, const double *P, double z, double g, double s, const double *h, double *xo, double *Po) {
  double k[DIM], w = s * s, a[DIM][DIM];
  for (int i = 0; i < DIM; i++) { k[i] = 0; for (int j = 0; j < DIM; j++) k[i] += P[i * DIM + j] * h[j]; }
  for (int i = 0; i < DIM; i++) w += h[i] * k[i];
  for (int i = 0; i < DIM; i++) { k[i] /= w; xo[i] = x[i] + k[i] * (z - g); }
  for (int i = 0; i < DIM; i++) for (int j = 0; j < DIM; j++) a[i][j] = (i == j) - k[i] * h[j];
  for (int i = 0; i < DIM; i++) for (int j = 0; j < DIM; j++) {
    double v = k[i] * k[j] * s * s;
    for (int p = 0; p < DIM; p++) for (int q = 0; q < DIM; q++) v += a[i][p] * P[p * DIM + q] * a[j][q];
    Po[i * DIM + j] = v;
  }
}
static void phi(Eigen::MatrixXd &m, const double *p) { for (int i = 0; i < DIM; i++) for (int j = 0; j < DIM; j++) m(i, j) = p[i * DIM + j]; }
template <bool Q> static void propagated(const double *P, const double *p, const double *q, double *Po) {
  for (int i = 0; i < DIM; i++) for (int j = 0; j < DIM; j++) { double v = Q ? q[i * DIM + j] : 0.; for (int a = 0; a < DIM; a++) for (int b = 0; b < DIM; b++) v += p[i * DIM + a] * P[a * DIM + b] * p[j * DIM + b]; Po[i * DIM + j] = v; }
}
X impl_propagation(const double *x, const double *P, const double *y, const double *p, double *xo, double *Po, long *d) {
  F f = make(x, P); Eigen::VectorXd n(DIM); for (int i = 0; i < DIM; i++) n(i) = y[i]; Eigen::MatrixXd m(DIM, DIM); phi(m, p);
  f.time_update(dso::datetime<S>(dso::modified_julian_day(9), S(7)), n, m); out(f, xo, Po); d[0] = f.time().mjd().as_underlying_type();
}
X spec_propagation(const double *, const double *P, const double *y, const double *p, double *xo, double *Po, long *d) { for (int i = 0; i < DIM; i++) xo[i] = y[i]; propagated<false>(P, p, nullptr, Po); d[0] = 9; }
X impl_propagation_noise(const double *x, const double *P, const double *y, const double *p, const double *q, double *xo, double *Po, long *d) {
  F f = make(x, P); Eigen::VectorXd n(DIM); for (int i = 0; i < DIM; i++) n(i) = y[i]; Eigen::MatrixXd m(DIM, DIM), Q(DIM, DIM); phi(m, p); phi(Q, q);
  f.time_update(dso::datetime<S>(dso::modified_julian_day(9), S(7)), n, m, Q); out(f, xo, Po); d[0] = f.time().mjd().as_underlying_type();
}
X spec_propagation_noise(const double *, const double *P, const double *y, const double *p, const double *q, double *xo, double *Po, long *d) { for (int i = 0; i < DIM; i++) xo[i] = y[i]; propagated<true>(P, p, q, Po); d[0] = 9; }
