// Runge-Kutta-Fehlberg 4(5): the integrator against a scalar transcription of
// the published algorithm (Shampine & Watts, Sandia SAND76-0585), for one
// equation; the derivative is an uninterpreted function.  Never run.
#include "eigen3/Eigen/Eigen"
#include <cmath>
#include <limits>
#ifdef PRIV
#define private public
#endif
#include "rkf45.hpp"
#undef private
#define X extern "C" void
extern "C" double ode(double x, double y) __attribute__((const));
extern "C" double ode2(double x, double y, double z) __attribute__((const));
extern "C" double further(int);
extern "C" double slope(double x) __attribute__((const));
extern "C" double slope2(double x) __attribute__((const));
static void step(double x, const Eigen::VectorXd &y, Eigen::Ref<Eigen::VectorXd> yp, void *) { yp(0) = slope(x); if (y.rows() > 1) yp(1) = slope2(x); }
static inline double rhs(int i, double x) { return i ? slope2(x) : slope(x); }
static void fun(double x, const Eigen::VectorXd &y, Eigen::Ref<Eigen::VectorXd> yp, void *) { yp(0) = ode(x, y(0)); }
struct Step { double y, e; };
// one Fehlberg step: fifth order solution and the (unscaled) error sum
static Step fehlberg(double t, double h, double y, double k1) {
  double k2 = ode(t + h / 4., y + h * k1 / 4.);
  double k3 = ode(t + 3. * h / 8., y + h * (3. / 32. * k1 + 9. / 32. * k2));
  double k4 = ode(t + 12. * h / 13., y + h * (1932. / 2197. * k1 - 7200. / 2197. * k2 + 7296. / 2197. * k3));
  double k5 = ode(t + h, y + h * (439. / 216. * k1 - 8. * k2 + 3680. / 513. * k3 - 845. / 4104. * k4));
  double k6 = ode(t + h / 2., y + h * (-8. / 27. * k1 + 2. * k2 - 3544. / 2565. * k3 + 1859. / 4104. * k4 - 11. / 40. * k5));
  Step s;
  s.y = y + h * (16. / 135. * k1 + 6656. / 12825. * k3 + 28561. / 56430. * k4 - 9. / 50. * k5 + 2. / 55. * k6);
  // 752400 * (difference of the two solutions) / h
  s.e = 752400. * (-1. / 360. * k1 + 128. / 4275. * k3 + 2197. / 75240. * k4 - 1. / 50. * k5 - 2. / 55. * k6);
  return s;
}
// the same step for a right hand side that depends on the time only
static inline Step quadrature(int i, double t, double h, double y, double k1) {
  double k3 = rhs(i, t + 3. * h / 8.), k4 = rhs(i, t + 12. * h / 13.), k5 = rhs(i, t + h), k6 = rhs(i, t + h / 2.);
  Step s;
  s.y = y + h * (16. / 135. * k1 + 6656. / 12825. * k3 + 28561. / 56430. * k4 - 9. / 50. * k5 + 2. / 55. * k6);
  s.e = 752400. * (-1. / 360. * k1 + 128. / 4275. * k3 + 2197. / 75240. * k4 - 1. / 50. * k5 - 2. / 55. * k6);
  return s;
}
#ifdef PRIV
X impl_fehl(double t, double h, double y, double k1, double *o) {
  dso::RKF45 R(fun, 1, 1e-9, 1e-9, nullptr);
  Eigen::VectorXd v(1), p(1); v(0) = y; p(0) = k1; R.yp(0) = k1;
  Eigen::VectorXd r = R.fehl(t, h, v, p);
  o[0] = r(0);
}
X spec_fehl(double t, double h, double y, double k1, double *o) { o[0] = fehlberg(t, h, y, k1).y; }
#define HOUT(x) *H = (x)
#ifndef MODE
#define MODE -1
#endif
#else
#define HOUT(x)
#define MODE 1
#endif
template <int N> static inline void solver(double t0, double tout, const double *y0, double rerr, double aerr, double *T, double *Y, int *flag, double *H) {
  Eigen::VectorXd y(N);
  for (int i = 0; i < N; i++) y(i) = y0[i];
  double t = t0;
  dso::RKF45 R(step, N, rerr, aerr, nullptr);
#ifdef PRIV
  if (MODE < 0) R.iflag = -1;
#endif
  R.solve(t, tout, y);
  *T = t; *flag = R.flag();
  for (int i = 0; i < N; i++) Y[i] = y(i);
  HOUT(R.h);
}
static inline double mx(double a, double b) { return a < b ? b : a; }
template <int N> static inline void reference(double t0, double tout, const double *y0, double rerr, double aerr, double *T, double *Y, int *flag, double *H) {
  double t = t0, h = 0, y[N], k1[N];
  constexpr double two_eps = 2. * std::numeric_limits<double>::epsilon();
  constexpr double u26 = 13. * two_eps;
  *T = t0;
  for (int i = 0; i < N; i++) Y[i] = y[i] = y0[i];
  if (rerr < 0 || aerr < 0 || t0 == tout) { *flag = 8; return; }
  if (!(rerr >= two_eps + 1e-12)) { *flag = 3; return; }
  double dt = tout - t, toln = 0;
  h = std::fabs(dt);
  for (int i = 0; i < N; i++) {
    k1[i] = rhs(i, t);
    double tol = rerr * std::fabs(y[i]) + aerr;
    if (tol > 0.) {
      toln = tol;
      double yk = std::fabs(k1[i]);
      if (yk * std::pow(h, 5.) > tol) h = std::pow(tol / yk, 0.2);
    }
  }
  if (toln <= 0.) h = 0;
  h = mx(h, u26 * mx(std::fabs(t), std::fabs(dt)));
  h = std::copysign(h, dt);
  if (std::fabs(dt) <= u26 * std::fabs(t)) {
    for (int i = 0; i < N; i++) Y[i] = y[i] + dt * k1[i];
    *T = tout; *flag = 2; HOUT(h);
    return;
  }
  const double scale = 2. / rerr, ae = scale * aerr;
  for (int step = 0; step < STEPS; step++) {
    bool failed = false, last = false;
    const double hmin = u26 * std::fabs(t);
    dt = tout - t;
    if (std::fabs(dt) >= 2. * std::fabs(h)) ;
    else if (std::fabs(dt) > std::fabs(h)) h = 0.5 * dt;
    else { last = true; h = dt; }
    double est = 0, ynew[N];
    int k;
    for (k = 0; k < TRIES; k++) {
      double worst = 0;
      for (int i = 0; i < N; i++) {
        Step s = quadrature(i, t, h, y[i], k1[i]);
        double et = std::fabs(y[i]) + std::fabs(s.y) + ae;
        if (et <= 0) { *flag = 5; HOUT(h); return; }
        worst = mx(worst, std::fabs(s.e) / et);
        ynew[i] = s.y;
      }
      est = std::fabs(h) * worst * scale / 752400.;
      if (est <= 1.) break;
      failed = true; last = false;
      double q = 0.1;
      if (est < 59049.) q = 0.9 / std::pow(est, 0.2);
      h *= q;
      if (std::fabs(h) <= hmin) { *flag = 6; HOUT(h); return; }
    }
    if (k == TRIES) break;
    t += h;
    for (int i = 0; i < N; i++) { Y[i] = y[i] = ynew[i]; k1[i] = rhs(i, t); }
    *T = t;
    double q = 5.;
    if (est > 1.889568e-4) q = 0.9 / std::pow(est, 0.2);
    if (failed) q = q < 1. ? q : 1.;
    h = std::copysign(mx(q * std::fabs(h), hmin), h);
    HOUT(h);
    if (last) { *T = tout; *flag = 2; return; }
    if (MODE < 0) { *flag = -2; return; }
  }
  for (int i = 0; i < N; i++) Y[i] = further(10 + i);
  *T = further(2); *flag = (int)further(3); HOUT(further(4));
}
#define SOLVE(N, D, T0, T1, RE, AE) \
  X impl_##N(const double *y0, double *T, double *Y, int *flag, double *H) { solver<D>(T0, T1, y0, RE, AE, T, Y, flag, H); } \
  X spec_##N(const double *y0, double *T, double *Y, int *flag, double *H) { reference<D>(T0, T1, y0, RE, AE, T, Y, flag, H); }
SOLVE(forward, 1, 1., 3., 1e-3, 1e-4)
SOLVE(backward, 1, 2., -1., 1e-6, 0.)
SOLVE(fromzero, 1, 0., .5, 1e-2, 1e-2)
SOLVE(pair, 2, 1., 3., 1e-3, 1e-4)
SOLVE(close, 1, 1., 1. + 0x1p-51, 1e-3, 1e-3)
SOLVE(same, 1, 1., 1., 1e-3, 1e-3)
SOLVE(negrel, 1, 1., 2., -1e-3, 1e-3)
SOLVE(negabs, 1, 1., 2., 1e-3, -1e-3)
SOLVE(tight, 1, 1., 2., 1e-14, 1e-3)
