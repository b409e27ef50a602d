// Parameter layout of the orbit filter and the reference models.  Compiled and analysed, never run.
#define EIGEN_MAX_ALIGN_BYTES 0
#define EIGEN_DONT_VECTORIZE
#define EIGEN_NO_DEBUG
#include <cassert>
#include <cstdio>
#include "datetime/dtcalendar.hpp"
#include "filters/filters.hpp"
#include "filters/models.hpp"
#define X extern "C" void
#ifndef NS
#define NS 2
#endif
using S = dso::nanoseconds;
using D = dso::datetime<S>;
using L = dso::EkfFilter<1, dso::BeaconClockModel::Linear>;
using N = dso::EkfFilter<1, dso::BeaconClockModel::None>;
static D epoch() { return D(dso::modified_julian_day(5), S(7)); }
template <class T> static T make() {
  T f(NS, epoch()); int n = f.num_params();
  for (int i = 0; i < n; i++) { f._ekf._ekf.x(i) = 1000 + i; for (int j = 0; j < n; j++) f._ekf._ekf.P(i, j) = 2000 + 100 * i + j; }
  return f;
}
template <class T, int STRIDE> static void out(T &f, double *x, double *P) {
  for (int i = 0; i < 7 + STRIDE * NS; i++) { x[i] = f._ekf._ekf.x(i); for (int j = 0; j < 7 + STRIDE * NS; j++) P[i * 32 + j] = f._ekf._ekf.P(i, j); }
}
template <int STRIDE> static void base(double *x, double *P) {
  for (int i = 0; i < 7 + STRIDE * NS; i++) { x[i] = 1000 + i; for (int j = 0; j < 7 + STRIDE * NS; j++) P[i * 32 + j] = 2000 + 100 * i + j; }
}
#define PAIR2(name, T, STRIDE, BODY, SPEC) \
  X impl_##name(double a, double b, double *x, double *P) { auto f = make<T>(); BODY; out<T, STRIDE>(f, x, P); } \
  X spec_##name(double a, double b, double *x, double *P) { base<STRIDE>(x, P); SPEC; }
#define EACH(STRIDE, OFF, what) for (int s = 0; s < NS; s++) { const int k = 7 + STRIDE * s + OFF; what; }
#define ONE(STRIDE, OFF, what) { const int k = 7 + STRIDE * 1 + OFF; what; }
PAIR2(linear_wet_all, L, 3, f.set_tropo_apriori(a), EACH(3, 0, x[k] = a))
PAIR2(linear_wet_one, L, 3, f.set_tropo_apriori(a, 1), ONE(3, 0, x[k] = a))
PAIR2(linear_wet_sigma_all, L, 3, f.set_tropo_apriori_sigma(a), EACH(3, 0, P[k * 33] = a))
PAIR2(linear_wet_sigma_one, L, 3, f.set_tropo_apriori_sigma(a, 1), ONE(3, 0, P[k * 33] = a))
PAIR2(linear_offset_all, L, 3, f.set_rfoff_apriori(a, b), EACH(3, 1, x[k] = a; x[k + 1] = b))
PAIR2(linear_offset_one, L, 3, f.set_rfoff_apriori(a, b, 1), ONE(3, 1, x[k] = a; x[k + 1] = b))
PAIR2(linear_offset_sigma_all, L, 3, f.set_rfoff_apriori_sigma(a, b), EACH(3, 1, P[k * 33] = a; P[(k + 1) * 33] = b))
PAIR2(linear_offset_sigma_one, L, 3, f.set_rfoff_apriori_sigma(a, b, 1), ONE(3, 1, P[k * 33] = a; P[(k + 1) * 33] = b))
PAIR2(linear_drag, L, 3, f.set_drag_coef_apriori(a); f.set_drag_coef_apriori_sigma(b), x[6] = a; P[6 * 33] = b)
PAIR2(const_wet_all, N, 2, f.set_tropo_apriori(a), EACH(2, 0, x[k] = a))
PAIR2(const_wet_one, N, 2, f.set_tropo_apriori(a, 1), ONE(2, 0, x[k] = a))
PAIR2(const_wet_sigma_all, N, 2, f.set_tropo_apriori_sigma(a), EACH(2, 0, P[k * 33] = a))
PAIR2(const_wet_sigma_one, N, 2, f.set_tropo_apriori_sigma(a, 1), ONE(2, 0, P[k * 33] = a))
PAIR2(const_offset_all, N, 2, f.set_rfoff_apriori(a), EACH(2, 1, x[k] = a))
PAIR2(const_offset_one, N, 2, f.set_rfoff_apriori(a, 1), ONE(2, 1, x[k] = a))
PAIR2(const_offset_sigma_all, N, 2, f.set_rfoff_apriori_sigma(a), EACH(2, 1, P[k * 33] = a))
PAIR2(const_offset_sigma_one, N, 2, f.set_rfoff_apriori_sigma(a, 1), ONE(2, 1, P[k * 33] = a))
PAIR2(const_drag, N, 2, f.set_drag_coef_apriori(a); f.set_drag_coef_apriori_sigma(b), x[6] = a; P[6 * 33] = b)
X impl_layout(int b, long *o) {
  L f(NS, epoch()); N g(NS, epoch());
  o[0] = f.num_params(); o[1] = g.num_params(); o[2] = f.tropo_index(b); o[3] = f.rfoff_index(b); o[4] = f.drag_coef_index(); o[5] = g.tropo_index(b); o[6] = g.rfoff_index(b); o[7] = g.drag_coef_index();
}
X spec_layout(int b, long *o) {
  o[0] = 7 + 3 * NS; o[1] = 7 + 2 * NS; o[2] = 7 + 3 * b; o[3] = 8 + 3 * b; o[4] = 6; o[5] = 7 + 2 * b; o[6] = 8 + 2 * b; o[7] = 6;
}
X impl_readback(double *o) {
  auto f = make<L>(); auto g = make<N>();
  o[0] = f.tropo_estimate(1); o[1] = f.drag_coef(); o[2] = g.tropo_estimate(1); o[3] = g.rfoff_estimate(1); o[4] = g.drag_coef();
}
X spec_readback(double *o) { o[0] = 1010; o[1] = 1006; o[2] = 1009; o[3] = 1010; o[4] = 1006; }
// polynomial reference model
using M = dso::PolynomialModel<double>;
X impl_line(double a, double b, double r, double t, double *o) { dso::LinearModel<double> m; m.a = a; m.b = b; m.xref = r; o[0] = m.value_at(t); }
X spec_line(double a, double b, double r, double t, double *o) { o[0] = a + b * (t - r); }
static M poly(const double *c, double r) { M m(3); for (int i = 0; i < 4; i++) m.cf[i] = c[i]; m.xref = r; return m; }
static double horner(const double *c, double d) { return c[0] + d * (c[1] + d * (c[2] + d * c[3])); }
X impl_polynomial(const double *c, double r, double t, double *o) { M m = poly(c, r); o[0] = m.value_at(t); o[1] = m.order(); }
X spec_polynomial(const double *c, double r, double t, double *o) { o[0] = horner(c, t - r); o[1] = 3; }
X impl_polynomial_copy(const double *c, const double *e, double r, double t, double *o) {
  M m = poly(c, r); M k(m); for (int i = 0; i < 4; i++) m.cf[i] = e[i]; m.xref = 0; o[0] = k.value_at(t); M q(1); q = k; k.cf[0] = 3; o[1] = q.value_at(t); o[2] = q.order();
}
X spec_polynomial_copy(const double *c, const double *, double r, double t, double *o) { o[0] = o[1] = horner(c, t - r); o[2] = 3; }
X impl_polynomial_move(const double *c, double r, double t, double *o, long *z) {
  M m = poly(c, r); M k(static_cast<M &&>(m)); o[0] = k.value_at(t); z[0] = m.cf == nullptr; M q(1); q = static_cast<M &&>(k); o[1] = q.value_at(t); z[1] = k.cf == nullptr;
}
X spec_polynomial_move(const double *c, double r, double t, double *o, long *z) { o[0] = o[1] = horner(c, t - r); z[0] = z[1] = 1; }
