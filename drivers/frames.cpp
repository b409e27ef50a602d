// Reference formulas for the celestial/terrestrial transformation (IERS
// Conventions 2010, ch. 5, CIO based) and the Sun/Moon perturbations.
// The SOFA series, leap seconds, ephemerides and the Earth orientation table
// are arbitrary functions of their arguments.  Never executed.
#define NEW_EOP
#include "orbit_integration.hpp"
#include "iers2010/iau.hpp"
#include "iers2010/iers2010.hpp"
#include "datetime/utcdates.hpp"
#include <cmath>
using V3 = Eigen::Matrix<double, 3, 1>;
using V6 = Eigen::Matrix<double, 6, 1>;
using M3 = Eigen::Matrix<double, 3, 3>;
#define PF(n, ...) extern "C" double pure_##n(__VA_ARGS__) __attribute__((const))
#define X extern "C" void
static V3 v3(const double *p) { V3 v; v(0) = p[0]; v(1) = p[1]; v(2) = p[2]; return v; }
static V6 v6(const double *p) { V6 v; for (int i = 0; i < 6; i++) v(i) = p[i]; return v; }
static M3 m3(const double *p) { M3 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = p[3 * i + j]; return m; }
static void put(double *o, const V3 &v) { o[0] = v(0); o[1] = v(1); o[2] = v(2); }
static void put6(double *o, const V6 &v) { for (int i = 0; i < 6; i++) o[i] = v(i); }
static void putm(double *o, const M3 &m) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o[3 * i + j] = m(i, j); }
#ifdef ROTATION
static void mul(const double *a, const double *b, double *c) { double t[9]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { t[3 * i + j] = 0; for (int k = 0; k < 3; k++) t[3 * i + j] += a[3 * i + k] * b[3 * k + j]; } for (int i = 0; i < 9; i++) c[i] = t[i]; }
static void app(const double *m, const double *v, double *o, bool t) { for (int r = 0; r < 3; r++) { o[r] = 0; for (int c = 0; c < 3; c++) o[r] += (t ? m[3 * c + r] : m[3 * r + c]) * v[c]; } }
// W R3(era) Q and its time derivative
static void c2t(const double *Q, double era, const double *W, double *T) {
  double R[9] = {std::cos(era), std::sin(era), 0, -std::sin(era), std::cos(era), 0, 0, 0, 1}, A[9]; mul(R, Q, A); mul(W, A, T);
}
static void rate(const double *Q, double era, double lod, const double *W, double *D) {
  const double w = iers2010::OmegaEarth * (1. - lod / 86400.);
  double R[9] = {-w * std::sin(era), w * std::cos(era), 0, -w * std::cos(era), -w * std::sin(era), 0, 0, 0, 0}, A[9]; mul(R, Q, A); mul(W, A, D);
}
X impl_position_to_terrestrial(const double *r, const double *Q, double era, const double *W, double *o) { put(o, dso::rcel2ter(v3(r), m3(Q), era, m3(W))); }
X spec_position_to_terrestrial(const double *r, const double *Q, double era, const double *W, double *o) { double T[9]; c2t(Q, era, W, T); app(T, r, o, false); }
X impl_position_to_celestial(const double *r, const double *Q, double era, const double *W, double *o) { put(o, dso::rter2cel(v3(r), m3(Q), era, m3(W))); }
X spec_position_to_celestial(const double *r, const double *Q, double era, const double *W, double *o) { double T[9]; c2t(Q, era, W, T); app(T, r, o, true); }
static void state(const double *y, const double *Q, double era, double lod, const double *W, double *o, bool t) {
  double T[9], D[9], a[3]; c2t(Q, era, W, T); rate(Q, era, lod, W, D); app(T, y, o, t); app(T, y + 3, o + 3, t); app(D, y, a, t); for (int k = 0; k < 3; k++) o[3 + k] += a[k];
}
X impl_state_to_terrestrial(const double *y, const double *Q, double era, double lod, const double *W, double *o) { put6(o, dso::ycel2ter(v6(y), m3(Q), era, lod, m3(W))); }
X spec_state_to_terrestrial(const double *y, const double *Q, double era, double lod, const double *W, double *o) { state(y, Q, era, lod, W, o, false); }
X impl_state_to_celestial(const double *y, const double *Q, double era, double lod, const double *W, double *o) { put6(o, dso::yter2cel(v6(y), m3(Q), era, lod, m3(W))); }
X spec_state_to_celestial(const double *y, const double *Q, double era, double lod, const double *W, double *o) { state(y, Q, era, lod, W, o, true); }
#else
PF(xy06, int k, double d, double t); PF(s06, double d, double t, double x, double y); PF(era, double d, double t); PF(sp, double d, double t);
PF(q, int k, double x, double y, double s); PF(w, int k, double x, double y, double s);
PF(eop, int k, double t); PF(utcfrac, double mjd, double ns); PF(et, double jd); PF(body, int k, int target, int observer, double et);
extern "C" int pure_eopstat(double t) __attribute__((const));
extern "C" long pure_utcday(double mjd, double ns) __attribute__((const));
namespace iers2010 { namespace sofa {
void xy06(double d, double t, double &x, double &y) noexcept { x = pure_xy06(0, d, t); y = pure_xy06(1, d, t); }
double s06(double d, double t, double x, double y) noexcept { return pure_s06(d, t, x, y); }
double era00(double d, double t) noexcept { return pure_era(d, t); }
double sp00(double d, double t) noexcept { return pure_sp(d, t); }
M3 c2ixys_e(double x, double y, double s) noexcept { M3 m; for (int i = 0; i < 9; i++) m(i / 3, i % 3) = pure_q(i, x, y, s); return m; }
M3 pom00_e(double x, double y, double s) noexcept { M3 m; for (int i = 0; i < 9; i++) m(i / 3, i % 3) = pure_w(i, x, y, s); return m; }
} }
namespace dso {
template <> double datetime<nanoseconds>::as_mjd() const noexcept { return static_cast<double>(m_.as_underlying_type()) + static_cast<double>(s_.as_underlying_type()) / 86400e9; }
template <> template <> void datetime<nanoseconds>::add_seconds<nanoseconds>(nanoseconds n) noexcept { s_ = s_ + n; }
template <> double tai2utc<nanoseconds>(const datetime<nanoseconds> &t, modified_julian_day &d) noexcept {
  const double a = static_cast<double>(t.mjd().as_underlying_type()), b = static_cast<double>(t.sec().as_underlying_type());
  d = modified_julian_day(pure_utcday(a, b)); return pure_utcfrac(a, b);
}
int EopLookUpTable::interpolate(double t, EopRecord &e, int) const noexcept {
  if (int s = pure_eopstat(t)) return s;
  e.mjd = t; e.xp = pure_eop(0, t); e.yp = pure_eop(1, t); e.dut = pure_eop(2, t); e.lod = pure_eop(3, t); e.dx = pure_eop(4, t); e.dy = pure_eop(5, t); e.omega = pure_eop(6, t); return 0;
}
}
extern "C" double unitim_c(double jd, const char *a, const char *b) { return a[2] == 'T' && a[3] == 'D' && a[4] == 'T' && b[0] == 'E' ? pure_et(jd) : pure_et(-jd); }
extern "C" void spkezp_c(int t, double et, const char *f, const char *c, int o, double *p, double *lt) { for (int k = 0; k < 3; k++) p[k] = pure_body(k, t, o, f[0] == 'J' && c[0] == 'N' ? et : -et); *lt = 0; }
#ifdef EPOCH
X impl_orientation(double mjd, const dso::EopLookUpTable &t, double *Q, double *era, double *W, double *lod, int *s) {
  M3 q, w; *s = dso::gcrs2itrs(mjd, t, q, *era, w, *lod); if (!*s) { putm(Q, q); putm(W, w); }
}
X spec_orientation(double mjd, const dso::EopLookUpTable &, double *Q, double *era, double *W, double *lod, int *s) {
  const double J = 2400000.5;
  auto as = [](double x) { return x * 3.14159265358979323846264338327950288e0 / 648000.; };
  const int day = (int)mjd;
  const long ns = (long)((mjd - day) * 86400. * 1e9);
  const double D = day, N = (double)ns, tt = (double)(long)day + (double)(ns + 32184000000L) / 86400e9;
  *s = pure_eopstat(tt);
  if (*s) return;
  *lod = pure_eop(3, tt);
  double x = pure_xy06(0, J, tt), y = pure_xy06(1, J, tt), c = pure_s06(J, tt, x, y);
  x += as(pure_eop(4, tt)); y += as(pure_eop(5, tt));
  *era = pure_era(J, pure_utcfrac((double)(long)day, N) + pure_eop(2, tt) / 86400. + (double)pure_utcday((double)(long)day, N));
  double sp = pure_sp(J, tt);
  for (int i = 0; i < 9; i++) { Q[i] = pure_q(i, x, y, c); W[i] = pure_w(i, as(pure_eop(0, tt)), as(pure_eop(1, tt)), sp); }
}
#else
static void third(double GM, const double *r, const double *s, double *o) {
  double d[3] = {r[0] - s[0], r[1] - s[1], r[2] - s[2]}, q = d[0] * d[0] + d[1] * d[1] + d[2] * d[2], p = s[0] * s[0] + s[1] * s[1] + s[2] * s[2];
  for (int k = 0; k < 3; k++) o[k] = -GM * (d[k] / (q * std::sqrt(q)) + s[k] / (p * std::sqrt(p)));
}
extern "C" double pure_mjdday(double) __attribute__((const));
extern "C" double modf(double x, double *i) { *i = pure_mjdday(x); return x - *i; }
X impl_sunmoon(double mjd, const double *r, double GS, double GM, double *as, double *am, double *ps, double *J) {
  V3 a, b, c; M3 P; dso::SunMoon(mjd, v3(r), GS, GM, a, b, c, P); put(as, a); put(am, b); put(ps, c); putm(J, P);
}
// the gravitational parameters are in km^3/s^2 and the ephemeris in km
X spec_sunmoon(double mjd, const double *r, double GS, double GM, double *as, double *am, double *ps, double *J) {
  const double et = pure_et(mjd + 32.184 / 86400. + 2400000.5);
  double S[3], M[3], q3[3], t[3];
  for (int k = 0; k < 3; k++) { S[k] = pure_body(k, 10, 399, et); M[k] = 1e3 * pure_body(k, 301, 399, et); ps[k] = S[k] * 1e3; q3[k] = r[k] * 1e-3; }
  third(GS, q3, S, t); third(GM * 1e9, r, M, am);
  for (int k = 0; k < 3; k++) as[k] = t[k] * 1e3;
  double d[3] = {r[0] - M[0], r[1] - M[1], r[2] - M[2]}, q = d[0] * d[0] + d[1] * d[1] + d[2] * d[2], n = std::sqrt(q);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) J[3 * i + j] = -GM * 1e9 * ((i == j ? 1. : 0.) / (q * n) - 3. * d[i] * d[j] / (q * q * n));
}
#endif
#endif
