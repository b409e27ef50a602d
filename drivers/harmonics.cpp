// Harmonic coefficient container: storage, transfer of ownership and
// denormalisation, at fixed degrees.  Compiled and analysed, never run.
#include "harmonic_coeffs.hpp"
#include <cmath>
#include <utility>
using dso::HarmonicCoeffs;
#define X extern "C" void
// ---- enumeration of the coefficients: C(n,m) 0<=m<=n, S(n,m) 1<=m<=n
static void put(HarmonicCoeffs &h, int N, const double *c, const double *s) {
  for (int n = 0; n <= N; n++) for (int m = 0; m <= n; m++) h.C(n, m) = c[n * 100 + m];
  for (int n = 1; n <= N; n++) for (int m = 1; m <= n; m++) h.S(n, m) = s[n * 100 + m];
}
static void get(const HarmonicCoeffs &h, int N, double *c, double *s) {
  for (int n = 0; n <= N; n++) for (int m = 0; m <= n; m++) c[n * 100 + m] = h.C(n, m);
  for (int n = 1; n <= N; n++) for (int m = 1; m <= n; m++) s[n * 100 + m] = h.S(n, m);
}
static void same(int N, const double *c, const double *s, double *oc, double *os) {
  for (int n = 0; n <= N; n++) for (int m = 0; m <= n; m++) oc[n * 100 + m] = c[n * 100 + m];
  for (int n = 1; n <= N; n++) for (int m = 1; m <= n; m++) os[n * 100 + m] = s[n * 100 + m];
}
// normalisation factor sqrt((n-m)!(2n+1)(2-d0m)/(n+m)!)
static double factor(int n, int m) {
  double q = 1;
  for (int k = n - m + 1; k <= n + m; k++) q *= k;
  return std::sqrt((2. * n + 1.) * (m ? 2. : 1.) / q);
}
static void denorm(int N, int M, const double *c, const double *s, double *oc, double *os) {
  for (int n = 0; n <= N; n++)
    for (int m = 0; m <= n; m++) oc[n * 100 + m] = c[n * 100 + m] * ((m <= M && n) ? factor(n, m) : 1.);
  for (int n = 1; n <= N; n++)
    for (int m = 1; m <= n; m++) os[n * 100 + m] = s[n * 100 + m] * (m <= M ? factor(n, m) : 1.);
}
#define IO const double *c, const double *s, double *oc, double *os
#define LAY(N)                                                                                                       \
  X impl_lay##N(IO, int *d) { HarmonicCoeffs h(N); put(h, N, c, s); get(h, N, oc, os); d[0] = h.degree(); }           \
  X spec_lay##N(IO, int *d) { same(N, c, s, oc, os); d[0] = N; }                                                     \
  X impl_rows##N(IO) { HarmonicCoeffs h(N);                                                                          \
    for (int n = 0; n <= N; n++) for (int m = 0; m <= n; m++) h.C_row(n)[m] = c[n * 100 + m];                         \
    for (int n = 1; n <= N; n++) for (int m = 1; m <= n; m++) h.S_row(n)[m - 1] = s[n * 100 + m];                     \
    get(h, N, oc, os); }                                                                                             \
  X spec_rows##N(IO) { same(N, c, s, oc, os); }                                                                      \
  X impl_crows##N(IO) { HarmonicCoeffs g(N); put(g, N, c, s); const HarmonicCoeffs &h = g;                            \
    for (int n = 0; n <= N; n++) for (int m = 0; m <= n; m++) oc[n * 100 + m] = h.C_row(n)[m];                        \
    for (int n = 1; n <= N; n++) for (int m = 1; m <= n; m++) os[n * 100 + m] = h.S_row(n)[m - 1]; }                  \
  X spec_crows##N(IO) { same(N, c, s, oc, os); }                                                                     \
  X impl_nc##N(IO) { HarmonicCoeffs h(N); put(h, N, c, s);                                                           \
    for (int n = 0; n <= N; n++) for (int m = 0; m <= n; m++) oc[n * 100 + m] = h.C(n, m);                            \
    for (int n = 1; n <= N; n++) for (int m = 1; m <= n; m++) os[n * 100 + m] = h.S(n, m); }                          \
  X spec_nc##N(IO) { same(N, c, s, oc, os); }
LAY(1) LAY(2) LAY(3) LAY(6)
// ---- transfer
X impl_movector(IO, int *d) { HarmonicCoeffs h(4); put(h, 4, c, s); HarmonicCoeffs k(std::move(h)); get(k, 4, oc, os); d[0] = k.degree(); }
X spec_movector(IO, int *d) { same(4, c, s, oc, os); d[0] = 4; }
X impl_moveassign(IO, int *d) { HarmonicCoeffs h(4); put(h, 4, c, s); HarmonicCoeffs k(2); HarmonicCoeffs &r = (k = std::move(h)); get(k, 4, oc, os); d[0] = k.degree(); d[1] = (&r == &k); }
X spec_moveassign(IO, int *d) { same(4, c, s, oc, os); d[0] = 4; d[1] = 1; }
X impl_moveself(IO, int *d) { HarmonicCoeffs h(3); put(h, 3, c, s); HarmonicCoeffs &r = h; h = std::move(r); get(h, 3, oc, os); d[0] = h.degree(); }
X spec_moveself(IO, int *d) { same(3, c, s, oc, os); d[0] = 3; }
X impl_moveempty(IO, int *d) { HarmonicCoeffs k; HarmonicCoeffs h(3); put(h, 3, c, s); k = std::move(h); get(k, 3, oc, os); d[0] = k.degree(); }
X spec_moveempty(IO, int *d) { same(3, c, s, oc, os); d[0] = 3; }
X impl_movechain(IO, int *d) { HarmonicCoeffs a(3); put(a, 3, c, s); HarmonicCoeffs b(std::move(a)); a = HarmonicCoeffs(5); put(a, 5, c, s); b = std::move(a); get(b, 5, oc, os); d[0] = b.degree(); }
X spec_movechain(IO, int *d) { same(5, c, s, oc, os); d[0] = 5; }
X impl_empty(int *d) { HarmonicCoeffs a; HarmonicCoeffs b(std::move(a)); HarmonicCoeffs e; e = std::move(b); d[0] = e.degree(); }
X spec_empty(int *d) { d[0] = 0; }
#ifndef VAR_COPY
X impl_resizeup(IO, int *d) { HarmonicCoeffs h(2); h.resize(5); put(h, 5, c, s); get(h, 5, oc, os); d[0] = h.degree(); }
X spec_resizeup(IO, int *d) { same(5, c, s, oc, os); d[0] = 5; }
X impl_resizedown(IO, int *d) { HarmonicCoeffs h(5); h.resize(2); put(h, 2, c, s); get(h, 2, oc, os); d[0] = h.degree(); }
X spec_resizedown(IO, int *d) { same(2, c, s, oc, os); d[0] = 2; }
X impl_resizeempty(IO, int *d) { HarmonicCoeffs h; h.resize(4); put(h, 4, c, s); get(h, 4, oc, os); d[0] = h.degree(); }
X spec_resizeempty(IO, int *d) { same(4, c, s, oc, os); d[0] = 4; }
X impl_resizesame(IO, int *d) { HarmonicCoeffs h(4); put(h, 4, c, s); h.resize(4); put(h, 4, c, s); get(h, 4, oc, os); d[0] = h.degree(); }
X spec_resizesame(IO, int *d) { same(4, c, s, oc, os); d[0] = 4; }
X impl_resizemoved(IO, int *d) { HarmonicCoeffs h(4); HarmonicCoeffs k(std::move(h)); h.resize(3); put(h, 3, c, s); get(h, 3, oc, os); d[0] = h.degree(); d[1] = k.degree(); }
X spec_resizemoved(IO, int *d) { same(3, c, s, oc, os); d[0] = 3; d[1] = 4; }
X impl_resizezero(double v, double *o, int *d) { HarmonicCoeffs h; h.resize(0); h.C(0, 0) = v; *o = h.C(0, 0); d[0] = h.degree(); }
X spec_resizezero(double v, double *o, int *d) { *o = v; d[0] = 0; }
X impl_resizecycle(IO, int *d) { HarmonicCoeffs h(3); h.resize(6); h.resize(2); h.resize(4); put(h, 4, c, s); get(h, 4, oc, os); d[0] = h.degree(); }
X spec_resizecycle(IO, int *d) { same(4, c, s, oc, os); d[0] = 4; }
X impl_consts(double gm, double re, double *o, bool *b) { HarmonicCoeffs h(3, gm, re); o[0] = h.GM(); o[1] = h.Re(); b[0] = h.normalized();
  const HarmonicCoeffs k(std::move(h)); o[2] = k.GM(); o[3] = k.Re(); b[1] = k.normalized(); }
X spec_consts(double gm, double re, double *o, bool *b) { o[0] = gm; o[1] = re; b[0] = true; o[2] = gm; o[3] = re; b[1] = true; }
X impl_consts2(double gm, double re, double *o, bool *b) { HarmonicCoeffs h(3); h.GM() = gm; h.Re() = re; h.normalized() = false; HarmonicCoeffs k(2); k = std::move(h);
  o[0] = k.GM(); o[1] = k.Re(); b[0] = k.normalized(); k.resize(5); o[2] = k.GM(); o[3] = k.Re(); }
X spec_consts2(double gm, double re, double *o, bool *b) { o[0] = gm; o[1] = re; b[0] = false; o[2] = gm; o[3] = re; }
X impl_j2(double v, double *o) { HarmonicCoeffs h(4); h.C(2, 0) = v; *o = h.J2(); }
X spec_j2(double v, double *o) { *o = -v; }
#define FLAG(h) (h).normalized()
#else
#define FLAG(h) false
#endif
// ---- denormalisation; an order below the degree leaves the rest untouched
#define DEN(N, M, T)                                                                                                                    \
  X impl_den##N##_##T(IO, int *d) { HarmonicCoeffs h(N); put(h, N, c, s); d[0] = h.denormalize(M); get(h, N, oc, os); d[1] = FLAG(h); d[2] = h.degree(); } \
  X spec_den##N##_##T(IO, int *d) { denorm(N, (M) < 0 ? N : (M), c, s, oc, os); d[0] = 0; d[1] = false; d[2] = N; }
DEN(1, 1, full) DEN(2, -1, def) DEN(4, 4, full) DEN(5, 3, part) DEN(6, 0, zonal) DEN(6, -1, def) DEN(5, 1, one)
#ifdef BIG
DEN(24, -1, def) DEN(24, 23, part)
#endif
X impl_denbad(IO, int *d) { HarmonicCoeffs h(3); put(h, 3, c, s); d[0] = h.denormalize(4) != 0; get(h, 3, oc, os); }
X spec_denbad(IO, int *d) { same(3, c, s, oc, os); d[0] = 1; }
#ifndef VAR_COPY
X impl_dentwice(IO, int *d) { HarmonicCoeffs h(4); put(h, 4, c, s); d[0] = h.denormalize(); d[1] = h.denormalize(); d[2] = h.normalized(); get(h, 4, oc, os); }
X spec_dentwice(IO, int *d) { denorm(4, 4, c, s, oc, os); d[0] = 0; d[1] = 0; d[2] = 0; }
X impl_denflag(IO, int *d) { HarmonicCoeffs h(4); put(h, 4, c, s); h.normalized() = false; d[0] = h.denormalize(); d[1] = h.normalized(); get(h, 4, oc, os); }
X spec_denflag(IO, int *d) { same(4, c, s, oc, os); d[0] = 0; d[1] = 0; }
X impl_denbadflag(int *d) { HarmonicCoeffs h(3); h.denormalize(7); d[0] = h.normalized(); }
X spec_denbadflag(int *d) { d[0] = 1; }
X impl_denmoved(IO, int *d) { HarmonicCoeffs h(3); put(h, 3, c, s); h.denormalize(); HarmonicCoeffs k(2); k = std::move(h); k.denormalize(); get(k, 3, oc, os); d[0] = k.normalized(); }
X spec_denmoved(IO, int *d) { denorm(3, 3, c, s, oc, os); d[0] = 0; }
#endif
