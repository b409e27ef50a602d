// Shampine & Gordon's variable order Adams integrator: single steps from an
// arbitrary state, against a scalar transcription of the published STEP,
// INTRP and DE routines.  Never run.
#include "eigen3/Eigen/Eigen"
#include <cmath>
#include <limits>
#include <algorithm>
#include <cstring>
#define private public
#include "sgode.hpp"
#undef private
#define X extern "C" void
extern "C" double ode(double x, double y) __attribute__((const));
extern "C" double ode2(double x, double y, double z) __attribute__((const));
extern "C" double further(int);
#ifdef SRC
typedef dso::IntegrationParameters &Par;
extern char par_pool[];
#define PAR reinterpret_cast<dso::IntegrationParameters *>(par_pool)
#define NOEX noexcept
#define INTRP(R, t, y) R.intrp(t, y)
#else
typedef void *Par;
#define PAR nullptr
#define NOEX
#define INTRP(R, t, y) R.intrp(t, y, R.ypout())
#endif
static inline double rhs(int n, int i, double x, const double *y) { return n == 1 ? ode(x, y[0]) : i == 0 ? ode(x, y[1]) : ode2(x, y[0], y[1]); }
template <int N> static void fun(double x, const Eigen::VectorXd &y, Eigen::Ref<Eigen::VectorXd> yp, Par) NOEX {
  double a[N];
  for (int i = 0; i < N; i++) a[i] = y(i);
  for (int i = 0; i < N; i++) yp(i) = rhs(N, i, x, a);
}
constexpr double U = std::numeric_limits<double>::epsilon(), U2 = 2. * U, U4 = 4. * U;
static const double GSTR[] = {0, .5, .0833, .0417, .0264, .0188, .0143, .0114, .00936, .00789, .00679, .00592, .00524, .00468};
// every array is used from index one, as in the book
struct Book {
  double phi[3][18], psi[14], alpha[14], beta[14], sig[15], v[14], w[14], g[15], y[3], yp[3], p[3], wt[3];
  double x, h, hold, eps; int k, kold, ns, crash; bool start, phase1, nornd;
};
template <int N> static inline void derivs(const Book &b, double x, const double *y, double *yp) {
  for (int i = 0; i < N; i++) yp[i + 1] = rhs(N, i, x, y + 1);
}
template <int N> static inline double norm(const double *a, const double *wt) {
  double s = 0;
  for (int l = 1; l <= N; l++) s += (a[l] / wt[l]) * (a[l] / wt[l]);
  return std::sqrt(s);
}
template <int N, int K, int KOLD, int NS, bool PH, bool NR, int IF = 0> struct Attempt { static inline bool go(Book &b, double p5eps, int ifail); };
// NS: steps taken with the present size, this one included
template <int N, int K, int KOLD, int NS, bool SAME, bool PH, bool NR, bool ST> static inline bool spec_step(Book &b) {
  b.crash = 1;
  if (std::fabs(b.h) < U4 * std::fabs(b.x)) { b.h = std::copysign(U4 * std::fabs(b.x), b.h); return true; }
  const double p5eps = .5 * b.eps, round = U2 * norm<N>(b.y, b.wt);
  if (p5eps < round) { b.eps = 2. * round * (1. + U4); return true; }
  b.crash = 0;
  b.g[1] = 1; b.g[2] = .5; b.sig[1] = 1;
  if (b.start) {
    derivs<N>(b, b.x, b.y, b.yp);
    for (int l = 1; l <= N; l++) { b.phi[l][1] = b.yp[l]; b.phi[l][2] = 0; }
    double sum = norm<N>(b.yp, b.wt), absh = std::fabs(b.h);
    if (b.eps < 16. * sum * b.h * b.h) absh = .25 * std::sqrt(b.eps / sum);
    b.h = std::copysign(std::max(absh, U4 * std::fabs(b.x)), b.h);
    b.hold = 0; b.k = 1; b.kold = 0; b.start = false; b.phase1 = true; b.nornd = true;
    if (p5eps <= 100. * round) { b.nornd = false; for (int l = 1; l <= N; l++) b.phi[l][15] = 0; }
  }
  if (ST && !b.nornd) return Attempt<N, K, KOLD, 1, PH, false>::go(b, p5eps, 0);
  return Attempt<N, K, KOLD, SAME ? (NS <= KOLD ? NS + 1 : NS) : 1, PH, NR>::go(b, p5eps, 0);
}
template <int N, int K, int KOLD, int NS, bool PH, bool NR, int IF> inline __attribute__((always_inline)) bool Attempt<N, K, KOLD, NS, PH, NR, IF>::go(Book &b, double p5eps, int ifail) {
    double *psi = b.psi, *alpha = b.alpha, *beta = b.beta, *sig = b.sig, *v = b.v, *w = b.w, *g = b.g;
    constexpr int k = K, kp1 = k + 1, kp2 = k + 2, km1 = k - 1, km2 = k - 2, ns = NS, nsp1 = ns + 1;
    const double h = b.h;
    b.ns = ns; b.phase1 = PH;
    if (k >= ns) {
      beta[ns] = 1; alpha[ns] = 1. / ns;
      double t1 = h * ns;
      sig[nsp1] = 1;
      for (int i = nsp1; i <= k; i++) {
        double t2 = psi[i - 1];
        psi[i - 1] = t1;
        beta[i] = beta[i - 1] * psi[i - 1] / t2;
        t1 = t2 + h;
        alpha[i] = h / t1;
        sig[i + 1] = i * alpha[i] * sig[i];
      }
      psi[k] = t1;
      if (ns <= 1) {
        for (int iq = 1; iq <= k; iq++) w[iq] = v[iq] = 1. / (iq * (iq + 1));
      } else {
        if (k > KOLD) {
          v[k] = 1. / (k * kp1);
          for (int j = 1; j <= ns - 2; j++) { int i = k - j; v[i] -= alpha[j + 1] * v[i + 1]; }
        }
        for (int iq = 1; iq <= kp1 - ns; iq++) { v[iq] -= alpha[ns] * v[iq + 1]; w[iq] = v[iq]; }
        g[nsp1] = w[1];
      }
      for (int i = ns + 2; i <= kp1; i++) {
        for (int iq = 1; iq <= kp2 - i; iq++) w[iq] -= alpha[i - 1] * w[iq + 1];
        g[i] = w[1];
      }
    }
    for (int i = nsp1; i <= k; i++) for (int l = 1; l <= N; l++) b.phi[l][i] *= beta[i];
    for (int l = 1; l <= N; l++) { b.phi[l][kp2] = b.phi[l][kp1]; b.phi[l][kp1] = 0; b.p[l] = 0; }
    for (int i = k; i >= 1; i--) for (int l = 1; l <= N; l++) { b.p[l] += g[i] * b.phi[l][i]; b.phi[l][i] += b.phi[l][i + 1]; }
    for (int l = 1; l <= N; l++) {
      // (p - y) - tau is zero in real arithmetic: only its place is fixed here
      double tau = NR ? h * b.p[l] : h * b.p[l] - b.phi[l][15];
      b.p[l] = b.y[l] + tau;
      if (!NR) b.phi[l][16] = (b.p[l] - b.y[l]) - tau;
    }
    const double xold = b.x, absh = std::fabs(h);
    b.x += h;
    derivs<N>(b, b.x, b.p, b.yp);
    double erkm2 = 0, erkm1 = 0, erk = 0;
    for (int l = 1; l <= N; l++) {
      double t4 = b.yp[l] - b.phi[l][1], a;
      if (km2 > 0) { a = (b.phi[l][km1] + t4) / b.wt[l]; erkm2 += a * a; }
      if (km2 >= 0) { a = (b.phi[l][k] + t4) / b.wt[l]; erkm1 += a * a; }
      a = t4 / b.wt[l]; erk += a * a;
    }
    if (km2 > 0) erkm2 = absh * sig[km1] * GSTR[km2] * std::sqrt(erkm2);
    if (km2 >= 0) erkm1 = absh * sig[k] * GSTR[km1] * std::sqrt(erkm1);
    const double t5 = absh * std::sqrt(erk), err = t5 * (g[k] - g[kp1]);
    erk = t5 * sig[kp1] * GSTR[k];
    int knew = k;
    if (km2 > 0 && std::max(erkm1, erkm2) <= erk) knew = km1;
    if (km2 == 0 && erkm1 <= .5 * erk) knew = km1;
    if (!(err <= b.eps)) {
      b.phase1 = false; b.x = xold;
      for (int i = 1; i <= k; i++) for (int l = 1; l <= N; l++) b.phi[l][i] = (b.phi[l][i] - b.phi[l][i + 1]) / beta[i];
      for (int i = 2; i <= k; i++) psi[i - 1] = psi[i] - h;
      ifail++;
      double t2 = .5;
      if (ifail > 3 && p5eps < .25 * erk) t2 = std::sqrt(p5eps / erk);
      if constexpr (IF + 1 >= 3) knew = 1;
      else if (knew != k) return false; // a retry at another order: beyond the bound
      b.h = t2 * h; b.k = knew;
      if (!(std::fabs(b.h) >= U4 * std::fabs(b.x))) { b.crash = 1; b.h = std::copysign(U4 * std::fabs(b.x), b.h); b.eps += b.eps; return true; }
      if constexpr (IF + 1 < TRIES) return Attempt<N, IF + 1 >= 3 ? 1 : K, KOLD, 1, false, NR, IF + 1>::go(b, p5eps, ifail);
      return false;
    }
    b.kold = k; b.hold = h;
    const double t1 = h * g[kp1];
    for (int l = 1; l <= N; l++) {
      if (!NR) {
        double rho = t1 * (b.yp[l] - b.phi[l][1]) - b.phi[l][16];
        b.y[l] = b.p[l] + rho;
        b.phi[l][15] = (b.y[l] - b.p[l]) - rho;
      } else b.y[l] = b.p[l] + t1 * (b.yp[l] - b.phi[l][1]);
    }
    derivs<N>(b, b.x, b.y, b.yp);
    for (int l = 1; l <= N; l++) { b.phi[l][kp1] = b.yp[l] - b.phi[l][1]; b.phi[l][kp2] = b.phi[l][kp1] - b.phi[l][kp2]; }
    for (int i = 1; i <= k; i++) for (int l = 1; l <= N; l++) b.phi[l][i] += b.phi[l][kp1];
    if (knew == km1 || k == 12) b.phase1 = false;
    bool raise = false, lower = false;
    double erkp1 = 0;
    if (b.phase1) raise = true;
    else if (knew == km1) lower = true;
    else if (kp1 <= ns) {
      for (int l = 1; l <= N; l++) erkp1 += (b.phi[l][kp2] / b.wt[l]) * (b.phi[l][kp2] / b.wt[l]);
      erkp1 = absh * GSTR[kp1] * std::sqrt(erkp1);
      if (k > 1) {
        if (erkm1 <= std::min(erk, erkp1)) lower = true;
        else if (!(erkp1 >= erk || k == 12)) raise = true;
      } else if (!(erkp1 >= .5 * erk)) raise = true;
    }
    double two = 2;
    for (int i = 0; i < k; i++) two *= 2;
    double inv = 1. / (k + 1);
    if (raise) { b.k = kp1; erk = erkp1; two *= 2; inv = 1. / (k + 2); }
    if (lower) { b.k = km1; erk = erkm1; two /= 2; inv = 1. / k; }
    double hnew = h + h;
    if (!b.phase1 && !(p5eps >= erk * two)) {
      hnew = h;
      if (!(p5eps >= erk)) {
        double r = std::pow(p5eps / erk, inv);
        hnew = absh * std::max(.5, std::min(.9, r));
        hnew = std::copysign(std::max(hnew, U4 * std::fabs(b.x)), h);
      }
    }
    b.h = hnew;
    return true;
}
struct Out { double x, h, hold, eps; double y[2], yp[2], phi[2][18], psi[14], alpha[14], sig[15], v[14], g[15]; int k, kold, ns, crash, phase1, nornd; };
// the state a step starts from: ns steps of size hold at order kold
template <int N, int K, int KOLD, int NS, bool SAME, bool PH, bool NR, bool ST> struct Case {
  static inline void impl(double x, double h, const double *in, double *F, double *S, int *I) {
    dso::SGOde R(fun<N>, N, 1e-3, 1e-3, PAR);
    const double *q = in;
    double eps = *q++;
    R.x = x; R.h = h; R.hold = SAME ? h : 2 * h; R.k = K; R.kold = KOLD; R.ns = NS; R.phase1 = PH; R.nornd = NR; R.start = ST;
    for (int l = 0; l < N; l++) { R.yy(l) = *q++; R.wt(l) = *q++; for (int i = 0; i < K + 2; i++) R.Phi(l, i) = *q++; R.Phi(l, 14) = *q++; R.yp(l) = *q++; }
    for (int i = 0; i < K; i++) { R.psi(i) = *q++; R.v(i) = *q++; }
    for (int i = 0; i < K; i++) { R.alpha(i) = *q++; R.beta(i) = *q++; }
    for (int i = 1; i < K + 1; i++) R.sig(i) = *q++;
    for (int i = 2; i < K + 1; i++) R.g(i) = *q++;
    int crash = -1;
    R.step(eps, crash);
    S[0] = R.x; S[1] = R.h; S[2] = R.hold; S[3] = eps;
    I[0] = R.k; I[1] = R.kold; I[2] = R.ns; I[3] = crash != 0; I[4] = R.phase1; I[5] = R.nornd; I[6] = R.start;
    if (WHAT == 0) return;
    const int off = N * (K + 4);
    for (int l = 0; l < N; l++) { double *o = F + l * (K + 4); o[0] = R.yy(l); for (int i = 0; i < K + 2; i++) o[1 + i] = R.Phi(l, i); o[K + 3] = R.yp(l); }
    for (int i = 0; i < K; i++) { F[off + 2 * i] = R.psi(i); F[off + 2 * i + 1] = R.v(i); }
    for (int i = 0; i < K; i++) { F[off + 2 * K + 2 * i] = R.alpha(i); F[off + 2 * K + 2 * i + 1] = R.sig(i + 1); }
    for (int i = 2; i < K + 1; i++) F[off + 4 * K + i] = R.g(i);
  }
  static inline void spec(double x, double h, const double *in, double *F, double *S, int *I) {
    Book b;
    const double *q = in;
    b.eps = *q++;
    b.x = x; b.h = h; b.hold = SAME ? h : 2 * h; b.k = K; b.kold = KOLD; b.ns = NS; b.phase1 = PH; b.nornd = NR; b.start = ST;
    for (int l = 1; l <= N; l++) { b.y[l] = *q++; b.wt[l] = *q++; for (int i = 1; i <= K + 2; i++) b.phi[l][i] = *q++; b.phi[l][15] = *q++; b.yp[l] = *q++; }
    for (int i = 1; i <= K; i++) { b.psi[i] = *q++; b.v[i] = *q++; }
    for (int i = 1; i <= K; i++) { b.alpha[i] = *q++; b.beta[i] = *q++; }
    for (int i = 2; i <= K + 1; i++) b.sig[i] = *q++;
    for (int i = 3; i <= K + 1; i++) b.g[i] = *q++;
    const bool done = spec_step<N, K, KOLD, NS, SAME, PH, NR, ST>(b);
    const int nf = N * (K + 4) + 4 * K + 1 + K;
    if (!done) {
      for (int i = 0; i < 4; i++) S[i] = further(i);
      for (int i = 0; i < 7; i++) I[i] = (int)further(i);
      if (WHAT) for (int i = 0; i < nf; i++) if (i != N * (K + 4) + 4 * K && i != N * (K + 4) + 4 * K + 1) F[i] = further(10 + i);
      return;
    }
    S[0] = b.x; S[1] = b.h; S[2] = b.hold; S[3] = b.eps;
    I[0] = b.k; I[1] = b.kold; I[2] = b.ns; I[3] = b.crash != 0; I[4] = b.phase1; I[5] = b.nornd; I[6] = b.start;
    if (WHAT == 0) return;
    const int off = N * (K + 4);
    for (int l = 0; l < N; l++) { double *o = F + l * (K + 4); o[0] = b.y[l + 1]; for (int i = 0; i < K + 2; i++) o[1 + i] = b.phi[l + 1][i + 1]; o[K + 3] = b.yp[l + 1]; }
    for (int i = 0; i < K; i++) { F[off + 2 * i] = b.psi[i + 1]; F[off + 2 * i + 1] = b.v[i + 1]; }
    for (int i = 0; i < K; i++) { F[off + 2 * K + 2 * i] = b.alpha[i + 1]; F[off + 2 * K + 2 * i + 1] = b.sig[i + 2]; }
    for (int i = 2; i < K + 1; i++) F[off + 4 * K + i] = b.g[i + 1];
  }
};
#define STEP(NAME, x, h, ...) \
  X impl_##NAME(const double *in, double *F, double *S, int *I) { Case<__VA_ARGS__>::impl(x, h, in, F, S, I); } \
  X spec_##NAME(const double *in, double *F, double *S, int *I) { Case<__VA_ARGS__>::spec(x, h, in, F, S, I); }
#define TINY 0x1.8p-50
#ifndef PART
#define PART 0
#endif
//          x    h     N  K KOLD NS same  phase1 nornd start
#if PART == 1
STEP(small,  1., 0x1p-51, 1, 1, 1, 1, true, false, true, false)
STEP(smallback, -1., -0x1p-51, 1, 1, 1, 1, true, false, true, false)
STEP(o1,     1., TINY,  1, 1, 1, 1, true, false, true, false)
STEP(o1const,1., TINY,  1, 1, 1, 2, true, false, true, false)
STEP(o1up,   1., TINY,  1, 1, 2, 2, true, false, true, false)
STEP(o2,     1., TINY,  1, 2, 2, 2, true, false, true, false)
STEP(o2back, 1., -TINY, 1, 2, 2, 1, true, false, true, false)
STEP(o2new,  1., TINY,  1, 2, 2, 3, false, false, true, false)
STEP(o2up,   1., TINY,  1, 2, 1, 1, true, true, true, false)
STEP(o2round,1., TINY,  1, 2, 2, 1, true, false, false, false)
STEP(o3,     1., TINY,  1, 3, 3, 1, true, false, true, false)
STEP(o3up,   1., TINY,  1, 3, 2, 2, true, true, true, false)
STEP(o3low,  1., TINY,  1, 3, 4, 3, true, false, true, false)
STEP(o4new,  1., TINY,  1, 4, 3, 1, false, true, true, false)
#elif PART == 2
STEP(pair1,  1., TINY,  2, 1, 1, 1, true, false, true, false)
STEP(pair2,  1., TINY,  2, 2, 2, 1, true, true, true, false)
STEP(pair2r, 1., TINY,  2, 2, 2, 3, false, false, false, false)
#elif PART == 3
STEP(o3const,1., TINY,  1, 3, 3, 4, true, false, true, false)
STEP(o4,     1., TINY,  1, 4, 4, 2, true, false, true, false)
STEP(o4up,   1., TINY,  1, 4, 3, 3, true, false, true, false)
STEP(o5up,   1., TINY,  1, 5, 4, 4, true, true, true, false)
STEP(o5new,  1., TINY,  1, 5, 5, 4, false, false, true, false)
STEP(o12,    1., TINY,  1, 12, 12, 13, true, false, true, false)
STEP(o12ph,  1., TINY,  1, 12, 12, 13, true, true, true, false)
#elif PART == 4
STEP(first,  1., .25,   1, 1, 0, 1, false, true, true, true)
STEP(firstback, 0., -.5, 1, 1, 0, 1, false, true, true, true)
STEP(retry,  1., .25,   1, 1, 1, 1, false, true, true, false)
STEP(retryrun, 2., -.5,   1, 1, 1, 1, true, false, true, false)
STEP(retryround, 1., .25,   1, 1, 1, 1, false, false, false, false)
#endif

// ---- interpolation inside the last step
#if PART == 5
template <int N, int K> static inline void interp_impl(double x, double xout, const double *q, double *Y, double *YP) {
  dso::SGOde R(fun<N>, N, 1e-3, 1e-3, PAR);
  R.x = x; R.kold = K;
  for (int i = 0; i < K; i++) R.psi(i) = *q++;
  for (int l = 0; l < N; l++) { R.yy(l) = *q++; for (int i = 0; i < K + 1; i++) R.Phi(l, i) = *q++; }
  Eigen::VectorXd y(N);
  INTRP(R, xout, y);
  for (int l = 0; l < N; l++) { Y[l] = y(l); YP[l] = R.ypout(l); }
}
template <int N, int K> static inline void interp_spec(double x, double xout, const double *q, double *Y, double *YP) {
  double psi[K + 2], g[K + 3], w[K + 3], rho[K + 3];
  for (int i = 1; i <= K; i++) psi[i] = *q++;
  const double hi = xout - x;
  constexpr int ki = K + 1, kip1 = K + 2;
  for (int i = 1; i <= ki; i++) w[i] = 1. / i;
  g[1] = 1; rho[1] = 1;
  double term = 0;
  for (int j = 2; j <= ki; j++) {
    double gamma = (hi + term) / psi[j - 1], eta = hi / psi[j - 1];
    for (int i = 1; i <= kip1 - j; i++) w[i] = gamma * w[i] - eta * w[i + 1];
    g[j] = w[1];
    rho[j] = gamma * rho[j - 1];
    term = psi[j - 1];
  }
  for (int l = 0; l < N; l++) {
    const double yy = *q++;
    double a = 0, b = 0;
    for (int i = 1; i <= ki; i++) { double phi = *q++; a += g[i] * phi; b += rho[i] * phi; }
    Y[l] = yy + hi * a; YP[l] = b;
  }
}
#define INTERP(N, K) \
  X impl_interp##N##_##K(double x, double xout, const double *q, double *Y, double *YP) { interp_impl<N, K>(x, xout, q, Y, YP); } \
  X spec_interp##N##_##K(double x, double xout, const double *q, double *Y, double *YP) { interp_spec<N, K>(x, xout, q, Y, YP); }
INTERP(1, 1)
INTERP(1, 2)
INTERP(1, 3)
INTERP(2, 2)
INTERP(1, 4)
#ifdef DEEPER
INTERP(1, 5)
INTERP(1, 6)
INTERP(2, 4)
INTERP(1, 12)
#endif
#endif

// ---- the driver of the steps; STEP and INTRP are abstract here
#if PART == 6 || PART == 7
extern "C" double st_x(double, double, double, int) __attribute__((const));
extern "C" double st_y(double, double, double, int) __attribute__((const));
extern "C" double st_h(double, double, double, int) __attribute__((const));
extern "C" double st_eps(double, double, double, int) __attribute__((const));
extern "C" int st_crash(double, double, double, int) __attribute__((const));
extern "C" int st_kold(double, double, double, int) __attribute__((const));
extern "C" double in_y(double, double, double) __attribute__((const));
#if PART == 7
int dso::SGOde::step(double &eps, int &crash) noexcept { crash = 0; kold = ORDER; ns++; return 0; }
#else
int dso::SGOde::step(double &eps, int &crash) noexcept {
  // everything the step may look at enters its result
  const double a = x, b = h, c = st_y(eps, wt(0), yy(0), 100 + start);
  x = st_x(a, b, c, 0); yy(0) = st_y(a, b, c, 1); h = st_h(a, b, c, 2); eps = st_eps(a, b, c, 3); crash = st_crash(a, b, c, 4) != 0; kold = st_kold(a, b, c, 5);
  start = false;
  return 0;
}
#endif
#ifdef SRC
int dso::SGOde::intrp(double xo, Eigen::VectorXd &y) noexcept { y(0) = in_y(xo, x, yy(0)); return 0; }
#else
int dso::SGOde::intrp(double xo, Eigen::VectorXd &y, Eigen::Ref<Eigen::VectorXd> yp) noexcept { y(0) = in_y(xo, x, yy(0)); return 0; }
#endif
struct Prev { double x, h, told, delsgn, yy; int isnold; };
static inline void de_impl(int flag, double rel, double abs, double t, double tout, double y0, const double *q, double *S, int *I) {
  dso::SGOde R(fun<1>, 1, rel, abs, PAR);
  R.iflag = flag; R.start = false;
  if (flag != 1 && flag != -1) { R.x = q[0]; R.h = q[1]; R.told = t; R.delsgn = q[3] < 0 ? -1. : 1.; R.yy(0) = q[4]; R.isnold = q[5] < 0 ? -1 : 1; }
  else { R.isnold = 1; R.told = 0; R.delsgn = 1; R.x = 0; R.h = 1; R.ns = 0; }
  R.ns = 0; R.yp(0) = 0; R.yy(0) = flag == 1 || flag == -1 ? 0. : R.yy(0);
  Eigen::VectorXd y(1), out(1); y(0) = y0; out(0) = 0;
  I[1] = R.de(t, tout, y, out) != 0;
  S[0] = t; S[1] = out(0); S[2] = R.relerr; S[3] = R.abserr; S[4] = R.told;
  I[0] = R.flag(); I[2] = R.isnold;
  if (PART == 7) I[3] = R.ns;
}
static inline void de_spec(int flag, double rel, double abs, double t, double tout, double y0, const double *q, double *S, int *I) {
  Prev p;
  const bool fresh = flag == 1 || flag == -1;
  if (!fresh) { p.x = q[0]; p.h = q[1]; p.told = t; p.delsgn = q[3] < 0 ? -1. : 1.; p.yy = q[4]; p.isnold = q[5] < 0 ? -1 : 1; }
  else { p.isnold = 1; p.told = 0; p.delsgn = 1; p.yy = 0; p.x = 0; p.h = 1; }
  S[0] = t; S[1] = 0; S[2] = rel; S[3] = abs; S[4] = p.told; I[0] = flag; I[1] = 0; I[2] = p.isnold;
  double eps = rel < abs ? abs : rel;
  if (t == tout || rel < 0 || abs < 0 || eps <= 0 || flag == 0) { I[0] = 6; I[1] = 1; return; }
  const int isn = flag < 0 ? -1 : 1;
  const double del = tout - t, tend = isn < 0 ? tout : t + 10. * del;
  const double releps = rel / eps, abseps = abs / eps;
  bool start = false;
  if (fresh || p.isnold < 0 || p.delsgn * del <= 0) {
    start = true; p.x = t; p.yy = y0; p.delsgn = std::copysign(1., del);
    p.h = std::copysign(std::max(std::fabs(tout - p.x), U4 * std::fabs(p.x)), tout - p.x);
  }
  for (int n = 0; n < TRIES; n++) {
    if (std::fabs(p.x - t) >= std::fabs(del)) { S[1] = in_y(tout, p.x, p.yy); S[0] = S[4] = tout; I[0] = 2; I[2] = isn; return; }
    if (isn < 0 && std::fabs(tout - p.x) < U4 * std::fabs(p.x)) {
      S[1] = p.yy + (tout - p.x) * ode(p.x, p.yy); S[0] = S[4] = tout; I[0] = 2; I[2] = isn; return;
    }
    if (n == TRIES - 1) break;
    p.h = std::copysign(std::min(std::fabs(p.h), std::fabs(tend - p.x)), p.h);
    const double wt = releps * std::fabs(p.yy) + abseps;
    const double a = p.x, b = p.h, c = st_y(eps, wt, p.yy, 100 + start);
    p.x = st_x(a, b, c, 0); p.yy = st_y(a, b, c, 1); p.h = st_h(a, b, c, 2); eps = st_eps(a, b, c, 3); start = false;
    if (st_crash(a, b, c, 4) != 0) {
      I[0] = isn * 3; I[1] = 1; S[2] = eps * releps; S[3] = eps * abseps; S[1] = p.yy; S[0] = S[4] = p.x; I[2] = 1; return;
    }
  }
  for (int i = 0; i < 5; i++) S[i] = further(i);
  for (int i = 0; i < 3; i++) I[i] = (int)further(i);
}
#define DE(NAME, flag, rel, abs, t, tout) \
  X impl_##NAME(double y0, const double *q, double *S, int *I) { de_impl(flag, rel, abs, t, tout, y0, q, S, I); } \
  X spec_##NAME(double y0, const double *q, double *S, int *I) { de_spec(flag, rel, abs, t, tout, y0, q, S, I); }
#if PART == 6
DE(fresh,    1, 1e-3, 1e-6, 1., 3.)
DE(freshback,1, 1e-6, 1e-3, 1., -3.)
DE(stop,    -1, 1e-3, 1e-6, 1., 3.)
DE(stopback,-1, 1e-3, 1e-6, 3., 1.)
DE(again,    2, 1e-3, 1e-6, 1., 3.)
DE(againback,2, 1e-3, 1e-6, 1., -1.)
DE(againstop,-2, 1e-3, 1e-6, 1., 3.)
DE(after3,   3, 1e-3, 1e-6, 1., 3.)
DE(after4,  -4, 1e-3, 1e-6, 1., 3.)
DE(after5,   5, 1e-3, 1e-6, 1., 3.)
DE(abs0,     1, 1e-3, 0., 1., 3.)
DE(rel0,     1, 0., 1e-3, 1., 3.)
DE(none,     1, 1e-3, 1e-3, 1., 1.)
DE(neg,      1, -1e-3, 1e-3, 1., 2.)
DE(negabs,   1, 1e-3, -1e-3, 1., 2.)
DE(zero,     1, 0., 0., 1., 2.)
DE(flag0,    0, 1e-3, 1e-3, 1., 2.)
X impl_lost(double y0, const double *q, double *S, int *I) {
  dso::SGOde R(fun<1>, 1, 1e-3, 1e-3, PAR);
  R.iflag = 2; R.told = 1.5;
  Eigen::VectorXd y(1), out(1); y(0) = y0; out(0) = 0; double t = 1.;
  I[1] = R.de(t, 3., y, out) != 0; I[0] = R.flag(); S[0] = t; S[1] = out(0);
}
X spec_lost(double y0, const double *q, double *S, int *I) { I[1] = 1; I[0] = 6; S[0] = 1.; S[1] = 0; }
#elif PART == 7
#define LIMIT(NAME, flag, result) \
  X impl_##NAME(double y0, const double *q, double *S, int *I) { de_impl(flag, 1e-3, 1e-6, 1., 3., y0, q, S, I); } \
  X spec_##NAME(double y0, const double *q, double *S, int *I) { S[0] = 1; S[1] = y0; S[2] = 1e-3; S[3] = 1e-6; S[4] = 1; I[0] = result; I[1] = 1; I[2] = 1; I[3] = 500; }
LIMIT(limit, 1, STIFF ? 5 : 4)
LIMIT(limitstop, -1, STIFF ? -5 : -4)
#endif
#endif
