// Interpolators of var/intrp.cc on ascending nodes.  Never executed.
#define main intrp_main
#include "intrp.cc"
#undef main
#define X extern "C" void
#ifndef SIZE
#define SIZE 4
#endif
constexpr int N = SIZE;
static bool ascending(const double *x) { for (int i = 1; i < N; i++) if (!(x[i - 1] < x[i])) return false; return true; }
// outside the table the end value is returned with a status; exactly on the
// last node the value is the last one and the status is left open
#define PRE if (!ascending(x) || t == x[N - 1]) return
template <typename I> static void run(const double *x, const double *y, double t, double *v, int *s) { I i(x, y, N); int k = 7; *v = i.value_at(t, k); *s = k; }
template <typename F> static void ref(const double *x, const double *y, double t, double *v, int *s, F f) {
  if (t < x[0]) { *v = y[0]; *s = 1; return; }
  if (t > x[N - 1]) { *v = y[N - 1]; *s = 2; return; }
  *s = 0;
  if (t == x[0]) { *v = y[0]; return; }
  for (int i = 1; i < N; i++) if (t < x[i]) { *v = f(i); return; }
}
X impl_nearest(const double *x, const double *y, double t, double *v, int *s) { PRE; run<NearestNeighborInterpolator>(x, y, t, v, s); }
X spec_nearest(const double *x, const double *y, double t, double *v, int *s) { PRE; ref(x, y, t, v, s, [=](int i) { return t - x[i - 1] < x[i] - t ? y[i - 1] : y[i]; }); }
X impl_linear(const double *x, const double *y, double t, double *v, int *s) { PRE; run<LinearInterpolator>(x, y, t, v, s); }
X spec_linear(const double *x, const double *y, double t, double *v, int *s) { PRE; ref(x, y, t, v, s, [=](int i) { return (y[i - 1] * (x[i] - t) + y[i] * (t - x[i - 1])) / (x[i] - x[i - 1]); }); }
X impl_quadratic(const double *x, const double *y, double t, double *v, int *s) { PRE; run<QuadraticInterpolator>(x, y, t, v, s); }
X spec_quadratic(const double *x, const double *y, double t, double *v, int *s) { PRE; ref(x, y, t, v, s, [=](int i) {
  // the bracketing nodes and the nearer neighbour of the bracket (Newton form)
  int k = i == 1 ? 2 : i == N - 1 ? N - 3 : t - x[i - 2] < x[i + 1] - t ? i - 2 : i + 1;
  double a = x[i - 1], b = x[i], c = x[k], ab = (y[i] - y[i - 1]) / (b - a), bc = (y[k] - y[i]) / (c - b);
  return y[i - 1] + ab * (t - a) + (bc - ab) / (c - a) * (t - a) * (t - b); }); }
// on the last node
X impl_last(const double *x, const double *y, double *v) { if (!ascending(x)) return; int s; v[0] = NearestNeighborInterpolator(x, y, N).value_at(x[N - 1], s); v[1] = LinearInterpolator(x, y, N).value_at(x[N - 1], s); v[2] = QuadraticInterpolator(x, y, N).value_at(x[N - 1], s); }
X spec_last(const double *x, const double *y, double *v) { if (!ascending(x)) return; v[0] = v[1] = v[2] = y[N - 1]; }
