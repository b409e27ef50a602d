// Factorial table and ratios.  Never executed.
#include "factorial.hpp"
#define X extern "C" void
template <typename T, int N> static void table(T *o) { dso::FactorialLookUpTable<T, N> t; for (int i = 0; i <= N; i++) o[i] = t.factorial(i); }
template <typename T, int N> static void product(T *o) { for (int i = 0; i <= N; i++) { T f = 1; for (int k = 2; k <= i; k++) f = f * (T)k; o[i] = f; } }
#ifndef TOP
#define TOP 30
#endif
#ifndef RAT
#define RAT 12
#endif
template <int N> static void tables(double *o) { table<double, N>(o + 100 * N); if constexpr (N < TOP) tables<N + 1>(o); }
template <int N> static void products(double *o) { product<double, N>(o + 100 * N); if constexpr (N < TOP) products<N + 1>(o); }
X impl_table_d(double *o) { tables<1>(o); }
X spec_table_d(double *o) { products<1>(o); }
template <int N> static void ltables(long *o) { table<long, N>(o + 100 * N); if constexpr (N < 20) ltables<N + 1>(o); }
template <int N> static void lproducts(long *o) { product<long, N>(o + 100 * N); if constexpr (N < 20) lproducts<N + 1>(o); }
X impl_table_l(long *o) { ltables<1>(o); }
X spec_table_l(long *o) { lproducts<1>(o); }
// n!/d!
static double ratio(int n, int d) { double f = 1; for (int i = d + 1; i <= n; i++) f *= i; for (int i = n + 1; i <= d; i++) f /= i; return f; }
X impl_ratio(double *o) { int k = 0; for (int n = 0; n <= RAT; n++) for (int d = 0; d <= RAT; d++) o[k++] = dso::factorialRatio<double>(n, d); }
X spec_ratio(double *o) { int k = 0; for (int n = 0; n <= RAT; n++) for (int d = 0; d <= RAT; d++) o[k++] = ratio(n, d); }
template <int N, int D> static void one(double *o) {
  o[(RAT + 1) * N + D] = dso::factorialRatio<double, N, D>();
  if constexpr (D < RAT) one<N, D + 1>(o); else if constexpr (N < RAT) one<N + 1, 0>(o);
}
X impl_ratio_fixed(double *o) { one<0, 0>(o); }
X spec_ratio_fixed(double *o) { for (int n = 0; n <= RAT; n++) for (int d = 0; d <= RAT; d++) o[(RAT + 1) * n + d] = ratio(n, d); }
X impl_ratio_long(double *o) { o[0] = dso::factorialRatio<double>(20, 3); o[1] = dso::factorialRatio<double, 22, 19>(); o[2] = dso::factorialRatio<double>(17, 17); }
X spec_ratio_long(double *o) { o[0] = ratio(20, 3); o[1] = ratio(22, 19); o[2] = 1; }
