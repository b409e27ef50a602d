// Reading a gravity model through the reader: what is asked for, what is
// refused and when the normalisation is removed.  Never executed.
#include "eigen3/Eigen/Eigen"
#include "matvec/matvec.hpp"
#include <iostream>
#include <sstream>
#include <vector>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <string>
extern "C" bool pure_header() __attribute__((const));
extern "C" bool pure_data(int l, int m) __attribute__((const));
extern "C" bool pure_full() __attribute__((const));
extern "C" double pure_number(int k) __attribute__((const));
extern "C" int further(int) __attribute__((const));
struct vp_string_ { const char *s; vp_string_(const char *c) : s(c) {} const char *c_str() const { return s; } };
template <typename... T> static inline int vp_fprintf(T...) { return 0; }
namespace std { typedef ::vp_string_ vp_string; using ::vp_fprintf; }
#define string vp_string
#define fprintf vp_fprintf
#define private public
#include "parse_coefficients.cpp"
#undef private
#define X extern "C"
#ifndef ASK
#define ASK 2
#define ORDER 1
#define HAS 3
#endif
int dso::Icgem::parse_header() noexcept { if (!pure_header()) return 1; max_degree = HAS; return 0; }
static inline void fill(dso::HarmonicCoeffs &h, int l, int m) {
  for (int n = 0; n <= l; n++) for (int j = 0; j <= n && j <= m; j++) { h.C(n, j) = pure_number(10 * n + j); if (j) h.S(n, j) = pure_number(100 + 10 * n + j); }
  h.GM() = pure_number(1000); h.Re() = pure_number(1001); h.normalized() = pure_full();
}
int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *h) noexcept { if (h->degree() < l || l > max_degree || m > l || l < 0 || m < 0 || !pure_data(l, m)) return 1; fill(*h, l, m); return 0; }
static inline __attribute__((always_inline)) void show(const dso::HarmonicCoeffs &h, double *c, double *s, double *k) {
  for (int n = 0; n <= ASK; n++) for (int j = 0; j <= n && j <= ORDER; j++) { c[n * 8 + j] = h.C(n, j); if (j) s[n * 8 + j] = h.S(n, j); }
  k[0] = h.GM(); k[1] = h.Re(); k[2] = h.normalized(); k[3] = h.degree();
}
static inline __attribute__((always_inline)) int model(int size, bool raw, double *c, double *s, double *k) {
  dso::HarmonicCoeffs h(size);
  int r = raw ? dso::parse_gravity_model("f", ASK, ORDER, h) : dso::parse_gravity_model("f", ASK, ORDER, h, false);
  if (r) return 1;
  show(h, c, s, k);
  return 0;
}
static inline __attribute__((always_inline)) int wanted(bool raw, double *c, double *s, double *k) {
  if (!pure_header() || ASK > HAS || ORDER > ASK || !pure_data(ASK, ORDER)) return 1;
  dso::HarmonicCoeffs h(ASK);
  fill(h, ASK, ORDER);
  if (raw) h.denormalize();
  show(h, c, s, k);
  return 0;
}
#define IO double *c, double *s, double *k
X int impl_plain(IO) { return model(1, true, c, s, k); }
X int spec_plain(IO) { return wanted(true, c, s, k); }
X int impl_keep(IO) { return model(5, false, c, s, k); }
X int spec_keep(IO) { return wanted(false, c, s, k); }
