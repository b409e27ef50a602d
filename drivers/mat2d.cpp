// Storage of the 2-D arrays: write through one interface, read through the
// others; expected results written directly.  Compiled and analysed, never run.
#ifdef VAR_COPY
#include "compact2dmat.hpp"
#else
#include "cmat2d.hpp"
#endif
#include <utility>
using namespace dso;
constexpr auto RW = MatrixStorageType::RowWise;
constexpr auto CW = MatrixStorageType::ColumnWise;
constexpr auto TZ = MatrixStorageType::Trapezoid;
#define X extern "C" void
template <MatrixStorageType S> static bool stored(int r, int c) { return S != TZ || c <= r; }
template <MatrixStorageType S> static long count(int R, int C) {
  long n = 0;
  for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) n += stored<S>(r, c);
  return n;
}
// fill element by element
template <MatrixStorageType S> static void fill(Mat2D<S> &m, int R, int C, const double *in) {
  for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) if (stored<S>(r, c)) m(r, c) = in[r * C + c];
}
template <MatrixStorageType S> static void dump(const Mat2D<S> &m, int R, int C, double *o) {
  for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) if (stored<S>(r, c)) o[r * C + c] = m(r, c);
}
template <MatrixStorageType S> static void want(int R, int C, const double *in, double *o) {
  for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) if (stored<S>(r, c)) o[r * C + c] = in[r * C + c];
}
template <MatrixStorageType S> static void dims(const Mat2D<S> &m, long *d) { d[0] = m.rows(); d[1] = m.cols(); d[2] = m.num_elements(); }
template <MatrixStorageType S> static void wdims(int R, int C, long *d) { d[0] = R; d[1] = C; d[2] = count<S>(R, C); }

#define SIZES(S, T, R, C)                                                                                                                                         \
  X impl_##T##_##R##x##C##_rw(const double *in, double *o, long *d) { Mat2D<S> m(R, C); fill<S>(m, R, C, in); dump<S>(m, R, C, o); dims(m, d); }                    \
  X spec_##T##_##R##x##C##_rw(const double *in, double *o, long *d) { want<S>(R, C, in, o); wdims<S>(R, C, d); }                                                   \
  X impl_##T##_##R##x##C##_copy(const double *in, const double *z, double *o, double *p, long *d) {                                                              \
    Mat2D<S> m(R, C); fill<S>(m, R, C, in); Mat2D<S> k(m); fill<S>(m, R, C, z); dump<S>(k, R, C, o); dump<S>(m, R, C, p); dims(k, d); }                             \
  X spec_##T##_##R##x##C##_copy(const double *in, const double *z, double *o, double *p, long *d) {                                                              \
    want<S>(R, C, in, o); want<S>(R, C, z, p); wdims<S>(R, C, d); }                                                                                             \
  X impl_##T##_##R##x##C##_assign(const double *in, const double *z, double *o, double *p, long *d, long *self) {                                                \
    Mat2D<S> m(R, C); fill<S>(m, R, C, in); Mat2D<S> k(2, 2); k.fill_with(1.5); Mat2D<S> &b = (k = m); self[0] = (&b == &k);                                       \
    fill<S>(m, R, C, z); dump<S>(k, R, C, o); dump<S>(m, R, C, p); dims(k, d); }                                                                                \
  X spec_##T##_##R##x##C##_assign(const double *in, const double *z, double *o, double *p, long *d, long *self) {                                                \
    want<S>(R, C, in, o); want<S>(R, C, z, p); wdims<S>(R, C, d); self[0] = 1; }                                                                                \
  X impl_##T##_##R##x##C##_same(const double *in, const double *z, double *o, double *p, long *d) {                                                              \
    Mat2D<S> m(R, C); fill<S>(m, R, C, in); Mat2D<S> k(R, C); fill<S>(k, R, C, z); k = m; k = k; fill<S>(m, R, C, z); dump<S>(k, R, C, o); dump<S>(m, R, C, p); dims(k, d); } \
  X spec_##T##_##R##x##C##_same(const double *in, const double *z, double *o, double *p, long *d) {                                                              \
    want<S>(R, C, in, o); want<S>(R, C, z, p); wdims<S>(R, C, d); }                                                                                             \
  X impl_##T##_##R##x##C##_move(const double *in, double *o, long *d) { Mat2D<S> m(R, C); fill<S>(m, R, C, in); Mat2D<S> k(std::move(m)); dump<S>(k, R, C, o); dims(k, d); } \
  X spec_##T##_##R##x##C##_move(const double *in, double *o, long *d) { want<S>(R, C, in, o); wdims<S>(R, C, d); }                                                 \
  X impl_##T##_##R##x##C##_massign(const double *in, double *o, long *d, long *self) {                                                                           \
    Mat2D<S> m(R, C); fill<S>(m, R, C, in); Mat2D<S> k(3, 2); Mat2D<S> &b = (k = std::move(m)); self[0] = (&b == &k); dump<S>(k, R, C, o); dims(k, d); }            \
  X spec_##T##_##R##x##C##_massign(const double *in, double *o, long *d, long *self) { want<S>(R, C, in, o); wdims<S>(R, C, d); self[0] = 1; }                     \
  X impl_##T##_##R##x##C##_fill(double v, double *o) { Mat2D<S> m(R, C); m.fill_with(v); dump<S>(m, R, C, o); }                                                  \
  X spec_##T##_##R##x##C##_fill(double v, double *o) {                                                                                                          \
    for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) if (stored<S>(r, c)) o[r * C + c] = v; }                                                            \
  X impl_##T##_##R##x##C##_slice(const double *in, double *o) { Mat2D<S> m(R, C); fill<S>(m, R, C, in);                                                          \
    for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) if (stored<S>(r, c)) o[r * C + c] = (S == CW) ? m.slice(c)[r] : m.slice(r)[c]; }                        \
  X spec_##T##_##R##x##C##_slice(const double *in, double *o) { want<S>(R, C, in, o); }                                                                          \
  X impl_##T##_##R##x##C##_refill(const double *in, const double *z, double *o, long *d) {                                                                       \
    Mat2D<S> m(R, C); Mat2D<S> k(std::move(m)); Mat2D<S> q(R, C); fill<S>(q, R, C, in); m = q; dump<S>(m, R, C, o); dims(m, d); }                                  \
  X spec_##T##_##R##x##C##_refill(const double *in, const double *z, double *o, long *d) { want<S>(R, C, in, o); wdims<S>(R, C, d); }
SIZES(RW, row, 3, 4)
SIZES(RW, row, 5, 2)
SIZES(CW, col, 3, 4)
SIZES(CW, col, 5, 2)
SIZES(TZ, tri, 4, 4)
SIZES(TZ, tri, 5, 3)
SIZES(TZ, tri, 7, 7)
// symmetric addressing of the trapezoid: (c,r) above the diagonal is (r,c)
X impl_tri_sym(const double *in, double *o) { Mat2D<TZ> m(4, 4); fill<TZ>(m, 4, 4, in); for (int r = 0; r < 4; r++) for (int c = r + 1; c < 4; c++) o[r * 4 + c] = m(r, c); }
X spec_tri_sym(const double *in, double *o) { for (int r = 0; r < 4; r++) for (int c = r + 1; c < 4; c++) o[r * 4 + c] = in[c * 4 + r]; }
// any size: element offsets of the dense layouts
X impl_row_any(int R, int C, int r, int c, long *o) { StorageImplementation<RW> s(R, C); o[0] = s.element_offset(r, c); o[1] = s.slice(r); o[2] = s.num_elements(); }
X spec_row_any(int R, int C, int r, int c, long *o) { o[0] = r * C + c; o[1] = r * C; o[2] = R * C; }
X impl_col_any(int R, int C, int r, int c, long *o) { StorageImplementation<CW> s(R, C); o[0] = s.element_offset(r, c); o[1] = s.slice(c); o[2] = s.num_elements(); }
X spec_col_any(int R, int C, int r, int c, long *o) { o[0] = c * R + r; o[1] = c * R; o[2] = R * C; }
// non-const element reference
X impl_ref(double v, double *o) { Mat2D<RW> a(3, 3); a.fill_with(0); double &e = a(1, 2); e = v; const Mat2D<RW> &k = a; o[0] = k(1, 2); o[1] = k(2, 1); o[2] = k.data()[5]; }
X spec_ref(double v, double *o) { o[0] = v; o[1] = 0; o[2] = v; }
