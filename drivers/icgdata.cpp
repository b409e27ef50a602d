// The coefficient reader against a reference that walks the lines of an
// abstract file: line k is of some kind and carries degree, order, C and S (or
// unreadable text).  Never executed.
#include "fakeio.hpp"
extern "C" bool pure_gfc(int line) __attribute__((const));
extern "C" bool pure_gfct(int line) __attribute__((const));
extern "C" bool pure_badtext(int code) __attribute__((const));
extern "C" bool pure_bit(int code, int k) __attribute__((const));
extern "C" double pure_real(int code) __attribute__((const));
extern "C" int further(int) __attribute__((const));
#ifndef DEG
#define DEG 1
#define ORD 1
#define SIZE 2
#endif
#ifndef FIXED
#define FIXED
#endif
constexpr int START = 77;
#ifndef FULLY
#define FULLY 1
#endif
constexpr bool fully = FULLY;
// the leading lines of the data section: (degree, order) pairs
constexpr int fixed[][2] = {FIXED {-1, -1}};
constexpr int NFIXED = sizeof(fixed) / sizeof(fixed[0]) - 1;
static inline bool is_fixed(int line) { return line >= 1 && line <= NFIXED; }
static inline int kind(int line) { if (is_fixed(line)) return 0; return pure_gfc(line) ? 0 : pure_gfct(line) ? 1 : 2; }
static inline bool more_lines(int p, int k) { return p == START && k < NFIXED ? true : k < LINES ? pure_more(p, k) : false; }
#ifdef FORM
#define WORD FORM
#else
#define WORD "gfc "
#endif
static inline void fill_line(int p, int k, char *b) {
  int line = p == START ? k : 40 + k, w = kind(line);
  b[0] = w == 2 ? 'x' : 'g'; b[1] = 'f'; b[2] = 'c'; b[3] = w == 1 ? 't' : ' ';
  for (int i = 0; i < 4; i++) b[4 + i] = (char)(line * 4 + i + 1);
  b[8] = 0;
}
static inline bool bad(int code) { return !is_fixed((code - 1) / 4) && pure_badtext(code); }
static inline int whole(int code) {
  int line = (code - 1) / 4, f = (code - 1) % 4;
  if (is_fixed(line) && f < 2) return fixed[line - 1][f];
  return pure_bit(code, 0) ? (pure_bit(code, 1) ? 0 : 1) : (pure_bit(code, 1) ? 2 : pure_bit(code, 2) ? 3 : -1);
}
// the leading lines have numbers of their own
static inline double real(int code) {
  int line = (code - 1) / 4, f = (code - 1) % 4;
  if (is_fixed(line)) return f == 3 && fixed[line - 1][1] == 0 ? 0. : 0.125 * code + 3;
  return pure_real(code);
}
static inline long vp_strtol(const char *s, char **e, int) { int c = *s; if (c <= 0 || bad(c)) { *e = (char *)s; return 0; } *e = (char *)s + 1; return whole(c); }
static inline double vp_strtod(const char *s, char **e) { int c = *s; if (c <= 0 || bad(c)) { *e = (char *)s; return 0; } *e = (char *)s + 1; return real(c); }
namespace std { using ::vp_strtol; using ::vp_strtod; }
#define ifstream vp_ifstream
#define string vp_string
#define strtol vp_strtol
#define strtod vp_strtod
#define strncmp vp_strncmp
#define strcmp vp_strcmp
#define strlen vp_strlen
#define private public
#include "icgemio_rddata.cpp"
#undef private
#define X extern "C"
#ifdef VAR_COPY
#define CONSTANTS(h, o)
#define SPEC_CONSTANTS(o)
#define SPEC_UNSET(o)
#else
#define CONSTANTS(h, o) (o)[0] = (h).GM(); (o)[1] = (h).Re(); (o)[2] = (h).normalized();
#define SPEC_UNSET(o) (o)[0] = 0; (o)[1] = 0; (o)[2] = 1;
#define SPEC_CONSTANTS(o) (o)[0] = gm; (o)[1] = re; (o)[2] = fully ? 1. : 0.;
#endif
static inline int reader(int l, int m, int maxdeg, double gm, double re, const double *in, double *co, double *so, double *k) {
  dso::HarmonicCoeffs h(SIZE);
  for (int n = 0; n <= SIZE; n++) for (int j = 0; j <= n; j++) { h.C(n, j) = in[n * (SIZE + 1) + j]; if (j) h.S(n, j) = in[(n + SIZE + 1) * (SIZE + 1) + j]; }
  dso::Icgem f("f");
  f.max_degree = maxdeg; f.earth_gravity_constant = gm; f.radius = re; f.data_section_pos = START;
  const char *t = fully ? "fully_normalized" : "unnormalized____";
  for (int i = 0; i < 17; i++) f.norm[i] = t[i];
  int s = f.parse_data(l, m, &h);
  CONSTANTS(h, k)
  for (int n = 0; n <= SIZE; n++) for (int j = 0; j <= n; j++) { co[n * (SIZE + 1) + j] = h.C(n, j); if (j) so[n * (SIZE + 1) + j] = h.S(n, j); }
  return s;
}
// 0 read, 1 failure, 2 something is missing
static inline int walk(int l, int m, const double *in, double *co, double *so) {
  int todo = 0;
  double C[SIZE + 1][SIZE + 1], S[SIZE + 1][SIZE + 1];
  for (int n = 0; n <= SIZE; n++) for (int j = 0; j <= n; j++) { C[n][j] = in[n * (SIZE + 1) + j]; S[n][j] = j ? in[(n + SIZE + 1) * (SIZE + 1) + j] : 0.; if (n <= l && j <= m) ++todo; }
  int s = -1, left = todo;
  bool there = true;
  bool got10 = false, got11 = false, seen[SIZE + 1][SIZE + 1] = {};
  for (int line = 1; line <= LINES; line++) {
    there = there && more_lines(START, line - 1);
    if (s >= 0 || left == 0 || !there) continue;
    if (kind(line) != 0) continue;
    int c = line * 4 + 1;
    if (bad(c) || bad(c + 1)) { s = 1; continue; }
    int n = whole(c), j = whole(c + 1);
    if (n < 0 || n > l || j < 0 || j > m || j > n) continue;
    if (bad(c + 2) || bad(c + 3)) { s = 1; continue; }
    double x = real(c + 2), y = real(c + 3);
    // the reader's own mark for a missing value is no value
    if (x == -999) { s = 99; continue; }
    // a sine coefficient of order zero has no place to go
    if (j == 0 && y != 0) { s = 1; continue; }
    // files give a coefficient once
    bool twice = false;
    for (int a = 0; a <= l; a++) for (int b = 0; b <= a && b <= m; b++) if (a == n && b == j) { twice = twice || seen[a][b]; seen[a][b] = true; }
    if (twice) { s = 99; continue; }
    --left;
    for (int a = 0; a <= l; a++) for (int b = 0; b <= a && b <= m; b++) if (a == n && b == j) { C[a][b] = x; if (b) S[a][b] = y; }
    if (n == 1 && j == 0) got10 = true;
    if (n == 1 && j == 1) got11 = true;
  }
  if (s < 0) {
    if (left == 0) s = 0;
    else if (m >= 1 && left == 2 && !got10 && !got11) { s = 0; C[1][0] = 0; C[1][1] = 0; }
    else s = 2;
  }
  // what a failed call leaves behind is open
  for (int n = 0; n <= SIZE; n++) for (int j = 0; j <= n; j++) { co[n * (SIZE + 1) + j] = C[n][j]; if (j) so[n * (SIZE + 1) + j] = S[n][j]; }
  return s;
}
#ifdef ARGS
// degree and order that do not fit, and files that do not open
static inline bool refused(int l, int m, int maxdeg) { return l < 0 || m < 0 || l > maxdeg || m > l || l > SIZE || !pure_opens('f'); }
X int impl_refuse(int l, int m, int maxdeg, double gm, double re, const double *in, double *co, double *so, double *k) { if (!refused(l, m, maxdeg)) return 0; return reader(l, m, maxdeg, gm, re, in, co, so, k); }
X int spec_refuse(int l, int m, int maxdeg, double gm, double re, const double *in, double *co, double *so, double *k) {
  if (!refused(l, m, maxdeg)) return 0;
  SPEC_UNSET(k)
  for (int n = 0; n <= SIZE; n++) for (int j = 0; j <= n; j++) { co[n * (SIZE + 1) + j] = in[n * (SIZE + 1) + j]; if (j) so[n * (SIZE + 1) + j] = in[(n + SIZE + 1) * (SIZE + 1) + j]; }
  return 1;
}
#else
X int impl_read(int maxdeg, double gm, double re, const double *in, double *co, double *so, double *k) {
  if (maxdeg < DEG || !pure_opens('f')) return 1;
  int s = reader(DEG, ORD, maxdeg, gm, re, in, co, so, k);
  if (s) { for (int i = 0; i < (SIZE + 1) * (SIZE + 1); i++) co[i] = so[i] = 0; return s; }
  return s;
}
X int spec_read(int maxdeg, double gm, double re, const double *in, double *co, double *so, double *k) {
  if (maxdeg < DEG || !pure_opens('f')) return 1;
  int s = walk(DEG, ORD, in, co, so);
  SPEC_CONSTANTS(k)
  if (s == 99) { for (int i = 0; i < (SIZE + 1) * (SIZE + 1); i++) co[i] = so[i] = further(1); return further(1); }
  if (s) { for (int i = 0; i < (SIZE + 1) * (SIZE + 1); i++) co[i] = so[i] = 0; return s; }
  return s;
}
#endif
