// The header reader against a reference that splits the lines of a text into
// words; the numbers are arbitrary.  Never executed.
#include "fakeio.hpp"
extern "C" bool pure_badtext(int code) __attribute__((const));
extern "C" int pure_whole(int code) __attribute__((const));
extern "C" double pure_real(int code) __attribute__((const));
#ifndef TEXT
#define TEXT "product_type gr", "modelname  ab x", "errors q", " radius A", "earth_gravity_constant B", "max_degree C", "norm un", "tide_system t", "end_of_head"
#endif
#ifndef CHARS
#define CHARS 6
#endif
constexpr const char *text[] = {TEXT};
constexpr int NTEXT = sizeof(text) / sizeof(text[0]);
static inline bool more_lines(int p, int k) { return p == 0 && k < NTEXT; }
static constexpr int length(const char *s) { int n = 0; while (s[n]) ++n; return n; }
template <int K> static inline __attribute__((always_inline)) void put_line(int k, char *b) {
  if constexpr (K <= NTEXT) {
    if (k == K) { constexpr int n = length(text[K - 1]); for (int i = 0; i <= n; i++) b[i] = text[K - 1][i]; }
    else put_line<K + 1>(k, b);
  }
}
static inline void fill_line(int, int k, char *b) { put_line<1>(k, b); }
static inline double vp_strtod(const char *s, char **e) { int c = *s; if (c < 'A' || c > 'Z' || pure_badtext(c)) { *e = (char *)s; return 0; } *e = (char *)s + 1; return pure_real(c); }
static inline long vp_strtol(const char *s, char **e, int) { int c = *s; if (c < 'A' || c > 'Z' || pure_badtext(c)) { *e = (char *)s; return 0; } *e = (char *)s + 1; return pure_whole(c); }
static inline char *vp_strncpy(char *d, const char *s, std::size_t n) {
  std::size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
namespace std { using ::vp_strtol; using ::vp_strtod; using ::vp_strncpy; }
#define ifstream vp_ifstream
#define string vp_string
#define strtol vp_strtol
#define strtod vp_strtod
#define strncmp vp_strncmp
#define strcmp vp_strcmp
#define strncpy vp_strncpy
#define isspace vp_isspace
#ifndef SLOWLEN
#define strlen vp_strlen
#endif
#define private public
#include "icgemio_rdhead.cpp"
#undef private
#define X extern "C"
struct Head { char s[5][128]; double gm, re; int deg; };
constexpr const char *names[] = {"product_type", "modelname", "errors", "tide_system", "norm"};
constexpr int cap[] = {sizeof(dso::Icgem::product_type), sizeof(dso::Icgem::modelname), sizeof(dso::Icgem::errors), sizeof(dso::Icgem::tide_system), sizeof(dso::Icgem::norm)};
static constexpr bool blank(char c) { return c == ' ' || c == '\t' || c == '\r'; }
struct Words { int a, na, b, nb; };
static constexpr Words split(const char *s) {
  Words w{0, 0, 0, 0};
  int i = 0;
  while (blank(s[i])) ++i;
  w.a = i;
  while (s[i] && !blank(s[i])) ++i;
  w.na = i - w.a;
  while (blank(s[i])) ++i;
  w.b = i;
  while (s[i] && !blank(s[i])) ++i;
  w.nb = i - w.b;
  return w;
}
static constexpr bool same(const char *a, int n, const char *b) { if (length(b) != n) return false; for (int i = 0; i < n; i++) if (a[i] != b[i]) return false; return true; }
static constexpr bool begins(const char *a, const char *b) { for (int i = 0; b[i]; i++) if (a[i] != b[i]) return false; return true; }
// status of the line (0 when it is fine)
template <int K> static inline __attribute__((always_inline)) int one(Head &h) {
  constexpr const char *t = text[K];
  constexpr Words w = split(t);
  constexpr bool gm = same(t + w.a, w.na, "earth_gravity_constant"), re = same(t + w.a, w.na, "radius"), dg = same(t + w.a, w.na, "max_degree");
  constexpr bool any = gm || re || dg || same(t + w.a, w.na, names[0]) || same(t + w.a, w.na, names[1]) || same(t + w.a, w.na, names[2]) || same(t + w.a, w.na, names[3]) || same(t + w.a, w.na, names[4]);
  if constexpr (any && w.nb == 0) return 1;
  else if constexpr (gm || re || dg) {
    constexpr int c = t[w.b];
    if (c < 'A' || c > 'Z' || pure_badtext(c)) return 2;
    if constexpr (gm) { h.gm = pure_real(c); return h.gm == 0 ? 2 : 0; }
    if constexpr (re) { h.re = pure_real(c); return h.re == 0 ? 2 : 0; }
    if constexpr (dg) { h.deg = pure_whole(c); return h.deg == 0 ? 2 : 0; }
  }
  else if constexpr (any) {
    constexpr int f = same(t + w.a, w.na, names[0]) ? 0 : same(t + w.a, w.na, names[1]) ? 1 : same(t + w.a, w.na, names[2]) ? 2 : same(t + w.a, w.na, names[3]) ? 3 : 4;
    if constexpr (w.nb >= cap[f]) return 1;
    else { for (int i = 0; i < w.nb; i++) h.s[f][i] = t[w.b + i]; h.s[f][w.nb] = 0; return 0; }
  }
  return 0;
}
template <int K> static inline __attribute__((always_inline)) int all(Head &h, int &pos) {
  if constexpr (K >= NTEXT) return 1;
  else if constexpr (begins(text[K], "end_of_head")) { pos = K + 1; return h.gm == 0 || h.re == 0 || h.deg == 0; }
  else { int s = one<K>(h); if (s) return s; return all<K + 1>(h, pos); }
}
static inline __attribute__((always_inline)) void out(const Head &h, char *s, double *d, int *n, int pos) {
  // what follows the end of a text is of no interest
  for (int f = 0; f < 5; f++) {
    bool end = false;
    for (int i = 0; i < CHARS && i < cap[f]; i++) { s[f * 128 + i] = end ? 0 : h.s[f][i]; end = end || !h.s[f][i]; }
  }
  d[0] = h.gm; d[1] = h.re; n[0] = h.deg; n[1] = pos;
}
#ifdef FRESH
// what a new reader answers before anything is read
X int impl_fresh(char *s, double *d, int *n) {
  dso::Icgem f("f");
  const char *p[] = {f.product_type, f.modelname, f.errors, f.tide_system, f.norm};
  for (int j = 0; j < 5; j++) for (int i = 0; i < 20; i++) { s[j * 128 + i] = p[j][i]; if (!p[j][i]) break; }
  d[0] = f.gm(); d[1] = f.earth_radius(); n[0] = f.degree();
#ifndef VAR_COPY
  n[1] = f.is_normalized();
#endif
  return 0;
}
X int spec_fresh(char *s, double *d, int *n) {
  const char *p[] = {"", "", "", "unknown", "fully_normalized"};
  for (int j = 0; j < 5; j++) for (int i = 0; i < 20; i++) { s[j * 128 + i] = p[j][i]; if (!p[j][i]) break; }
  d[0] = d[1] = 0; n[0] = 0;
#ifndef VAR_COPY
  n[1] = 1;
#endif
  return 0;
}
#ifndef VAR_COPY
static inline int normal(const char *t) { dso::Icgem f("f"); int n = length(t); for (int i = 0; i <= n; i++) f.norm[i] = t[i]; return f.is_normalized(); }
X int impl_normal(int *n) {
  n[0] = normal("fully_normalized"); n[1] = normal("unnormalized"); n[2] = normal("fully_normalizedx"); n[3] = normal("fully_normalize"); n[4] = normal(""); n[5] = normal("fully");
  return 0;
}
X int spec_normal(int *n) { n[0] = 1; n[1] = n[2] = n[3] = n[4] = n[5] = 0; return 0; }
#endif
#else
X int impl_head(char *s, double *d, int *n) {
  if (!pure_opens('f')) return 1;
  dso::Icgem f("f");
  char *p[] = {f.product_type, f.modelname, f.errors, f.tide_system, f.norm};
  for (int j = 0; j < 5; j++) for (int i = 0; i < CHARS && i < cap[j]; i++) p[j][i] = '#';
  f.earth_gravity_constant = d[0]; f.radius = d[1]; f.max_degree = n[0];
  int r = f.parse_header();
  if (r) return r;
  Head h;
  for (int j = 0; j < 5; j++) for (int i = 0; i < CHARS && i < cap[j]; i++) h.s[j][i] = p[j][i];
  h.gm = f.gm(); h.re = f.earth_radius(); h.deg = f.degree();
  out(h, s, d, n, (int)f.data_section_pos);
  return 0;
}
X int spec_head(char *s, double *d, int *n) {
  if (!pure_opens('f')) return 1;
  Head h;
  for (int j = 0; j < 5; j++) for (int i = 0; i < CHARS && i < cap[j]; i++) h.s[j][i] = '#';
  h.gm = d[0]; h.re = d[1]; h.deg = n[0];
  int pos = 0, r = all<0>(h, pos);
  if (r) return r;
  out(h, s, d, n, pos);
  return 0;
}

#endif
