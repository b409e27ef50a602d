// The reader of Earth orientation files against a reference that walks the
// lines of an abstract file.  Never executed.
#include <charconv>
#include <fstream>
#include "fakeio.hpp"
#include "eop.hpp"
#include "datetime/utcdates.hpp"
#ifndef DAYS
#define DAYS 1
#endif
extern "C" int pure_kind(int line) __attribute__((const));
extern "C" bool pure_bit(int line, int k) __attribute__((const));
extern "C" bool pure_badtext(int code) __attribute__((const));
extern "C" double pure_real(int code) __attribute__((const));
extern "C" double pure_fraction(long day) __attribute__((const));
constexpr long FROM = 100;
// 0: blank or comment, 1: data
static inline int kind(int line) { return pure_kind(line) == 0 ? 0 : 1; }
// the date of a line: the day before the interval, in it, or after it
static inline long day(int line) { return pure_bit(line, 0) ? (pure_bit(line, 1) ? FROM : FROM - 1) : (pure_bit(line, 1) ? FROM + DAYS - 1 : FROM + DAYS); }
static inline bool more_lines(int p, int k) { return p == 0 && k < LINES ? pure_more(p, k) : false; }
static inline int code(int line, int f) { return 33 + line * 8 + f; }
static inline void fill_line(int, int k, char *b) {
  b[0] = kind(k) ? '2' : pure_bit(k, 2) ? ' ' : '#';
  for (int i = 1; i < 12; i++) b[i] = '0';
  for (int f = 0; f < 7; f++) { b[12 + 2 * f] = ' '; b[13 + 2 * f] = (char)code(k, f); }
  b[26] = ' '; b[27] = '9'; b[28] = 0;
}
static inline double value(int c) { return pure_real(c); }
static inline bool bad(int c) { return pure_badtext(c); }
namespace std {
// the place after an unreadable number is of no interest
inline from_chars_result vp_from_chars(const char *s, const char *e, long &v) { if (bad(*s)) return {s + 1, errc::invalid_argument}; v = day((*s - 33) / 8); return {s + 1, errc()}; }
inline from_chars_result vp_from_chars(const char *s, const char *e, double &v) { if (bad(*s)) return {s + 1, errc::invalid_argument}; v = value(*s); return {s + 1, errc()}; }
}
double dso::utc2tai(dso::modified_julian_day m, double f, dso::modified_julian_day &o) noexcept { o = m; return f + pure_fraction(m.as_underlying_type()); }
#define ifstream vp_ifstream
#define strlen vp_strlen
#define from_chars vp_from_chars
#include "iers/parse_c04.cpp"
#define X extern "C"
using MJD = dso::modified_julian_day;
X int impl_read(const char *name, double *o) {
  if (!pure_opens(name[0])) return dso::parse_iers_C04(name, MJD(FROM), MJD(FROM + DAYS), *static_cast<dso::EopLookUpTable *>(nullptr)) != 0;
  dso::EopLookUpTable t(DAYS);
  int s = dso::parse_iers_C04(name, MJD(FROM), MJD(FROM + DAYS), t) != 0;
  if (!s) for (int i = 0; i < DAYS; i++) { o[8 * i] = *t.mjd(i); o[8 * i + 1] = *t.xp(i); o[8 * i + 2] = *t.yp(i); o[8 * i + 3] = *t.dut(i); o[8 * i + 4] = *t.lod(i); o[8 * i + 5] = *t.dx(i); o[8 * i + 6] = *t.dy(i); o[8 * i + 7] = t.size(); }
  return s;
}
X int spec_read(const char *name, double *o) {
  if (!pure_opens(name[0])) return 1;
  int n = 0, src[DAYS] = {0};
  for (int k = 1; k <= LINES; k++) {
    if (!pure_more(0, k - 1)) break;
    if (!kind(k)) continue;
    if (bad(code(k, 0))) return 1;
    if (day(k) < FROM) continue;
    if (day(k) >= FROM + DAYS) break;
    if (n == DAYS) return 1;
    for (int f = 1; f < 7; f++) if (bad(code(k, f))) return 1;
    src[n++] = k;
  }
  if (n != DAYS) return 1;
  for (int i = 0; i < DAYS; i++) {
    long d = day(src[i]);
    o[8 * i] = d + pure_fraction(d) + 32.184 / 86400.;
    for (int f = 1; f < 7; f++) o[8 * i + f] = value(code(src[i], f));
    o[8 * i + 7] = DAYS;
  }
  return 0;
}
