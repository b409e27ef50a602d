// Declaration-level stand-in for the (absent) third-party "datetime" library.
// Only used so that clang can type-check the sources under analysis.
#ifndef VSTUB_DTFUND
#define VSTUB_DTFUND
#include <cstdint>
#include <cmath>
#include <limits>
#include <string>
#include <stdexcept>
#include <type_traits>
namespace dso {
constexpr double mjd0_jd = 2400000.5e0;
constexpr double j2000_jd = 2451545e0;
constexpr double j2000_mjd = 51544.5e0;
constexpr double sec_per_day = 86400e0;
constexpr double days_in_julian_cent = 36525e0;
#ifndef VSTUB_PI
#define VSTUB_PI
constexpr double DPI = 3.14159265358979323846264338327950288e0;
constexpr double D2PI = 2e0 * DPI;
#endif
class year { int m_; public: explicit constexpr year(int i = 0) noexcept : m_(i) {} constexpr int as_underlying_type() const noexcept { return m_; } };
class month { int m_; public: explicit constexpr month(int i = 1) noexcept : m_(i) {} constexpr int as_underlying_type() const noexcept { return m_; } };
class day_of_month { int m_; public: explicit constexpr day_of_month(int i = 0) noexcept : m_(i) {} constexpr int as_underlying_type() const noexcept { return m_; } };
class day_of_year { int m_; public: explicit constexpr day_of_year(int i = 0) noexcept : m_(i) {} constexpr int as_underlying_type() const noexcept { return m_; } };
class hours { long m_; public: explicit constexpr hours(long i = 0) noexcept : m_(i) {} constexpr long as_underlying_type() const noexcept { return m_; } };
class minutes { long m_; public: explicit constexpr minutes(long i = 0) noexcept : m_(i) {} constexpr long as_underlying_type() const noexcept { return m_; } };
class ymd_date; class ydoy_date;
class modified_julian_day {
  long m_;
public:
  explicit constexpr modified_julian_day(long i = 0) noexcept : m_(i) {}
  modified_julian_day(year, month, day_of_month);
  modified_julian_day(year, day_of_year);
  constexpr long as_underlying_type() const noexcept { return m_; }
  constexpr modified_julian_day &operator++() noexcept { ++m_; return *this; }
  constexpr modified_julian_day operator++(int) noexcept { auto t(*this); ++m_; return t; }
  constexpr modified_julian_day &operator--() noexcept { --m_; return *this; }
  constexpr modified_julian_day &operator+=(modified_julian_day d) noexcept { m_ += d.m_; return *this; }
  constexpr bool operator==(modified_julian_day d) const noexcept { return m_ == d.m_; }
  constexpr bool operator!=(modified_julian_day d) const noexcept { return m_ != d.m_; }
  constexpr bool operator<(modified_julian_day d) const noexcept { return m_ < d.m_; }
  constexpr bool operator<=(modified_julian_day d) const noexcept { return m_ <= d.m_; }
  constexpr bool operator>(modified_julian_day d) const noexcept { return m_ > d.m_; }
  constexpr bool operator>=(modified_julian_day d) const noexcept { return m_ >= d.m_; }
  constexpr modified_julian_day operator+(modified_julian_day d) const noexcept { return modified_julian_day(m_ + d.m_); }
  constexpr modified_julian_day operator-(modified_julian_day d) const noexcept { return modified_julian_day(m_ - d.m_); }
  ydoy_date to_ydoy() const noexcept; double to_julian_day() const noexcept; ymd_date to_ymd() const noexcept;
};
struct ymd_date { year __year; month __month; day_of_month __dom; };
struct ydoy_date { year __year; day_of_year __doy; };
int dat(modified_julian_day) noexcept;
int dat(modified_julian_day, int &) noexcept;
int dat(double, int &) noexcept;
double utc2tai(modified_julian_day, double, modified_julian_day &) noexcept;
double to_julian_day(modified_julian_day) noexcept;
long ydoy2mjd(long, long) noexcept;
template <typename T, long F> struct sec_base_ {
  typedef long underlying_type;
  long m_;
  static constexpr bool is_of_sec_type = true;
  template <typename R = long> static constexpr R sec_factor() noexcept { return static_cast<R>(F); }
  static constexpr long max_in_day = 86400L * F;
  explicit constexpr sec_base_(long i = 0) noexcept : m_(i) {}
  constexpr long as_underlying_type() const noexcept { return m_; }
  constexpr double to_fractional_seconds() const noexcept { return static_cast<double>(m_) / static_cast<double>(F); }
  constexpr double fractional_seconds() const noexcept { return static_cast<double>(m_) / static_cast<double>(F); }
  constexpr double fractional_days() const noexcept { return static_cast<double>(m_) / static_cast<double>(max_in_day); }
  template <typename R> constexpr R cast_to() const noexcept { return static_cast<R>(m_); }
  constexpr bool operator==(const T &d) const noexcept { return m_ == d.m_; }
  constexpr bool operator!=(const T &d) const noexcept { return m_ != d.m_; }
  constexpr bool operator<(const T &d) const noexcept { return m_ < d.m_; }
  constexpr bool operator<=(const T &d) const noexcept { return m_ <= d.m_; }
  constexpr bool operator>(const T &d) const noexcept { return m_ > d.m_; }
  constexpr bool operator>=(const T &d) const noexcept { return m_ >= d.m_; }
  constexpr T operator+(const T &d) const noexcept { return T(m_ + d.m_); }
  constexpr T operator-(const T &d) const noexcept { return T(m_ - d.m_); }
};
struct seconds : sec_base_<seconds, 1L> { using sec_base_::sec_base_; };
struct milliseconds : sec_base_<milliseconds, 1000L> { using sec_base_::sec_base_; };
struct microseconds : sec_base_<microseconds, 1000000L> { using sec_base_::sec_base_; };
struct nanoseconds : sec_base_<nanoseconds, 1000000000L> { using sec_base_::sec_base_; };
template <typename S, typename T> constexpr T cast_to(S s) noexcept {
  return T(static_cast<long>(static_cast<double>(s.as_underlying_type()) * T::template sec_factor<double>() / S::template sec_factor<double>()));
}
}
#endif
