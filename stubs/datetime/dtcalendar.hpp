#ifndef VSTUB_DTCAL
#define VSTUB_DTCAL
#include "datetime/dtfund.hpp"
#include <chrono>
namespace dso {
template <class S> class datetime_interval {
  long d_; S s_;
public:
  constexpr datetime_interval(long d = 0, S s = S(0)) noexcept : d_(d), s_(s) {}
  constexpr modified_julian_day days() const noexcept { return modified_julian_day(d_); }
  constexpr S sec() const noexcept { return s_; }
  double to_fractional_seconds() const noexcept;
  double to_fractional_days() const noexcept;
  double as_mjd() const noexcept;
  bool operator<(const datetime_interval &) const noexcept;
  bool operator>(const datetime_interval &) const noexcept;
  bool operator<=(const datetime_interval &) const noexcept;
  bool operator>=(const datetime_interval &) const noexcept;
  bool operator==(const datetime_interval &) const noexcept;
};
template <class S> class datetime {
  modified_julian_day m_; S s_;
public:
  constexpr datetime() noexcept : m_(0), s_(0) {}
  constexpr datetime(modified_julian_day m, S s) noexcept : m_(m), s_(s) {}
  datetime(long, S) noexcept;
  datetime(year, month, day_of_month, S = S(0));
  datetime(year, day_of_year, S = S(0));
  datetime(year, month, day_of_month, hours, minutes, S);
  template <class S2> datetime(const datetime<S2> &o) noexcept : m_(o.mjd()), s_(0) {}
  static constexpr datetime min() noexcept { return datetime(modified_julian_day(-100000), S(0)); }
  static constexpr datetime max() noexcept { return datetime(modified_julian_day(100000), S(0)); }
  constexpr modified_julian_day mjd() const noexcept { return m_; }
  constexpr modified_julian_day &mjd() noexcept { return m_; }
  constexpr S sec() const noexcept { return s_; }
  double as_mjd() const noexcept;
  double as_jd() const noexcept;
  double sec_as_mjd() const noexcept;
  double fractional_days() const noexcept;
  double fractional_seconds() const noexcept;
  double jcenturies_sinceJ2000() const noexcept;
  ymd_date as_ymd() const noexcept;
  ydoy_date as_ydoy() const noexcept;
  void normalize() noexcept;
  template <class T> void add_seconds(T) noexcept;
  template <class T> void remove_seconds(T) noexcept;
  datetime_interval<S> delta_date(const datetime &) const noexcept;
  S delta_sec(const datetime &) const noexcept;
  double diff(const datetime &) const noexcept;
  bool operator==(const datetime &) const noexcept;
  bool operator!=(const datetime &) const noexcept;
  bool operator<(const datetime &) const noexcept;
  bool operator<=(const datetime &) const noexcept;
  bool operator>(const datetime &) const noexcept;
  bool operator>=(const datetime &) const noexcept;
  datetime operator+(const datetime_interval<S> &) const noexcept;
  datetime_interval<S> operator-(const datetime &) const noexcept;
};
enum class DateTimeDifferenceType { FractionalSeconds, FractionalDays, FractionalYears };
template <DateTimeDifferenceType D, class S> double date_diff(const datetime<S> &, const datetime<S> &) noexcept;
double utc_strptime_ymd_hms(const char *, modified_julian_day &);
template <class S> double tai2utc(const datetime<S> &, modified_julian_day &) noexcept;
template <class S> datetime<S> utc2tai(const datetime<S> &) noexcept;
template <class S> S delta_sec(const datetime<S> &, const datetime<S> &) noexcept;
struct TwoPartDate { double _big, _small; };
}
#endif
