#ifndef VSTUB_DTR
#define VSTUB_DTR
#include "datetime/dtcalendar.hpp"
#include "datetime/utcdates.hpp"
namespace dso {
template <class S> datetime<S> strptime_ymd_hms(const char *, char ** = nullptr);
template <class S> datetime<S> utc_strptime_ymd_hms(const char *, char ** = nullptr);
template <class S> datetime<S> strptime_ymd(const char *, char ** = nullptr);
}
#endif
