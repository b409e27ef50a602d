#ifndef VSTUB_DTW
#define VSTUB_DTW
#include "datetime/dtcalendar.hpp"
namespace dso {
template <class S> std::string strftime_ymd_hms(const datetime<S> &, char = ' ');
template <class S> int strftime_ymd_hms(const datetime<S> &, char *, char = ' ');
template <class S> int strftime_ymd_hmfs(const datetime<S> &, char *, char = ' ');
}
#endif
