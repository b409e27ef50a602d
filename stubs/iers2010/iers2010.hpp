#ifndef VSTUB_IERS
#define VSTUB_IERS
#include "iers2010/iersc.hpp"
#include "datetime/dtcalendar.hpp"
#include "datetime/utcdates.hpp"
namespace iers2010 {
int rg_zont2(double, double &, double &, double &) noexcept;
int rg_zont2(const dso::TwoPartDate &, double &, double &, double &) noexcept;
int ortho_eop(double, double &, double &, double &) noexcept;
int pmsdnut2(double, double &, double &) noexcept;
int interp_pole(const double *, const double *, const double *, const double *, int, double, double &, double &, double &) noexcept;
namespace interp {
int lagint(const double *, const double *, int, double, double &, int &, int = 4) noexcept;
int pmut1_oceans(double, double &, double &, double &, double &) noexcept;
int pm_gravi(double, double &, double &) noexcept;
}
}
#endif
