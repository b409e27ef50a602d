#ifndef VSTUB_ELL
#define VSTUB_ELL
#include <cmath>
namespace dso {
enum class ellipsoid : char { grs80, wgs84, pz90 };
template <ellipsoid E> struct ellipsoid_traits { static constexpr double a = 6378137e0; static constexpr double f = 1e0 / 298.257222101e0; };
template <ellipsoid E> constexpr double semi_major() noexcept { return 6378137e0; }
template <ellipsoid E> constexpr double mean_earth_radius() noexcept { return 6371008.7714e0; }
}
#endif
