#ifndef VSTUB_UNITS
#define VSTUB_UNITS
#include <cmath>
#include <type_traits>
namespace dso {
#ifndef VSTUB_PI
#define VSTUB_PI
constexpr double DPI = 3.14159265358979323846264338327950288e0;
constexpr double D2PI = 2e0 * DPI;
#endif
enum class AngleUnit : char { Radians, Degrees, Seconds };
template <typename T> constexpr T deg2rad(T d) noexcept { return d * 3.14159265358979323846264338327950288e0 / 180e0; }
template <typename T> constexpr T rad2deg(T r) noexcept { return r * 180e0 / 3.14159265358979323846264338327950288e0; }
template <typename T> constexpr T arcsec2rad(T s) noexcept { return s * 3.14159265358979323846264338327950288e0 / (180e0 * 3600e0); }
template <typename T> constexpr T sec2rad(T s) noexcept { return s * 3.14159265358979323846264338327950288e0 / (180e0 * 3600e0); }
template <typename T> constexpr T rad2sec(T s) noexcept { return s * (180e0 * 3600e0) / 3.14159265358979323846264338327950288e0; }
template <typename T = double, AngleUnit U = AngleUnit::Radians> T norm_angle(T) noexcept;
template <AngleUnit U> double norm_angle(double) noexcept;
}
#endif
