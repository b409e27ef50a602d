#ifndef VSTUB_GCEM
#define VSTUB_GCEM
namespace gcem {
constexpr double sin(double x) noexcept { double t = x, s = x; for (int i = 1; i < 30; i++) { t *= -x * x / ((2.0 * i) * (2.0 * i + 1.0)); s += t; } return s; }
constexpr double cos(double x) noexcept { double t = 1, s = 1; for (int i = 1; i < 30; i++) { t *= -x * x / ((2.0 * i) * (2.0 * i - 1.0)); s += t; } return s; }
constexpr double tan(double x) noexcept { return sin(x) / cos(x); }
constexpr double asin(double x) noexcept { double t = x, s = x; for (int i = 1; i < 60; i++) { t *= x * x * (2.0 * i - 1.0) / (2.0 * i); s += t / (2.0 * i + 1.0); } return s; }
}
#endif
