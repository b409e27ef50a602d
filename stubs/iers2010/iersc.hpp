#ifndef VSTUB_IERSC
#define VSTUB_IERSC
namespace iers2010 {
constexpr double DPI = 3.141592653589793238462643e0;
constexpr double D2PI = 6.283185307179586476925287e0;
constexpr double DAS2R = 4.848136811095359935899141e-6;
constexpr double DMAS2R = DAS2R / 1e3;
constexpr double DR2AS = 206264.8062470963551564734e0;
constexpr double TURNAS = 1296000e0;
#ifdef VSTUB_NEAR_SUN
// the eclipse formulas hold for every choice of the radii and the distance; a
// large near Sun makes the partial phases ordinary instead of exceptional
constexpr double Re = 0.75e0;
constexpr double Rs = 2.5e0;
constexpr double AU = 5.3e0;
#else
constexpr double Re = 6378136.6e0;
constexpr double Rs = 6.957e8;
constexpr double AU = 149597870700e0;
#endif
constexpr double GMe = 3.986004418e14;
constexpr double C = 299792458e0;
constexpr double OmegaEarth = 7.292115e-5;
constexpr double J2 = 1.0826359e-3;
}
#endif
