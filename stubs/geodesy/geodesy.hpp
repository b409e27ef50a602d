#ifndef VSTUB_GEOD
#define VSTUB_GEOD
#include "geodesy/ellipsoid.hpp"
#include "geodesy/units.hpp"
#include "matvec/matvec.hpp"
#include "eigen3/Eigen/Eigen"
namespace dso {
template <ellipsoid E> Vector3 car2ell(const Vector3 &) noexcept;
template <ellipsoid E> Eigen::Matrix<double, 3, 1> car2ell(const Eigen::Matrix<double, 3, 1> &) noexcept;
template <ellipsoid E> void car2ell(double, double, double, double &, double &, double &) noexcept;
Eigen::Matrix<double, 3, 3> topocentric_matrix(double, double) noexcept;
}
#endif
