#ifndef VSTUB_IAU
#define VSTUB_IAU
#include "iers2010/iersc.hpp"
#include "matvec/matvec.hpp"
#include "eigen3/Eigen/Eigen"
namespace iers2010 {
namespace iau { Eigen::Matrix<double, 3, 3> pnm06(double, double) noexcept; }
namespace sofa {
dso::Mat3x3 c2i06a(double, double) noexcept;
double era00(double, double) noexcept;
double sp00(double, double) noexcept;
dso::Mat3x3 pom00(double, double, double) noexcept;
Eigen::Matrix<double, 3, 3> pom00_e(double, double, double) noexcept;
void xy06(double, double, double &, double &) noexcept;
double s06(double, double, double, double) noexcept;
Eigen::Matrix<double, 3, 3> c2ixys_e(double, double, double) noexcept;
double fal03(double) noexcept; double falp03(double) noexcept; double faf03(double) noexcept; double fad03(double) noexcept;
}
}
#endif
