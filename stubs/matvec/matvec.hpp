#ifndef VSTUB_MATVEC
#define VSTUB_MATVEC
#include <cmath>
#include <cstddef>
namespace dso {
struct Vector3 {
  double data[3];
  static Vector3 to_vec3(const double *p) noexcept { return Vector3{{p[0], p[1], p[2]}}; }
  double x() const noexcept { return data[0]; }
  double y() const noexcept { return data[1]; }
  double z() const noexcept { return data[2]; }
  double &x() noexcept { return data[0]; }
  double &y() noexcept { return data[1]; }
  double &z() noexcept { return data[2]; }
  double operator()(int i) const noexcept { return data[i]; }
  double &operator()(int i) noexcept { return data[i]; }
  double norm_squared() const noexcept { return data[0] * data[0] + data[1] * data[1] + data[2] * data[2]; }
  double norm() const noexcept { return std::sqrt(norm_squared()); }
  Vector3 normalize() const noexcept { const double n = norm(); return Vector3{{data[0] / n, data[1] / n, data[2] / n}}; }
  double dot_product(const Vector3 &o) const noexcept { return data[0] * o.data[0] + data[1] * o.data[1] + data[2] * o.data[2]; }
  Vector3 cross_product(const Vector3 &o) const noexcept {
    return Vector3{{data[1] * o.data[2] - data[2] * o.data[1], data[2] * o.data[0] - data[0] * o.data[2], data[0] * o.data[1] - data[1] * o.data[0]}};
  }
  Vector3 operator-() const noexcept { return Vector3{{-data[0], -data[1], -data[2]}}; }
  Vector3 &operator+=(const Vector3 &o) noexcept { for (int i = 0; i < 3; i++) data[i] += o.data[i]; return *this; }
  Vector3 &operator/=(double s) noexcept { for (int i = 0; i < 3; i++) data[i] /= s; return *this; }
};
inline Vector3 operator+(const Vector3 &a, const Vector3 &b) noexcept { return Vector3{{a.data[0] + b.data[0], a.data[1] + b.data[1], a.data[2] + b.data[2]}}; }
inline Vector3 operator-(const Vector3 &a, const Vector3 &b) noexcept { return Vector3{{a.data[0] - b.data[0], a.data[1] - b.data[1], a.data[2] - b.data[2]}}; }
inline Vector3 operator*(const Vector3 &a, double s) noexcept { return Vector3{{a.data[0] * s, a.data[1] * s, a.data[2] * s}}; }
inline Vector3 operator*(double s, const Vector3 &a) noexcept { return a * s; }
inline Vector3 operator/(const Vector3 &a, double s) noexcept { return Vector3{{a.data[0] / s, a.data[1] / s, a.data[2] / s}}; }
inline double operator*(const Vector3 &a, const Vector3 &b) noexcept { return a.dot_product(b); }
struct Mat3x3 {
  double data[9];
  double operator()(int i, int j) const noexcept { return data[i * 3 + j]; }
  double &operator()(int i, int j) noexcept { return data[i * 3 + j]; }
  Mat3x3 &transpose_inplace() noexcept { for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) { double t = data[3 * i + j]; data[3 * i + j] = data[3 * j + i]; data[3 * j + i] = t; } return *this; }
  Mat3x3 transpose() const noexcept { Mat3x3 m = *this; m.transpose_inplace(); return m; }
  static Mat3x3 RotX(double) noexcept;
  static Mat3x3 RotY(double) noexcept;
  static Mat3x3 RotZ(double) noexcept;
};
inline Vector3 operator*(const Mat3x3 &m, const Vector3 &v) noexcept {
  Vector3 r{{0e0, 0e0, 0e0}};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.data[i] += m(i, j) * v.data[j];
  return r;
}
Mat3x3 operator*(const Mat3x3 &, const Mat3x3 &) noexcept;
}
#endif
