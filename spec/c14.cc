// Three- and four-vector algebra: the textbook definitions.
#include <cmath>
#include <stdexcept>

#include "smash/fourvector.h"
#include "smash/numerics.h"
#include "smash/threevector.h"

using namespace smash;
namespace spec {

static ThreeVector v3(double a, double b, double c) {
  ThreeVector r;
  r.x_[0] = a;
  r.x_[1] = b;
  r.x_[2] = c;
  return r;
}
static FourVector v4(double t, double a, double b, double c) {
  FourVector r;
  r.x_[0] = t;
  r.x_[1] = a;
  r.x_[2] = b;
  r.x_[3] = c;
  return r;
}
static double dot3(const ThreeVector &a, const ThreeVector &b) {
  double s = 0;
  for (int i = 0; i < 3; i++)
    s += a.x_[i] * b.x_[i];
  return s;
}
static double mink(const FourVector &a, const FourVector &b) {
  double s = a.x_[0] * b.x_[0];
  for (int i = 1; i < 4; i++)
    s -= a.x_[i] * b.x_[i];
  return s;
}

//@ C14 smash::ThreeVector::ThreeVector n=0
ThreeVector tv_zero() { return v3(0, 0, 0); }
//@ C14 smash::ThreeVector::ThreeVector n=3
ThreeVector tv_make(double a, double b, double c) { return v3(a, b, c); }
//@ C14 smash::ThreeVector::ThreeVector n=1 sig=array
ThreeVector tv_arr(std::array<double, 3> a) { return v3(a[0], a[1], a[2]); }
//@ C14 smash::FourVector::FourVector n=0
FourVector fv_zero() { return v4(0, 0, 0, 0); }
//@ C14 smash::FourVector::FourVector n=4
FourVector fv_make(double t, double a, double b, double c) {
  return v4(t, a, b, c);
}
//@ C14 smash::FourVector::FourVector n=2
FourVector fv_make2(double t, ThreeVector v) {
  return v4(t, v.x_[0], v.x_[1], v.x_[2]);
}

//@ C14 smash::ThreeVector::x1
double tv_x1(const ThreeVector &self) { return self.x_[0]; }
//@ C14 smash::ThreeVector::x2
double tv_x2(const ThreeVector &self) { return self.x_[1]; }
//@ C14 smash::ThreeVector::x3
double tv_x3(const ThreeVector &self) { return self.x_[2]; }
//@ C14 smash::ThreeVector::set_x1
void tv_set_x1(ThreeVector &self, double v) { self.x_[0] = v; }
//@ C14 smash::ThreeVector::set_x2
void tv_set_x2(ThreeVector &self, double v) { self.x_[1] = v; }
//@ C14 smash::ThreeVector::set_x3
void tv_set_x3(ThreeVector &self, double v) { self.x_[2] = v; }
//@ C14 smash::FourVector::x0
double fv_x0(const FourVector &self) { return self.x_[0]; }
//@ C14 smash::FourVector::x1
double fv_x1(const FourVector &self) { return self.x_[1]; }
//@ C14 smash::FourVector::x2
double fv_x2(const FourVector &self) { return self.x_[2]; }
//@ C14 smash::FourVector::x3
double fv_x3(const FourVector &self) { return self.x_[3]; }
//@ C14 smash::FourVector::set_x0
void fv_set_x0(FourVector &self, double v) { self.x_[0] = v; }
//@ C14 smash::FourVector::set_x1
void fv_set_x1(FourVector &self, double v) { self.x_[1] = v; }
//@ C14 smash::FourVector::set_x2
void fv_set_x2(FourVector &self, double v) { self.x_[2] = v; }
//@ C14 smash::FourVector::set_x3
void fv_set_x3(FourVector &self, double v) { self.x_[3] = v; }
//@ C14 smash::ThreeVector::operator[] const=1
double tv_at(const ThreeVector &self, std::size_t i) { return self.x_[i]; }
//@ C14 smash::FourVector::operator[] const=1
double fv_at(const FourVector &self, std::size_t i) { return self.x_[i]; }

//@ C14 smash::ThreeVector::sqr
double tv_sqr(const ThreeVector &self) { return dot3(self, self); }
//@ C14 smash::ThreeVector::abs
double tv_abs(const ThreeVector &self) { return std::sqrt(dot3(self, self)); }
//@ C14 smash::operator* sig=ThreeVector,ThreeVector
double tv_dot(const ThreeVector &a, const ThreeVector &b) { return dot3(a, b); }
//@ C14 smash::ThreeVector::cross_product
ThreeVector tv_cross(const ThreeVector &self, const ThreeVector &b) {
  ThreeVector r;
  for (int i = 0; i < 3; i++) {
    const int j = (i + 1) % 3, k = (i + 2) % 3;
    r.x_[i] = self.x_[j] * b.x_[k] - self.x_[k] * b.x_[j];
  }
  return r;
}
//@ C14 smash::ThreeVector::get_phi
double tv_phi(const ThreeVector &self) {
  // the azimuth of a vector along the z axis is defined to be zero
  if (std::abs(self.x_[0]) < really_small &&
      std::abs(self.x_[1]) < really_small)
    return 0;
  return std::atan2(self.x_[1], self.x_[0]);
}
//@ C14 smash::ThreeVector::get_theta
double tv_theta(const ThreeVector &self) {
  const double r = std::sqrt(dot3(self, self));
  if (r > 0)
    return std::acos(self.x_[2] / r);
  return 0;
}
// active rotation R = Rz(phi) Rx(theta) Rz(psi), Euler angles in z-x'-z''
//@ C14 smash::ThreeVector::rotate
void tv_rotate(ThreeVector &self, double phi, double theta, double psi) {
  const double x = self.x_[0], y = self.x_[1], z = self.x_[2];
  const double xa = std::cos(psi) * x - std::sin(psi) * y;
  const double ya = std::sin(psi) * x + std::cos(psi) * y;
  const double yb = std::cos(theta) * ya - std::sin(theta) * z;
  const double zb = std::sin(theta) * ya + std::cos(theta) * z;
  self = v3(std::cos(phi) * xa - std::sin(phi) * yb,
            std::sin(phi) * xa + std::cos(phi) * yb, zb);
}
//@ C14 smash::ThreeVector::rotate_around_y
void tv_rot_y(ThreeVector &self, double a) {
  self = v3(std::cos(a) * self.x_[0] + std::sin(a) * self.x_[2], self.x_[1],
            std::cos(a) * self.x_[2] - std::sin(a) * self.x_[0]);
}
//@ C14 smash::ThreeVector::rotate_around_z
void tv_rot_z(ThreeVector &self, double a) {
  self = v3(std::cos(a) * self.x_[0] - std::sin(a) * self.x_[1],
            std::sin(a) * self.x_[0] + std::cos(a) * self.x_[1], self.x_[2]);
}
// first about y by the polar angle, then about z by the azimuth
//@ C14 smash::ThreeVector::rotate_z_axis_to
void tv_rot_to(ThreeVector &self, ThreeVector &r) {
  tv_rot_y(self, r.get_theta());
  tv_rot_z(self, r.get_phi());
}
//@ C14 smash::ThreeVector::operator-
ThreeVector tv_neg(const ThreeVector &self) {
  return v3(-self.x_[0], -self.x_[1], -self.x_[2]);
}
//@ C14 smash::ThreeVector::operator+=
ThreeVector tv_addeq(ThreeVector &self, const ThreeVector &v) {
  for (int i = 0; i < 3; i++)
    self.x_[i] += v.x_[i];
  return self;
}
//@ C14 smash::ThreeVector::operator-=
ThreeVector tv_subeq(ThreeVector &self, const ThreeVector &v) {
  for (int i = 0; i < 3; i++)
    self.x_[i] -= v.x_[i];
  return self;
}
//@ C14 smash::ThreeVector::operator*=
ThreeVector tv_muleq(ThreeVector &self, const double &a) {
  for (int i = 0; i < 3; i++)
    self.x_[i] *= a;
  return self;
}
//@ C14 smash::ThreeVector::operator/=
ThreeVector tv_diveq(ThreeVector &self, const double &a) {
  for (int i = 0; i < 3; i++)
    self.x_[i] /= a;
  return self;
}
//@ C14 smash::operator+ sig=ThreeVector,ThreeVector
ThreeVector tv_add(ThreeVector a, const ThreeVector &b) {
  return v3(a.x_[0] + b.x_[0], a.x_[1] + b.x_[1], a.x_[2] + b.x_[2]);
}
//@ C14 smash::operator- sig=ThreeVector,ThreeVector
ThreeVector tv_sub(ThreeVector a, const ThreeVector &b) {
  return v3(a.x_[0] - b.x_[0], a.x_[1] - b.x_[1], a.x_[2] - b.x_[2]);
}
//@ C14 smash::operator* sig=ThreeVector,double
ThreeVector tv_mul(ThreeVector a, const double &b) {
  return v3(a.x_[0] * b, a.x_[1] * b, a.x_[2] * b);
}
//@ C14 smash::operator* sig=double,ThreeVector
ThreeVector tv_mul2(const double &b, ThreeVector a) {
  return v3(a.x_[0] * b, a.x_[1] * b, a.x_[2] * b);
}
//@ C14 smash::operator/ sig=ThreeVector,double
ThreeVector tv_div(ThreeVector a, const double &b) {
  return v3(a.x_[0] / b, a.x_[1] / b, a.x_[2] / b);
}
//@ C14 smash::ThreeVector::operator==
bool tv_eq(const ThreeVector &self, const ThreeVector &b) {
  return self.x_[0] == b.x_[0] && self.x_[1] == b.x_[1] &&
         self.x_[2] == b.x_[2];
}
//@ C14 smash::ThreeVector::operator!=
bool tv_ne(const ThreeVector &self, const ThreeVector &b) {
  return !tv_eq(self, b);
}

//@ C14 smash::FourVector::threevec
ThreeVector fv_three(const FourVector &self) {
  return v3(self.x_[1], self.x_[2], self.x_[3]);
}
//@ C14 smash::FourVector::velocity
ThreeVector fv_vel(const FourVector &self) {
  return v3(self.x_[1] / self.x_[0], self.x_[2] / self.x_[0],
            self.x_[3] / self.x_[0]);
}
//@ C14 smash::FourVector::reset
void fv_reset(FourVector &self) { self = v4(0, 0, 0, 0); }
//@ C14 smash::FourVector::Dot
double fv_dot(const FourVector &self, const FourVector &b) {
  return mink(self, b);
}
//@ C14 smash::FourVector::sqr
double fv_sqr(const FourVector &self) { return mink(self, self); }
//@ C14 smash::FourVector::sqr3
double fv_sqr3(const FourVector &self) {
  return dot3(fv_three(self), fv_three(self));
}
//@ C14 smash::FourVector::abs3
double fv_abs3(const FourVector &self) { return std::sqrt(fv_sqr3(self)); }
// sqrt(p.p), slightly negative squares are rounding; space-like is an error
//@ C14 smash::FourVector::abs
double fv_abs(const FourVector &self) {
  const double s = mink(self, self);
  if (!(s > -really_small))
    throw std::runtime_error("space-like");
  return std::sqrt(std::abs(s));
}
//@ C14 smash::FourVector::tau
double fv_tau(const FourVector &self) {
  return std::sqrt(self.x_[0] * self.x_[0] - self.x_[3] * self.x_[3]);
}
//@ C14 smash::FourVector::eta
double fv_eta(const FourVector &self) {
  return std::atanh(self.x_[3] / self.x_[0]);
}
// boost into the frame that moves with velocity v
//@ C14 smash::FourVector::lorentz_boost
FourVector fv_boost(const FourVector &self, const ThreeVector &v) {
  const double v2 = dot3(v, v);
  const double g = v2 < 1 ? 1 / std::sqrt(1 - v2) : 0;
  const ThreeVector r = fv_three(self);
  const double rv = dot3(r, v), t = self.x_[0];
  FourVector out;
  out.x_[0] = g * (t - rv);
  for (int i = 0; i < 3; i++)
    out.x_[i + 1] = r.x_[i] - v.x_[i] * (g / (g + 1)) * (t + g * (t - rv));
  return out;
}
//@ C14 smash::FourVector::operator==
bool fv_eq(const FourVector &self, const FourVector &b) {
  bool r = true;
  for (int i = 0; i < 4; i++)
    r = r && almost_equal_physics(self.x_[i], b.x_[i]);
  return r;
}
//@ C14 smash::FourVector::operator!=
bool fv_ne(const FourVector &self, const FourVector &b) {
  return !(self == b);
}
// a < b if every component is smaller
//@ C14 smash::FourVector::operator<
bool fv_lt(const FourVector &self, const FourVector &b) {
  bool r = true;
  for (int i = 0; i < 4; i++)
    r = r && self.x_[i] < b.x_[i];
  return r;
}
//@ C14 smash::FourVector::operator>
bool fv_gt(const FourVector &self, const FourVector &b) {
  return fv_lt(b, self);
}
//@ C14 smash::FourVector::operator<=
bool fv_le(const FourVector &self, const FourVector &b) {
  return !fv_gt(self, b);
}
//@ C14 smash::FourVector::operator>=
bool fv_ge(const FourVector &self, const FourVector &b) {
  return !fv_lt(self, b);
}
//@ C14 smash::FourVector::operator+=
FourVector fv_addeq(FourVector &self, const FourVector &b) {
  for (int i = 0; i < 4; i++)
    self.x_[i] += b.x_[i];
  return self;
}
//@ C14 smash::FourVector::operator-=
FourVector fv_subeq(FourVector &self, const FourVector &b) {
  for (int i = 0; i < 4; i++)
    self.x_[i] -= b.x_[i];
  return self;
}
//@ C14 smash::FourVector::operator*=
FourVector fv_muleq(FourVector &self, const double &b) {
  for (int i = 0; i < 4; i++)
    self.x_[i] *= b;
  return self;
}
//@ C14 smash::FourVector::operator/=
FourVector fv_diveq(FourVector &self, const double &b) {
  for (int i = 0; i < 4; i++)
    self.x_[i] /= b;
  return self;
}
//@ C14 smash::operator+ sig=FourVector,FourVector
FourVector fv_add(FourVector a, const FourVector &b) {
  fv_addeq(a, b);
  return a;
}
//@ C14 smash::operator- sig=FourVector,FourVector
FourVector fv_sub(FourVector a, const FourVector &b) {
  fv_subeq(a, b);
  return a;
}
//@ C14 smash::operator* sig=FourVector,double
FourVector fv_mul(FourVector a, double b) {
  fv_muleq(a, b);
  return a;
}
//@ C14 smash::operator* sig=double,FourVector
FourVector fv_mul2(double b, FourVector a) {
  fv_muleq(a, b);
  return a;
}
//@ C14 smash::operator/ sig=FourVector,double
FourVector fv_div(FourVector a, const double &b) {
  fv_diveq(a, b);
  return a;
}

// documented tolerance predicate: equal; or one of them zero and the other at
// most eps; or closer than the threshold; or within eps of the larger one
static bool near(double x, double y, double eps, double threshold) {
  if (!std::isfinite(x) || !std::isfinite(y))
    return false;
  if (x == y)
    return true;
  const double d = std::abs(x - y);
  if (x == 0 || y == 0)
    return d <= eps;
  return d <= threshold || d <= eps * std::max(std::abs(x), std::abs(y));
}
//@ C14 smash::almost_equal
bool ae(const double x, const double y) { return near(x, y, 1.0e-6, 0.0); }
//@ C14 smash::almost_equal_physics
bool aep(const double x, const double y) { return near(x, y, 1.0e-4, 1.0e-6); }
}  // namespace spec
