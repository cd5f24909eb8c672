// The symmetric energy-momentum tensor: components 00 01 02 03 11 12 13 22 23 33.
#include <Eigen/Dense>

#include "smash/constants.h"
#include "smash/energymomentumtensor.h"
#include "smash/fourvector.h"
#include "smash/logging.h"
#include "smash/particledata.h"

using namespace smash;
namespace spec {

//@ C17 smash::EnergyMomentumTensor::EnergyMomentumTensor n=0
struct Tensor {
  std::array<double, 10> Tmn_;
};
Tensor zero() {
  Tensor r;
  for (unsigned i = 0; i < 10; i++)
    r.Tmn_[i] = 0.;
  return r;
}
//@ C17 smash::EnergyMomentumTensor::EnergyMomentumTensor sig=array
Tensor from_components(const std::array<double, 10> &t) {
  Tensor r;
  r.Tmn_ = t;
  return r;
}
//@ C17 smash::EnergyMomentumTensor::operator[]
double component(const EnergyMomentumTensor &self, size_t i) {
  return self.Tmn_[i];
}

//@ C17 smash::EnergyMomentumTensor::tmn_index
std::int8_t index(std::int8_t mu, std::int8_t nu) {
  if (mu < 0 || mu > 3 || nu < 0 || nu > 3)
    throw std::invalid_argument("");
  std::int8_t at[16];
  std::int8_t n = 0;
  for (int a = 0; a < 4; a++)
    for (int b = a; b < 4; b++) {
      at[4 * a + b] = n;
      at[4 * b + a] = n;
      n++;
    }
  return at[mu + 4 * nu];
}

//@ C17 smash::EnergyMomentumTensor::operator+=
EnergyMomentumTensor plus(EnergyMomentumTensor &self, const EnergyMomentumTensor &o) {
  for (int i = 9; i >= 0; i--)
    self.Tmn_[i] = o.Tmn_[i] + self.Tmn_[i];
  return self;
}
//@ C17 smash::EnergyMomentumTensor::operator-=
EnergyMomentumTensor minus(EnergyMomentumTensor &self, const EnergyMomentumTensor &o) {
  for (int i = 9; i >= 0; i--)
    self.Tmn_[i] = self.Tmn_[i] - o.Tmn_[i];
  return self;
}
//@ C17 smash::EnergyMomentumTensor::operator*=
EnergyMomentumTensor times(EnergyMomentumTensor &self, double a) {
  for (int i = 9; i >= 0; i--)
    self.Tmn_[i] = a * self.Tmn_[i];
  return self;
}
//@ C17 smash::EnergyMomentumTensor::operator/=
EnergyMomentumTensor over(EnergyMomentumTensor &self, double a) {
  for (int i = 9; i >= 0; i--)
    self.Tmn_[i] = self.Tmn_[i] / a;
  return self;
}
//@ C17 smash::operator+ sig=EnergyMomentumTensor,EnergyMomentumTensor
EnergyMomentumTensor sum(EnergyMomentumTensor a, const EnergyMomentumTensor &b) {
  for (int i = 0; i < 10; i++) a.Tmn_[i] += b.Tmn_[i];
  return a;
}
//@ C17 smash::operator- sig=EnergyMomentumTensor,EnergyMomentumTensor
EnergyMomentumTensor difference(EnergyMomentumTensor a, const EnergyMomentumTensor &b) {
  for (int i = 0; i < 10; i++) a.Tmn_[i] -= b.Tmn_[i];
  return a;
}
//@ C17 smash::operator* sig=EnergyMomentumTensor,double
EnergyMomentumTensor scaled(EnergyMomentumTensor a, const double b) {
  for (int i = 0; i < 10; i++) a.Tmn_[i] *= b;
  return a;
}
//@ C17 smash::operator* sig=double,EnergyMomentumTensor
EnergyMomentumTensor scaled2(const double a, EnergyMomentumTensor b) {
  for (int i = 0; i < 10; i++) b.Tmn_[i] *= a;
  return b;
}
//@ C17 smash::operator/ sig=EnergyMomentumTensor,double
EnergyMomentumTensor divided(EnergyMomentumTensor a, const double b) {
  for (int i = 0; i < 10; i++) a.Tmn_[i] /= b;
  return a;
}

// T^{mu nu} += p^mu p^nu / E
//@ C17 smash::EnergyMomentumTensor::add_particle sig=FourVector
void add_momentum(EnergyMomentumTensor &self, const FourVector &p) {
  const double c[4] = {p.x0(), p.x1(), p.x2(), p.x3()};
  int n = 0;
  for (int mu = 0; mu < 4; mu++)
    for (int nu = mu; nu < 4; nu++, n++)
      if (mu == 0)
        self.Tmn_[n] += c[nu];
      else
        self.Tmn_[n] += c[mu] * c[nu] / c[0];
}
//@ C17 smash::EnergyMomentumTensor::add_particle sig=ParticleData,double
void add_weighted(EnergyMomentumTensor &self, const ParticleData &p, double w) {
  if (w == 0) return;
  add_momentum(self, p.momentum_ * w);
}

// T'^{mu nu} = L^mu_a L^nu_b T^{a b} with the boost matrix of the velocity u
//@ C17 smash::EnergyMomentumTensor::boosted
EnergyMomentumTensor boosted(const EnergyMomentumTensor &self, const FourVector &u) {
  const double v[4] = {u.x0(), u.x1(), u.x2(), u.x3()};
  double L[16], T[16], R[16];
  int n = 0;
  for (int a = 0; a < 4; a++)
    for (int b = a; b < 4; b++) {
      T[4 * a + b] = T[4 * b + a] = self.Tmn_[n++];
      double l;
      if (a == 0)
        l = v[b];
      else
        l = v[a] * v[b] / (1. + v[0]) + (a == b ? 1. : 0.);
      L[4 * a + b] = L[4 * b + a] = l;
    }
  for (int m = 0; m < 4; m++)
    for (int k = 0; k < 4; k++) {
      double s = 0;
      for (int a = 0; a < 4; a++)
        for (int b = 0; b < 4; b++)
          s += L[4 * m + a] * T[4 * a + b] * L[4 * k + b];
      R[4 * m + k] = s;
    }
  EnergyMomentumTensor out;
  n = 0;
  for (int a = 0; a < 4; a++)
    for (int b = a; b < 4; b++)
      out.Tmn_[n++] = R[4 * a + b];
  return out;
}

// eigenvector of T_mu^nu with the largest eigenvalue, as a future-directed
// velocity; at rest where there is none
//@ C17 smash::EnergyMomentumTensor::landau_frame_4velocity
FourVector landau(const EnergyMomentumTensor &self) {
  Eigen::Matrix4d A;
  int n = 0;
  for (int a = 0; a < 4; a++)
    for (int b = a; b < 4; b++, n++) {
      A(a, b) = (a == 0 ? 1. : -1.) * self.Tmn_[n];
      if (a != b) A(b, a) = -self.Tmn_[n];
    }
  Eigen::EigenSolver<Eigen::Matrix4d> es(A);
  const Eigen::Vector4d re = es.eigenvalues().real();
  size_t top = 0;
  for (size_t i = 0; i < 4; i++)
    if (re(top) < re(i)) top = i;
  Eigen::Vector4d w = es.eigenvectors().col(top).real();
  double s = 1.;
  if (w(0) < 0.) s = -1.;
  const FourVector u(s * w(0), s * w(1), s * w(2), s * w(3));
  const double norm2 = u.sqr();
  if (norm2 <= really_small)
    return FourVector(1., 0., 0., 0.);
  return u / std::sqrt(norm2);
}

}  // namespace spec
