// C34: two-body kinematics and directions
#include "smash/angles.h"
#include "smash/kinematics.h"

namespace spec {
using namespace smash;

//@ C34 smash::center_of_velocity_v
double cov(double s, double a, double b) { return std::sqrt((s - (a + b) * (a + b)) / (s - (a - b) * (a - b))); }
//@ C34 smash::fixed_target_projectile_v
double ftv(double s, double a, double b) {
  const double gamma = (s - a * a - b * b) / (2 * a * b);
  return std::sqrt(1 - 1 / (gamma * gamma));
}
// momentum squared of each of two particles in their centre-of-mass frame
double p2(double s, double a, double b) {
  return (s - (a + b) * (a + b)) * (s - (a - b) * (a - b)) / (4 * s);
}
double p1(double s, double a, double b) { return p2(s, a, b) > 0 ? std::sqrt(p2(s, a, b)) : 0; }
//@ C34 smash::pCM_sqr_from_s inst=double
double pcm2s(const double s, const double a, const double b) { return p2(s, a, b); }
//@ C34 smash::pCM_from_s inst=double
double pcms(const double s, const double a, const double b) { return p1(s, a, b); }
//@ C34 smash::pCM_sqr inst=double
double pcm2(const double w, const double a, const double b) { return p2(w * w, a, b); }
//@ C34 smash::pCM inst=double
double pcm(const double w, const double a, const double b) { return p1(w * w, a, b); }
//@ C34 smash::get_t_range inst=double
std::array<double, 2> trange(const double w, const double a, const double b, const double c, const double d) {
  const double pi = p1(w * w, a, b), pf = p1(w * w, c, d);
  // difference of the energies of the first and third particle
  const double de = (w * w + a * a - b * b) / (2 * w) - (w * w + c * c - d * d) / (2 * w);
  return {de * de - (pi - pf) * (pi - pf), de * de - (pi + pf) * (pi + pf)};
}
//@ C34 smash::plab_from_s n=3
double plab3(double s, double a, double b) { return std::sqrt((s - (a + b) * (a + b)) * (s - (a - b) * (a - b))) / (2 * b); }
//@ C34 smash::plab_from_s n=2
double plab2(double s, double m) { return std::sqrt(s * (s - 4 * m * m)) / (2 * m); }
//@ C34 smash::plab_from_s n=1
double plab1(double s) { return plab2(s, nucleon_mass); }
//@ C34 smash::s_from_Etot n=3
double set(double e, double a, double b) { return a * a + b * b + 2 * e * b; }
//@ C34 smash::s_from_Etot n=4
double set2(double e, double f, double a, double b) {
  const double p = std::sqrt(e * e - a * a), q = std::sqrt(f * f - b * b);
  return (e + f) * (e + f) - (p - q) * (p - q);
}
//@ C34 smash::s_from_Ekin n=3
double sek(double t, double a, double b) { return set(t + a, a, b); }
//@ C34 smash::s_from_Ekin n=4
double sek2(double t, double u, double a, double b) { return set2(t + a, u + b, a, b); }
//@ C34 smash::s_from_plab n=3
double spl(double p, double a, double b) { return set(std::sqrt(p * p + a * a), a, b); }
//@ C34 smash::s_from_plab n=4
double spl2(double p, double q, double a, double b) {
  const double e = std::sqrt(p * p + a * a), f = std::sqrt(q * q + b * b);
  return (e + f) * (e + f) - (p - q) * (p - q);
}
//@ C34 smash::check_energy
void cke(double s, double m) {
  if (m * m > s)
    throw std::runtime_error("");
}
//@ C34 smash::check_radicand
void ckr(double, double r) {
  if (r < 0)
    throw std::runtime_error("");
}

// ------------------------------------------------------------ directions
struct Dir {
  double phi_, psi_, costheta_;
};
double wrap(double x) { return x >= 0 && x < twopi ? x : x - twopi * std::floor(x / twopi); }
double clamp(double c) {
  if (c < -1 - really_small || c > 1 + really_small)
    throw Angles::InvalidTheta("");
  return c > 1 ? 1 : c < -1 ? -1 : c;
}
//@ C34 smash::Angles::distribute_isotropically
void iso(Angles &self) {
  self.phi_ = random::uniform(0., twopi);
  self.costheta_ = random::uniform(-1., 1.);
}
//@ C34 smash::Angles::set_phi
void setphi(Angles &self, const double x) { self.phi_ = wrap(x); }
//@ C34 smash::Angles::set_psi
void setpsi(Angles &self, const double x) { self.psi_ = wrap(x); }
//@ C34 smash::Angles::set_costheta
void setct(Angles &self, const double x) { self.costheta_ = clamp(x); }
//@ C34 smash::Angles::set_theta
void setth(Angles &self, const double x) { self.costheta_ = clamp(std::cos(x)); }
bool advance(Angles &self, double d) {
  if (std::abs(d) > M_PI)
    throw Angles::InvalidTheta("");
  const double t = std::acos(self.costheta_) + d;
  if (t >= 0 && t <= M_PI) {
    self.costheta_ = clamp(std::cos(t));
    return false;
  }
  self.costheta_ = clamp(std::cos(t < 0 ? -t : twopi - t));
  self.phi_ = wrap(self.phi_ + M_PI);
  return true;
}
//@ C34 smash::Angles::add_to_theta n=1
bool add1(Angles &self, const double d) { return advance(self, d); }
//@ C34 smash::Angles::add_to_theta n=2
bool add2(Angles &self, const double d, const bool r) { return advance(self, r ? -d : d) != r; }
//@ C34 smash::Angles::phi
double phi(const Angles &self) { return self.phi_; }
//@ C34 smash::Angles::psi
double psi(const Angles &self) { return self.psi_; }
//@ C34 smash::Angles::costheta
double ct(const Angles &self) { return self.costheta_; }
//@ C34 smash::Angles::sintheta
double st(const Angles &self) { return std::sqrt(1 - self.costheta_ * self.costheta_); }
//@ C34 smash::Angles::theta
double th(const Angles &self) { return std::acos(self.costheta_); }
//@ C34 smash::Angles::x
double x(const Angles &self) { return st(self) * std::cos(self.phi_); }
//@ C34 smash::Angles::y
double y(const Angles &self) { return st(self) * std::sin(self.phi_); }
//@ C34 smash::Angles::z
double z(const Angles &self) { return self.costheta_; }
//@ C34 smash::Angles::threevec
ThreeVector vec(const Angles &self) { return ThreeVector(x(self), y(self), z(self)); }
//@ C34 smash::Angles::Angles n=2
Dir dir(double p, double c) {
  Dir d;
  d.phi_ = wrap(p);
  d.costheta_ = clamp(c);
  return d;
}
//@ C34 smash::Angles::Angles n=0
Dir dir0() {
  Dir d;
  d.phi_ = 0;
  d.costheta_ = 0;
  return d;
}
}  // namespace spec
