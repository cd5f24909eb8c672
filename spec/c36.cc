// C36: the random number helpers draw from the distributions they name.
#include <random>
#include "smash/random.h"
#include "smash/numeric_cast.h"
namespace spec {
using namespace smash;
//@ C36 smash::random::advance
unsigned long adv() { return random::engine(); }
//@ C36 smash::random::uniform inst=double
double unif(double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(random::engine); }
//@ C36 smash::random::uniform_int inst=int
int unifi(int lo, int hi) { return std::uniform_int_distribution<int>(lo, hi)(random::engine); }
//@ C36 smash::random::canonical inst=double
double can() { return std::generate_canonical<double, std::numeric_limits<double>::digits>(random::engine); }
//@ C36 smash::random::canonical_nonzero inst=double
double cannz() { return std::nextafter(std::generate_canonical<double, std::numeric_limits<double>::digits>(random::engine), 1.); }
//@ C36 smash::random::exponential inst=double
double expon(double lambda) { return std::log(random::canonical_nonzero()) / -lambda; }
// inverse of the integral of exp(A x) in (x2, x1] (the interval is open at the second end); redrawn when rounding leaves it
//@ C36 smash::random::expo inst=double
double expo(double A, double x1, double x2) {
  const double top = std::exp(A * x1);
  double bottom = 0;
  if (A * x2 > std::log(std::numeric_limits<double>::min())) bottom = std::exp(A * x2);
  double x;
  do {
    x = std::log(random::uniform(top, bottom)) / A;
  } while (x > x1 || x <= x2);
  return x;
}
//@ C36 smash::random::sgn inst=double
int sgn(double v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
// inverse of the integral of x^n; logarithmic at n = -1; both signs of the range
//@ C36 smash::random::power inst=double
double power(double n, double a, double b) {
  const double m = n + 1;
  if (std::abs(m) < 1e-3) return a * std::pow(b / a, random::canonical());
  if (a >= 0 && b > 0) {
    const double u = random::uniform(std::pow(a, m), std::pow(b, m));
    return std::pow(u, 1 / m);
  }
  const double u = random::uniform(std::pow(std::abs(a), m), std::pow(std::abs(b), m));
  const double x = std::pow(u, 1 / m);
  return a > 0 ? x : a < 0 ? -x : 0 * x;
}
//@ C36 smash::random::poisson inst=double
int pois(const double &mean) { return std::poisson_distribution<int>(mean)(random::engine); }
//@ C36 smash::random::binomial inst=double
int bino(int n, const double &p) { return std::binomial_distribution<int>(n, p)(random::engine); }
//@ C36 smash::random::normal inst=double
double norm(const double &m, const double &s) { return std::normal_distribution<double>(m, s)(random::engine); }
// Breit-Wigner inverse of the arctangent
//@ C36 smash::random::cauchy inst=double
double cauchy(double pole, double width, double lo, double hi) {
  const double a = std::atan((lo - pole) / width), b = std::atan((hi - pole) / width);
  return pole + width * std::tan(random::uniform(a, b));
}
//@ C36 smash::random::beta inst=double
double beta(double a, double b) {
  const double x = std::gamma_distribution<double>(a)(random::engine);
  const double y = std::gamma_distribution<double>(b)(random::engine);
  return x / (x + y);
}
// (1-x)^b / x above xmin by rejection in log x
//@ C36 smash::random::beta_a0 inst=double
double beta0(double xmin, double b) {
  double y;
  do {
    y = random::uniform(0., std::log(1 / xmin));
  } while (!(std::pow(1 - std::exp(-y), b) >= random::canonical()));
  return std::exp(-y);
}
//@ C36 smash::random::BesselSampler::r_
double bessel_ratio(random::BesselSampler &self, int n, double a) {
  double r = 0;
  for (int i = 200; i >= 1; --i) r = 1 / (2. * (n + i) / a + r);
  return r;
}
struct Bessel {
  random::discrete_dist<double> dist_;
  double m_, a_;
  int N_;
  bool N_is_positive_;
  double mu_, sigma_;
};
// P(n) ~ (a/2)^(2n+N) / n! (n+N)!: Gaussian of the same mean and variance when the mode is large
//@ C36 smash::random::BesselSampler::BesselSampler
Bessel bessel(const double mean1, const double mean2, const int diff) {
  Bessel s;
  s.a_ = 2 * std::sqrt(mean1 * mean2);
  s.N_ = std::abs(diff);
  s.N_is_positive_ = diff >= 0;
  s.m_ = (std::sqrt(s.a_ * s.a_ + s.N_ * s.N_) - s.N_) / 2;
  if (s.m_ >= 6.) {
    s.mu_ = s.a_ / 2 * random::BesselSampler::r_(s.N_, s.a_);
    const double second = s.mu_ + s.mu_ * s.a_ / 2 * random::BesselSampler::r_(s.N_ + 1, s.a_);
    s.sigma_ = std::sqrt(second - s.mu_ * s.mu_);
    return s;
  }
  std::vector<double> p;
  double w = 1.;
  do {
    p.push_back(w);
    const int i = p.size();
    w = w * s.a_ * s.a_ / 4 / i / (s.N_ + i);
  } while (w > 1e-12);
  s.dist_.reset_weights(p);
  return s;
}
//@ C36 smash::random::BesselSampler::sample
std::pair<int, int> bsample(random::BesselSampler &self) {
  int n;
  if (self.m_ >= 6.) n = numeric_cast<int>(std::round(random::normal(self.mu_, self.sigma_)));
  else n = numeric_cast<int>(1. * self.dist_());
  int first = n, second = n;
  if (self.N_is_positive_) first += self.N_; else second += self.N_;
  return {first, second};
}
}
