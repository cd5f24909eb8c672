// C23: tabulation and interpolation
#include "smash/tabulation.h"
#include "smash/interpolation.h"
#include "smash/interpolation2D.h"
#include "smash/average.h"
#include "smash/numeric_cast.h"

namespace spec {
using namespace smash;

struct Table {
  std::vector<double> values_;
  double x_min_, x_max_, inv_dx_;
};
//@ C23 smash::Tabulation::Tabulation
Table tabulate(double x, double range, size_t n, std::function<double(double)> f) {
  Table t;
  t.x_min_ = x;
  t.x_max_ = x + range;
  t.inv_dx_ = n / range;
  if (n < 2) throw std::runtime_error("at least two values");
  t.values_.resize(n + 1);
  for (size_t i = 0; i <= n; i++) t.values_[i] = f(x + i * (range / n));
  return t;
}
//@ C23 smash::Tabulation::is_empty
bool empty(const Tabulation &self) { return self.values_.size() == 0; }
//@ C23 smash::Tabulation::get_value_step
double step(const Tabulation &self, double x) {
  if (x < self.x_min_) return 0;
  const unsigned n = numeric_cast<unsigned int>(std::floor((x - self.x_min_) * self.inv_dx_ + 0.5));
  const size_t m = self.values_.size();
  return n < m ? self.values_[n] : self.values_[m - 1];
}
//@ C23 smash::Tabulation::get_value_linear
double linear(const Tabulation &self, double x, Extrapolation ex) {
  if (x < self.x_min_) return 0;
  const size_t last = self.values_.size() - 1;
  if (x > self.x_max_) {
    if (ex == Extrapolation::Zero) return 0;
    if (ex == Extrapolation::Const) return self.values_[last];
  }
  const double u = (x - self.x_min_) * self.inv_dx_;
  size_t i = static_cast<size_t>(u);
  if (i > last - 1) i = last - 1;
  return self.values_[i] * (1 - (u - i)) + self.values_[i + 1] * (u - i);
}
//@ C23 smash::spec_func_integrand_1res opaque=spectral_function
double one(double m, double srts, double stable, const ParticleType &t) {
  if (srts <= stable + m) return 0;
  return t.spectral_function(m) * pCM(srts, stable, m);
}
//@ C23 smash::spec_func_integrand_2res opaque=spectral_function
double two(double srts, double a, double b, const ParticleType &t, const ParticleType &u) {
  if (srts <= a + b) return 0;
  return t.spectral_function(a) * u.spectral_function(b) * pCM(srts, a, b);
}
struct Line {
  double slope_, yintercept_;
};
//@ C23 smash::InterpolateLinear<double>::InterpolateLinear
Line through(double x0, double y0, double x1, double y1) {
  const double a = (y1 - y0) / (x1 - x0);
  return {a, y0 - a * x0};
}
//@ C23 smash::InterpolateLinear<double>::operator()
double on(const InterpolateLinear<double> &self, double x) { return x * self.slope_ + self.yintercept_; }
//@ C23 smash::interpolate_trilinear inst=double
double tri(double x, double y, double z, double f1, double f2, double f3, double f4, double f5, double f6, double f7, double f8) {
  // f1..f8 at (0,0,0) (1,0,0) (0,1,0) (1,1,0) (0,0,1) (1,0,1) (0,1,1) (1,1,1)
  const double u = 1 - x, v = 1 - y, w = 1 - z;
  return f1 * u * v * w + f2 * x * v * w + f3 * u * y * w + f4 * x * y * w + f5 * u * v * z + f6 * x * v * z + f7 * u * y * z +
         f8 * x * y * z;
}
//@ C23 smash::apply_permutation inst=double
std::vector<double> permuted(const std::vector<double> &v, const Permutation &p) {
  std::vector<double> r = v;
  for (size_t i = 0; i < p.size(); i++) r[i] = v[p[i]];
  return r;
}
//@ C23 smash::find_index inst=double
size_t at(const std::vector<double> &v, double x) {
  const auto it = std::lower_bound(v.begin(), v.end(), x);
  const size_t k = it - v.begin();
  return k == 0 ? 0 : k - 1;
}
//@ C23 smash::InterpolateDataLinear<double>::operator() opaque=find_index
double piecewise(const InterpolateDataLinear<double> &self, double x) {
  size_t i = find_index(self.x_, x);
  if (i > self.f_.size() - 1) i = self.f_.size() - 1;
  return self.f_[i].slope_ * x + self.f_[i].yintercept_;
}
//@ C23 smash::InterpolateDataSpline::operator()
double spline(const InterpolateDataSpline &self, double x) {
  if (x < self.first_x_) return self.first_y_;
  if (x > self.last_x_) return self.last_y_;
  return gsl_spline_eval(self.spline_, x, self.acc_);
}
double within(double a, double lo, double hi) {
  double r = a < lo ? lo : a;
  return r > hi ? hi : r;
}
//@ C23 smash::InterpolateData2DSpline::operator()
double spline2(const InterpolateData2DSpline &self, double x, double y) {
  return gsl_spline2d_eval(self.spline_, within(x, self.first_x_, self.last_x_), within(y, self.first_y_, self.last_y_),
                           self.xacc_, self.yacc_);
}
//@ C23 smash::InterpolateDataLinear<double>::InterpolateDataLinear opaque=generate_sort_permutation,apply_permutation,check_duplicates
struct Pieces {
  std::vector<double> x_;
  std::vector<InterpolateLinear<double>> f_;
};
Pieces pieces(const std::vector<double> &x, const std::vector<double> &y) {
  const auto p = generate_sort_permutation(x, [](double const &a, double const &b) { return a < b; });
  Pieces r;
  r.x_ = apply_permutation(x, p);
  check_duplicates(r.x_, "");
  const std::vector<double> s = apply_permutation(y, p);
  for (size_t i = 1; i < x.size(); i++) r.f_.push_back(InterpolateLinear<double>(r.x_[i - 1], s[i - 1], r.x_[i], s[i]));
  return r;
}
//@ C23 smash::check_duplicates inst=double
void unique_x(const std::vector<double> &x, const std::string &) {
  for (size_t i = 0; i + 1 < x.size(); i++)
    if (x[i] == x[i + 1]) throw std::runtime_error("found twice");
}
//@ C23 smash::Tabulation::write
void to_file(const Tabulation &self, std::ofstream &out, sha256::Hash hash) {
  out.write(reinterpret_cast<const char *>(hash.data()), hash.size());
  out.write(reinterpret_cast<const char *>(&self.x_min_), sizeof(double));
  out.write(reinterpret_cast<const char *>(&self.x_max_), sizeof(double));
  out.write(reinterpret_cast<const char *>(&self.inv_dx_), sizeof(double));
  const uint64_t n = self.values_.size();
  out.write(reinterpret_cast<const char *>(&n), sizeof(n));
  if (n > 0) out.write(reinterpret_cast<const char *>(self.values_.data()), sizeof(double) * n);
}
//@ C23 smash::Tabulation::from_file
Table of_file(std::ifstream &in, sha256::Hash hash) {
  sha256::Hash h;
  in.read(reinterpret_cast<char *>(h.data()), h.size());
  Table t{{}, 0., 0., 0.};
  if (!(hash == h)) return t;
  in.read(reinterpret_cast<char *>(&t.x_min_), sizeof(double));
  in.read(reinterpret_cast<char *>(&t.x_max_), sizeof(double));
  in.read(reinterpret_cast<char *>(&t.inv_dx_), sizeof(double));
  uint64_t n;
  in.read(reinterpret_cast<char *>(&n), sizeof(n));
  if (n > std::numeric_limits<size_t>::max()) throw std::runtime_error("too large");
  t.values_.resize(n);
  in.read(reinterpret_cast<char *>(t.values_.data()), sizeof(double) * n);
  return t;
}
//@ C23 smash::spectral_integral_semistable opaque=Tabulation,spec_func_integrand_1res
Tabulation semi(Integrator &integrate, const ParticleType &r, const ParticleType &s, double range) {
  const double m0 = r.min_mass_kinematic(), ms = s.mass();
  return Tabulation(m0 + ms, range, 100, [&](double srts) {
    return integrate(m0, srts - ms, [&](double m) { return spec_func_integrand_1res(m, srts, ms, r); });
  });
}
//@ C23 smash::spectral_integral_unstable opaque=Tabulation,spec_func_integrand_2res
Tabulation both(Integrator2d &integrate, const ParticleType &r, const ParticleType &s, double range) {
  const double a = r.min_mass_kinematic(), b = s.min_mass_kinematic();
  return Tabulation(a + b, range, 125, [&](double srts) {
    return integrate(a, srts - b, b, srts - a, [&](double m, double n) { return spec_func_integrand_2res(srts, m, n, r, s); });
  });
}
}  // namespace spec
