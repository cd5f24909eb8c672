// C35: spectral shapes, form factors and thermal momentum distributions
#include "smash/constants.h"
#include "smash/distributions.h"
#include "smash/formfactors.h"
#include "smash/random.h"
#include "gsl/gsl_sf_bessel.h"

namespace spec {
using namespace smash;

//@ C35 smash::breit_wigner
double bw(const double m, const double m0, const double g) {
  const double d = m * m - m0 * m0;
  return 2 / M_PI * m * m * g / (d * d + m * m * g * g);
}
//@ C35 smash::cauchy
double cauchy(double x, double x0, double g) { return g / M_PI / ((x - x0) * (x - x0) + g * g); }
//@ C35 smash::breit_wigner_nonrel
double bwnr(double m, double m0, double g) { return cauchy(m, m0, g / 2); }
//@ C35 smash::density_integrand_mass
double dmass(const double e, const double p2, const double t) { return p2 * std::sqrt(p2) * std::exp(-e / t); }
//@ C35 smash::density_integrand_1M_IC
double d1m(const double e, const double p2, const double t) {
  return p2 * std::exp(-e / t) * (3. / 20 * p2 / (t * t) - 6. / 5 * e / t + 14. / 5);
}
//@ C35 smash::density_integrand_2M_IC
double d2m(const double e, const double p2, const double t) {
  return p2 * std::exp(-e / t) * (0.75 + 0.125 * p2 / (t * t) - p2 * e / (30 * t * t * t) + p2 * p2 / (480 * t * t * t * t));
}
//@ C35 smash::juttner_distribution_func
double juttner(double p, double m, double t, double mu, double s) {
  const double b = std::exp(-(std::sqrt(p * p + m * m) - mu) / t);
  return b / (1 + s * b);
}
//@ C35 smash::sample_momenta_non_eq_mass
double sample0(const double t, const double m) {
  const double p2 = (9 * t * t + t * std::sqrt(81 * t * t + 36 * m * m)) / 2;
  const double top = 2 * dmass(std::sqrt(p2 + m * m), p2, t);
  double p, w;
  do {
    p = random::uniform(0., std::sqrt(2500 * t * t - m * m));
    w = dmass(std::sqrt(p * p + m * m), p * p, t);
  } while (random::uniform(0., top) > w);
  return p;
}
double meanE(double t, double m) {
  return m > 0 ? 3 * t + m * gsl_sf_bessel_K1(m / t) / gsl_sf_bessel_Kn(2, m / t) : 3 * t;
}
//@ C35 smash::sample_momenta_1M_IC
double sample1(const double t, const double m) {
  const double e0 = meanE(t, m);
  const double top = 16 * d1m(e0, (e0 - m) * (e0 + m), t);
  double p2, w;
  do {
    const double e = random::uniform(m, 50 * t);
    p2 = (e - m) * (e + m);
    w = d1m(e, p2, t);
  } while (random::uniform(0., top) > w);
  return std::sqrt(p2);
}
//@ C35 smash::sample_momenta_2M_IC
double sample2(const double t, const double m) {
  const double e0 = meanE(t, m);
  const double top = 16 * d2m(e0, (e0 - m) * (e0 + m), t);
  double p2, w;
  do {
    const double e = random::uniform(m, 50 * t);
    p2 = (e - m) * (e + m);
    w = d2m(e, p2, t);
  } while (random::uniform(0., top) > w);
  return std::sqrt(p2);
}
//@ C35 smash::sample_momenta_from_thermal
double sampleth(const double t, const double m) {
  double p, e;
  if (t > 0.6 * m) {
    while (true) {
      const double a = std::log(random::canonical_nonzero());
      const double b = std::log(random::canonical_nonzero());
      const double c = std::log(random::canonical_nonzero());
      p = -t * (a + b + c);
      e = std::sqrt(p * p + m * m);
      if (random::canonical() < std::exp((p - e) / t))
        break;
    }
    return p;
  }
  while (true) {
    const double r = random::canonical();
    const double w1 = m * m, w2 = 2 * m * t, w3 = 2 * t * t, w = w1 + w2 + w3;
    double k;
    if (r < w1 / w) {
      k = -t * std::log(random::canonical_nonzero());
    } else if (r < (w1 + w2) / w) {
      const double a = random::canonical_nonzero();
      const double b = random::canonical_nonzero();
      k = -t * std::log(a * b);
    } else {
      const double a = random::canonical_nonzero();
      const double b = random::canonical_nonzero();
      const double c = random::canonical_nonzero();
      k = -t * std::log(a * b * c);
    }
    e = m + k;
    p = std::sqrt((e - m) * (e + m));
    if (random::canonical() < p / e)
      break;
  }
  return p;
}
//@ C35 smash::sample_momenta_IC_ES
double samplees(const double t) {
  const double a = std::log(random::canonical_nonzero());
  const double b = std::log(random::canonical_nonzero());
  const double c = std::log(random::canonical_nonzero());
  const double d = std::log(random::canonical_nonzero());
  return -0.75 * t * (a + b + c + d);
}
//@ C35 smash::blatt_weisskopf_sqr
double blatt(const double p, const int L) {
  const double x = p / hbarc;
  if (L == 0)
    return 1;
  if (L == 1)
    return x * x / (1 + x * x);
  // |x^(L+1) h_L(x)|^2 by upward recurrence of the spherical Hankel functions
  std::complex<double> a(1, 0), b(1, -x);
  double num = x * x;
  for (int l = 1; l < L; l++) {
    num *= x * x;
    const std::complex<double> c = static_cast<double>(2 * l + 1) * b - x * x * a;
    a = b;
    b = c;
  }
  return num / std::norm(b);
}
//@ C35 smash::post_ff_sqr
double post(double m, double m0, double s, double L) {
  const double l4 = L * L * L * L;
  const double a = (s * s - m0 * m0) / 2, b = m * m - (s * s + m0 * m0) / 2;
  const double f = (l4 + a * a) / (l4 + b * b);
  return f * f;
}
//@ C35 smash::em_form_factor_ps
double ffps(PdgCode p, double m) {
  if (p.code() == pdg::pi_z)
    return 1 + 5.5 * m * m;
  if (p.code() == pdg::eta)
    return 1 / (1 - m * m / (0.716 * 0.716));
  return 1;
}
//@ C35 smash::em_form_factor_sqr_vec
double ffvec(PdgCode p, double m) {
  if (p.code() != pdg::omega)
    return 1;
  const double l2 = 0.65 * 0.65, g2 = 0.075 * 0.075;
  return l2 * l2 / ((l2 - m * m) * (l2 - m * m) + l2 * g2);
}
//@ C35 smash::form_factor_delta
double ffd(double) { return 3.12; }
}  // namespace spec
