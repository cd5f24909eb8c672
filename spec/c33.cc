// C33: Pauli blocking
#include "smash/pauliblocking.h"
#include "smash/constants.h"
#include "smash/numeric_cast.h"

namespace spec {
using namespace smash;

// number of identical particles per phase-space cell around (r, p)
//@ C33 smash::PauliBlocker::phasespace_dens
double dens(const PauliBlocker &self, const ThreeVector &r, const ThreeVector &p, const std::vector<Particles> &ens,
            const PdgCode pdg, const ParticleList &out) {
  double n = 0;
  const double reach = self.rr_ + self.rc_;
  for (const Particles &list : ens)
    for (const ParticleData &q : list) {
      if (!(q.pdgcode() == pdg)) continue;
      const ThreeVector k = q.momentum().threevec(), x = q.position().threevec();
      const double dk = (k[0] - p[0]) * (k[0] - p[0]) + (k[1] - p[1]) * (k[1] - p[1]) + (k[2] - p[2]) * (k[2] - p[2]);
      const double dx = (x[0] - r[0]) * (x[0] - r[0]) + (x[1] - r[1]) * (x[1] - r[1]) + (x[2] - r[2]) * (x[2] - r[2]);
      if (dk > self.rp_ * self.rp_ || dx >= reach * reach) continue;
      bool ignored = false;
      for (const ParticleData &o : out)
        if (o.id() == q.id()) ignored = true;
      if (ignored) continue;
      const double u = std::sqrt(dx) / reach * self.weights_.size();
      const size_t i = numeric_cast<size_t>(std::floor(u));
      const double f = u - i;
      if (i + 1 < self.weights_.size()) n += self.weights_[i] * (1 - f) + self.weights_[i + 1] * f;
    }
  return n / (self.ntest_ * self.n_ensembles_);
}
//@ C33 smash::PauliBlocker::phasespace_dens finding=pauli-interpolation
double dens_wrong(const PauliBlocker &self, const ThreeVector &r, const ThreeVector &p, const std::vector<Particles> &ens,
                  const PdgCode pdg, const ParticleList &out) {
  double n = 0;
  const double reach = self.rr_ + self.rc_;
  for (const Particles &list : ens)
    for (const ParticleData &q : list) {
      if (!(q.pdgcode() == pdg)) continue;
      const ThreeVector k = q.momentum().threevec(), x = q.position().threevec();
      const double dk = (k[0] - p[0]) * (k[0] - p[0]) + (k[1] - p[1]) * (k[1] - p[1]) + (k[2] - p[2]) * (k[2] - p[2]);
      const double dx = (x[0] - r[0]) * (x[0] - r[0]) + (x[1] - r[1]) * (x[1] - r[1]) + (x[2] - r[2]) * (x[2] - r[2]);
      if (dk > self.rp_ * self.rp_ || dx >= reach * reach) continue;
      bool ignored = false;
      for (const ParticleData &o : out)
        if (o.id() == q.id()) ignored = true;
      if (ignored) continue;
      const double u = std::sqrt(dx) / reach * self.weights_.size();
      const size_t i = numeric_cast<size_t>(std::floor(u));
      const double f = u - i;
      if (i + 1 < self.weights_.size()) n += self.weights_[i] * f + self.weights_[i + 1] * (1 - f);
    }
  return n / (self.ntest_ * self.n_ensembles_);
}
// weight: share of a cut and normalised Gaussian inside the averaging sphere at distance x
//@ C33 smash::PauliBlocker::init_weights_analytical
void weights(PauliBlocker &self) {
  const double s = self.sig_, c = self.rc_, R = self.rr_, P = self.rp_, h = 2 * M_PI * hbarc;
  const double vol = 2 * (4 * M_PI / 3 * R * R * R) * (4 * M_PI / 3 * P * P * P) / (h * h * h);
  const double q = std::sqrt(2.), g = std::sqrt(2 * M_PI);
  const double norm = std::erf(c / (q * s)) - 2 * c / (g * s) * std::exp(-c * c / (2 * s * s));
  const size_t n = self.weights_.size();
  for (size_t k = 0; k < n; k++) {
    const double x = k * ((R + c) / n);
    // 2 pi times the radial integral
    double w;
    if (x < really_small)
      w = s * s * (g * s * std::erf(R / (q * s)) - 2 * R * std::exp(-R * R / (2 * s * s)));
    else if (x + R < c)
      w = s * s * s * (s / x * (std::exp(-(x + R) * (x + R) / (2 * s * s)) - std::exp(-(x - R) * (x - R) / (2 * s * s))) +
                       g / 2 * (std::erf((x + R) / (q * s)) - std::erf((x - R) / (q * s))));
    else
      w = s * s * ((0.5 * std::exp(-c * c / (2 * s * s)) * ((c - x) * (c - x) - R * R + 2 * s * s) -
                    s * s * std::exp(-(x - R) * (x - R) / (2 * s * s))) / x +
                   g / 2 * s * (std::erf(c / (q * s)) - std::erf((x - R) / (q * s))));
    w *= 2 * M_PI * std::pow(2 * M_PI * s * s, -1.5);
    self.weights_[k] = w / (norm * vol);
  }
}
}  // namespace spec
