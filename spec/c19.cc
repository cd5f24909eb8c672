// C19: densities and currents
#include "smash/density.h"

namespace smash {
using Current = std::tuple<double, FourVector, ThreeVector, ThreeVector, FourVector, FourVector, FourVector, FourVector>;
template <typename T>
Current current_eckart_impl(const ThreeVector &r, const T &plist, const DensityParameters &par, DensityType dens_type,
                            bool compute_gradient, bool smearing);
}
namespace spec {
using namespace smash;

//@ C19 smash::density_factor
double factor(const ParticleType &t, DensityType d) {
  if (d == DensityType::Charge)
    return t.charge();
  if (d == DensityType::Strangeness)
    return t.strangeness();
  if (d == DensityType::Baryon)
    return t.baryon_number();
  if (d == DensityType::Hadron)
    return t.is_hadron() ? 1 : 0;
  if (d == DensityType::Pion)
    return t.pdgcode().is_pion() ? 1 : 0;
  if (d == DensityType::Isospin3_tot)
    return t.is_hadron() ? t.isospin3() : 0;
  if (d == DensityType::BaryonicIsospin) {
    if (t.is_baryon() || t.is_nucleus())
      return t.isospin3_rel();
    return 0;
  }
  return 0;
}
//@ C19 smash::smearing_factor_norm
double norm(const double s2) { return std::pow(M_PI * s2, 1.5); }
//@ C19 smash::smearing_factor_rcut_correction
double correction(const double rcut) {
  return std::erf(rcut / std::sqrt(2.)) - 2. / std::sqrt(M_PI) * (rcut / std::sqrt(2.)) * std::exp(-rcut / std::sqrt(2.) * (rcut / std::sqrt(2.)));
}
struct Par {
  double sig_, r_cut_, r_cut_sqr_, two_sig_sqr_inv_, norm_factor_sf_;
  int ntest_, nensembles_;
  DerivativesMode derivatives_;
  RestFrameDensityDerivativesMode rho_derivatives_;
  SmearingMode smearing_;
  double central_weight_, triangular_range_;
  bool only_participants_;
};
//@ C19 smash::DensityParameters::DensityParameters opaque=smearing_factor_norm,smearing_factor_rcut_correction sig=ExperimentParameters
Par params(const ExperimentParameters &e) {
  Par p;
  p.sig_ = e.gaussian_sigma;
  p.r_cut_ = e.gauss_cutoff_in_sigma * e.gaussian_sigma;
  p.r_cut_sqr_ = p.r_cut_ * p.r_cut_;
  p.two_sig_sqr_inv_ = 0.5 / (p.sig_ * p.sig_);
  p.ntest_ = e.testparticles;
  p.nensembles_ = e.n_ensembles;
  p.norm_factor_sf_ = 1. / (smearing_factor_norm(2 * p.sig_ * p.sig_) * smearing_factor_rcut_correction(e.gauss_cutoff_in_sigma) *
                            (p.ntest_ * p.nensembles_));
  p.derivatives_ = e.derivatives_mode;
  p.rho_derivatives_ = e.rho_derivatives_mode;
  p.smearing_ = e.smearing_mode;
  p.central_weight_ = e.discrete_weight;
  p.triangular_range_ = e.triangular_range;
  p.only_participants_ = e.only_participants;
  return p;
}
//@ C19 smash::DensityParameters::ntest
int ntest(const DensityParameters &self) { return self.ntest_; }
//@ C19 smash::DensityParameters::nensembles
int nens(const DensityParameters &self) { return self.nensembles_; }
//@ C19 smash::DensityParameters::derivatives
DerivativesMode der(const DensityParameters &self) { return self.derivatives_; }
//@ C19 smash::DensityParameters::rho_derivatives
RestFrameDensityDerivativesMode rder(const DensityParameters &self) { return self.rho_derivatives_; }
//@ C19 smash::DensityParameters::smearing
SmearingMode smear(const DensityParameters &self) { return self.smearing_; }
//@ C19 smash::DensityParameters::central_weight
double cw(const DensityParameters &self) { return self.central_weight_; }
//@ C19 smash::DensityParameters::triangular_range
double tr(const DensityParameters &self) { return self.triangular_range_; }
//@ C19 smash::DensityParameters::r_cut
double rc(const DensityParameters &self) { return self.r_cut_; }
//@ C19 smash::DensityParameters::r_cut_sqr
double rc2(const DensityParameters &self) { return self.r_cut_sqr_; }
//@ C19 smash::DensityParameters::two_sig_sqr_inv
double i2s(const DensityParameters &self) { return self.two_sig_sqr_inv_; }
//@ C19 smash::DensityParameters::norm_factor_sf
double nf(const DensityParameters &self) { return self.norm_factor_sf_; }
//@ C19 smash::DensityParameters::only_participants
bool op(const DensityParameters &self) { return self.only_participants_; }

// K = u0 exp(-(r^2 + (r.u)^2) / 2 sigma^2) inside the cut-off sphere of both frames, grad K = K (r + u (r.u)) / sigma^2
//@ C19 smash::unnormalized_smearing_factor
std::pair<double, ThreeVector> smearing(const ThreeVector &r, const FourVector &p, const double minv,
                                        const DensityParameters &par, const bool grad) {
  const ThreeVector u(p.x1() * minv, p.x2() * minv, p.x3() * minv);
  const double ru = r.x1() * u.x1() + r.x2() * u.x2() + r.x3() * u.x3();
  const double d2 = r.sqr() + ru * ru;
  std::pair<double, ThreeVector> out(0., ThreeVector(0., 0., 0.));
  if (!(r.sqr() > par.r_cut_sqr_) && !(d2 > par.r_cut_sqr_)) {
    out.first = p.x0() * minv * std::exp(-d2 * par.two_sig_sqr_inv_);
    if (grad)
      out.second = (r + u * ru) * (2. * par.two_sig_sqr_inv_ * out.first);
  }
  return out;
}

template <typename L>
Current eckart(const ThreeVector &r, const L &list, const DensityParameters &par, DensityType d, bool grad, bool smear) {
  FourVector plus, minus;
  std::array<FourVector, 4> dj;
  for (const ParticleData &p : list) {
    if (par.only_participants_ && p.get_history().collisions_per_particle == 0)
      continue;
    const double f = density_factor(p.type(), d);
    if (std::abs(f) < really_small)
      continue;
    const double m = p.momentum().abs();
    if (m < really_small)
      continue;
    const auto sf = unnormalized_smearing_factor(p.position().threevec() - r, p.momentum(), 1. / m, par, grad);
    const FourVector v = p.momentum() / p.momentum().x0();
    const FourVector j = smear ? v * f * sf.first : v * f;
    if (f > 0.)
      plus += j;
    else
      minus += j;
    if (grad) {
      dj[1] += v * (f * sf.second[0]);
      dj[0] -= v * (f * sf.second[0] * v[1]);
      dj[2] += v * (f * sf.second[1]);
      dj[0] -= v * (f * sf.second[1] * v[2]);
      dj[3] += v * (f * sf.second[2]);
      dj[0] -= v * (f * sf.second[2] * v[3]);
    }
  }
  const double n = par.norm_factor_sf_;
  const double rho = (plus.abs() - minus.abs()) * n;
  FourVector total = plus + minus;
  if (smear)
    total *= n;
  const FourVector nought(0., 0., 0., 0.);
  ThreeVector gradj0(0., 0., 0.), curl(0., 0., 0.);
  if (!grad)
    return Current(rho, total, gradj0, curl, nought, nought, nought, nought);
  gradj0 = ThreeVector(dj[1][0] * n, dj[2][0] * n, dj[3][0] * n);
  curl = ThreeVector((dj[2][3] - dj[3][2]) * n, (dj[3][1] - dj[1][3]) * n, (dj[1][2] - dj[2][1]) * n);
  return Current(rho, total, gradj0, curl, dj[0] * n, dj[1] * n, dj[2] * n, dj[3] * n);
}
//@ C19 smash::current_eckart_impl inst=vector
Current eckart_list(const ThreeVector &r, const ParticleList &list, const DensityParameters &par, DensityType d, bool grad, bool smear) {
  return eckart(r, list, par, d, grad, smear);
}
//@ C19 smash::current_eckart_impl inst=smash::Particles
Current eckart_particles(const ThreeVector &r, const Particles &list, const DensityParameters &par, DensityType d, bool grad, bool smear) {
  return eckart(r, list, par, d, grad, smear);
}
//@ C19 smash::current_eckart sig=ThreeVector,Particles,Par,Dens,bool,bool
Current eckart_p(const ThreeVector &r, const Particles &list, const DensityParameters &par, DensityType d, bool grad, bool smear) {
  return current_eckart_impl(r, list, par, d, grad, smear);
}
//@ C19 smash::current_eckart sig=ThreeVector,vector,Par,Dens,bool,bool
Current eckart_l(const ThreeVector &r, const ParticleList &list, const DensityParameters &par, DensityType d, bool grad, bool smear) {
  return current_eckart_impl(r, list, par, d, grad, smear);
}

struct Node {
  FourVector jmu_pos_, jmu_neg_;
  std::array<FourVector, 4> djmu_dxnu_;
  FourVector drho_dxnu_;
};
//@ C19 smash::DensityOnLattice::DensityOnLattice n=0
Node node() { return Node(); }
//@ C19 smash::DensityOnLattice::add_particle
void add(DensityOnLattice &self, const ParticleData &p, double w) {
  const ThreeVector v = p.velocity();
  const FourVector j(w, w * v.x1(), w * v.x2(), w * v.x3());
  if (w > 0)
    self.jmu_pos_ += j;
  else
    self.jmu_neg_ += j;
}
//@ C19 smash::DensityOnLattice::add_particle_for_derivatives
void addder(DensityOnLattice &self, const ParticleData &p, double f, ThreeVector g) {
  const ThreeVector v = p.velocity();
  const FourVector u(1., v);
  self.djmu_dxnu_[1] += u * (f * g.x1());
  self.djmu_dxnu_[2] += u * (f * g.x2());
  self.djmu_dxnu_[3] += u * (f * g.x3());
  self.djmu_dxnu_[0] -= u * (f * (g * v));
}
//@ C19 smash::DensityOnLattice::rho
double rho(DensityOnLattice &self, const double n) { return n * (self.jmu_pos_.abs() - self.jmu_neg_.abs()); }
//@ C19 smash::DensityOnLattice::curl_vecj
ThreeVector curl(DensityOnLattice &self, const double n) {
  const auto &d = self.djmu_dxnu_;
  return ThreeVector(n * (d[2][3] - d[3][2]), n * (d[3][1] - d[1][3]), n * (d[1][2] - d[2][1]));
}
//@ C19 smash::DensityOnLattice::grad_j0
ThreeVector gradj0(DensityOnLattice &self, const double n) {
  const auto &d = self.djmu_dxnu_;
  return ThreeVector(n * d[1][0], n * d[2][0], n * d[3][0]);
}
//@ C19 smash::DensityOnLattice::dvecj_dt
ThreeVector dvdt(DensityOnLattice &self, const double n) {
  const auto &d = self.djmu_dxnu_;
  return ThreeVector(n * d[0][1], n * d[0][2], n * d[0][3]);
}
//@ C19 smash::DensityOnLattice::jmu_net
FourVector net(const DensityOnLattice &self) { return self.jmu_neg_ + self.jmu_pos_; }
//@ C19 smash::DensityOnLattice::add_to_jmu_pos
void topos(DensityOnLattice &self, FourVector j) { self.jmu_pos_ += j; }
//@ C19 smash::DensityOnLattice::add_to_jmu_neg
void toneg(DensityOnLattice &self, FourVector j) { self.jmu_neg_ += j; }
//@ C19 smash::DensityOnLattice::drho_dxnu
FourVector drho(const DensityOnLattice &self) { return self.drho_dxnu_; }
//@ C19 smash::DensityOnLattice::djmu_dxnu
std::array<FourVector, 4> djmu(const DensityOnLattice &self) { return self.djmu_dxnu_; }
//@ C19 smash::DensityOnLattice::grad_rho_cross_vecj
ThreeVector gxj(const DensityOnLattice &self) {
  const FourVector j = self.jmu_net();
  const FourVector &g = self.drho_dxnu_;
  return ThreeVector(g[2] * j[3] - g[3] * j[2], g[3] * j[1] - g[1] * j[3], g[1] * j[2] - g[2] * j[1]);
}
//@ C19 smash::DensityOnLattice::overwrite_djmu_dt_to_zero
void zdj(DensityOnLattice &self) { self.djmu_dxnu_[0] = FourVector(); }
//@ C19 smash::DensityOnLattice::overwrite_drho_dt_to_zero
void zdr(DensityOnLattice &self) { self.drho_dxnu_.set_x0(0.); }
//@ C19 smash::DensityOnLattice::overwrite_drho_dxnu
void sdr(DensityOnLattice &self, FourVector d) { self.drho_dxnu_ = d; }
//@ C19 smash::DensityOnLattice::overwrite_djmu_dxnu
void sdj(DensityOnLattice &self, FourVector t, FourVector x, FourVector y, FourVector z) { self.djmu_dxnu_ = {t, x, y, z}; }

struct Seen {
  int a;
};
void deposit(ThermLatticeNode &, const ParticleData &, double);
// each participant within reach of a node deposits its factor times the weight of the smearing mode there
template <typename T>
void deposit_all(RectangularLattice<T> *lat, const LatticeUpdate update, const DensityType d, const DensityParameters &par,
                 const ParticleList &list, const bool grad, const bool fresh) {
  if (lat == nullptr)
    return;
  if (lat->when_update() != update)
    return;
  if (fresh)
    lat->reset();
  const auto &h = lat->cell_sizes();
  const double samples = par.ntest_ * par.nensembles_;
  for (const ParticleData &p : list) {
    if (par.only_participants_ && p.get_history().collisions_per_particle == 0)
      continue;
    const double f = density_factor(p.type(), d);
    if (std::abs(f) < really_small)
      continue;
    const ThreeVector at = p.position().threevec();
    if (par.smearing_ == SmearingMode::CovariantGaussian) {
      const FourVector mom = p.momentum();
      const double m = mom.abs();
      if (m < really_small)
        continue;
      const double n = par.norm_factor_sf_;
      lat->iterate_in_cube(at, par.r_cut_, [&](T &node, int ix, int iy, int iz) {
        const auto sf = unnormalized_smearing_factor(at - lat->cell_center(ix, iy, iz), mom, 1. / m, par, grad);
        node.add_particle(p, f * n * sf.first);
        if (par.derivatives_ == DerivativesMode::CovariantGaussian)
          node.add_particle_for_derivatives(p, f, sf.second * n);
      });
    } else if (par.smearing_ == SmearingMode::Discrete) {
      const double w = f / (samples * h[0] * h[1] * h[2]);
      lat->iterate_nearest_neighbors(at, [&](T &node, int i, int centre) {
        node.add_particle(p, i == centre ? w * par.central_weight_ : w * ((1. - par.central_weight_) / 6.));
      });
    } else if (par.smearing_ == SmearingMode::Triangular) {
      const std::array<double, 3> r{par.triangular_range_ * h[0], par.triangular_range_ * h[1], par.triangular_range_ * h[2]};
      const double w = f / (samples * r[0] * r[0] * r[1] * r[1] * r[2] * r[2]);
      lat->iterate_in_rectangle(at, r, [&](T &node, int ix, int iy, int iz) {
        const ThreeVector c = lat->cell_center(ix, iy, iz);
        node.add_particle(p, w * (r[0] - std::abs(c[0] - at[0])) * (r[1] - std::abs(c[1] - at[1])) *
                                 (r[2] - std::abs(c[2] - at[2])));
      });
    }
  }
}
//@ C19 smash::update_lattice_with_list_of_particles inst=DensityOnLattice opaque=iterate_in_cube,iterate_nearest_neighbors,iterate_in_rectangle,unnormalized_smearing_factor,cell_center,add_particle,add_particle_for_derivatives
void deposit1(RectangularLattice<DensityOnLattice> *lat, const LatticeUpdate update, const DensityType d,
              const DensityParameters &par, const ParticleList &list, const bool grad, const bool fresh) {
  deposit_all(lat, update, d, par, list, grad, fresh);
}
//@ C19 smash::update_lattice_with_list_of_particles inst=EnergyMomentumTensor opaque=iterate_in_cube,iterate_nearest_neighbors,iterate_in_rectangle,unnormalized_smearing_factor,cell_center,add_particle,add_particle_for_derivatives
void deposit2(RectangularLattice<EnergyMomentumTensor> *lat, const LatticeUpdate update, const DensityType d,
              const DensityParameters &par, const ParticleList &list, const bool grad, const bool fresh) {
  deposit_all(lat, update, d, par, list, grad, fresh);
}
//@ C19 smash::update_lattice_accumulating_ensembles inst=DensityOnLattice
void accumulate(RectangularLattice<DensityOnLattice> *lat, const LatticeUpdate update, const DensityType d,
                const DensityParameters &par, const std::vector<Particles> &all, const bool grad) {
  if (lat && lat->when_update() == update) {
    lat->reset();
    for (std::size_t i = 0; i < all.size(); i++)
      update_lattice_with_list_of_particles(lat, update, d, par, all[i].copy_to_vector(), grad, false);
  }
}
//@ C19 smash::update_lattice
void update(RectangularLattice<DensityOnLattice> *lat, RectangularLattice<FourVector> *old_jmu,
            RectangularLattice<FourVector> *new_jmu, RectangularLattice<std::array<FourVector, 4>> *grads,
            const LatticeUpdate when, const DensityType d, const DensityParameters &par, const std::vector<Particles> &all,
            const double dt, const bool grad) {
  if (!lat || lat->when_update() != when)
    return;
  const auto n = lat->n_cells();
  const bool fd = par.derivatives_ == DerivativesMode::FiniteDifference;
  if (fd)
    for (int i = 0; i < n[0] * n[1] * n[2]; i++)
      old_jmu->assign_value(i, (*lat)[i].jmu_net());
  update_lattice_accumulating_ensembles(lat, when, d, par, all, grad);
  if (fd) {
    for (int i = 0; i < n[0] * n[1] * n[2]; i++)
      new_jmu->assign_value(i, (*lat)[i].jmu_net());
    new_jmu->compute_four_gradient_lattice(*old_jmu, dt, *grads);
    int i = 0;
    for (auto &node : *lat) {
      const auto &g = (*grads)[i];
      node.djmu_dxnu_[0] = g[0];
      node.djmu_dxnu_[1] = g[1];
      node.djmu_dxnu_[2] = g[2];
      node.djmu_dxnu_[3] = g[3];
      i++;
    }
  }
  if (par.rho_derivatives_ == RestFrameDensityDerivativesMode::On)
    for (auto &node : *lat) {
      double rho = node.rho();
      const int sgn = rho > 0 ? 1 : -1;
      if (std::abs(rho) < very_small_double)
        rho = sgn * very_small_double;
      const FourVector j = node.jmu_net();
      const auto &dj = node.djmu_dxnu_;
      node.drho_dxnu_ = FourVector(j.Dot(dj[0]) / rho, j.Dot(dj[1]) / rho, j.Dot(dj[2]) / rho, j.Dot(dj[3]) / rho);
    }
}
}  // namespace spec
