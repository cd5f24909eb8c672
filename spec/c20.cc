// C20: mean-field potentials and forces
#include "smash/potentials.h"
#include "smash/input_keys.h"

namespace spec {
using namespace smash;
using Force = std::pair<ThreeVector, ThreeVector>;

struct Pot {
  explicit Pot(const DensityParameters &d) : param_(d) {}
  DensityParameters param_;
  bool use_skyrme_, use_symmetry_, use_coulomb_, use_vdf_, use_momentum_dependence_;
  double skyrme_a_, skyrme_b_, skyrme_tau_, mom_dependence_Lambda_, mom_dependence_C_;
  double symmetry_S_Pot_;
  bool symmetry_is_rhoB_dependent_;
  double symmetry_gamma_, coulomb_r_cut_;
  bool use_potentials_outside_lattice_;
  double saturation_density_;
  std::vector<double> coeffs_, powers_;
};
//@ C20 smash::Potentials::Potentials n=2 pure=take,has_section,has_value
Pot make(Configuration c, const DensityParameters &param) {
  Pot p(param);
  p.use_skyrme_ = c.has_section(InputSections::p_skyrme);
  p.use_symmetry_ = c.has_section(InputSections::p_symmetry);
  p.use_coulomb_ = c.has_section(InputSections::p_coulomb);
  p.use_vdf_ = c.has_section(InputSections::p_vdf);
  p.use_momentum_dependence_ = c.has_section(InputSections::p_momentumDependence);
  p.use_potentials_outside_lattice_ = c.take(InputKeys::potentials_use_potentials_outside_lattice);
  p.symmetry_is_rhoB_dependent_ = false;
  if (p.use_skyrme_) {
    p.skyrme_tau_ = c.take(InputKeys::potentials_skyrme_skyrmeTau);
    p.skyrme_b_ = c.take(InputKeys::potentials_skyrme_skyrmeB);
    p.skyrme_a_ = c.take(InputKeys::potentials_skyrme_skyrmeA);
  }
  if (p.use_symmetry_) {
    p.symmetry_S_Pot_ = c.take(InputKeys::potentials_symmetry_sPot);
    if (c.has_value(InputKeys::potentials_symmetry_gamma)) {
      p.symmetry_is_rhoB_dependent_ = true;
      p.symmetry_gamma_ = c.take(InputKeys::potentials_symmetry_gamma);
    }
  }
  if (p.use_momentum_dependence_) {
    p.mom_dependence_C_ = c.take(InputKeys::potentials_momentum_dependence_C);
    p.mom_dependence_Lambda_ = c.take(InputKeys::potentials_momentum_dependence_Lambda);
  }
  if (p.use_coulomb_)
    p.coulomb_r_cut_ = c.take(InputKeys::potentials_coulomb_rCut);
  if (p.use_vdf_) {
    p.saturation_density_ = c.take(InputKeys::potentials_vdf_satRhoB);
    const std::vector<double> b = c.take(InputKeys::potentials_vdf_powers);
    const std::vector<double> a = c.take(InputKeys::potentials_vdf_coeffs);
    if (a.size() != b.size())
      throw std::invalid_argument("");
    for (size_t i = 0; i < b.size(); i++) {
      if (b[i] < 0)
        throw std::invalid_argument("");
      p.powers_.push_back(b[i]);
      p.coeffs_.push_back(0.001 * a[i]);
    }
  }
  return p;
}

double sign(double x) { return x > 0 ? 1 : -1; }

//@ C20 smash::Potentials::skyrme_pot n=4
double skyrme(const double rho, const double a, const double b, const double tau) {
  const double x = std::abs(rho / 0.168);
  return (rho / 0.168 > 0 ? 1 : -1) * (a * x + b * std::pow(x, tau)) / 1000;
}
//@ C20 smash::Potentials::skyrme_pot n=1
double skyrme1(const Potentials &self, const double rho) {
  return Potentials::skyrme_pot(rho, self.skyrme_a_, self.skyrme_b_, self.skyrme_tau_);
}
//@ C20 smash::Potentials::symmetry_S
double symS(const Potentials &self, const double rho) {
  if (!self.symmetry_is_rhoB_dependent_)
    return 0;
  return 20 * std::pow(rho / 0.168, self.symmetry_gamma_) + 12.3 * std::pow(rho / 0.168, 2. / 3);
}
//@ C20 smash::Potentials::symmetry_pot opaque=symmetry_S
double sympot(const Potentials &self, const double i, const double rho) {
  const double u = 2 * self.symmetry_S_Pot_ * i / 0.168;
  return 0.001 * (self.symmetry_is_rhoB_dependent_ ? u + self.symmetry_S(rho) * (i / rho) * (i / rho) : u);
}
double vdf2(const Potentials &self, double rho) {
  double x = std::abs(rho);
  if (x < really_small * 0 + very_small_double)
    x = very_small_double;
  double f = 0;
  for (size_t i = 0; i < self.powers_.size(); i++)
    f += self.coeffs_[i] * std::pow(x, self.powers_[i] - 2) / std::pow(self.saturation_density_, self.powers_[i] - 1);
  return (rho > 0 ? 1 : -1) * f;
}
double vdf1(const Potentials &self, double rho) {
  double x = std::abs(rho);
  if (x < very_small_double)
    x = very_small_double;
  double f = 0;
  for (size_t i = 0; i < self.powers_.size(); i++)
    f += self.coeffs_[i] * (self.powers_[i] - 2) * std::pow(x, self.powers_[i] - 3) /
         std::pow(self.saturation_density_, self.powers_[i] - 1);
  return (rho > 0 ? 1 : -1) * f;
}
//@ C20 smash::Potentials::vdf_pot
FourVector vdfpot(const Potentials &self, double rho, const FourVector j) {
  const double f = vdf2(self, rho);
  return FourVector(f * j.x0(), f * j.x1(), f * j.x2(), f * j.x3());
}
//@ C20 smash::Potentials::force_scale
std::pair<double, int> scale(const ParticleType &t) {
  const int b = t.baryon_number();
  return {b * (1 - std::abs(t.strangeness()) / 3.), b};
}
//@ C20 smash::Potentials::potential opaque=current_eckart,vdf_pot,symmetry_pot,skyrme_pot,force_scale
double potential(const Potentials &self, const ThreeVector &r, const ParticleList &ps, const ParticleType &t) {
  if (!t.is_baryon() && !t.is_nucleus())
    return 0;
  const auto sc = Potentials::force_scale(t);
  const auto c = current_eckart(r, ps, self.param_, DensityType::Baryon, false, true);
  double u = 0;
  if (self.use_symmetry_)
    u += sc.second * t.isospin3_rel() *
         self.symmetry_pot(std::get<0>(current_eckart(r, ps, self.param_, DensityType::BaryonicIsospin, false, true)), std::get<0>(c));
  if (self.use_vdf_)
    u += sc.first * self.vdf_pot(std::get<0>(c), std::get<1>(c)).x0();
  if (self.use_skyrme_)
    u += sc.first * self.skyrme_pot(std::get<0>(c));
  return u;
}
//@ C20 smash::Potentials::skyrme_force
Force skyrmeF(const Potentials &self, const double rho, const ThreeVector g, const ThreeVector dt, const ThreeVector curl) {
  if (!self.use_skyrme_)
    return {ThreeVector(0, 0, 0), ThreeVector(0, 0, 0)};
  const double x = std::abs(rho) / 0.168;
  const double d = (rho > 0 ? 1 : -1) * (self.skyrme_a_ + self.skyrme_b_ * self.skyrme_tau_ * std::pow(x, self.skyrme_tau_ - 1)) / 168;
  return {ThreeVector(-d * (g[0] + dt[0]), -d * (g[1] + dt[1]), -d * (g[2] + dt[2])), ThreeVector(d * curl[0], d * curl[1], d * curl[2])};
}
//@ C20 smash::Potentials::dVsym_drhoI3 opaque=symmetry_S
double dI(const Potentials &self, const double b, const double i) {
  const double u = 2 * self.symmetry_S_Pot_ / 0.168;
  return (self.symmetry_is_rhoB_dependent_ ? u + 2 * i * self.symmetry_S(b) / (b * b) : u) * 0.001;
}
//@ C20 smash::Potentials::dVsym_drhoB opaque=symmetry_S
double dB(const Potentials &self, const double b, const double i) {
  if (!self.symmetry_is_rhoB_dependent_)
    return 0;
  // d/db [S(b) i^2 / b^2] with S = 12.3 (b/b0)^(2/3) + 20 (b/b0)^gamma
  const double dS = 8.2 / 0.168 * std::pow(b / 0.168, -1. / 3) + 20 * self.symmetry_gamma_ * std::pow(b / 0.168, self.symmetry_gamma_) / b;
  return 0.001 * (dS / (b * b) - 2 * self.symmetry_S(b) / (b * b * b)) * i * i;
}
//@ C20 smash::Potentials::symmetry_force opaque=dVsym_drhoI3,dVsym_drhoB
Force symF(const Potentials &self, const double i, const ThreeVector gi, const ThreeVector ti, const ThreeVector ci, const double b,
           const ThreeVector gb, const ThreeVector tb, const ThreeVector cb) {
  if (!self.use_symmetry_)
    return {ThreeVector(0, 0, 0), ThreeVector(0, 0, 0)};
  const double x = self.dVsym_drhoI3(b, i), y = self.dVsym_drhoB(b, i);
  return {ThreeVector(-x * (gi[0] + ti[0]) - y * (gb[0] + tb[0]), -x * (gi[1] + ti[1]) - y * (gb[1] + tb[1]),
                      -x * (gi[2] + ti[2]) - y * (gb[2] + tb[2])),
          ThreeVector(x * ci[0] + y * cb[0], x * ci[1] + y * cb[1], x * ci[2] + y * cb[2])};
}
//@ C20 smash::Potentials::vdf_force n=9
Force vdfF(const Potentials &self, double rho, const double dt, const ThreeVector g, const ThreeVector gxj, const double j0,
           const ThreeVector gj0, const ThreeVector j, const ThreeVector dj, const ThreeVector curl) {
  if (!self.use_vdf_)
    return {ThreeVector(0, 0, 0), ThreeVector(0, 0, 0)};
  const double f1 = vdf1(self, rho), f2 = vdf2(self, rho);
  return {-f1 * (j0 * g + dt * j) - f2 * (gj0 + dj), f1 * gxj + f2 * curl};
}
//@ C20 smash::Potentials::vdf_force n=3
Force vdfF3(const Potentials &self, const ThreeVector g, const ThreeVector dt, const ThreeVector curl) {
  if (!self.use_vdf_)
    return {ThreeVector(0, 0, 0), ThreeVector(0, 0, 0)};
  return {-g - dt, curl};
}
double along(const FourVector &j, const FourVector &dj, double rho) {
  return (j.x0() * dj.x0() - j.x1() * dj.x1() - j.x2() * dj.x2() - j.x3() * dj.x3()) / rho;
}
//@ C20 smash::Potentials::all_forces opaque=current_eckart,vdf_force,symmetry_force,skyrme_force
std::tuple<ThreeVector, ThreeVector, ThreeVector, ThreeVector> forces(const Potentials &self, const ThreeVector &r, const ParticleList &ps) {
  const ThreeVector zero(0, 0, 0);
  Force f{zero, zero}, s{zero, zero};
  const auto b = current_eckart(r, ps, self.param_, DensityType::Baryon, true, true);
  const double rho = std::get<0>(b);
  if (self.use_symmetry_) {
    const auto i = current_eckart(r, ps, self.param_, DensityType::BaryonicIsospin, true, true);
    s = self.symmetry_force(std::get<0>(i), std::get<2>(i), std::get<4>(i).threevec(), std::get<3>(i), rho, std::get<2>(b),
                            std::get<4>(b).threevec(), std::get<3>(b));
  }
  if (self.use_vdf_) {
    const FourVector j = std::get<1>(b);
    const double x = std::abs(rho) < very_small_double ? (rho > 0 ? very_small_double : -very_small_double) : rho;
    const ThreeVector g(along(j, std::get<5>(b), x), along(j, std::get<6>(b), x), along(j, std::get<7>(b), x));
    f = self.vdf_force(x, along(j, std::get<4>(b), x), g, g.cross_product(j.threevec()), j.x0(), std::get<2>(b), j.threevec(),
                       std::get<4>(b).threevec(), std::get<3>(b));
  } else if (self.use_skyrme_) {
    f = self.skyrme_force(rho, std::get<2>(b), std::get<4>(b).threevec(), std::get<3>(b));
  }
  return std::make_tuple(f.first, f.second, s.first, s.second);
}
//@ C20 smash::Potentials::E_field_integrand
ThreeVector efield(ThreeVector pos, DensityOnLattice &q, ThreeVector at) {
  const double x = at[0] - pos[0], y = at[1] - pos[1], z = at[2] - pos[2], d = std::sqrt(x * x + y * y + z * z);
  if (d < 1e-6)
    return ThreeVector(0, 0, 0);
  const double c = elementary_charge * q.rho() / (d * d * d);
  return ThreeVector(c * x, c * y, c * z);
}
//@ C20 smash::Potentials::B_field_integrand
ThreeVector bfield(ThreeVector pos, DensityOnLattice &q, ThreeVector at) {
  const double x = at[0] - pos[0], y = at[1] - pos[1], z = at[2] - pos[2], d = std::sqrt(x * x + y * y + z * z);
  if (d < 1e-6)
    return ThreeVector(0, 0, 0);
  const double c = elementary_charge / (d * d * d);
  const FourVector j = q.jmu_net();
  return ThreeVector(c * (j[2] * z - j[3] * y), c * (j[3] * x - j[1] * z), c * (j[1] * y - j[2] * x));
}
//@ C20 smash::Potentials::use_skyrme
bool us(const Potentials &self) { return self.use_skyrme_; }
//@ C20 smash::Potentials::use_symmetry
bool uy(const Potentials &self) { return self.use_symmetry_; }
//@ C20 smash::Potentials::use_coulomb
bool uc(const Potentials &self) { return self.use_coulomb_; }
//@ C20 smash::Potentials::use_vdf
bool uv(const Potentials &self) { return self.use_vdf_; }
//@ C20 smash::Potentials::use_momentum_dependence
bool um(const Potentials &self) { return self.use_momentum_dependence_; }
//@ C20 smash::Potentials::use_potentials_outside_lattice
bool uo(const Potentials &self) { return self.use_potentials_outside_lattice_; }
//@ C20 smash::Potentials::skyrme_a
double ga(const Potentials &self) { return self.skyrme_a_; }
//@ C20 smash::Potentials::skyrme_b
double gb(const Potentials &self) { return self.skyrme_b_; }
//@ C20 smash::Potentials::skyrme_tau
double gt(const Potentials &self) { return self.skyrme_tau_; }
//@ C20 smash::Potentials::symmetry_S_pot
double gs(const Potentials &self) { return self.symmetry_S_Pot_; }
//@ C20 smash::Potentials::saturation_density
double sd(const Potentials &self) { return self.saturation_density_; }
//@ C20 smash::Potentials::coeffs
const std::vector<double> &co(const Potentials &self) { return self.coeffs_; }
//@ C20 smash::Potentials::powers
const std::vector<double> &po(const Potentials &self) { return self.powers_; }
//@ C20 smash::Potentials::number_of_terms
int nt(const Potentials &self) { return self.powers_.size(); }
//@ C20 smash::Potentials::coulomb_r_cut
double rc(const Potentials &self) { return self.coulomb_r_cut_; }

//@ C20 smash::Potentials::momentum_dependent_part
double mompart(double p, double rho, double c, double lam) {
  const double kF = std::cbrt(1.5 * M_PI * M_PI * rho);
  const double k = p / hbarc;
  if (k < 1e-6)
    return 4 * c / (M_PI * M_PI * 0.168) * (lam * lam * kF - lam * lam * lam * std::atan(kF / lam)) / 1000;
  const double up = (k + kF) * (k + kF) + lam * lam, dn = (k - kF) * (k - kF) + lam * lam;
  return c * lam * lam * lam / (M_PI * M_PI * 0.168) *
         ((kF * kF + lam * lam - k * k) / (2 * k * lam) * std::log(up / dn) + 2 * kF / lam -
          2 * std::atan((k + kF) / lam) + 2 * std::atan((k - kF) / lam)) / 1000;
}
//@ C20 smash::Potentials::root_eq_potentials opaque=momentum_dependent_part,skyrme_pot,FourVector::lorentz_boost
double rooteq(double e, const ThreeVector &p, const FourVector &j, double m, double a, double b, double tau, double c, double lam) {
  const double rho = j.abs();
  const ThreeVector v = j.x0() > 1e-6 ? ThreeVector(j.x1() / j.x0(), j.x2() / j.x0(), j.x3() / j.x0()) : ThreeVector(0, 0, 0);
  FourVector q(e, p);
  if (v.abs() > 1e-6)
    q = q.lorentz_boost(v);
  const double k = q.threevec().abs();
  const double u = std::sqrt(m * m + k * k) + Potentials::skyrme_pot(rho, a, b, tau) + Potentials::momentum_dependent_part(k, rho, c, lam);
  return e * e - p.sqr() - u * u + k * k;
}
FourVector net(const Potentials &self, RectangularLattice<DensityOnLattice> *l, const ThreeVector &x, ParticleList &ps, bool &ok) {
  DensityOnLattice d;
  ok = true;
  if (l && l->value_at(x, d))
    return d.jmu_net();
  if (self.use_potentials_outside_lattice_)
    return std::get<1>(current_eckart(x, ps, self.param_, DensityType::Baryon, false, true));
  ok = false;
  return FourVector(0, 0, 0, 0);
}
//@ C20 smash::Potentials::calculation_frame_energy opaque=try_find_root
double energy(const Potentials &self, const ThreeVector &p, const FourVector &j, double m) {
  const Potentials *pot = &self;
  std::function<double(double)> f = [p, j, m, pot](double e) {
    return pot->root_eq_potentials(e, p, j, m, pot->skyrme_a_, pot->skyrme_b_, pot->skyrme_tau_, pot->mom_dependence_C_,
                                   pot->mom_dependence_Lambda_);
  };
  RootSolver1D solver{f};
  const double e0 = std::sqrt(m * m + p.sqr());
  // wider and wider intervals around the free energy
  for (double w : std::array<double, 4>{0.05, 0.5, 5., 50.}) {
    const auto r = solver.try_find_root(e0 - w, e0 + w, 100000);
    if (r)
      return *r;
  }
  // then a scan up to 100 GeV away, extending one side by 0.1 GeV at a time
  double lo = e0 - 0.1, hi = e0 + 0.1;
  while (true) {
    const auto r = solver.try_find_root(lo, hi, 100000);
    if (r)
      return *r;
    const bool right = hi < e0 + 100, left = lo > e0 - 100;
    if (!right && !left)
      throw std::runtime_error("");
    if (left && right) {
      if (random::uniform_int(0, 1))
        hi += 0.1;
      else
        lo -= 0.1;
    } else if (right) {
      hi += 0.1;
    } else {
      lo -= 0.1;
    }
  }
}
//@ C20 smash::Potentials::single_particle_energy_gradient opaque=current_eckart,calculation_frame_energy
ThreeVector gradE(const Potentials &self, RectangularLattice<DensityOnLattice> *l, const ThreeVector &x, const ThreeVector &p, double m, ParticleList &ps) {
  ThreeVector g;
  for (int i = 0; i < 3; i++) {
    const double h = l ? l->cell_sizes()[i] : 0.1;
    ThreeVector a = x, b = x;
    a[i] -= h;
    b[i] += h;
    bool ok;
    const FourVector ja = net(self, l, a, ps, ok);
    if (!ok)
      return ThreeVector(0, 0, 0);
    const FourVector jb = net(self, l, b, ps, ok);
    if (!ok)
      return ThreeVector(0, 0, 0);
    g[i] = (self.calculation_frame_energy(p, jb, m) - self.calculation_frame_energy(p, ja, m)) / (2 * h);
  }
  return g;
}
}  // namespace spec
