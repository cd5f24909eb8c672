// The state of one particle: what is copied, set and derived.
#include "smash/constants.h"
#include "smash/logging.h"
#include "smash/numerics.h"
#include "smash/particledata.h"
#include "smash/particletype.h"

using namespace smash;
namespace spec {

//@ C02 smash::ParticleData::copy_to
void copy_to(const ParticleData &self, ParticleData &dst) {
  dst.perturbative_weight_ = self.perturbative_weight_;
  dst.core_ = self.core_;
  dst.belongs_to_ = self.belongs_to_;
  dst.begin_formation_time_ = self.begin_formation_time_;
  dst.formation_time_ = self.formation_time_;
  dst.initial_xsec_scaling_factor_ = self.initial_xsec_scaling_factor_;
  dst.position_ = self.position_;
  dst.momentum_ = self.momentum_;
  dst.spin_vector_ = self.spin_vector_;
  dst.history_ = self.history_;
}

//@ C02 smash::ParticleData::id
int id(const ParticleData &self) { return self.id_; }
//@ C02 smash::ParticleData::set_id
void set_id(ParticleData &self, int i) { self.id_ = i; }
//@ C02 smash::ParticleData::pdgcode
PdgCode pdgcode(const ParticleData &self) { return self.type_->pdgcode_; }
//@ C02 smash::ParticleData::pole_mass
double pole_mass(const ParticleData &self) { return self.type_->mass_; }
//@ C02 smash::ParticleData::type
const ParticleType &type(const ParticleData &self) { return *self.type_; }
//@ C02 smash::ParticleData::id_process
unsigned id_process(const ParticleData &self) { return self.history_.id_process; }
//@ C02 smash::ParticleData::get_history
HistoryData get_history(const ParticleData &self) { return self.history_; }
//@ C02 smash::ParticleData::momentum
const FourVector &momentum(const ParticleData &self) { return self.momentum_; }
//@ C02 smash::ParticleData::position
const FourVector &position(const ParticleData &self) { return self.position_; }
//@ C02 smash::ParticleData::formation_time
double formation_time(const ParticleData &self) { return self.formation_time_; }
//@ C02 smash::ParticleData::begin_formation_time
double begin_formation_time(const ParticleData &self) {
  return self.begin_formation_time_;
}
//@ C02 smash::ParticleData::initial_xsec_scaling_factor
const double &initial_scaling(const ParticleData &self) {
  return self.initial_xsec_scaling_factor_;
}
//@ C02 smash::ParticleData::set_cross_section_scaling_factor
void set_scaling(ParticleData &self, const double &f) {
  self.initial_xsec_scaling_factor_ = f;
}
//@ C02 smash::ParticleData::spin_vector const=1
const FourVector &spin_vector(const ParticleData &self) {
  return self.spin_vector_;
}
//@ C02 smash::ParticleData::set_spin_vector
void set_spin_vector(ParticleData &self, const FourVector &s) {
  self.spin_vector_ = s;
}
//@ C02 smash::ParticleData::set_spin_vector_component
void set_spin_component(ParticleData &self, int i, double v) {
  if (i >= 0 && i <= 3)
    self.spin_vector_[i] = v;
  else
    throw std::out_of_range("Invalid spin vector component index");
}
//@ C02 smash::ParticleData::set_belongs_to
void set_belongs_to(ParticleData &self, BelongsTo l) { self.belongs_to_ = l; }
//@ C02 smash::ParticleData::belongs_to
BelongsTo belongs_to(const ParticleData &self) { return self.belongs_to_; }
//@ C02 smash::ParticleData::fluidize
void fluidize(ParticleData &self) { self.core_ = true; }
//@ C02 smash::ParticleData::is_core
bool is_core(const ParticleData &self) { return self.core_; }
//@ C02 smash::ParticleData::hyperbolic_time
double hyperbolic_time(const ParticleData &self) { return self.position_.tau(); }
//@ C02 smash::ParticleData::spatial_rapidity
double spatial_rapidity(const ParticleData &self) { return self.position_.eta(); }
//@ C02 smash::ParticleData::transverse_mass
double transverse_mass(const ParticleData &self) { return self.momentum_.tau(); }
//@ C02 smash::ParticleData::rapidity
double rapidity(const ParticleData &self) { return self.momentum_.eta(); }
//@ C02 smash::ParticleData::set_perturbative_weight
void set_weight(ParticleData &self, const double w) {
  self.perturbative_weight_ = w;
}
//@ C02 smash::ParticleData::perturbative_weight
double weight(const ParticleData &self) { return self.perturbative_weight_; }
//@ C02 smash::ParticleData::spin
int spin(const ParticleData &self) { return self.type_->pdgcode_.spin(); }
//@ C02 smash::ParticleData::is_hadron
bool is_hadron(const ParticleData &self) { return self.type_->is_hadron(); }
//@ C02 smash::ParticleData::is_baryon
bool is_baryon(const ParticleData &self) { return self.pdgcode().is_baryon(); }
//@ C02 smash::ParticleData::is_nucleus
bool is_nucleus(const ParticleData &self) { return self.pdgcode().is_nucleus(); }
//@ C02 smash::ParticleData::is_rho
bool is_rho(const ParticleData &self) { return self.type_->is_rho(); }
//@ C02 smash::ParticleData::is_proton
bool is_proton(const ParticleData &self) { return self.pdgcode().is_proton(); }
//@ C02 smash::ParticleData::is_neutron
bool is_neutron(const ParticleData &self) { return self.pdgcode().is_neutron(); }
//@ C02 smash::ParticleData::is_pion
bool is_pion(const ParticleData &self) { return self.pdgcode().is_pion(); }
//@ C02 smash::ParticleData::is_sigmastar
bool is_sigmastar(const ParticleData &self) {
  return self.pdgcode().is_Sigmastar();
}

//@ C02 smash::ParticleData::set_4momentum sig=FourVector
void set_4momentum(ParticleData &self, const FourVector &p) {
  self.momentum_ = p;
}
//@ C02 smash::ParticleData::set_4momentum sig=double,ThreeVector
void set_4momentum_m(ParticleData &self, double m, const ThreeVector &p) {
  // on the mass shell
  const double e2 = m * m + p.x1() * p.x1() + p.x2() * p.x2() + p.x3() * p.x3();
  self.momentum_ = FourVector(std::sqrt(e2), p.x1(), p.x2(), p.x3());
}
//@ C02 smash::ParticleData::set_4momentum n=4
void set_4momentum_c(ParticleData &self, double m, double x, double y, double z) {
  self.momentum_ = FourVector(std::sqrt(m * m + (x * x + y * y + z * z)), x, y, z);
}
//@ C02 smash::ParticleData::set_3momentum
void set_3momentum(ParticleData &self, const ThreeVector &p) {
  self.momentum_ = FourVector(self.momentum_.x0(), p.x1(), p.x2(), p.x3());
}
//@ C02 smash::ParticleData::set_4position
void set_4position(ParticleData &self, const FourVector &x) {
  self.position_ = x;
}
//@ C02 smash::ParticleData::set_3position
void set_3position(ParticleData &self, const ThreeVector &x) {
  self.position_ = FourVector(self.position_.x0(), x.x1(), x.x2(), x.x3());
}
//@ C02 smash::ParticleData::translated
ParticleData translated(const ParticleData &self, const ThreeVector &d) {
  ParticleData moved(self);
  const FourVector x = self.position_;
  moved.position_ = FourVector(x.x0(), x.x1() + d.x1(), x.x2() + d.x2(), x.x3() + d.x3());
  return moved;
}
//@ C02 smash::ParticleData::velocity
ThreeVector velocity(const ParticleData &self) {
  const FourVector p = self.momentum_;
  return ThreeVector(p.x1() / p.x0(), p.x2() / p.x0(), p.x3() / p.x0());
}
//@ C02 smash::ParticleData::inverse_gamma
double inverse_gamma(const ParticleData &self) {
  const FourVector p = self.momentum_;
  const double v2 = (p.x1() * p.x1() + p.x2() * p.x2() + p.x3() * p.x3()) / (p.x0() * p.x0());
  return std::sqrt(1 - v2);
}
//@ C02 smash::ParticleData::boost
void boost(ParticleData &self, const ThreeVector &v) {
  self.position_ = self.position_.lorentz_boost(v);
  self.momentum_ = self.momentum_.lorentz_boost(v);
}
//@ C02 smash::ParticleData::boost_momentum
void boost_momentum(ParticleData &self, const ThreeVector &v) {
  self.momentum_ = self.momentum_.lorentz_boost(v);
}
//@ C02 smash::ParticleData::effective_mass
double effective_mass(const ParticleData &self) {
  const double pole = self.type_->mass_;
  return pole < really_small ? pole : self.momentum_.abs();
}

//@ C02 smash::ParticleData::operator== sig=ParticleData
bool same(const ParticleData &self, const ParticleData &a) {
  return a.id_ == self.id_;
}
//@ C02 smash::ParticleData::operator== sig=int
bool same_id(const ParticleData &self, int a) { return a == self.id_; }
//@ C02 smash::ParticleData::operator< sig=ParticleData
bool before(const ParticleData &self, const ParticleData &a) {
  return a.id_ > self.id_;
}
//@ C02 smash::ParticleData::operator< sig=int
bool before_id(const ParticleData &self, int a) { return a > self.id_; }

//@ C02 smash::ParticleData::set_formation_time
void set_formation_time(ParticleData &self, double t) {
  if (std::isnan(self.history_.time_last_collision))
    self.history_.time_last_collision = t;
  self.begin_formation_time_ = t;
  self.formation_time_ = t;
}
//@ C02 smash::ParticleData::set_slow_formation_times
void set_slow(ParticleData &self, double begin, double end) {
  if (std::isnan(self.history_.time_last_collision))
    self.history_.time_last_collision = end;
  self.begin_formation_time_ = begin;
  self.formation_time_ = end;
}
//@ C02 smash::ParticleData::set_history n=1
void set_history_whole(ParticleData &self, HistoryData &&h) { self.history_ = h; }

// What a particle remembers of the process that made or changed it: wall
// crossings and in-place fluidization do not count as collisions; a decay has
// one parent, two-body scatterings have two, elastic ones keep those from
// before, the rest have none.
//@ C02 smash::ParticleData::set_history n=5
void set_history(ParticleData &self, int ncoll, unsigned pid, ProcessType pt,
                 double t, const ParticleList &parents) {
  self.history_.process_type = pt;
  self.history_.id_process = pid;
  const bool counts = pt != ProcessType::Wall &&
                      pt != ProcessType::FluidizationNoRemoval;
  if (counts) {
    self.history_.time_last_collision = t;
    self.history_.collisions_per_particle = ncoll;
  }
  if (pt == ProcessType::Decay || pt == ProcessType::Wall) {
    self.history_.p1 = parents[0].type_->pdgcode_;
    self.history_.p2 = 0x0;
  } else if (pt == ProcessType::TwoToOne || pt == ProcessType::TwoToTwo ||
             pt == ProcessType::TwoToThree || pt == ProcessType::TwoToFour ||
             pt == ProcessType::TwoToFive ||
             pt == ProcessType::StringSoftSingleDiffractiveAX ||
             pt == ProcessType::StringSoftSingleDiffractiveXB ||
             pt == ProcessType::StringSoftDoubleDiffractive ||
             pt == ProcessType::StringSoftAnnihilation ||
             pt == ProcessType::StringSoftNonDiffractive ||
             pt == ProcessType::StringHard ||
             pt == ProcessType::Bremsstrahlung) {
    self.history_.p1 = parents[0].type_->pdgcode_;
    self.history_.p2 = parents[1].type_->pdgcode_;
  } else if (pt == ProcessType::None || pt == ProcessType::Freeforall ||
             pt == ProcessType::Thermalization ||
             pt == ProcessType::MultiParticleThreeMesonsToOne ||
             pt == ProcessType::MultiParticleThreeToTwo ||
             pt == ProcessType::MultiParticleFourToTwo ||
             pt == ProcessType::MultiParticleFiveToTwo) {
    self.history_.p1 = 0x0;
    self.history_.p2 = 0x0;
  }
}

// fraction of the full cross section a forming particle has at a given time
//@ C02 smash::ParticleData::xsec_scaling_factor
double xsec_scaling(const ParticleData &self, double dt) {
  const double begin = self.begin_formation_time_, end = self.formation_time_;
  const double f0 = self.initial_xsec_scaling_factor_;
  const double power = ParticleData::formation_power_;
  if (std::isnan(begin) || std::isnan(end))
    return smash_NaN<double>;
  const double t = self.position_.x0() + dt;
  if (t >= end)
    return 1.;
  if (power <= 0. || t <= begin)
    return f0;
  return f0 + (1. - f0) * std::pow((t - begin) / (end - begin), power);
}

//@ C02 smash::ParticleData::set_unpolarized_spin_vector
void unpolarized(ParticleData &self) {
  if (self.type_->mass_ == 0. || self.type_->pdgcode_.spin() == 0) {
    self.spin_vector_ = FourVector(0., 0., 0., 0.);
  } else {
    const double sx = random::normal(0., 0.75);
    const double sy = random::normal(0., 0.75);
    const double sz = random::normal(0., 0.75);
    self.spin_vector_ = FourVector(0., sx, sy, sz).lorentz_boost(self.velocity());
  }
}

// particles read from files: a stable particle gets the mass of its species,
// others keep the given mass; the momentum is put on that mass shell
//@ C02 smash::create_valid_smash_particle_matching_provided_quantities
ParticleData create_valid(PdgCode pdgcode, double mass, const FourVector &x,
                          const FourVector &p, int log_area, bool &warn_mass,
                          bool &warn_shell) {
  if (is_any_nan(x) || is_any_nan(p)) {
    throw std::invalid_argument("");
  }
  ParticleData made(ParticleType::find(pdgcode));
  const double pole = made.type_->mass_;
  if (made.type_->is_stable() && std::abs(mass - pole) > really_small) {
    warn_mass = false;
    made.set_4momentum(pole, p.threevec());
  } else if (std::abs(p.sqr() - mass * mass) > really_small) {
    warn_shell = false;
    made.set_4momentum(mass, p.threevec());
  } else {
    made.momentum_ = p;
  }
  made.position_ = x;
  made.set_formation_time(x.x0());
  made.initial_xsec_scaling_factor_ = 1.;
  return made;
}

//@ C02 smash::are_particles_identical_at_given_time
bool identical_at(const ParticleData &a, const ParticleData &b, double t) {
  if (!(a.type_->pdgcode_ == b.type_->pdgcode_) || a.momentum_ != b.momentum_)
    return false;
  const FourVector xa = a.position_ + FourVector(1., a.velocity()) * (t - a.position_.x0());
  const FourVector xb = b.position_ + FourVector(1., b.velocity()) * (t - b.position_.x0());
  return xa == xb;
}

}  // namespace spec
