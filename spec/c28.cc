// C28: resonances decay at the right rate into their channels, everything unstable decays at the end
#include "smash/decayaction.h"
#include "smash/decayactiondilepton.h"
#include "smash/decayactionsfinder.h"
#include "smash/decayactionsfinderdilepton.h"
#include "smash/decaymodes.h"
#include "smash/kinematics.h"
#include "smash/outputinterface.h"
#include "smash/potential_globals.h"
#include "smash/processbranch.h"
#include "smash/angles.h"

namespace spec {
using namespace smash;

// ------------------------------------------------------------ process branches
//@ C28 smash::is_valid_process_type
bool validtype(int v) {
  switch (static_cast<ProcessType>(v)) {
    case ProcessType::None:
    case ProcessType::Elastic:
    case ProcessType::TwoToOne:
    case ProcessType::TwoToTwo:
    case ProcessType::TwoToThree:
    case ProcessType::TwoToFour:
    case ProcessType::TwoToFive:
    case ProcessType::Decay:
    case ProcessType::Wall:
    case ProcessType::Thermalization:
    case ProcessType::Fluidization:
    case ProcessType::FluidizationNoRemoval:
    case ProcessType::Bremsstrahlung:
    case ProcessType::MultiParticleThreeMesonsToOne:
    case ProcessType::MultiParticleThreeToTwo:
    case ProcessType::MultiParticleFourToTwo:
    case ProcessType::MultiParticleFiveToTwo:
    case ProcessType::StringSoftSingleDiffractiveAX:
    case ProcessType::StringSoftSingleDiffractiveXB:
    case ProcessType::StringSoftDoubleDiffractive:
    case ProcessType::StringSoftAnnihilation:
    case ProcessType::StringSoftNonDiffractive:
    case ProcessType::StringHard:
    case ProcessType::FailedString:
    case ProcessType::Freeforall:
      return true;
    default:
      return false;
  }
}
//@ C28 smash::is_string_soft_process
bool soft(ProcessType p) {
  switch (p) {
    case ProcessType::StringSoftSingleDiffractiveAX:
    case ProcessType::StringSoftSingleDiffractiveXB:
    case ProcessType::StringSoftDoubleDiffractive:
    case ProcessType::StringSoftAnnihilation:
    case ProcessType::StringSoftNonDiffractive:
      return true;
    default:
      return false;
  }
}
//@ C28 smash::ProcessBranch::particle_list
ParticleList plist(const ProcessBranch &self) {
  ParticleList l;
  const ParticleTypePtrList &t = self.particle_types();
  for (size_t i = 0; i < t.size(); i++)
    l.push_back(ParticleData(*t[i]));
  return l;
}
//@ C28 smash::ProcessBranch::threshold opaque=min_mass_kinematic
double threshold(const ProcessBranch &self) {
  if (self.threshold_ < 0) {
    double s = 0;
    const ParticleTypePtrList &t = self.particle_types();
    for (size_t i = 0; i < t.size(); i++)
      s += t[i]->min_mass_kinematic();
    self.threshold_ = s;
  }
  return self.threshold_;
}
//@ C28 smash::ProcessBranch::weight
double weight(const ProcessBranch &self) { return self.branch_weight_; }
//@ C28 smash::ProcessBranch::set_weight
void weight(ProcessBranch &self, double w) { self.branch_weight_ = w; }
template <typename B>
double total(const ProcessBranchList<B> &l) {
  double s = 0;
  for (size_t i = 0; i < l.size(); i++)
    s += l[i]->weight();
  return s;
}
//@ C28 smash::total_weight inst=DecayBranch
double total1(const ProcessBranchList<DecayBranch> &l) { return total<DecayBranch>(l); }
//@ C28 smash::DecayBranch::angular_momentum
int bl(const DecayBranch &self) { return self.type_.angular_momentum(); }
//@ C28 smash::DecayBranch::particle_types
const ParticleTypePtrList &btypes(const DecayBranch &self) { return self.type_.particle_types(); }
//@ C28 smash::DecayBranch::particle_number
unsigned bnum(const DecayBranch &self) { return self.type_.particle_number(); }
//@ C28 smash::DecayBranch::type
const DecayType &btype(const DecayBranch &self) { return self.type_; }
//@ C28 smash::DecayBranch::get_type
ProcessType bproc(const DecayBranch &self) { return ProcessType::Decay; }
//@ C28 smash::CollisionBranch::particle_types
const ParticleTypePtrList &ctypes(const CollisionBranch &self) { return self.particle_types_; }
//@ C28 smash::CollisionBranch::particle_number
unsigned cnum(const CollisionBranch &self) { return self.particle_types_.size(); }
//@ C28 smash::CollisionBranch::get_type
ProcessType ctype(const CollisionBranch &self) { return self.process_type_; }
//@ C28 smash::CollisionBranch::set_type
void ctype(CollisionBranch &self, ProcessType p) { self.process_type_ = p; }
struct Branch {
  double branch_weight_ = 0;
  double threshold_ = -1;
  ParticleTypePtrList particle_types_;
  ProcessType process_type_;
};
//@ C28 smash::CollisionBranch::CollisionBranch n=2
Branch cb0(double w, ProcessType p) {
  Branch b;
  b.branch_weight_ = w;
  b.process_type_ = p;
  return b;
}
//@ C28 smash::CollisionBranch::CollisionBranch n=3
Branch cb1(const ParticleType &a, double w, ProcessType p) {
  Branch x = cb0(w, p);
  x.particle_types_ = {&a};
  return x;
}
//@ C28 smash::CollisionBranch::CollisionBranch n=4
Branch cb2(const ParticleType &a, const ParticleType &b, double w, ProcessType p) {
  Branch x = cb0(w, p);
  x.particle_types_ = {&a, &b};
  return x;
}
//@ C28 smash::CollisionBranch::CollisionBranch n=5
Branch cb3(const ParticleType &a, const ParticleType &b, const ParticleType &c, double w, ProcessType p) {
  Branch x = cb0(w, p);
  x.particle_types_ = {&a, &b, &c};
  return x;
}
//@ C28 smash::CollisionBranch::CollisionBranch n=6
Branch cb4(const ParticleType &a, const ParticleType &b, const ParticleType &c, const ParticleType &d, double w, ProcessType p) {
  Branch x = cb0(w, p);
  x.particle_types_ = {&a, &b, &c, &d};
  return x;
}
//@ C28 smash::CollisionBranch::CollisionBranch n=7
Branch cb5(const ParticleType &a, const ParticleType &b, const ParticleType &c, const ParticleType &d, const ParticleType &e,
           double w, ProcessType p) {
  Branch x = cb0(w, p);
  x.particle_types_ = {&a, &b, &c, &d, &e};
  return x;
}
//@ C28 smash::CollisionBranch::CollisionBranch n=3
Branch cbl(ParticleTypePtrList l, double w, ProcessType p) {
  Branch x = cb0(w, p);
  x.particle_types_ = l;
  return x;
}

// ------------------------------------------------------------ decay action
struct Dec {
  ParticleList incoming_particles_, outgoing_particles_;
  double time_of_execution_;
  double box_length_ = -1;
  int stochastic_position_idx_ = -1;
  std::optional<bool> was_2body_phase_space_sampled_with_potentials_as_valid_;
  DecayBranchList decay_channels_;
  double total_width_;
  int L_ = 0;
  SpinInteractionType spin_interaction_type_;
};
//@ C28 smash::DecayAction::DecayAction n=3
Dec dec(const ParticleData &p, double t, SpinInteractionType s) {
  Dec d;
  d.incoming_particles_ = {p};
  d.time_of_execution_ = p.position().x0() + t;
  d.total_width_ = 0;
  d.spin_interaction_type_ = s;
  return d;
}
//@ C28 smash::DecayAction::add_decays
void add(DecayAction &self, DecayBranchList l) {
  for (size_t i = 0; i < l.size(); i++)
    if (l[i]->weight() > 0) {
      self.total_width_ += l[i]->weight();
      self.decay_channels_.push_back(std::move(l[i]));
    }
}
//@ C28 smash::DecayAction::add_decay
void add(DecayAction &self, DecayBranchPtr p) {
  if (p->weight() > 0) {
    self.total_width_ += p->weight();
    self.decay_channels_.push_back(std::move(p));
  }
}
//@ C28 smash::DecayAction::get_total_weight
double wtot(const DecayAction &self) { return self.total_width_; }
//@ C28 smash::DecayAction::get_partial_weight
double wpart(const DecayAction &self) { return self.partial_width_; }
//@ C28 smash::DecayAction::total_width
double width(const DecayAction &self) { return self.total_width_; }
//@ C28 smash::DecayAction::sample_outgoing_particles opaque=choose_channel,sample_2body_phasespace,sample_manybody_phasespace,particle_list
bool sampleout(DecayAction &self) {
  const DecayBranch *b = self.choose_channel<DecayBranch>(self.decay_channels_, self.total_width_);
  self.outgoing_particles_ = b->particle_list();
  for (size_t i = 0; i < self.outgoing_particles_.size(); i++)
    self.outgoing_particles_[i].set_4position(self.incoming_particles_[0].position());
  self.process_type_ = ProcessType::Decay;
  self.L_ = b->angular_momentum();
  self.partial_width_ = b->weight();
  if (self.outgoing_particles_.size() == 2) {
    self.sample_2body_phasespace();
    return pot_pointer ? self.was_2body_phase_space_sampled_with_potentials_as_valid_.value() : true;
  }
  if (self.outgoing_particles_.size() != 3)
    throw DecayAction::InvalidDecay("");
  self.sample_manybody_phasespace();
  return true;
}
//@ C28 smash::DecayAction::sample_2body_phasespace opaque=total_momentum_of_outgoing_particles,sample_masses,sample_angles
void two(DecayAction &self) {
  const double e = self.total_momentum_of_outgoing_particles().abs();
  const std::pair<double, double> m = self.sample_masses(e);
  if (pot_pointer)
    self.was_2body_phase_space_sampled_with_potentials_as_valid_ = !(std::isnan(m.first) || std::isnan(m.second));
  self.sample_angles(m, e);
}
//@ C28 smash::DecayAction::sample_masses opaque=min_mass_kinematic,sample_resonance_mass,sample_resonance_masses,is_stable
std::pair<double, double> masses(const DecayAction &self, double e) {
  const ParticleType &a = self.outgoing_particles_[0].type(), &b = self.outgoing_particles_[1].type();
  if (a.min_mass_kinematic() + b.min_mass_kinematic() > e) {
    if (!pot_pointer)
      throw Action::InvalidResonanceFormation("");
    return {smash_NaN<double>, smash_NaN<double>};
  }
  if (a.is_stable() && b.is_stable())
    return {a.mass(), b.mass()};
  if (a.is_stable())
    return {a.mass(), b.sample_resonance_mass(a.mass(), e, self.L_)};
  if (b.is_stable())
    return {a.sample_resonance_mass(b.mass(), e, self.L_), b.mass()};
  return a.sample_resonance_masses(b, e, self.L_);
}
//@ C28 smash::DecayAction::is_sigmastar_to_lambda_pion_decay
bool sigmastar(const ParticleData &p, const ParticleData &a, const ParticleData &b, int &l, int &pi) {
  if (!p.is_sigmastar())
    return false;
  const bool la = a.pdgcode().is_Lambda(), lb = b.pdgcode().is_Lambda();
  const bool pa = a.pdgcode().is_pion(), pb = b.pdgcode().is_pion();
  if (la && !lb && pb && !pa) {
    l = 0;
    pi = 1;
    return true;
  }
  if (lb && !la && pa && !pb) {
    l = 1;
    pi = 0;
    return true;
  }
  return false;
}
//@ C28 smash::DecayAction::generate_final_state opaque=sample_outgoing_particles,total_momentum_of_outgoing_particles,assign_unpolarized_spin_vector_to_outgoing_particles,boost_momentum,set_spin_vector,is_sigmastar_to_lambda_pion_decay,FourVector::lorentz_boost,is_heavy_flavor
void final_(DecayAction &self) {
  for (int n = 1000; n != 0; n--)
    if (self.sample_outgoing_particles())
      break;
  const ParticleData &in = self.incoming_particles_[0];
  const bool core = in.is_core();
  for (ParticleData &p : self.outgoing_particles_) {
    p.set_formation_time(self.time_of_execution_);
    p.boost_momentum(-self.total_momentum_of_outgoing_particles().velocity());
    if (core)
      p.fluidize();
    if (p.pdgcode().is_heavy_flavor())
      p.set_perturbative_weight(in.perturbative_weight());
  }
  if (self.spin_interaction_type_ == SpinInteractionType::Off)
    return;
  int l = -1, pi = -1;
  if (self.outgoing_particles_.size() == 2 &&
      DecayAction::is_sigmastar_to_lambda_pion_decay(in, self.outgoing_particles_[0], self.outgoing_particles_[1], l, pi)) {
    ParticleData &lam = self.outgoing_particles_[l];
    lam.set_spin_vector(in.spin_vector().lorentz_boost(lam.velocity()));
    self.outgoing_particles_[pi].set_spin_vector(FourVector(0, 0, 0, 0));
  } else {
    self.assign_unpolarized_spin_vector_to_outgoing_particles();
  }
}

// ------------------------------------------------------------ finder
struct Find {
  double res_lifetime_factor_;
  bool do_final_non_strong_decays_, find_final_decays_;
  SpinInteractionType spin_interaction_type_;
  bool decay_initial_particles_;
};
//@ C28 smash::DecayActionsFinder::DecayActionsFinder n=4
Find finder(double f, bool nonstrong, bool force, SpinInteractionType s) {
  Find x;
  x.res_lifetime_factor_ = f;
  x.do_final_non_strong_decays_ = nonstrong;
  x.find_final_decays_ = force;
  x.spin_interaction_type_ = s;
  x.decay_initial_particles_ = InputKeys::collTerm_decayInitial.default_value();
  return x;
}
//@ C28 smash::DecayActionsFinder::find_actions_in_cell opaque=get_partial_widths,add_decays,is_stable,inverse_gamma
ActionList find(const DecayActionsFinder &self, const ParticleList &l, double dt, const double, const std::vector<FourVector> &) {
  ActionList out;
  for (size_t i = 0; i < l.size(); i++) {
    const ParticleData &p = l[i];
    if (p.type().is_stable())
      continue;
    if (p.get_history().collisions_per_particle == 0 && !self.decay_initial_particles_)
      continue;
    DecayBranchList b = p.type().get_partial_widths(p.momentum(), p.position().threevec(), WhichDecaymodes::Hadronic);
    const double w = total<DecayBranch>(b);
    if (!(w > 0))
      continue;
    double t = random::exponential<double>(w * p.inverse_gamma() / hbarc) * self.res_lifetime_factor_;
    if (p.xsec_scaling_factor() < 1)
      t += p.formation_time() - p.position().x0();
    if (!(t < dt))
      continue;
    auto a = std::make_unique<DecayAction>(p, t, self.spin_interaction_type_);
    a->add_decays(std::move(b));
    out.push_back(std::move(a));
  }
  return out;
}
//@ C28 smash::DecayActionsFinder::find_final_actions opaque=get_partial_widths,add_decays,is_stable,decay_modes
ActionList findfinal(const DecayActionsFinder &self, const Particles &l) {
  ActionList out;
  if (!self.find_final_decays_)
    return out;
  for (const ParticleData &p : l) {
    if (p.type().is_stable() && !self.do_final_non_strong_decays_)
      continue;
    if (p.type().decay_modes().is_empty())
      continue;
    auto a = std::make_unique<DecayAction>(p, 0., self.spin_interaction_type_);
    a->add_decays(p.type().get_partial_widths(p.momentum(), p.position().threevec(), WhichDecaymodes::All));
    out.push_back(std::move(a));
  }
  return out;
}

// ------------------------------------------------------------ dileptons
struct DecDil {
  ParticleList incoming_particles_, outgoing_particles_;
  double time_of_execution_;
  double box_length_ = -1;
  int stochastic_position_idx_ = -1;
  std::optional<bool> was_2body_phase_space_sampled_with_potentials_as_valid_;
  DecayBranchList decay_channels_;
  double total_width_ = 0;
  int L_ = 0;
  SpinInteractionType spin_interaction_type_ = SpinInteractionType::Off;
  double shining_weight_;
  double branching_ = 1;
};
//@ C28 smash::DecayActionDilepton::DecayActionDilepton n=3
DecDil decdil(const ParticleData &p, double t, double w) {
  DecDil d;
  d.incoming_particles_ = {p};
  d.time_of_execution_ = p.position().x0() + t;
  d.shining_weight_ = w;
  return d;
}
//@ C28 smash::DecayActionDilepton::get_total_weight
double wdil(const DecayActionDilepton &self) { return self.branching_ * self.shining_weight_; }
//@ C28 smash::DecayActionDilepton::sample_manybody_phasespace opaque=total_momentum_of_outgoing_particles,diff_width,pCM,distribute_isotropically,boost_momentum,is_lepton
void dalitz(DecayActionDilepton &self) {
  if (self.outgoing_particles_.size() != 3)
    throw std::runtime_error("");
  int k = -1;
  for (int i = 2; i >= 0; i--)
    if (!self.outgoing_particles_[i].type().is_lepton())
      k = i;
  if (k < 0)
    throw std::runtime_error("");
  ParticleData &h = self.outgoing_particles_[k];
  ParticleData &a = self.outgoing_particles_[(k + 1) % 3];
  ParticleData &b = self.outgoing_particles_[(k + 2) % 3];
  const double ma = a.type().mass(), mb = b.type().mass(), mh = h.type().mass();
  const double e = self.total_momentum_of_outgoing_particles().abs();
  const double m = random::uniform(ma + mb, e - mh);
  const double dg = ThreeBodyDecayDilepton::diff_width(e, ma, m, mh, &h.type(), &self.incoming_particles_[0].type());
  self.branching_ = (e - mh - ma - mb) * dg / self.decay_channels_[0]->weight();
  const double p = pCM(e, m, mh);
  Angles ang;
  ang.distribute_isotropically();
  const ThreeVector n = ang.threevec();
  const FourVector q(std::sqrt(m * m + p * p), n * p);
  h.set_4momentum(mh, n * (-p));
  const double k2 = pCM(m, ma, mb);
  ang.distribute_isotropically();
  const ThreeVector n2 = ang.threevec();
  a.set_4momentum(ma, n2 * k2);
  b.set_4momentum(mb, n2 * (-k2));
  a.boost_momentum(-q.velocity());
  b.boost_momentum(-q.velocity());
}
void emit(const ParticleData &p, double w, DecayBranchPtr &b, OutputInterface *out) {
  if (!(w > 0))
    return;
  DecayActionDilepton a(p, 0., w);
  a.add_decay(std::move(b));
  a.generate_final_state();
  out->at_interaction(a, 0.);
}
//@ C28 smash::DecayActionsFinderDilepton::shine opaque=get_partial_widths,add_decay,is_stable,inverse_gamma,generate_final_state
void shine(const DecayActionsFinderDilepton &self, const Particles &l, OutputInterface *out, double dt) {
  if (!out->is_dilepton_output())
    return;
  for (const ParticleData &p : l) {
    const size_t n = p.type().get_partial_widths(p.momentum(), p.position().threevec(), WhichDecaymodes::All).size();
    if (n == 0)
      continue;
    const double g = p.inverse_gamma();
    DecayBranchList d = p.type().get_partial_widths(p.momentum(), p.position().threevec(), WhichDecaymodes::Dileptons);
    if (d.size() == n || p.type().is_stable() || p.is_core())
      continue;
    for (DecayBranchPtr &b : d)
      emit(p, dt * g * b->weight() * p.xsec_scaling_factor() / hbarc, b, out);
  }
}
//@ C28 smash::DecayActionsFinderDilepton::shine_final opaque=get_partial_widths,add_decay,is_stable,decay_modes,generate_final_state,decay_mode_list
void shinefinal(const DecayActionsFinderDilepton &self, const Particles &l, OutputInterface *out, bool res) {
  if (!out->is_dilepton_output())
    return;
  for (const ParticleData &p : l) {
    if (p.type().decay_modes().decay_mode_list().empty())
      continue;
    if (p.is_core() || (res && p.type().is_stable()))
      continue;
    DecayBranchList d = p.type().get_partial_widths(p.momentum(), p.position().threevec(), WhichDecaymodes::Dileptons);
    const double w = total<DecayBranch>(p.type().get_partial_widths(p.momentum(), p.position().threevec(), WhichDecaymodes::All));
    for (DecayBranchPtr &b : d)
      emit(p, b->weight() / w, b, out);
  }
}
}  // namespace spec
