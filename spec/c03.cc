// C03: interactions are performed consistently; C04: they are performed in time order
#include "smash/action.h"
#include "smash/actions.h"
#include "smash/angles.h"
#include "smash/kinematics.h"
#include "smash/pauliblocking.h"
#include "smash/potential_globals.h"
#include "smash/quantumnumbers.h"
#include "smash/wallcrossingaction.h"
#include "smash/freeforallaction.h"

namespace spec {
using namespace smash;

struct Act {
  ParticleList incoming_particles_, outgoing_particles_;
  double time_of_execution_;
  ProcessType process_type_;
  double box_length_;
  int stochastic_position_idx_;
};
//@ C03 smash::Action::Action n=4 sig=ParticleData,ParticleData,double,ProcessType
Act act1(const ParticleData &a, const ParticleData &b, double t, ProcessType k) {
  Act x;
  x.incoming_particles_ = {a};
  x.outgoing_particles_ = {b};
  x.time_of_execution_ = a.position().x0() + t;
  x.process_type_ = k;
  x.box_length_ = -1;
  x.stochastic_position_idx_ = -1;
  return x;
}
//@ C03 smash::Action::Action n=4 sig=vector,vector,double,ProcessType
Act act2(const ParticleList &a, const ParticleList &b, double t, ProcessType k) {
  Act x;
  x.incoming_particles_ = a;
  x.outgoing_particles_ = b;
  x.time_of_execution_ = t;
  x.process_type_ = k;
  x.box_length_ = -1;
  x.stochastic_position_idx_ = -1;
  return x;
}
//@ C03 smash::Action::get_type
ProcessType type(const Action &self) { return self.process_type_; }
//@ C03 smash::Action::incoming_particles
const ParticleList &in(const Action &self) { return self.incoming_particles_; }
//@ C03 smash::Action::outgoing_particles
const ParticleList &out(const Action &self) { return self.outgoing_particles_; }
//@ C03 smash::Action::time_of_execution
double time(const Action &self) { return self.time_of_execution_; }
//@ C03 smash::Action::total_momentum
FourVector total(const Action &self) {
  FourVector s(0, 0, 0, 0);
  for (const ParticleData &p : self.incoming_particles_)
    s += p.momentum();
  return s;
}
//@ C03 smash::Action::sqrt_s opaque=total_momentum
double sqrts(const Action &self) { return self.total_momentum().abs(); }
//@ C03 smash::Action::lambda_tilde
double lambda(double a, double b, double c) {
  const double r = a * a + b * b + c * c - 2 * a * b - 2 * a * c - 2 * b * c;
  return r < 0 ? 0 : r;
}
//@ C03 smash::Action::is_valid opaque=Particles::is_valid
bool valid(const Action &self, const Particles &ps) {
  for (const ParticleData &p : self.incoming_particles_)
    if (!ps.is_valid(p))
      return false;
  return true;
}
//@ C03 smash::Action::update_incoming opaque=Particles::lookup
void update(Action &self, const Particles &ps) {
  for (size_t i = 0; i < self.incoming_particles_.size(); i++)
    self.incoming_particles_[i] = ps.lookup(self.incoming_particles_[i]);
}
//@ C03 smash::Action::is_pauli_blocked
bool blocked(const Action &self, const std::vector<Particles> &ens, const PauliBlocker &pb) {
  if (self.process_type_ == ProcessType::Wall)
    return false;
  for (const ParticleData &p : self.outgoing_particles_) {
    if (!p.is_baryon())
      continue;
    const double f = pb.phasespace_dens(p.position().threevec(), p.momentum().threevec(), ens, p.pdgcode(), self.incoming_particles_);
    if (random::uniform(0., 1.) < f)
      return true;
  }
  return false;
}
ThreeVector at(const ParticleData &p, double t) {
  const double dt = t - p.position().x0();
  const ThreeVector x = p.position().threevec(), v = p.velocity();
  return ThreeVector(x[0] + v[0] * dt, x[1] + v[1] * dt, x[2] + v[2] * dt);
}
//@ C03 smash::Action::get_interaction_point
FourVector point(const Action &self) {
  if (self.stochastic_position_idx_ >= 0)
    return self.incoming_particles_[self.stochastic_position_idx_].position();
  const double t = self.time_of_execution_;
  std::vector<ThreeVector> x;
  for (const ParticleData &p : self.incoming_particles_)
    x.push_back(at(p, t));
  ThreeVector s(0, 0, 0);
  for (const ThreeVector &y : x)
    s += y;
  s = s / x.size();
  if (self.box_length_ > 0) {
    const double half = self.box_length_ / 2;
    for (int i = 0; i < 3; i++)
      if (std::abs(x[0][i] - x[1][i]) > half)
        s[i] += s[i] >= half ? -half : half;
  }
  return FourVector(t, s[0], s[1], s[2]);
}
//@ C03 smash::Action::get_potential_at_interaction_point opaque=get_interaction_point,value_at
std::pair<FourVector, FourVector> potentials(const Action &self) {
  FourVector b, i;
  const FourVector x = self.get_interaction_point();
  const ThreeVector r(x.x1(), x.x2(), x.x3());
  if (UB_lat_pointer)
    UB_lat_pointer->value_at(r, b);
  if (UI3_lat_pointer)
    UI3_lat_pointer->value_at(r, i);
  return {b, i};
}
//@ C03 smash::Action::perform opaque=Particles::update,check_conservation,set_history
double perform(Action &self, Particles *ps, uint32_t id) {
  const ProcessType k = self.process_type_;
  if (k != ProcessType::Wall && k != ProcessType::FluidizationNoRemoval)
    for (ParticleData &p : self.outgoing_particles_)
      p.set_history(1 + p.get_history().collisions_per_particle, id, k, self.time_of_execution_, self.incoming_particles_);
  ps->update(self.incoming_particles_, self.outgoing_particles_,
             !(k == ProcessType::Elastic || k == ProcessType::Wall || k == ProcessType::FluidizationNoRemoval));
  if (UB_lat_pointer || UI3_lat_pointer)
    return 0;
  return self.check_conservation(id);
}
//@ C03 smash::Action::total_momentum_of_outgoing_particles opaque=get_potential_at_interaction_point,force_scale,total_momentum,isospin3_rel
FourVector totalOut(const Action &self) {
  const auto u = self.get_potential_at_interaction_point();
  double b = 0, i = 0;
  if (pot_pointer != nullptr) {
    for (const ParticleData &p : self.incoming_particles_) {
      const auto f = pot_pointer->force_scale(p.type());
      b += f.first;
      i += f.second * p.type().isospin3_rel();
    }
    for (const ParticleData &p : self.outgoing_particles_) {
      const auto f = pot_pointer->force_scale(p.type());
      b -= f.first;
      i -= f.second * p.type().isospin3_rel();
    }
  }
  return self.total_momentum() + b * u.first + i * u.second;
}
//@ C03 smash::Action::sample_masses opaque=min_mass_kinematic,sample_resonance_mass,sample_resonance_masses,is_stable
std::pair<double, double> masses(const Action &self, const double e) {
  const ParticleType &a = self.outgoing_particles_[0].type(), &b = self.outgoing_particles_[1].type();
  if (e < a.min_mass_kinematic() + b.min_mass_kinematic())
    throw Action::InvalidResonanceFormation("");
  if (a.is_stable() && b.is_stable())
    return {a.mass(), b.mass()};
  if (a.is_stable())
    return {a.mass(), b.sample_resonance_mass(a.mass(), e)};
  if (b.is_stable())
    return {a.sample_resonance_mass(b.mass(), e), b.mass()};
  return a.sample_resonance_masses(b, e);
}
//@ C03 smash::Action::sample_angles opaque=pCM,distribute_isotropically
void angles(Action &self, std::pair<double, double> m, const double e) {
  Angles d;
  const double p = smash::pCM(e, m.first, m.second);
  d.distribute_isotropically();
  const ThreeVector n = d.threevec();
  self.outgoing_particles_[0].set_4momentum(m.first, ThreeVector(p * n[0], p * n[1], p * n[2]));
  self.outgoing_particles_[1].set_4momentum(m.second, ThreeVector(-p * n[0], -p * n[1], -p * n[2]));
}
//@ C03 smash::Action::sample_2body_phasespace opaque=total_momentum_of_outgoing_particles
void twobody(Action &self) {
  const double e = self.total_momentum_of_outgoing_particles().abs();
  self.sample_angles(self.sample_masses(e), e);
}
//@ C03 smash::Action::sample_manybody_phasespace opaque=sample_manybody_phasespace_impl,sqrt_s,is_stable
void manybody(Action &self) {
  const size_t n = self.outgoing_particles_.size();
  if (n < 3)
    throw std::invalid_argument("");
  for (const ParticleData &p : self.outgoing_particles_)
    if (!p.type().is_stable())
      throw std::invalid_argument("");
  std::vector<double> m(n);
  std::vector<FourVector> p(n);
  for (size_t i = 0; i < n; i++)
    m[i] = self.outgoing_particles_[i].type().mass();
  Action::sample_manybody_phasespace_impl(self.sqrt_s(), m, p);
  for (size_t i = 0; i < n; i++)
    self.outgoing_particles_[i].set_4momentum(p[i]);
}
//@ C03 smash::Action::assign_unpolarized_spin_vector_to_outgoing_particles
void unpolarized(Action &self) {
  for (ParticleData &p : self.outgoing_particles_)
    p.set_unpolarized_spin_vector();
}
//@ C03 smash::Action::set_stochastic_pos_idx
void pick(Action &self) { self.stochastic_position_idx_ = random::uniform_int(0, static_cast<int>(self.incoming_particles_.size()) - 1); }
//@ C03 smash::Action::assign_formation_time_to_outgoing_particles opaque=set_slow_formation_times
void formation(Action &self) {
  const ParticleList &in = self.incoming_particles_;
  bool same = true;
  for (size_t i = 1; i < in.size(); i++)
    if (!(std::abs(in[0].formation_time() - in[i].formation_time()) < 1e-6))
      same = false;
  const ParticleData &last = same ? *std::min_element(in.begin(), in.end(),
                                                      [](const ParticleData &a, const ParticleData &b) {
                                                        return a.initial_xsec_scaling_factor() < b.initial_xsec_scaling_factor();
                                                      })
                                  : *std::max_element(in.begin(), in.end(), [](const ParticleData &a, const ParticleData &b) {
                                      return a.formation_time() < b.formation_time();
                                    });
  const double begin = last.begin_formation_time(), sc = last.initial_xsec_scaling_factor(), end = last.formation_time();
  for (ParticleData &p : self.outgoing_particles_) {
    const double s = p.initial_xsec_scaling_factor();
    if (end <= self.time_of_execution_) {
      if (s == 1)
        p.set_formation_time(self.time_of_execution_);
    } else if (s < 1) {  // still to be formed itself
      p.set_cross_section_scaling_factor(s * sc);
      if (p.formation_time() < end)
        p.set_slow_formation_times(self.time_of_execution_, end);
    } else {
      p.set_slow_formation_times(begin, end);
      p.set_cross_section_scaling_factor(sc);
    }
  }
}
//@ C03 smash::Action::check_conservation opaque=QuantumNumbers::operator!=,QuantumNumbers::operator==,report_deviations,is_stable
double conservation(const Action &self, const uint32_t id) {
  const QuantumNumbers a(self.incoming_particles_), b(self.outgoing_particles_);
  if (!(a != b))
    return 0;
  const ProcessType k = self.process_type_;
  if (k == ProcessType::StringHard || is_string_soft_process(k))
    return b.momentum()[0] - a.momentum()[0];
  if (k == ProcessType::Freeforall)
    return 0;
  if (k == ProcessType::Decay && self.incoming_particles_[0].type().is_stable())
    return 0;
  throw std::runtime_error("");
}
struct ActIn {
  ParticleList incoming_particles_, outgoing_particles_;
  double time_of_execution_;
  double box_length_;
  int stochastic_position_idx_;
};
//@ C03 smash::Action::Action n=2 sig=vector,double
ActIn act3(const ParticleList &a, double t) {
  ActIn x;
  x.incoming_particles_ = a;
  x.time_of_execution_ = a[0].position().x0() + t;
  x.box_length_ = -1;
  x.stochastic_position_idx_ = -1;
  return x;
}
template <typename B>
void addBranch(ProcessBranchPtr<B> &p, ProcessBranchList<B> &l, double &w) {
  if (!(p->weight() > 0))
    return;
  w += p->weight();
  l.push_back(std::move(p));
}
//@ C03 smash::Action::add_process inst=DecayBranch
void add1(Action &self, ProcessBranchPtr<DecayBranch> &p, ProcessBranchList<DecayBranch> &l, double &w) { addBranch<DecayBranch>(p, l, w); }
//@ C03 smash::Action::add_process inst=CollisionBranch
void add2(Action &self, ProcessBranchPtr<CollisionBranch> &p, ProcessBranchList<CollisionBranch> &l, double &w) { addBranch<CollisionBranch>(p, l, w); }
template <typename B>
void addBranches(ProcessBranchList<B> &n, ProcessBranchList<B> &l, double &w) {
  for (size_t i = 0; i < n.size(); i++)
    addBranch<B>(n[i], l, w);
}
//@ C03 smash::Action::add_processes inst=DecayBranch
void adds1(Action &self, ProcessBranchList<DecayBranch> p, ProcessBranchList<DecayBranch> &l, double &w) { addBranches<DecayBranch>(p, l, w); }
//@ C03 smash::Action::add_processes inst=CollisionBranch
void adds2(Action &self, ProcessBranchList<CollisionBranch> p, ProcessBranchList<CollisionBranch> &l, double &w) { addBranches<CollisionBranch>(p, l, w); }
template <typename B>
const B *choose(const ProcessBranchList<B> &l, double w) {
  const double x = random::uniform(0., w);
  double sum = 0;
  for (size_t i = 0; i < l.size(); i++) {
    sum += l[i]->weight();
    if (sum >= x)
      return l[i].get();
  }
  std::abort();
}
//@ C03 smash::Action::choose_channel inst=DecayBranch
const DecayBranch *choose1(Action &self, const ProcessBranchList<DecayBranch> &l, double w) { return choose<DecayBranch>(l, w); }
//@ C03 smash::Action::choose_channel inst=CollisionBranch
const CollisionBranch *choose2(Action &self, const ProcessBranchList<CollisionBranch> &l, double w) { return choose<CollisionBranch>(l, w); }
//@ C04 smash::Action::operator<
bool earlier(const Action &self, const Action &o) { return self.time_of_execution_ < o.time_of_execution_; }
//@ C04 smash::Actions::cmp
bool later(const ActionPtr &a, const ActionPtr &b) { return b->time_of_execution() < a->time_of_execution(); }
//@ C04 smash::Actions::is_empty
bool none(const Actions &self) { return self.data_.size() == 0; }
//@ C04 smash::Actions::size
size_t count(const Actions &self) { return self.data_.size(); }
//@ C04 smash::Actions::earliest_time
double first(const Actions &self) { return self.data_[0]->time_of_execution(); }
//@ C04 smash::Actions::clear
void clear(Actions &self) { self.data_.clear(); }
struct Heap {
  std::vector<ActionPtr> data_;
};
//@ C04 smash::Actions::Actions n=1
Heap heap(ActionList &&l) {
  Heap h;
  h.data_ = std::move(l);
  std::make_heap(h.data_.begin(), h.data_.end(), Actions::cmp);
  return h;
}
//@ C04 smash::Actions::pop
ActionPtr pop(Actions &self) {
  if (self.data_.empty())
    throw std::runtime_error("");
  std::pop_heap(self.data_.begin(), self.data_.end(), Actions::cmp);
  ActionPtr a = std::move(self.data_.back());
  self.data_.pop_back();
  return a;
}
//@ C04 smash::Actions::insert sig=unique_ptr n=1
void add(Actions &self, ActionPtr &&a) {
  self.data_.push_back(std::move(a));
  std::push_heap(self.data_.begin(), self.data_.end(), Actions::cmp);
}
//@ C04 smash::Actions::insert sig=vector n=1
void addAll(Actions &self, ActionList &&l) {
  for (size_t i = 0; i < l.size(); i++) {
    self.data_.push_back(std::move(l[i]));
    std::push_heap(self.data_.begin(), self.data_.end(), Actions::cmp);
  }
}
}  // namespace spec
