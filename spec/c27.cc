// C27: particles that leave for hydrodynamics (hypersurface, dynamic fluidization)
#include "smash/collidermodus.h"
#include "smash/dynamicfluidfinder.h"
#include "smash/fluidizationaction.h"
#include "smash/freeforallaction.h"
#include "smash/hypersurfacecrossingfinder.h"
#include "smash/icoutput.h"
#include "smash/action.h"
#include "smash/quantumnumbers.h"
namespace spec {
using namespace smash;

// a particle fluidizes when enough of its formation time has passed, its last
// process is selected and the energy density around it is high enough
//@ C27 smash::DynamicFluidizationFinder::find_actions_in_cell opaque=above_threshold,is_process_fluidizable
ActionList fluidize(const DynamicFluidizationFinder &self, const ParticleList &list, double dt,
                    double, const std::vector<FourVector> &) {
  ActionList r;
  for (const ParticleData &p : list) {
    const double now = p.position().x0();
    // all particles have the same time
    if (now + dt < self.min_time_ || now > self.max_time_) break;
    const double born = p.begin_formation_time();
    const double ready = born + self.formation_time_fraction_ * (p.formation_time() - born);
    if (p.is_core() || ready >= now + dt || !self.is_process_fluidizable(p.get_history()) || !self.above_threshold(p))
      continue;
    double wait = ready - now;
    if (wait < 0 || 1 - p.xsec_scaling_factor() <= really_small) wait = 0;
    r.emplace_back(std::make_unique<FluidizationAction>(p, p, wait));
  }
  return r;
}
// energy density in the rest frame, including the background of the particle and
// not counting the particle itself
//@ C27 smash::DynamicFluidizationFinder::above_threshold
bool dense(const DynamicFluidizationFinder &self, const ParticleData &p) {
  EnergyMomentumTensor T;
  if (!self.energy_density_lattice_.value_at(p.position().threevec(), T)) return false;
  double e = T.boosted(T.landau_frame_4velocity())[0];
  if (self.background_.count(p.id())) e += self.background_.at(p.id());
  return e >= self.energy_density_threshold_ + p.pole_mass() * self.smearing_kernel_at_0_;
}
//@ C27 smash::DynamicFluidizationFinder::is_process_fluidizable
bool selected(const DynamicFluidizationFinder &self, const HistoryData &h) {
  const ProcessType t = h.process_type;
  const auto &on = self.fluidizable_processes_;
  if (t == ProcessType::Elastic)
    return !(self.delay_initial_elastic_ && h.collisions_per_particle == 1) &&
           on[IncludedFluidizableProcesses::From_Elastic];
  if (t == ProcessType::Decay) return on[IncludedFluidizableProcesses::From_Decay];
  if (t == ProcessType::StringHard) return on[IncludedFluidizableProcesses::From_HardString];
  if (is_string_soft_process(t)) return on[IncludedFluidizableProcesses::From_SoftString];
  for (ProcessType i : {ProcessType::TwoToOne, ProcessType::TwoToTwo, ProcessType::TwoToThree,
                        ProcessType::TwoToFour, ProcessType::TwoToFive,
                        ProcessType::MultiParticleThreeMesonsToOne, ProcessType::MultiParticleThreeToTwo,
                        ProcessType::MultiParticleFourToTwo, ProcessType::MultiParticleFiveToTwo})
    if (t == i) return on[IncludedFluidizableProcesses::From_Inelastic];
  return false;
}
// in the end the core goes; without a core the corona is put back to its last collisions
//@ C27 smash::DynamicFluidizationFinder::find_final_actions
ActionList at_the_end(const DynamicFluidizationFinder &self, const Particles &all) {
  ActionList r;
  bool core = false;
  for (const ParticleData &p : all) core = core || p.is_core();
  if (core) {
    for (const ParticleData &p : all) {
      if (!p.is_core()) continue;
      r.emplace_back(std::make_unique<FreeforallAction>(ParticleList{p}, ParticleList{}, p.position().x0()));
      self.particles_in_core_++;
      self.energy_in_core_ += p.momentum().x0();
    }
    return r;
  }
  for (const ParticleData &p : all) {
    const HistoryData h = p.get_history();
    const double t = p.position().x0();
    if (h.collisions_per_particle == 0 || t == h.time_last_collision) continue;
    const double t0 = h.time_last_collision + 0.01;
    ParticleData q(p.type());
    q.set_4momentum(p.momentum());
    q.set_4position(FourVector(t0, p.position().threevec() - p.velocity() * (t - t0)));
    q.set_formation_time(t);
    q.set_cross_section_scaling_factor(0.0);
    r.emplace_back(std::make_unique<FreeforallAction>(ParticleList{p}, ParticleList{}, t));
    r.emplace_back(std::make_unique<FreeforallAction>(ParticleList{}, ParticleList{q}, t0));
  }
  return r;
}
//@ C27 smash::FluidizationAction::generate_final_state
void final_state(FluidizationAction &self) {
  if (FluidizationAction::remove_particle_) {
    self.outgoing_particles_.clear();
    return;
  }
  self.outgoing_particles_ = self.incoming_particles_;
  self.outgoing_particles_[0].fluidize();
}
//@ C27 smash::FluidizationAction::check_conservation
double conserved(const FluidizationAction &self, const uint32_t) {
  if (FluidizationAction::remove_particle_) {
    if (!self.outgoing_particles_.empty()) throw std::runtime_error("kept");
    return 0.;
  }
  if (QuantumNumbers(self.incoming_particles_) != QuantumNumbers(self.outgoing_particles_))
    throw std::runtime_error("not conserved");
  if (self.outgoing_particles_.empty()) throw std::runtime_error("removed");
  return 0.;
}
// crossing of the hyperbola within the step, in the kinematic range
//@ C27 smash::HyperSurfaceCrossActionsFinder::find_actions_in_cell opaque=crosses_hypersurface,coordinates_on_hypersurface
ActionList crossings(const HyperSurfaceCrossActionsFinder &self, const ParticleList &list, double dt,
                     const double, const std::vector<FourVector> &beam) {
  ActionList r;
  for (const ParticleData &p : list) {
    const double t = p.position().x0();
    if (t + dt < 0.0 || p.is_core()) continue;
    ThreeVector v = p.velocity();
    if (static_cast<uint64_t>(p.id()) < static_cast<uint64_t>(beam.size()) && p.get_history().collisions_per_particle == 0)
      v = beam[p.id()].velocity();
    ParticleData before = p, after = p;
    after.set_4position(FourVector(t + dt, p.position().threevec() + v * dt));
    const bool crossed = self.crosses_hypersurface(before, after, self.prop_time_);
    if (self.rap_cut_ > 0.0 && std::fabs(p.rapidity()) > self.rap_cut_) continue;
    const double px = p.momentum().x1(), py = p.momentum().x2();
    if (self.pT_cut_ > 0.0 && std::sqrt(px * px + py * py) > self.pT_cut_) continue;
    if (!crossed) continue;
    const FourVector where = self.coordinates_on_hypersurface(before, after, self.prop_time_);
    ParticleData out = p;
    out.set_4position(where);
    r.emplace_back(std::make_unique<FluidizationAction>(p, out, where.x0() - t));
  }
  return r;
}
//@ C27 smash::HyperSurfaceCrossActionsFinder::crosses_hypersurface
bool crosses(const HyperSurfaceCrossActionsFinder &self, ParticleData &a, ParticleData &b, const double tau) {
  if (!(std::fabs(b.position().x0()) > std::fabs(b.position().x3()))) return false;
  if (b.hyperbolic_time() < tau) return false;
  if (!(std::fabs(a.position().x0()) > std::fabs(a.position().x3()))) return true;
  return a.hyperbolic_time() <= tau;
}
// t on the line z = m t + n with t^2 - z^2 = tau^2
//@ C27 smash::HyperSurfaceCrossActionsFinder::coordinates_on_hypersurface
FourVector where(const HyperSurfaceCrossActionsFinder &self, ParticleData &a, ParticleData &b, const double tau) {
  const FourVector x = a.position(), y = b.position();
  const double m = (y.x3() - x.x3()) / (y.x0() - x.x0());
  const double n = x.x3() - m * x.x0();
  const double g = 1 - m * m;
  const double t = (n * m + std::sqrt(g * tau * tau + n * n)) / g;
  return FourVector(t, x.threevec() + a.velocity() * (t - x.x0()));
}
//@ C27 smash::ICOutput::at_eventstart
void start(ICOutput &self, const Particles &, const EventLabel &l, const EventInfo &e) {
  if (e.n_ensembles != 1) throw std::logic_error("ensembles");
  std::fprintf(self.file_.get(), "# event %i ensemble %i start\n", l.event_number, l.ensemble_number);
}
//@ C27 smash::ICOutput::at_eventend
void end(ICOutput &self, const Particles &, const EventLabel &l, const EventInfo &e) {
  if (e.n_ensembles != 1) throw std::logic_error("ensembles");
  std::fprintf(self.file_.get(), "# event %i ensemble %i end\n", l.event_number, l.ensemble_number);
}
// every particle that interacted before is written, all at one proper time
//@ C27 smash::ICOutput::at_interaction
void written(ICOutput &self, const Action &action, const double) {
  const ParticleData p = action.incoming_particles()[0];
  if (p.get_history().collisions_per_particle != 0)
    std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str());
  const double tau = p.hyperbolic_time();
  if (self.IC_proper_time_ < 0.0)
    self.IC_proper_time_ = tau;
  else if (!(std::fabs(tau - self.IC_proper_time_) < really_small))
    throw std::runtime_error("proper time");
}
// the lattice grows with the light cone by 5 fm per direction
//@ C27 smash::ColliderModus::build_fluidization_lattice opaque=update_lattice_accumulating_ensembles,reset_and_resize
void lattice(ColliderModus &self, const double t, const std::vector<Particles> &ensembles, const DensityParameters &par) {
  auto *l = self.fluid_lattice_.get();
  if (!l) throw std::logic_error("no lattice");
  if (t < self.IC_parameters_->min_time.value() || t > self.IC_parameters_->max_time.value()) return;
  const double half = l->lattice_sizes()[0] / 2;
  if (t > half) {
    const double h = half + 5;
    l->reset_and_resize(std::array<double, 3>{2 * h, 2 * h, 2 * h}, std::array<double, 3>{-h, -h, -h}, std::nullopt);
  }
  update_lattice_accumulating_ensembles(l, LatticeUpdate::EveryTimestep, DensityType::Hadron, par, ensembles, false);
}
//@ C27 smash::DynamicFluidizationFinder::find_actions_with_neighbors
ActionList none1(const DynamicFluidizationFinder &self, const ParticleList &, const ParticleList &, const double, const std::vector<FourVector> &) { return {}; }
//@ C27 smash::DynamicFluidizationFinder::find_actions_with_surrounding_particles
ActionList none2(const DynamicFluidizationFinder &self, const ParticleList &, const Particles &, double, const std::vector<FourVector> &) { return {}; }
//@ C27 smash::HyperSurfaceCrossActionsFinder::find_actions_with_neighbors
ActionList none3(const HyperSurfaceCrossActionsFinder &self, const ParticleList &, const ParticleList &, double, const std::vector<FourVector> &) { return {}; }
//@ C27 smash::HyperSurfaceCrossActionsFinder::find_actions_with_surrounding_particles
ActionList none4(const HyperSurfaceCrossActionsFinder &self, const ParticleList &, const Particles &, double, const std::vector<FourVector> &) { return {}; }
//@ C27 smash::HyperSurfaceCrossActionsFinder::find_final_actions
ActionList none5(const HyperSurfaceCrossActionsFinder &self, const Particles &) { return {}; }
}  // namespace spec
