// C32: thermal boxes and spheres
#include "smash/boxmodus.h"
#include "smash/spheremodus.h"
#include "smash/quantumsampling.h"
#include "smash/chemicalpotential.h"
#include "smash/distributions.h"
#include "smash/hadgas_eos.h"
#include "smash/angles.h"
#include "smash/constants.h"
#include "smash/algorithms.h"
#include "smash/experimentparameters.h"
#include "smash/particles.h"
#include "smash/random.h"
#include "smash/wallcrossingaction.h"
#include "smash/outputinterface.h"
#include <cmath>
namespace spec {
using namespace smash;

//@ C32 smash::BoxModus::initial_conditions inline=smash::Angles::distribute_isotropically opaque=is_eos_particle,partial_density,sample_mass_thermal,sample_momenta_from_thermal,QuantumSampling,sample,create,set_unpolarized_spin_vector,set_4momentum
double box_init(BoxModus &self, Particles *list, const ExperimentParameters &par) {
  const double volume = std::pow(self.length_, 3);
  if (self.use_thermal_) {
    if (self.average_multipl_.empty())
      for (const ParticleType &t : ParticleType::list_all()) {
        if (!HadronGasEos::is_eos_particle(t)) continue;
        const double scale = t.is_stable() ? 1. : par.res_lifetime_factor;
        const double density = scale * HadronGasEos::partial_density(t, self.temperature_, self.mub_, self.mus_, self.muq_,
                                                                    self.account_for_resonance_widths_);
        self.average_multipl_[t.pdgcode()] = density * volume * par.testparticles;
      }
    for (const auto &kv : self.average_multipl_) {
      const int n = random::poisson(kv.second);
      list->create(n, kv.first);
    }
  } else {
    for (const auto &kv : self.init_multipl_) list->create(kv.second * par.testparticles, kv.first);
  }
  std::unique_ptr<QuantumSampling> quantum;
  if (self.initial_condition_ == BoxInitialCondition::ThermalMomentaQuantum)
    quantum = std::make_unique<QuantumSampling>(self.init_multipl_, volume, self.temperature_);
  auto coordinate = random::make_uniform_distribution(0.0, self.length_);
  FourVector total(0, 0, 0, 0);
  double p = 0, m = 0;
  for (ParticleData &d : *list) {
    switch (self.initial_condition_) {
      case BoxInitialCondition::PeakedMomenta:
        p = self.temperature_ * 3;
        m = d.type().mass();
        break;
      case BoxInitialCondition::ThermalMomentaBoltzmann:
        if (self.account_for_resonance_widths_) m = HadronGasEos::sample_mass_thermal(d.type(), 1.0 / self.temperature_);
        else m = d.type().mass();
        p = sample_momenta_from_thermal(self.temperature_, m);
        break;
      case BoxInitialCondition::ThermalMomentaQuantum:
        m = d.type().mass();
        p = quantum->sample(d.pdgcode());
        break;
    }
    Angles dir;
    dir.distribute_isotropically();
    d.set_4momentum(m, dir.threevec() * p);
    total += d.momentum();
    const double x = coordinate();
    const double y = coordinate();
    const double z = coordinate();
    d.set_4position(FourVector(self.start_time_, x, y, z));
    d.set_formation_time(self.start_time_);
  }
  for (ParticleData &d : *list) {
    d.set_4momentum(d.momentum().abs(), d.momentum().threevec() - total.threevec() * (1. / list->size()));
    if (par.spin_interaction_type != SpinInteractionType::Off) d.set_unpolarized_spin_vector();
  }
  if (self.jet_pdg_) {
    ParticleData &jet = list->create(*self.jet_pdg_);
    jet.set_formation_time(self.start_time_);
    jet.set_4position(FourVector(self.start_time_, 0., 0., 0.));
    jet.set_4momentum(ParticleType::find(*self.jet_pdg_).mass(), ThreeVector(self.jet_mom_, 0., 0.));
    if (par.spin_interaction_type != SpinInteractionType::Off) jet.set_unpolarized_spin_vector();
  }
  return self.start_time_;
}

//@ C32 smash::SphereModus::initial_conditions opaque=distribute_isotropically,is_eos_particle,is_heavy_flavor,partial_density,sample_mass_thermal,sample_momenta_from_thermal,sample_momenta_IC_ES,sample_momenta_1M_IC,sample_momenta_2M_IC,sample_momenta_non_eq_mass,QuantumSampling,sample,create,set_unpolarized_spin_vector,set_4momentum
double sphere_init(SphereModus &self, Particles *list, const ExperimentParameters &par) {
  const double T = self.sphere_temperature_;
  const double volume = 4 * M_PI / 3 * std::pow(self.radius_, 3);
  if (self.use_thermal_) {
    if (self.average_multipl_.empty())
      for (const ParticleType &t : ParticleType::list_all()) {
        const bool eos = HadronGasEos::is_eos_particle(t);
        const bool heavy = t.pdgcode().is_heavy_flavor();
        if (!eos && !(heavy && self.hf_multiplier_ > really_small)) continue;
        const double density =
            HadronGasEos::partial_density(t, T, self.mub_, self.mus_, self.muq_, self.account_for_resonance_widths_);
        self.average_multipl_[t.pdgcode()] = density * volume * par.testparticles * (heavy ? self.hf_multiplier_ : 1.);
      }
    for (const auto &kv : self.average_multipl_) {
      const int n = random::poisson(kv.second);
      list->create(n, kv.first);
    }
  } else {
    for (const auto &kv : self.init_multipl_) list->create(kv.second * par.testparticles, kv.first);
  }
  std::unique_ptr<QuantumSampling> quantum;
  if (self.init_distr_ == SphereInitialCondition::ThermalMomentaQuantum)
    quantum = std::make_unique<QuantumSampling>(self.init_multipl_, volume, T);
  FourVector total(0, 0, 0, 0);
  for (ParticleData &d : *list) {
    double m = d.type().mass(), p = 0;
    if (self.init_distr_ == SphereInitialCondition::IC_ES) {
      p = sample_momenta_IC_ES(T);
    } else if (self.init_distr_ == SphereInitialCondition::IC_1M) {
      p = sample_momenta_1M_IC(T, m);
    } else if (self.init_distr_ == SphereInitialCondition::IC_2M) {
      p = sample_momenta_2M_IC(T, m);
    } else if (self.init_distr_ == SphereInitialCondition::IC_Massive) {
      p = sample_momenta_non_eq_mass(T, m);
    } else if (self.init_distr_ == SphereInitialCondition::ThermalMomentaQuantum) {
      p = quantum->sample(d.pdgcode());
    } else {
      if (self.account_for_resonance_widths_) m = HadronGasEos::sample_mass_thermal(d.type(), 1.0 / T);
      p = sample_momenta_from_thermal(T, m);
    }
    Angles dir, place;
    dir.distribute_isotropically();
    d.set_4momentum(m, dir.threevec() * p);
    total += d.momentum();
    const double r = self.radius_ * std::cbrt(random::canonical());
    place.distribute_isotropically();
    d.set_4position(FourVector(self.start_time_, place.threevec() * r));
    d.set_formation_time(self.start_time_);
  }
  // radial flow; the momentum to be removed afterwards is that of the boosted particles
  if (self.radial_velocity_ > 0) {
    total = FourVector(0, 0, 0, 0);
    for (ParticleData &d : *list) {
      const ThreeVector x = d.position().threevec();
      const double r = std::sqrt(x.sqr());
      const double u = self.radial_velocity_ * std::pow(r / self.radius_, self.radial_velocity_exponent_);
      d.set_4momentum(d.momentum().lorentz_boost(x * (-u / r)));
      total += d.momentum();
    }
  }
  const bool spin = self.spin_interaction_type_ != SpinInteractionType::Off;
  for (ParticleData &d : *list) {
    d.set_4momentum(d.momentum().abs(), d.momentum().threevec() - total.threevec() * (1. / list->size()));
    if (spin) d.set_unpolarized_spin_vector();
  }
  if (self.jet_pdg_) {
    PdgCode code = *self.jet_pdg_;
    const ThreeVector half(self.jet_back_separation_ / 2, 0., 0.);
    ParticleData &jet = list->create(code);
    jet.set_formation_time(self.start_time_);
    jet.set_4position(FourVector(self.start_time_, self.jet_pos_ + half));
    jet.set_4momentum(ParticleType::find(code).mass(), ThreeVector(self.jet_mom_, 0., 0.));
    if (spin) jet.set_unpolarized_spin_vector();
    if (self.jet_back_) {
      PdgCode anti = code;
      if (code.has_antiparticle()) anti = code.get_antiparticle();
      ParticleData &back = list->create(anti);
      back.set_formation_time(self.start_time_);
      back.set_4position(FourVector(self.start_time_, self.jet_pos_ - half));
      back.set_4momentum(ParticleType::find(anti).mass(), ThreeVector(-self.jet_mom_, 0., 0.));
      if (spin) back.set_unpolarized_spin_vector();
    }
  }
  return self.start_time_;
}

//@ C32 smash::BoxModus::impose_boundary_conditions opaque=WallcrossingAction,at_interaction,is_dilepton_output,is_photon_output
int wrap(BoxModus &self, Particles *list, const OutputsList &outputs) {
  int n = 0;
  for (ParticleData &d : *list) {
    FourVector x = d.position();
    if (!enforce_periodic_boundaries(x.begin() + 1, x.end(), self.length_)) continue;
    n += 1;
    const ParticleData before(d);
    d.set_4position(x);
    ActionPtr wall = std::make_unique<WallcrossingAction>(before, d);
    for (const auto &o : outputs)
      if (!o->is_dilepton_output() && !o->is_photon_output()) o->at_interaction(*wall, 0.);
  }
  return n;
}

// extremum of p^2 / (exp((E-mu)/T) + s)
//@ C32 smash::QuantumSampling::p_max_root_equation
double extremum(double p, double m, double T, double mu, double s) {
  const double e = std::sqrt(m * m + p * p);
  return 2 + 2 * s * std::exp((mu - e) / T) - p * p / T / e;
}
//@ C32 smash::QuantumSampling::maximum_of_the_distribution opaque=find_p_at_maximum_of_the_distribution
double maximum(double m, double T, double mu, double s, double precision) {
  double p[1] = {0.};
  QuantumSampling::find_p_at_maximum_of_the_distribution(m, T, mu, s, 0.05, precision, p);
  return p[0] * p[0] * juttner_distribution_func(p[0], m, T, mu, s);
}
struct Quantum {
  std::map<PdgCode, double> effective_chemical_potentials_, distribution_function_maximums_;
  double volume_, temperature_;
};
//@ C32 smash::QuantumSampling::QuantumSampling opaque=ChemicalPotentialSolver,effective_chemical_potential,maximum_of_the_distribution,find,spin_degeneracy,spin
Quantum quantum(const std::map<PdgCode, int> &mult, double V, double T) {
  Quantum q;
  q.volume_ = V;
  q.temperature_ = T;
  for (const auto &kv : mult) {
    const double density = kv.second * std::pow(hbarc, 3) / V;
    const double s = kv.first.spin() % 2 == 0 ? -1. : 1.;
    const ParticleType &t = ParticleType::find(kv.first);
    ChemicalPotentialSolver solver;
    const double mu = solver.effective_chemical_potential(kv.first.spin_degeneracy(), t.mass(), density, T, s, 1e-8);
    q.effective_chemical_potentials_[kv.first] = mu;
    q.distribution_function_maximums_[kv.first] = QuantumSampling::maximum_of_the_distribution(t.mass(), T, mu, s, 1e-8);
  }
  return q;
}
//@ C32 smash::QuantumSampling::sample opaque=find,spin
double qsample(QuantumSampling &self, const PdgCode pdg) {
  const double m = ParticleType::find(pdg).mass();
  const double s = pdg.spin() % 2 == 0 ? -1. : 1.;
  const double mu = self.effective_chemical_potentials_.find(pdg)->second;
  const double top = self.distribution_function_maximums_.find(pdg)->second;
  double p, f;
  do {
    p = random::uniform(0.0, 10.);
    f = p * p * juttner_distribution_func(p, m, self.temperature_, mu, s);
  } while (random::canonical() > f / top);
  return p;
}
// n = g / (2 pi^2) int p^2 f(p) dp with p = (1-x)/x
//@ C32 smash::ChemicalPotentialSolver::density_one_species
double density(double g, double m, double T, double mu, double s, Integrator *integrate) {
  const auto v = (*integrate)(0., 1., [&](double x) {
    const double p = (1 - x) / x;
    return p * p / (x * x) * juttner_distribution_func(p, m, T, mu, s);
  });
  return v * g / (2 * M_PI * M_PI);
}
//@ C32 smash::ChemicalPotentialSolver::root_equation_effective_chemical_potential opaque=density_one_species
double density_root(double g, double m, double n, double T, double mu, double s, Integrator *integrate) {
  return n - ChemicalPotentialSolver::density_one_species(g, m, T, mu, s, integrate);
}
// the solution must reproduce the density, and must not be a condensate
//@ C32 smash::ChemicalPotentialSolver::effective_chemical_potential opaque=find_effective_chemical_potential,density_one_species
double chempot(ChemicalPotentialSolver &self, double g, double m, double n, double T, double s, double precision) {
  self.integrator_.set_precision(precision / 10, precision / 10);
  double mu[1] = {0.};
  self.find_effective_chemical_potential(g, m, n, T, s, s == -1 ? 0.999999 * m : 1.05 * m, precision, &self.integrator_, mu);
  const double check = self.density_one_species(g, m, T, mu[0], s, &self.integrator_);
  if (std::abs((n - check) / std::pow(hbarc, 3)) > 1e-3) throw std::runtime_error("");
  if (s == -1 && mu[0] > m) throw std::runtime_error("");
  if (juttner_distribution_func(0.005, m, T, mu[0], s) < 0) throw std::runtime_error("");
  return mu[0];
}
}
