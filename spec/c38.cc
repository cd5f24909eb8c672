// C38: propagation between interactions
#include "smash/propagation.h"
#include "smash/experimentparameters.h"
#include "smash/potentials.h"

namespace spec {
using namespace smash;

//@ C38 smash::calc_hubble
double hubble(double t, const ExpansionProperties &m) {
  const double b = m.b_;
  if (m.mode_ == ExpansionMode::MasslessFRW)  // a = sqrt(b t + 1)
    return 0.5 * b / (1 + b * t);
  if (m.mode_ == ExpansionMode::MassiveFRW)  // a = (b t + 1)^(2/3)
    return b / (1 + b * t) * (2. / 3);
  if (m.mode_ == ExpansionMode::Exponential)  // a = exp(b t^2 / 2)
    return b * t;
  return 0;
}
//@ C38 smash::propagate_straight_line
double straight(Particles *ps, double to, const std::vector<FourVector> &beam) {
  double dt = 0;
  for (ParticleData &p : *ps) {
    dt = to - p.position().x0();
    // frozen Fermi motion: nucleons of the nuclei before their first collision move with the beam
    const bool frozen = static_cast<uint64_t>(p.id()) < beam.size() && p.get_history().collisions_per_particle == 0;
    ThreeVector v = p.velocity();
    if (frozen)
      v = beam[p.id()].velocity();
    const FourVector x = p.position();
    p.set_4position(FourVector(to, x.x1() + v[0] * dt, x.x2() + v[1] * dt, x.x3() + v[2] * dt));
  }
  return dt;
}
//@ C38 smash::backpropagate_straight_line
void back(Particles *ps, double to) {
  for (ParticleData &p : *ps) {
    const FourVector x = p.position();
    const ThreeVector v = p.velocity();
    const double dt = to - x.x0();
    p.set_formation_time(x.x0());
    p.set_cross_section_scaling_factor(0);
    p.set_4position(FourVector(to, x.x1() + v[0] * dt, x.x2() + v[1] * dt, x.x3() + v[2] * dt));
  }
}
//@ C38 smash::expand_space_time opaque=calc_hubble
void expand(Particles *ps, const ExperimentParameters &par, const ExpansionProperties &m) {
  const double dt = par.labclock->timestep_duration();
  for (ParticleData &p : *ps) {
    const double h = smash::calc_hubble(par.labclock->current_time(), m);
    const FourVector x = p.position(), k = p.momentum();
    p.set_4position(FourVector(x.x0(), x.x1() * (1 + h * dt), x.x2() * (1 + h * dt), x.x3() * (1 + h * dt)));
    p.set_4momentum(p.pole_mass(), ThreeVector(k.x1() * (1 - h * dt), k.x2() * (1 - h * dt), k.x3() * (1 - h * dt)));
  }
}
using FieldLattice = RectangularLattice<std::pair<ThreeVector, ThreeVector>>;
//@ C38 smash::update_momenta opaque=value_at,all_forces,force_scale,single_particle_energy_gradient,copy_to_vector,is_baryon,is_nucleus,isospin3_rel,effective_mass,ThreeVector::cross_product,FourVector::velocity,charge
void kick(std::vector<Particles> &ensembles, double dt, const Potentials &pot, FieldLattice *fb, FieldLattice *fi, FieldLattice *em,
          RectangularLattice<DensityOnLattice> *jb) {
  ParticleList all;
  for (Particles &ps : ensembles) {
    const ParticleList l = ps.copy_to_vector();
    all.insert(all.end(), l.begin(), l.end());
  }
  const bool lattice = (!pot.use_skyrme() || fb) && (!pot.use_vdf() || fb) && (!pot.use_symmetry() || fi);
  const ThreeVector zero(0., 0., 0.);
  std::pair<ThreeVector, ThreeVector> b, i, e;
  for (Particles &ps : ensembles)
    for (ParticleData &p : ps) {
      if (!p.is_baryon() && !p.is_nucleus())
        continue;
      const auto s = pot.force_scale(p.type());
      const ThreeVector x = p.position().threevec();
      const bool inside = lattice && (!pot.use_skyrme() || fb->value_at(x, b)) && (!pot.use_vdf() || fb->value_at(x, b)) &&
                          (!pot.use_symmetry() || fi->value_at(x, i));
      if (!inside && !pot.use_potentials_outside_lattice())
        continue;
      if (!inside) {
        const auto f = pot.all_forces(x, all);
        b = std::make_pair(std::get<0>(f), std::get<1>(f));
        i = std::make_pair(std::get<2>(f), std::get<3>(f));
      } else {
        if (!pot.use_skyrme() && !pot.use_vdf())
          b = {zero, zero};
        if (!pot.use_symmetry())
          i = {zero, zero};
      }
      const ThreeVector v = p.momentum().velocity();
      ThreeVector f = s.second * p.type().isospin3_rel() * (i.first + v.cross_product(i.second));
      if (pot.use_momentum_dependence())
        f -= s.first * pot.single_particle_energy_gradient(jb, x, p.momentum().threevec(), p.effective_mass(), all);
      else
        f += s.first * (b.first + v.cross_product(b.second));
      if (pot.use_coulomb() && em->value_at(x, e))
        f += hbarc * elementary_charge * p.type().charge() * (e.first + v.cross_product(e.second));
      p.set_4momentum(p.effective_mass(), p.momentum().threevec() + dt * f);
    }
}
}  // namespace spec
