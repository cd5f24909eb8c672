// C29: finding the scatterings of a time step
#include "smash/scatteraction.h"
#include "smash/scatteractionmulti.h"
#include "smash/scatteractionsfinder.h"
#include "smash/kinematics.h"
#include "smash/parametrizations.h"
#include "smash/random.h"
#include "smash/constants.h"

namespace spec {
using namespace smash;

//@ C29 smash::ScatterAction::mandelstam_s
double mand(const ScatterAction &self) {
  FourVector p;
  for (const ParticleData &q : self.incoming_particles_) p += q.momentum();
  return p.x0() * p.x0() - p.x1() * p.x1() - p.x2() * p.x2() - p.x3() * p.x3();
}
//@ C29 smash::ScatterAction::beta_cm
ThreeVector vcm(const ScatterAction &self) {
  FourVector p;
  for (const ParticleData &q : self.incoming_particles_) p += q.momentum();
  return ThreeVector(p.x1() / p.x0(), p.x2() / p.x0(), p.x3() / p.x0());
}
//@ C29 smash::ScatterAction::gamma_cm opaque=beta_cm
double gcm(const ScatterAction &self) {
  const ThreeVector b = self.beta_cm();
  return 1 / std::sqrt(1 - b[0] * b[0] - b[1] * b[1] - b[2] * b[2]);
}
//@ C29 smash::ScatterAction::cm_momentum opaque=sqrt_s,pCM,effective_mass
double pcms(const ScatterAction &self) {
  return pCM(self.sqrt_s(), self.incoming_particles_[0].effective_mass(), self.incoming_particles_[1].effective_mass());
}
//@ C29 smash::ScatterAction::cm_momentum_squared opaque=sqrt_s,pCM_sqr,effective_mass
double pcm2(const ScatterAction &self) {
  return pCM_sqr(self.sqrt_s(), self.incoming_particles_[0].effective_mass(), self.incoming_particles_[1].effective_mass());
}
// Moeller velocity
//@ C29 smash::ScatterAction::relative_velocity opaque=mandelstam_s,effective_mass
double vrel(const ScatterAction &self) {
  const ParticleData &a = self.incoming_particles_[0], &b = self.incoming_particles_[1];
  const double s = self.mandelstam_s(), m = a.effective_mass(), n = b.effective_mass();
  const double l = (s - m * m - n * n) * (s - m * m - n * n) - 4 * m * m * n * n;
  return std::sqrt(l > 0 ? l : 0.) / (2 * a.momentum().x0() * b.momentum().x0());
}
// distance of closest approach in the frame where the particles have opposite momenta
//@ C29 smash::ScatterAction::transverse_distance_sqr opaque=beta_cm,lorentz_boost
double dt2(const ScatterAction &self) {
  const ThreeVector v = self.beta_cm();
  ParticleData a = self.incoming_particles_[0], b = self.incoming_particles_[1];
  const ThreeVector dx = a.position().lorentz_boost(v).threevec() - b.position().lorentz_boost(v).threevec();
  const ThreeVector dp = a.momentum().lorentz_boost(v).threevec() - b.momentum().lorentz_boost(v).threevec();
  const double x2 = dx[0] * dx[0] + dx[1] * dx[1] + dx[2] * dx[2];
  const double p2 = dp[0] * dp[0] + dp[1] * dp[1] + dp[2] * dp[2];
  const double xp = dx[0] * dp[0] + dx[1] * dp[1] + dx[2] * dp[2];
  if (p2 < really_small) return x2;
  const double r = x2 - xp * xp / p2;
  return r > 0 ? r : 0;
}
//@ C29 smash::ScatterAction::cov_transverse_distance_sqr
double cdt2(const ScatterAction &self) {
  const FourVector p = self.incoming_particles_[0].momentum(), q = self.incoming_particles_[1].momentum();
  const FourVector x = self.incoming_particles_[0].position() - self.incoming_particles_[1].position();
  const ThreeVector d = p.threevec() - q.threevec();
  if (d[0] * d[0] + d[1] * d[1] + d[2] * d[2] < really_small) return -x.Dot(x);
  const double pq = p.Dot(q), pp = p.Dot(p), qq = q.Dot(q), px = p.Dot(x), qx = q.Dot(x);
  const double b = -x.Dot(x) - (pp * qx * qx + qq * px * px - 2 * pq * px * qx) / (pq * pq - pp * qq);
  return b > 0 ? b : 0;
}
// momentum to extrapolate with: the one of the beam before the first interaction
FourVector moving(const ParticleData &p, const std::vector<FourVector> &beam) {
  if (static_cast<uint64_t>(p.id()) < static_cast<uint64_t>(beam.size()) && p.get_history().collisions_per_particle == 0)
    return beam[p.id()];
  return p.momentum();
}
//@ C29 smash::ScatterActionsFinder::collision_time
double when(const ScatterActionsFinder &self, const ParticleData &a, const ParticleData &b, double dt,
            const std::vector<FourVector> &beam) {
  if (self.finder_parameters_.coll_crit == CollisionCriterion::Stochastic) return dt * random::uniform(0., 1.);
  if (a.id() < 0 || b.id() < 0) throw std::runtime_error("invalid particle id");
  const FourVector p = moving(a, beam), q = moving(b, beam);
  const FourVector x = a.position() - b.position();
  if (self.finder_parameters_.coll_crit == CollisionCriterion::Covariant) {
    const double pq = p.Dot(q), pp = p.Dot(p), qq = q.Dot(q), px = p.Dot(x), qx = q.Dot(x);
    const double den = pq * pq - pp * qq;
    if (std::abs(den) < really_small * really_small) return -1.0;
    return ((qq * px - pq * qx) * p.x0() - (pp * qx - pq * px) * q.x0()) / (2 * den);
  }
  // (v1 - v2) E1 E2
  const double e = p.x0(), f = q.x0();
  const ThreeVector w(p.x1() * f - q.x1() * e, p.x2() * f - q.x2() * e, p.x3() * f - q.x3() * e);
  const double w2 = w[0] * w[0] + w[1] * w[1] + w[2] * w[2];
  if (w2 < really_small) return -1.0;
  return -(x.x1() * w[0] + x.x2() * w[1] + x.x3() * w[2]) * e * f / w2;
}
//@ C29 smash::ScatterActionsFinder::is_constant_elastic_isotropic
bool simple(const ScatterActionsFinder &self) {
  return self.isotropic_ && self.finder_parameters_.elastic_parameter > 0. && !self.finder_parameters_.two_to_one &&
         ParticleType::list_all().size() == 1;
}
//@ C29 smash::ScatterActionsFinder::max_transverse_distance_sqr opaque=is_constant_elastic_isotropic
double dmax(const ScatterActionsFinder &self, int n) {
  const double mb = self.is_constant_elastic_isotropic() ? self.finder_parameters_.elastic_parameter
                                                         : self.finder_parameters_.maximum_cross_section;
  return mb * fm2_mb / (n * M_PI);
}
bool fresh_pair(const ParticleData &a, const ParticleData &b) {
  return a.belongs_to() == b.belongs_to() &&
         (a.belongs_to() == BelongsTo::Projectile || a.belongs_to() == BelongsTo::Target) &&
         a.get_history().collisions_per_particle == 0 && b.get_history().collisions_per_particle == 0;
}
//@ C29 smash::ScatterActionsFinder::check_collision_two_part opaque=collision_time,transverse_distance_sqr,cov_transverse_distance_sqr,max_transverse_distance_sqr,set_parametrized_total_cross_section,add_all_scatterings,relative_velocity,parametrization_exists,xsec_scaling_factor,set_stochastic_pos_idx
ActionPtr pair(const ScatterActionsFinder &self, const ParticleData &a, const ParticleData &b, double dt,
               const std::vector<FourVector> &beam, const double vol) {
  const ScatterActionsFinderParameters &par = self.finder_parameters_;
  const bool cell = par.coll_crit == CollisionCriterion::Stochastic;
  if (!par.allow_collisions_within_nucleus && fresh_pair(a, b)) return nullptr;
  if (cell && vol < really_small) return nullptr;
  const double t = self.collision_time(a, b, dt, beam);
  if (t < 0 || t >= dt) return nullptr;
  bool top = par.total_xs_strategy == TotalCrossSectionStrategy::TopDown;
  if (par.total_xs_strategy == TotalCrossSectionStrategy::TopDownMeasured)
    top = parametrization_exists(a.type().pdgcode(), b.type().pdgcode());
  ScatterActionPtr act = std::make_unique<ScatterAction>(a, b, t, self.isotropic_, self.string_formation_time_, self.box_length_, top,
                    par.spin_interaction_type);
  if (cell) act->set_stochastic_pos_idx();
  if (par.strings_switch) act->set_string_interface(self.string_process_interface_.get());
  double d2 = 0;
  if (par.coll_crit == CollisionCriterion::Geometric)
    d2 = act->transverse_distance_sqr();
  else if (par.coll_crit == CollisionCriterion::Covariant)
    d2 = act->cov_transverse_distance_sqr();
  if (!cell && d2 >= self.max_transverse_distance_sqr(par.testparticles)) return nullptr;
  if (top)
    act->set_parametrized_total_cross_section(par);
  else
    act->add_all_scatterings(par);
  const double area = act->cross_section() * fm2_mb / par.testparticles * a.xsec_scaling_factor(t) * b.xsec_scaling_factor(t);
  if (cell) {
    const double p = area * act->relative_velocity() * dt / vol;
    if (p > 1.) {
      a.momentum().abs(), b.momentum().abs(), act->sqrt_s();  // in the message, throw for unphysical momenta
      if (!par.only_warn_for_high_prob) throw std::runtime_error("probability");
    }
    if (random::uniform(0., 1.) > p) return nullptr;
  } else if (par.coll_crit == CollisionCriterion::Geometric || par.coll_crit == CollisionCriterion::Covariant) {
    if (a.id_process() > 0 && a.id_process() == b.id_process()) return nullptr;
    if (d2 >= area / M_PI) return nullptr;
  }
  if (top) act->add_all_scatterings(par);
  return act;
}
//@ C29 smash::ScatterActionsFinder::check_collision_multi_part opaque=set_stochastic_pos_idx,add_possible_reactions,get_total_weight
ActionPtr many(const ScatterActionsFinder &self, const ParticleList &ps, double dt, const double vol) {
  const ScatterActionsFinderParameters &par = self.finder_parameters_;
  if (!par.allow_collisions_within_nucleus) {
    bool pro = true, tar = true, fresh = true;
    for (const ParticleData &p : ps) {
      if (p.belongs_to() != BelongsTo::Projectile) pro = false;
      if (p.belongs_to() != BelongsTo::Target) tar = false;
      if (p.get_history().collisions_per_particle != 0) fresh = false;
    }
    if (fresh && (pro || tar)) return nullptr;
  }
  if (vol < really_small) return nullptr;
  const double t = random::uniform(0., 1.) * dt;
  ScatterActionMultiPtr act = std::make_unique<ScatterActionMulti>(ps, t);
  act->set_stochastic_pos_idx();
  act->add_possible_reactions(dt, vol, par.included_multi);
  const double p = act->get_total_weight() / std::pow(par.testparticles, ps.size() - 1);
  if (p > 1.) {
    act->sqrt_s();
    if (!par.only_warn_for_high_prob) throw std::runtime_error("probability");
  }
  if (random::uniform(0., 1.) > p) return nullptr;
  return act;
}
//@ C29 smash::ScatterActionsFinder::find_actions_in_cell opaque=check_collision_two_part,check_collision_multi_part unroll=1
ActionList in_cell(const ScatterActionsFinder &self, const ParticleList &ps, double dt, const double vol,
                   const std::vector<FourVector> &beam) {
  ActionList found;
  const auto &multi = self.finder_parameters_.included_multi;
  const bool three = multi[IncludedMultiParticleReactions::Deuteron_3to2] || multi[IncludedMultiParticleReactions::Meson_3to1];
  const bool four = multi[IncludedMultiParticleReactions::A3_Nuclei_4to2];
  const bool five = multi[IncludedMultiParticleReactions::NNbar_5to2] && ps.size() >= 5;
  for (const ParticleData &a : ps)
    for (const ParticleData &b : ps) {
      if (a.id() < b.id()) {
        ActionPtr x = self.check_collision_two_part(a, b, dt, beam, vol);
        if (x) found.push_back(std::move(x));
      }
      if (multi.any())
        for (const ParticleData &c : ps) {
          if (three && a.id() < b.id() && b.id() < c.id()) {
            ActionPtr x = self.check_collision_multi_part({a, b, c}, dt, vol);
            if (x) found.push_back(std::move(x));
          }
          for (const ParticleData &d : ps) {
            const bool ordered = a.id() < b.id() && b.id() < c.id() && c.id() < d.id();
            if (four && ordered) {
              ActionPtr x = self.check_collision_multi_part({a, b, c, d}, dt, vol);
              if (x) found.push_back(std::move(x));
            }
            if (five)
              for (const ParticleData &e : ps)
                if (ordered && d.id() < e.id() && a.is_pion() && b.is_pion() && c.is_pion() && d.is_pion() && e.is_pion()) {
                  ActionPtr x = self.check_collision_multi_part({a, b, c, d, e}, dt, vol);
                  if (x) found.push_back(std::move(x));
                }
          }
        }
    }
  return found;
}
//@ C29 smash::ScatterActionsFinder::find_actions_with_neighbors opaque=check_collision_two_part
ActionList with_neighbors(const ScatterActionsFinder &self, const ParticleList &ps, const ParticleList &qs, double dt,
                          const std::vector<FourVector> &beam) {
  ActionList found;
  if (self.finder_parameters_.coll_crit != CollisionCriterion::Stochastic)
    for (const ParticleData &a : ps)
      for (const ParticleData &b : qs) {
        ActionPtr x = self.check_collision_two_part(a, b, dt, beam);
        if (x) found.push_back(std::move(x));
      }
  return found;
}
//@ C29 smash::ScatterActionsFinder::find_actions_with_surrounding_particles opaque=check_collision_two_part
ActionList with_rest(const ScatterActionsFinder &self, const ParticleList &ps, const Particles &rest, double dt,
                     const std::vector<FourVector> &beam) {
  ActionList found;
  if (self.finder_parameters_.coll_crit != CollisionCriterion::Stochastic)
    for (const ParticleData &b : rest) {
      bool own = false;
      for (const ParticleData &p : ps)
        if (p.id() == b.id()) own = true;
      if (!own)
        for (const ParticleData &a : ps) {
          ActionPtr x = self.check_collision_two_part(a, b, dt, beam);
          if (x) found.push_back(std::move(x));
        }
    }
  return found;
}
//@ C29 smash::ScatterActionsFinder::find_final_actions
ActionList none(const ScatterActionsFinder &self, const Particles &) { return {}; }
//@ C29 smash::ScatterAction::get_total_weight opaque=xsec_scaling_factor
double wt(const ScatterAction &self) {
  return self.incoming_particles_[0].xsec_scaling_factor() * self.incoming_particles_[1].xsec_scaling_factor() *
         self.sum_of_partial_cross_sections_;
}
//@ C29 smash::ScatterAction::get_partial_weight opaque=xsec_scaling_factor
double wp(const ScatterAction &self) {
  return self.incoming_particles_[0].xsec_scaling_factor() * self.incoming_particles_[1].xsec_scaling_factor() *
         self.partial_cross_section_;
}
}  // namespace spec
