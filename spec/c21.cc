// C21: decay modes: kinds of decays, their mass-dependent widths, and the table of branching ratios
#include <algorithm>
#include <sstream>
#include "smash/clebschgordan.h"
#include "smash/decaymodes.h"
#include "smash/decaytype.h"
#include "smash/formfactors.h"
#include "smash/integrate.h"
#include "smash/inputfunctions.h"
#include "smash/isoparticletype.h"
#include "smash/kinematics.h"
#include "smash/pow.h"
#include "smash/stringfunctions.h"

namespace smash {
extern std::vector<DecayTypePtr> *all_decay_types;
static Integrator integrate;
static Integrator2d integrate2d(1E7);
}
namespace spec {
using namespace smash;
using Types = ParticleTypePtrList;

// ------------------------------------------------------------ kinds of decays
//@ C21 smash::DecayType::particle_types
const Types &ptypes(const DecayType &self) { return self.particle_types_; }
//@ C21 smash::DecayType::angular_momentum
int angmom(const DecayType &self) { return self.L_; }
//@ C21 smash::DecayType::has_mother
bool hasm(const DecayType &self, ParticleTypePtr m) { return true; }
//@ C21 smash::DecayType::is_dilepton_decay
bool isdil(const DecayType &self) { return false; }
//@ C21 smash::TwoBodyDecayDilepton::is_dilepton_decay
bool isdil2(const TwoBodyDecayDilepton &self) { return true; }
//@ C21 smash::ThreeBodyDecayDilepton::is_dilepton_decay
bool isdil3(const ThreeBodyDecayDilepton &self) { return true; }
//@ C21 smash::ThreeBodyDecayDilepton::has_mother
bool hasm3(const ThreeBodyDecayDilepton &self, ParticleTypePtr m) { return self.mother_ == m; }
//@ C21 smash::TwoBodyDecay::particle_number
unsigned n2(const TwoBodyDecay &self) { return 2; }
//@ C21 smash::ThreeBodyDecay::particle_number
unsigned n3(const ThreeBodyDecay &self) { return 3; }
//@ C21 smash::TwoBodyDecay::has_particles
bool has2(const TwoBodyDecay &self, Types l) {
  if (l.size() != 2)
    return false;
  const auto &p = self.particle_types_;
  return (p[0] == l[0] && p[1] == l[1]) || (p[1] == l[0] && p[0] == l[1]);
}
//@ C21 smash::ThreeBodyDecay::has_particles
bool has3(const ThreeBodyDecay &self, Types l) {
  if (l.size() != 3)
    return false;
  std::sort(l.begin(), l.end());
  const auto &p = self.particle_types_;
  return p[0] == l[0] && p[1] == l[1] && p[2] == l[2];
}
//@ C21 smash::TwoBodyDecay::threshold opaque=min_mass_spectral
double thr(const TwoBodyDecay &self) {
  return self.particle_types_[0]->min_mass_spectral() + self.particle_types_[1]->min_mass_spectral();
}
struct DT {
  Types particle_types_;
  int L_;
};
//@ C21 smash::DecayType::DecayType n=2
DT dt(Types t, int l) {
  DT d;
  d.particle_types_ = t;
  d.L_ = l;
  return d;
}
//@ C21 smash::TwoBodyDecay::TwoBodyDecay n=2
DT dt2(Types t, int l) {
  if (t.size() != 2)
    throw std::runtime_error("");
  return dt(t, l);
}
//@ C21 smash::TwoBodyDecayStable::TwoBodyDecayStable n=2 opaque=is_stable
DT dtst(Types t, int l) {
  DT d = dt2(t, l);
  if (!t[0]->is_stable() || !t[1]->is_stable())
    throw std::runtime_error("");
  return d;
}
//@ C21 smash::TwoBodyDecayDilepton::TwoBodyDecayDilepton n=2 opaque=is_stable
DT dtdil(Types t, int l) {
  DT d = dtst(t, l);
  if (!is_dilepton(d.particle_types_[0]->pdgcode(), d.particle_types_[1]->pdgcode()))
    throw std::runtime_error("");
  return d;
}
struct DTL {
  Types particle_types_;
  int L_;
  double Lambda_;
  std::unique_ptr<Tabulation> tabulation_ = nullptr;
};
double semistable_cutoff(const ParticleTypePtr stable, const ParticleTypePtr unstable) {
  if (unstable->baryon_number() != 0)
    return 2.0;
  return unstable->pdgcode().is_rho() && stable->pdgcode().is_pion() ? 0.8 : 1.6;
}
//@ C21 smash::TwoBodyDecaySemistable::get_Lambda
double lamsemi(TwoBodyDecaySemistable &self) {
  return semistable_cutoff(self.particle_types_[0], self.particle_types_[1]);
}
//@ C21 smash::TwoBodyDecayUnstable::get_Lambda
double lamun(TwoBodyDecayUnstable &self) { return 0.6; }
//@ C21 smash::TwoBodyDecayUnstable::TwoBodyDecayUnstable n=2 opaque=is_stable
DTL dtun(Types t, int l) {
  if (t.size() != 2)
    throw std::runtime_error("");
  if (t[0]->is_stable() || t[1]->is_stable())
    throw std::runtime_error("");
  DTL d;
  d.particle_types_ = t;
  d.L_ = l;
  d.Lambda_ = 0.6;
  return d;
}
//@ C21 smash::TwoBodyDecaySemistable::TwoBodyDecaySemistable n=2 opaque=is_stable,is_rho,is_pion,baryon_number
DTL dtsemi(Types t, int l) {
  // the stable daughter comes first
  if (t[1]->is_stable())
    t = [](ParticleTypePtr a, ParticleTypePtr b, Types s) { s[0] = a; s[1] = b; return s; }(t[1], t[0], t);
  if (!t[0]->is_stable() || t[1]->is_stable())
    throw std::runtime_error("");
  if (t.size() != 2)
    throw std::runtime_error("");
  DTL d;
  d.particle_types_ = t;
  d.L_ = l;
  d.Lambda_ = semistable_cutoff(t[0], t[1]);
  return d;
}
//@ C21 smash::ThreeBodyDecay::ThreeBodyDecay n=2
DT dt3(Types t, int l) {
  if (t.size() != 3)
    throw std::runtime_error("");
  std::sort(t.begin(), t.end());
  return dt(t, l);
}
struct DT3L {
  Types particle_types_;
  int L_;
  std::unique_ptr<Tabulation> tabulation_ = nullptr;
  ParticleTypePtr mother_;
};
//@ C21 smash::ThreeBodyDecayDilepton::ThreeBodyDecayDilepton n=3 opaque=is_lepton,is_dilepton,has_lepton_pair
DT3L dt3l(ParticleTypePtr mother, Types t, int l) {
  if (t.size() != 3)
    throw std::runtime_error("");
  const Types given = t;
  std::sort(t.begin(), t.end());
  DT3L d;
  d.particle_types_ = t;
  d.L_ = l;
  d.mother_ = mother;
  if (!has_lepton_pair(t[0]->pdgcode(), t[1]->pdgcode(), t[2]->pdgcode()))
    throw std::runtime_error("");
  if (mother->pdgcode() == pdg::invalid || (t[0]->is_lepton() && t[1]->is_lepton() && t[2]->is_lepton()))
    throw std::runtime_error("");
  return d;
}

// ------------------------------------------------------------ mass-dependent widths
double phase_space(double p, double m, int L) { return p * blatt_weisskopf_sqr(p, L) / m; }
//@ C21 smash::TwoBodyDecayStable::rho
double rhost(const TwoBodyDecayStable &self, double m) {
  return phase_space(pCM(m, self.particle_types_[0]->mass(), self.particle_types_[1]->mass()), m, self.L_);
}
//@ C21 smash::TwoBodyDecay::rho
double rho1(const TwoBodyDecay &self, double m) { return 1.; }
//@ C21 smash::TwoBodyDecayStable::width pure=rho,threshold
double wst(const TwoBodyDecayStable &self, double m0, double G0, double m) {
  if (m <= self.threshold())
    return 0;
  return G0 * self.rho(m) / self.rho(m0);
}
//@ C21 smash::TwoBodyDecayStable::in_width
double iwst(const TwoBodyDecayStable &self, double m0, double G0, double m, double, double) {
  return self.width(m0, G0, m);
}
//@ C21 smash::TwoBodyDecaySemistable::width pure=rho,threshold,post_ff_sqr
double wse(const TwoBodyDecaySemistable &self, double m0, double G0, double m) {
  return G0 * post_ff_sqr(m, m0, self.threshold(), self.Lambda_) * self.rho(m) / self.rho(m0);
}
//@ C21 smash::TwoBodyDecayUnstable::width pure=rho,threshold,post_ff_sqr
double wun(const TwoBodyDecayUnstable &self, double m0, double G0, double m) {
  return G0 * post_ff_sqr(m, m0, self.threshold(), self.Lambda_) * self.rho(m) / self.rho(m0);
}
//@ C21 smash::TwoBodyDecaySemistable::in_width pure=rho,threshold,post_ff_sqr,blatt_weisskopf_sqr
double iwse(const TwoBodyDecaySemistable &self, double m0, double G0, double m, double m1, double m2) {
  return G0 * post_ff_sqr(m, m0, self.threshold(), self.Lambda_) * phase_space(pCM(m, m1, m2), m, self.L_) /
         self.rho(m0);
}
//@ C21 smash::TwoBodyDecayUnstable::in_width pure=rho,threshold,post_ff_sqr,blatt_weisskopf_sqr
double iwun(const TwoBodyDecayUnstable &self, double m0, double G0, double m, double m1, double m2) {
  return G0 * post_ff_sqr(m, m0, self.threshold(), self.Lambda_) * phase_space(pCM(m, m1, m2), m, self.L_) /
         self.rho(m0);
}
//@ C21 smash::TwoBodyDecayDilepton::width opaque=threshold
double wdil(const TwoBodyDecayDilepton &self, double m0, double G0, double m) {
  if (m <= self.threshold())
    return 0;
  const double x = self.particle_types_[0]->mass() / m;
  return G0 * (m0 * m0 * m0) / (m * m * m) * std::sqrt(1 - 4 * x * x) * (1 + 2 * x * x);
}
//@ C21 smash::ThreeBodyDecay::width
double w3(const ThreeBodyDecay &self, double, double G0, double) { return G0; }
//@ C21 smash::ThreeBodyDecay::in_width
double iw3(const ThreeBodyDecay &self, double, double G0, double, double, double) { return G0; }
//@ C21 smash::integrand_rho_Manley_1res opaque=spectral_function,blatt_weisskopf_sqr
double integ1(double sqrts, double m, double ms, ParticleTypePtr t, int L) {
  if (sqrts <= m + ms)
    return 0;
  return phase_space(pCM(sqrts, ms, m), sqrts, L) * t->spectral_function(m);
}
//@ C21 smash::integrand_rho_Manley_2res opaque=spectral_function,blatt_weisskopf_sqr
double integ2(double sqrts, double m1, double m2, ParticleTypePtr t1, ParticleTypePtr t2, int L) {
  if (sqrts <= m1 + m2)
    return 0;
  return phase_space(pCM(sqrts, m1, m2), sqrts, L) * t1->spectral_function(m1) * t2->spectral_function(m2);
}
//@ C21 smash::ThreeBodyDecayDilepton::diff_width opaque=get_partial_width,em_form_factor_ps,em_form_factor_sqr_vec,form_factor_delta,ParticleType::find,is_meson,is_baryon,spin
double diffw(double M, double ml, double md, double mo, ParticleTypePtr other, ParticleTypePtr t) {
  if (M < md + mo)
    return 0;
  const double x = ml * ml / (md * md);
  const double lepton = std::sqrt(1 - 4 * x) * (1 + 2 * x);
  const double alpha = fine_structure;
  PdgCode pdg = t->pdgcode();
  if (pdg.is_meson()) {
    const ParticleType &photon = ParticleType::find(pdg::photon);
    if (pdg.spin() == 0) {
      const double gg = t->get_partial_width(M, {&photon, &photon});
      const double f = em_form_factor_ps(pdg, md);
      const double y = 1 - md * md / (M * M);
      return 4 * alpha / (3 * M_PI) * gg / md * y * y * y * f * f * lepton;
    }
    if (pdg.spin() == 2) {
      const double pg = t->get_partial_width(M, {other, &photon});
      const double f = em_form_factor_sqr_vec(pdg, md);
      const double d = M * M - mo * mo;
      const double a = 1 + md * md / d;
      const double y = a * a - 4 * M * M * md * md / (d * d);
      if (y < 0)
        return 0;
      return 2 * alpha / (3 * M_PI) * pg / md * std::pow(y, 1.5) * f * lepton;
    }
    throw std::runtime_error("");
  }
  if (!pdg.is_baryon())
    throw std::runtime_error("");
  const int c = pdg.code();
  if (c == pdg::Delta_p || c == -pdg::Delta_p || c == pdg::Delta_z || c == -pdg::Delta_z) {
    const double plus = (M + mo) * (M + mo) - md * md, minus = (M - mo) * (M - mo) - md * md;
    if (plus < 0 || minus < 0)
      return 0;
    const double f = form_factor_delta(md);
    const double r = std::sqrt(minus);
    const double g = alpha / 16 * (M + mo) * (M + mo) / (M * M * M * mo * mo) * std::sqrt(plus) * r * r * r * f * f;
    return 2 * alpha / (3 * M_PI) * g / md * lepton;
  }
  if (c == pdg::N1520_p || c == -pdg::N1520_p || c == pdg::N1520_z || c == -pdg::N1520_z) {
    const double plus = (M + mo) * (M + mo) - md * md, minus = (M - mo) * (M - mo) - md * md;
    if (plus < 0 || minus < 0)
      return 0;
    const double r = std::sqrt(plus);
    const double g = alpha / 16 * (M - mo) * (M - mo) / (M * M * M * mo * mo) * std::sqrt(minus) * r * r * r * 1.08;
    return 2 * alpha / (3 * M_PI) * g / md * lepton;
  }
  throw std::runtime_error("");
}
//@ C21 smash::TwoBodyDecaySemistable::rho pure=threshold,min_mass_kinematic,blatt_weisskopf_sqr,spectral_function,Tabulation,operator()
double rhose(const TwoBodyDecaySemistable &self, double mass) {
  if (!self.tabulation_) {
    const double ms = self.particle_types_[0]->mass();
    const ParticleTypePtr res = self.particle_types_[1];
    const int L = self.L_;
    const double low = res->min_mass_kinematic();
    self.tabulation_ = std::make_unique<Tabulation>(
        self.threshold(), std::max(2., 10 * res->width_at_pole()), 200, [&](double E) {
          return integrate(low, E - ms, [&](double m) { return integ1(E, m, ms, res, L); });
        });
  }
  return self.tabulation_->get_value_linear(mass);
}
//@ C21 smash::TwoBodyDecayUnstable::rho pure=threshold,min_mass_kinematic,blatt_weisskopf_sqr,spectral_function,Tabulation,operator()
double rhoun(const TwoBodyDecayUnstable &self, double mass) {
  if (!self.tabulation_) {
    const ParticleTypePtr a = self.particle_types_[0], b = self.particle_types_[1];
    const int L = self.L_;
    const double la = a->min_mass_kinematic(), lb = b->min_mass_kinematic();
    self.tabulation_ = std::make_unique<Tabulation>(
        la + lb, std::max(2., 10 * (a->width_at_pole() + b->width_at_pole())), 200, [&](double E) {
          return integrate2d(la, E - lb, lb, E - la, [&](double x, double y) { return integ2(E, x, y, a, b, L); })
              .value();
        });
  }
  return self.tabulation_->get_value_linear(mass);
}
//@ C21 smash::ThreeBodyDecayDilepton::width pure=diff_width,Tabulation,is_lepton,operator()
double wdal(const ThreeBodyDecayDilepton &self, double, double G0, double m) {
  if (self.mother_->is_stable())
    return G0;
  if (!self.tabulation_) {
    const auto &p = self.particle_types_;
    int other = -1;
    for (int i = 2; i >= 0; i--)
      if (!p[i]->is_lepton())
        other = i;
    const double ml = p[(other + 1) % 3]->mass(), mo = p[other]->mass();
    self.tabulation_ = std::make_unique<Tabulation>(
        mo + 2 * ml, self.mother_->mass() + 10 * self.mother_->width_at_pole(), 200, [&](double M) {
          if (M - mo < 2 * ml)
            return 0.;
          return integrate(2 * ml, M - mo, [&](double x) {
                   return ThreeBodyDecayDilepton::diff_width(M, ml, x, mo, self.particle_types_[other], self.mother_);
                 }).value();
        });
  }
  return self.tabulation_->get_value_linear(m, Extrapolation::Const);
}
// ------------------------------------------------------------ table of decay modes
//@ C21 smash::min_angular_momentum n=3
int minL(int a, int b, int c) {
  const int sum = a + b + c;
  if (sum % 2 != 0)
    throw std::runtime_error("");
  int big = std::max(a, std::max(b, c));
  const int rest = sum - big;
  return big > rest ? (big - rest) / 2 : 0;
}
//@ C21 smash::min_angular_momentum n=4
int minL(int a, int b, int c, int d) {
  const int sum = a + b + c + d;
  if (sum % 2 != 0)
    throw std::runtime_error("");
  int big = std::max(std::max(a, d), std::max(b, c));
  const int rest = sum - big;
  return big > rest ? (big - rest) / 2 : 0;
}
//@ C21 smash::DecayModes::is_empty
bool empty(const DecayModes &self) { return self.decay_modes_.size() == 0; }
//@ C21 smash::DecayModes::decay_mode_list
const DecayBranchList &modes(const DecayModes &self) { return self.decay_modes_; }
//@ C21 smash::DecayModes::add_mode n=1
void add1(DecayModes &self, DecayBranchPtr b) { self.decay_modes_.push_back(std::move(b)); }
//@ C21 smash::DecayModes::add_mode n=4 opaque=get_decay_type
void add4(DecayModes &self, ParticleTypePtr mother, double ratio, int L, Types t) {
  DecayType *k = self.get_decay_type(mother, t, L);
  for (size_t i = 0; i < self.decay_modes_.size(); i++) {
    auto &m = self.decay_modes_[i];
    if (&m->type_ == k) {
      m->set_weight(m->weight() + ratio);
      return;
    }
  }
  self.decay_modes_.push_back(std::make_unique<DecayBranch>(*k, ratio));
}
//@ C21 smash::DecayModes::renormalize
bool renorm(DecayModes &self, const std::string &) {
  double s = 0;
  for (auto &m : self.decay_modes_)
    s += m->weight();
  if (std::abs(s - 1) < really_small)
    return false;
  for (auto &m : self.decay_modes_)
    m->set_weight(m->weight() / s);
  return std::abs(s - 1) > 0.01;
}
//@ C21 smash::DecayModes::get_decay_type opaque=is_stable,is_dilepton,has_lepton_pair,has_mother,has_particles
DecayType *getdt(ParticleTypePtr mother, Types t, int L) {
  auto &all = *all_decay_types;
  for (auto &k : all)
    if (k->has_mother(mother) && k->has_particles(t) && k->angular_momentum() == L)
      return k.get();
  if (t.size() == 2) {
    const bool a = t[0]->is_stable(), b = t[1]->is_stable();
    if (is_dilepton(t[0]->pdgcode(), t[1]->pdgcode()))
      all.emplace_back(std::make_unique<TwoBodyDecayDilepton>(t, L));
    else if (a && b)
      all.emplace_back(std::make_unique<TwoBodyDecayStable>(t, L));
    else if (!a && !b)
      all.emplace_back(std::make_unique<TwoBodyDecayUnstable>(t, L));
    else
      all.emplace_back(std::make_unique<TwoBodyDecaySemistable>(t, L));
  } else if (t.size() == 3) {
    if (has_lepton_pair(t[0]->pdgcode(), t[1]->pdgcode(), t[2]->pdgcode()))
      all.emplace_back(std::make_unique<ThreeBodyDecayDilepton>(mother, t, L));
    else
      all.emplace_back(std::make_unique<ThreeBodyDecay>(t, L));
  } else {
    throw DecayModes::InvalidDecay("");
  }
  return all.back().get();
}
}  // namespace spec
