// C30: initial nuclei
#include "smash/nucleus.h"
#include "smash/customnucleus.h"
#include "smash/deformednucleus.h"
#include "smash/alphaclusterednucleus.h"
#include "smash/collidermodus.h"
#include "smash/angles.h"
#include "smash/random.h"
#include "smash/constants.h"
#include "smash/integrate.h"
#include "smash/input_keys.h"
#include "smash/numerics.h"

namespace spec {
using namespace smash;

//@ C30 smash::Nucleus::number_of_particles
size_t number(const Nucleus &self) {
  const size_t n = self.particles_.size(), a = n / self.testparticles_;
  if (a * self.testparticles_ != n) throw Nucleus::TestparticleConfusion("");
  return a;
}
//@ C30 smash::Nucleus::number_of_protons
size_t protons(const Nucleus &self) {
  size_t n = 0;
  for (const ParticleData &p : self.particles_)
    if (p.type().pdgcode() == pdg::p) n++;
  const size_t z = n / self.testparticles_;
  if (z * self.testparticles_ != n) throw Nucleus::TestparticleConfusion("");
  return z;
}
//@ C30 smash::Nucleus::mass opaque=abs
double mass(const Nucleus &self) {
  double m = 0;
  for (const ParticleData &p : self.particles_) m += p.momentum().abs();
  return m / self.testparticles_;
}
//@ C30 smash::Nucleus::center
FourVector center(const Nucleus &self) {
  const double n = self.particles_.size();
  FourVector c;
  for (const ParticleData &p : self.particles_) c += p.position();
  return FourVector(c.x0() / n, c.x1() / n, c.x2() / n, c.x3() / n);
}
//@ C30 smash::Nucleus::set_label
void label(Nucleus &self, BelongsTo b) {
  for (ParticleData &p : self.particles_) p.set_belongs_to(b);
}
//@ C30 smash::Nucleus::align_center opaque=center
void align(Nucleus &self) {
  const FourVector c = self.center();
  for (ParticleData &p : self.particles_) {
    const FourVector x = p.position();
    p.set_4position(FourVector(x.x0() - c.x0(), x.x1() - c.x1(), x.x2() - c.x2(), x.x3() - c.x3()));
  }
}
//@ C30 smash::Nucleus::default_nuclear_radius opaque=number_of_particles
double radius(Nucleus &self) {
  const int a = self.number_of_particles();
  if (a > 16) return 1.12 * std::pow(a, 1. / 3) - 0.86 * std::pow(a, -1. / 3);
  return self.proton_radius_ * std::cbrt(a);
}
//@ C30 smash::Nucleus::make_nucleus_unpolarized opaque=set_unpolarized_spin_vector
void unpolarized(Nucleus &self) {
  for (ParticleData &p : self.particles_) p.set_unpolarized_spin_vector();
}
// Woods-Saxon: a piece is chosen by its weight 1 : 3/R : 6/R^2 : 6/R^3 and thinned by 1/(1+exp(-|t|))
//@ C30 smash::Nucleus::distribute_nucleon opaque=distribute_isotropically,almost_equal
ThreeVector nucleon(Nucleus &self) {
  Angles dir;
  dir.distribute_isotropically();
  if (almost_equal(self.diffusiveness_, 0.)) {
    const ThreeVector e = dir.threevec();
    return e * (self.nuclear_radius_ * std::cbrt(random::canonical()));
  }
  if (almost_equal(self.nuclear_radius_, 0.)) return ThreeVector();
  const double R = self.nuclear_radius_ / self.diffusiveness_;
  const double w2 = 3 / R, w3 = 6 / (R * R), w4 = 6 / (R * R * R);
  double t;
  do {
    const double u = random::uniform(-1., w2 + w3 + w4);
    if (u < 0) {
      t = R * std::cbrt(random::canonical()) - R;
    } else if (u < w2) {
      t = -std::log(random::canonical());
    } else if (u < w2 + w3) {
      t = -std::log(random::canonical());
      t -= std::log(random::canonical());
    } else {
      t = -std::log(random::canonical());
      t -= std::log(random::canonical());
      t -= std::log(random::canonical());
    }
  } while (random::canonical() > 1 / (1 + std::exp(-std::abs(t))));
  return dir.threevec() * (self.nuclear_radius_ + self.diffusiveness_ * t);
}
//@ C30 smash::Nucleus::woods_saxon
double ws(Nucleus &self, double r) { return r * r / (1 + std::exp((r - self.nuclear_radius_) / self.diffusiveness_)); }
//@ C30 smash::Nucleus::nucleon_density
double rho(const Nucleus &self, double r, double, double) {
  return self.saturation_density_ / (1 + std::exp((r - self.nuclear_radius_) / self.diffusiveness_));
}
//@ C30 smash::Nucleus::nucleon_density_unnormalized
double rho1(const Nucleus &self, double r, double, double) {
  return 1 / (1 + std::exp((r - self.nuclear_radius_) / self.diffusiveness_));
}
//@ C30 smash::Nucleus::calculate_saturation_density opaque=number_of_particles
double rho0(const Nucleus &self) {
  Integrator2d integrate;
  // r = (1-t)/t up to 99 fm, dr = dt/t^2
  const auto v = integrate(0.01, 1, -1, 1, [&](double t, double c) {
    const double r = (1 - t) / t;
    return 2 * M_PI * r * r / (t * t) * self.nucleon_density_unnormalized(r, c, 0.);
  });
  return self.number_of_particles() / v.value();
}
//@ C30 smash::Nucleus::arrange_nucleons opaque=align_center,rotate
void arrange(Nucleus &self) {
  for (ParticleData &p : self.particles_) {
    p.set_4momentum(p.type().mass(), 0., 0., 0.);
    const ThreeVector x = self.distribute_nucleon();
    p.set_4position(FourVector(0., x[0], x[1], x[2]));
  }
  self.align_center();
  self.rotate();
}
//@ C30 smash::Nucleus::set_parameters_automatic opaque=number_of_particles,number_of_protons,default_nuclear_radius
void automatic(Nucleus &self) {
  const int a = self.number_of_particles(), z = self.number_of_protons();
  double r, d;
  if (a == 1) {
    r = self.testparticles_ == 1 ? 0 : 1 - std::exp(-0.1 * (self.testparticles_ - 1.));
    d = self.testparticles_ == 1 ? -1 : 0.02;
  } else if (a == 238 && z == 92) {
    r = 6.86, d = 0.556;
  } else if (a == 208 && z == 82) {
    r = 6.67, d = 0.54;
  } else if (a == 197 && z == 79) {
    r = 6.55, d = 0.523;
  } else if (a == 129 && z == 54) {
    r = 5.36, d = 0.59;
  } else if (a == 63 && z == 29) {
    r = 4.20641, d = 0.5977;
  } else if (a == 96 && z == 40) {
    r = 5.02, d = 0.46;
  } else if (a == 96 && z == 44) {
    r = 5.085, d = 0.46;
  } else if (a == 96) {
    r = 1.12 * std::pow(a, 1. / 3) - 0.86 * std::pow(a, -1. / 3), d = 0.54;
  } else {
    r = self.default_nuclear_radius();
    d = a <= 16 ? 0.545 : 0.54;
  }
  self.nuclear_radius_ = r;
  self.diffusiveness_ = d;
}
//@ C30 smash::Nucleus::rotate opaque=random_euler_angles,rotate
void turn(Nucleus &self) {
  if (self.random_rotation_) self.random_euler_angles();
  if (self.euler_phi_ == 0 && self.euler_theta_ == 0 && self.euler_psi_ == 0) return;
  for (ParticleData &p : self.particles_) {
    ThreeVector x = p.position().threevec();
    x.rotate(self.euler_phi_, self.euler_theta_, self.euler_psi_);
    p.set_4position(FourVector(p.position().x0(), x));
  }
}
//@ C30 smash::Nucleus::random_euler_angles
void euler(Nucleus &self) {
  self.euler_phi_ = 2 * M_PI * random::uniform(0., 1.);
  self.euler_theta_ = std::acos(2 * random::uniform(0., 1.) - 1);
  self.euler_psi_ = 2 * M_PI * random::uniform(0., 1.);
}
// local Fermi momentum of each kind, isotropic, uniform inside the Fermi sphere; no total momentum
//@ C30 smash::Nucleus::generate_fermi_momenta opaque=PdgCode,center,distribute_isotropically
void fermi(Nucleus &self) {
  int n = 0, z = 0;
  for (const ParticleData &p : self.particles_) {
    if (p.pdgcode() == pdg::n) n++;
    if (p.pdgcode() == pdg::p) z++;
  }
  const FourVector c = self.center();
  ThreeVector total;
  for (ParticleData &p : self.particles_) {
    const bool isp = p.pdgcode() == pdg::p, isn = p.pdgcode() == pdg::n;
    if (!isp && !isn) continue;
    const ThreeVector x = p.position().threevec();
    const double rho = self.nucleon_density((p.position() - c).abs3(), std::cos(x.get_theta()), x.get_phi()) *
                       (isp ? 1. * z / (n + z) : 1.) * (isn ? 1. * n / (n + z) : 1.);
    const double k = hbarc * std::pow(3 * M_PI * M_PI * rho * random::uniform(0., 1.), 1. / 3.);
    Angles dir;
    dir.distribute_isotropically();
    const ThreeVector v = dir.threevec() * k;
    total += v;
    p.set_3momentum(v);
  }
  if (n + z != 0)
    for (ParticleData &p : self.particles_)
      if (p.pdgcode() == pdg::p || p.pdgcode() == pdg::n)
        p.set_4momentum(p.type().mass(), p.momentum().threevec() - total * (1. / (n + z)));
}
//@ C30 smash::Nucleus::boost
void boost(Nucleus &self, double beta) {
  const double g = 1 / std::sqrt(1 - beta * beta);
  for (ParticleData &p : self.particles_) {
    const FourVector x = p.position(), k = p.momentum();
    p.set_4position(FourVector(x.x0(), x.x1(), x.x2(), x.x3() / g));
    p.set_4momentum(p.type().mass(), k.x1(), k.x2(), g * (k.x3() + beta * k.x0()));
  }
}
//@ C30 smash::Nucleus::fill_from_list opaque=find,ParticleData
void fill(Nucleus &self, const std::map<PdgCode, int> &list, int ntest) {
  self.testparticles_ = ntest;
  for (const auto &kv : list) {
    const ParticleType &t = ParticleType::find(kv.first);
    for (unsigned int i = 0; i < kv.second * self.testparticles_; i++) {
      ParticleData p(t);
      p.set_4momentum(t.mass(), 0., 0., 0.);
      self.particles_.push_back(p);
    }
  }
}
//@ C30 smash::Nucleus::shift
void shift(Nucleus &self, double z, double x, double t) {
  for (ParticleData &p : self.particles_) {
    const FourVector r = p.position();
    p.set_4position(FourVector(t, r.x1() + x, r.x2(), r.x3() + z));
    p.set_formation_time(t);
  }
}
//@ C30 smash::Nucleus::copy_particles opaque=insert
void copy(Nucleus &self, Particles *out) {
  for (const ParticleData &p : self.particles_) out->insert(p);
}
//@ C30 smash::has_projectile_or_target opaque=has_section
bool either(const Configuration &c) {
  const bool p = c.has_section(InputSections::m_c_projectile), t = c.has_section(InputSections::m_c_target);
  return p || t;
}
//@ C30 smash::is_about_projectile opaque=has_section
bool projectile(const Configuration &c) {
  const bool p = c.has_section(InputSections::m_c_projectile), t = c.has_section(InputSections::m_c_target);
  if (p == t) throw std::logic_error("either");
  return p;
}
//@ C30 smash::DeformedNucleus::distribute_nucleon opaque=distribute_isotropically,nucleon_density
ThreeVector deformed(DeformedNucleus &self) {
  const double R = self.get_nuclear_radius(), d = self.get_diffusiveness();
  const double rmax = R / d + R * d;
  Angles dir;
  double r;
  do {
    dir.distribute_isotropically();
    r = rmax * std::cbrt(random::canonical());
  } while (random::canonical() * 1. > self.nucleon_density(r, dir.costheta(), dir.phi()) / self.saturation_density_);
  return dir.threevec() * r;
}
//@ C30 smash::DeformedNucleus::set_deformation_parameters_automatic opaque=number_of_particles,number_of_protons
void deformation(DeformedNucleus &self) {
  const int a = self.number_of_particles(), z = self.number_of_protons();
  if (a == 238 && z == 92)
    self.beta2_ = 0.28, self.beta4_ = 0.093;
  else if (a == 208 && z == 82)
    self.beta2_ = 0, self.beta4_ = 0;
  else if (a == 197 && z == 79)
    self.beta2_ = -0.131, self.beta4_ = -0.031;
  else if (a == 129 && z == 54)
    self.beta2_ = 0.162, self.beta4_ = -0.003;
  else if (a == 63 && z == 29)
    self.beta2_ = 0.162, self.beta4_ = -0.006;
  else if (a == 96 && z == 40)
    self.beta2_ = 0, self.beta4_ = 0;
  else if (a == 96 && z == 44)
    self.beta2_ = 0.158, self.beta4_ = 0;
  else
    throw std::domain_error("not listed");
}
//@ C30 smash::y_l_m
double ylm(int l, int m, double x, double phi) {
  if (l == 2 && m == 0) return std::sqrt(5 / (16 * M_PI)) * (3 * x * x - 1);
  if (l == 2 && m == 2) return std::sqrt(15 / (32 * M_PI)) * (1 - x * x) * std::cos(2 * phi);
  if (l == 3 && m == 0) return std::sqrt(7 / (16 * M_PI)) * (5 * x * x * x - 3 * x);
  if (l == 4 && m == 0) return std::sqrt(9 / (256 * M_PI)) * (35 * x * x * x * x - 30 * x * x + 3);
  throw std::domain_error("");
}
double surface(const DeformedNucleus &self, double x, double phi) {
  return self.get_nuclear_radius() *
         (1 + self.beta2_ * (std::cos(self.gamma_) * y_l_m(2, 0, x, phi) + std::sqrt(2.) * std::sin(self.gamma_) * y_l_m(2, 2, x, phi)) +
          self.beta3_ * y_l_m(3, 0, x, phi) + self.beta4_ * y_l_m(4, 0, x, phi));
}
//@ C30 smash::DeformedNucleus::nucleon_density
double rhod(const DeformedNucleus &self, double r, double x, double phi) {
  return self.saturation_density_ / (1 + std::exp((r - surface(self, x, phi)) / self.get_diffusiveness()));
}
//@ C30 smash::DeformedNucleus::nucleon_density_unnormalized
double rhod1(const DeformedNucleus &self, double r, double x, double phi) {
  return 1 / (1 + std::exp((r - surface(self, x, phi)) / self.get_diffusiveness()));
}
//@ C30 smash::DeformedNucleus::integrant_nucleon_density_phi
double overphi(const DeformedNucleus &self, double r, double x) {
  Integrator integrate;
  return integrate(0., 2 * M_PI, [&](double phi) { return self.nucleon_density_unnormalized(r, x, phi); }).value();
}
//@ C30 smash::DeformedNucleus::calculate_saturation_density opaque=number_of_particles,integrant_nucleon_density_phi
double rho0d(const DeformedNucleus &self) {
  Integrator2d integrate;
  if (self.gamma_ == 0) {
    const auto v = integrate(0.01, 1, -1, 1, [&](double t, double c) {
      const double r = (1 - t) / t;
      return 2 * M_PI * r * r / (t * t) * self.nucleon_density_unnormalized(r, c, 0.);
    });
    return self.number_of_particles() / v.value();
  }
  const auto v = integrate(0.01, 1, -1, 1, [&](double t, double c) {
    const double r = (1 - t) / t;
    return r * r / (t * t) * self.integrant_nucleon_density_phi(r, c);
  });
  return self.number_of_particles() / v.value();
}
//@ C30 smash::AlphaClusteredNucleus::scale_tetrahedron_vertex_positions
void scale(AlphaClusteredNucleus &self, double side) {
  for (ThreeVector &v : self.tetrahedron_vertex_positions_) {
    const double n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
    v = v / n * (side * std::sqrt(6.) / 4);
  }
}
//@ C30 smash::AlphaClusteredNucleus::distribute_nucleon opaque=distribute_nucleon
ThreeVector cluster(AlphaClusteredNucleus &self) {
  const ThreeVector s = self.tetrahedron_vertex_positions_[self.tetrahedron_vertex_index_ % self.tetrahedron_vertex_positions_.size()];
  self.tetrahedron_vertex_index_++;
  return s + self.Nucleus::distribute_nucleon();
}
//@ C30 smash::CustomNucleus::fill_from_list opaque=find,ParticleData,PdgCode
void fill_custom(CustomNucleus &self, const std::vector<Nucleoncustom> &list) {
  self.particles_.clear();
  self.index_ = 0;
  for (const Nucleoncustom &n : list) {
    PdgCode code;
    if (n.isospin)
      code = pdg::p;
    else
      code = pdg::n;
    const ParticleType &t = ParticleType::find(code);
    ParticleData p(t);
    p.set_4momentum(t.mass(), 0., 0., 0.);
    self.particles_.push_back(p);
  }
}
//@ C30 smash::CustomNucleus::distribute_nucleon opaque=readfile,fill_from_list,rotate
ThreeVector next_custom(CustomNucleus &self) {
  if (self.index_ >= self.custom_nucleus_.size()) {
    self.custom_nucleus_ = self.readfile(**self.used_filestream_);
    self.fill_from_list(self.custom_nucleus_);
  }
  const Nucleoncustom n = self.custom_nucleus_.at(self.index_);
  self.index_ += 1;
  ThreeVector x(n.x, n.y, n.z);
  x.rotate(self.euler_phi_, self.euler_theta_, self.euler_psi_);
  return x;
}
//@ C30 smash::CustomNucleus::arrange_nucleons opaque=align_center,random_euler_angles
void arrange_custom(CustomNucleus &self) {
  self.random_euler_angles();
  for (auto p = self.particles_.begin(); p != self.particles_.end(); ++p) {
    p->set_4momentum(p->type().mass(), 0., 0., 0.);
    const ThreeVector x = self.distribute_nucleon();
    p->set_4position(FourVector(0., x[0], x[1], x[2]));
  }
  self.align_center();
}
//@ C30 smash::CustomNucleus::generate_fermi_momenta opaque=generate_fermi_momenta
void fermi_custom(CustomNucleus &self) { self.Nucleus::generate_fermi_momenta(); }
//@ C30 smash::CustomNucleus::file_path
std::string path(CustomNucleus &self, const std::string &dir, const std::string &name) {
  return dir.back() == '/' ? dir + name : dir + '/' + name;
}
//@ C30 smash::CustomNucleus::readfile
std::vector<Nucleoncustom> read(const CustomNucleus &self, std::ifstream &in) {
  int z = 0, n = 0;
  std::vector<Nucleoncustom> list;
  for (int i = 0; i < self.number_of_nucleons_; i++) {
    std::string line;
    if (!std::getline(in, line)) {
      in.clear();
      in.seekg(0, in.beg);
      std::getline(in, line);
    }
    std::istringstream iss(line);
    Nucleoncustom c;
    if (!(iss >> c.x >> c.y >> c.z >> c.spinprojection >> c.isospin)) throw std::runtime_error("line");
    if (c.isospin) z++; else n++;
    list.push_back(c);
  }
  if (z != self.number_of_protons_ || n != self.number_of_neutrons_) throw std::runtime_error("numbers");
  return list;
}
// ---- collisions of nuclei
//@ C30 smash::ColliderModus::get_velocities
std::pair<double, double> velocities(ColliderModus &self, double s, double m_a, double m_b) {
  if (self.frame_ == CalculationFrame::FixedTarget) return {fixed_target_projectile_v(s, m_a, m_b), 0.0};
  if (self.frame_ == CalculationFrame::CenterOfVelocity) {
    const double v = center_of_velocity_v(s, m_a, m_b);
    return {v, -v};
  }
  if (self.frame_ == CalculationFrame::CenterOfMass) {
    const double p = pCM_from_s(s, m_a, m_b);
    return {p / std::sqrt(m_a * m_a + p * p), -p / std::sqrt(m_b * m_b + p * p)};
  }
  throw std::invalid_argument("frame");
}
//@ C30 smash::ColliderModus::sample_impact
void impact(ColliderModus &self) {
  if (self.sampling_ == Sampling::Quadratic) {
    const double lo = self.imp_min_ * self.imp_min_, hi = self.imp_max_ * self.imp_max_;
    self.impact_ = std::sqrt(lo + random::canonical() * (hi - lo));
  } else if (self.sampling_ == Sampling::Uniform) {
    self.impact_ = random::uniform(self.imp_min_, self.imp_max_);
  } else if (self.sampling_ == Sampling::Custom) {
    double b = 0, p = 0, x = 1;
    while (x > p) {
      b = random::uniform(self.imp_min_, self.imp_max_);
      p = (*self.impact_interpolation_)(b) / self.yield_max_;
      x = random::uniform(0., 1.);
    }
    self.impact_ = b;
  }
}
//@ C30 smash::ColliderModus::rotate_reaction_plane
void rotate(ColliderModus &self, double phi, Particles *particles) {
  const double c = std::cos(phi), s = std::sin(phi);
  for (ParticleData &p : *particles) {
    const ThreeVector x = p.position().threevec();
    const ThreeVector k = p.momentum().threevec();
    p.set_3position(ThreeVector(c * x.x1() - s * x.x2(), s * x.x1() + c * x.x2(), x.x3()));
    p.set_3momentum(ThreeVector(c * k.x1() - s * k.x2(), s * k.x1() + c * k.x2(), k.x3()));
  }
}
// the nuclei touch at t = 0, up to the displacement in front of them
//@ C30 smash::ColliderModus::initial_conditions inline=smash::ColliderModus::get_velocities opaque=rotate_reaction_plane,get_diffusiveness,get_nuclear_radius
double start(ColliderModus &self, Particles *particles, const ExperimentParameters &) {
  Nucleus &a = *self.projectile_;
  Nucleus &b = *self.target_;
  a.arrange_nucleons();
  b.arrange_nucleons();
  const std::pair<double, double> v = self.get_velocities(self.total_s_, a.mass(), b.mass());
  if (v.first >= 1.0 || v.second >= 1.0) throw std::domain_error("velocity");
  if (self.fermi_motion_ == FermiMotion::Frozen) {
    self.velocity_projectile_ = v.first;
    self.velocity_target_ = v.second;
  }
  if (self.fermi_motion_ != FermiMotion::Off) {
    if (self.fermi_motion_ != FermiMotion::On && self.fermi_motion_ != FermiMotion::Frozen)
      throw std::invalid_argument("Fermi motion");
    a.generate_fermi_momenta();
    b.generate_fermi_momenta();
  }
  a.boost(v.first);
  b.boost(v.second);
  const double da = std::max(0., a.get_diffusiveness());
  const double db = std::max(0., b.get_diffusiveness());
  const double ra = a.get_nuclear_radius() + da;
  const double rb = b.get_nuclear_radius() + db;
  const double dz = self.initial_z_displacement_;
  const double t = -dz / std::abs(v.first);
  double phi = 0.0;
  if (self.random_reaction_plane_) phi = random::uniform(0.0, 2.0 * M_PI);
  a.shift(-dz - std::sqrt(1.0 - v.first * v.first) * ra, self.impact_ / 2.0, t);
  b.shift(dz * std::abs(v.second / v.first) + std::sqrt(1.0 - v.second * v.second) * rb, -self.impact_ / 2.0, t);
  a.copy_particles(particles);
  b.copy_particles(particles);
  self.rotate_reaction_plane(phi, particles);
  return t;
}
//@ C30 smash::ColliderModus::validate_IC_kinematic_range
void cuts(ColliderModus &self) {
  if (self.IC_parameters_->rapidity_cut.value() < 0.0 || self.IC_parameters_->pT_cut.value() < 0.0)
    throw std::runtime_error("cuts");
}
//@ C30 smash::ColliderModus::custom_file_path
std::string path(ColliderModus &self, const std::string &dir, const std::string &name) {
  return dir.back() == '/' ? dir + name : dir + '/' + name;
}
//@ C30 smash::ColliderModus::same_inputfile
bool same_file(ColliderModus &self, Configuration &p, Configuration &t) {
  if (!t.has_section(InputSections::m_c_t_custom)) return false;
  const std::string pd = p.read(InputKeys::modi_collider_projectile_custom_fileDirectory);
  const std::string td = t.read(InputKeys::modi_collider_target_custom_fileDirectory);
  const std::string pn = p.read(InputKeys::modi_collider_projectile_custom_fileName);
  const std::string tn = t.read(InputKeys::modi_collider_target_custom_fileName);
  return self.custom_file_path(pd, pn) == self.custom_file_path(td, tn);
}
// ---- what the collider is configured to do
struct Collider {
  std::unique_ptr<Nucleus> projectile_;
  std::unique_ptr<Nucleus> target_;
  double total_s_;
  double sqrt_s_NN_;
  double impact_ = 0.;
  bool random_reaction_plane_;
  bool IC_for_hybrid_ = false;
  Sampling sampling_ = InputKeys::modi_collider_impact_sample.default_value();
  double imp_min_ = InputKeys::modi_collider_impact_value.default_value();
  double imp_max_ = InputKeys::modi_collider_impact_value.default_value();
  double yield_max_ = 0.0;
  std::unique_ptr<InterpolateDataLinear<double>> impact_interpolation_ = nullptr;
  double initial_z_displacement_;
  CalculationFrame frame_;
  FermiMotion fermi_motion_;
  double velocity_projectile_ = 0.0;
  double velocity_target_ = 0.0;
  std::unique_ptr<InitialConditionParameters> IC_parameters_;
  std::unique_ptr<RectangularLattice<EnergyMomentumTensor>> fluid_lattice_ = nullptr;
  std::unique_ptr<std::map<int32_t, double>> fluid_background_ = nullptr;
};
inline std::string file_of(const std::string &dir, const std::string &name) {
  return dir.back() == '/' ? dir + name : dir + '/' + name;
}
//@ C30 smash::ColliderModus::ColliderModus pure=Configuration::take,Configuration::read,Configuration::has_section,Configuration::has_value,Configuration::extract_complete_sub_configuration inline=smash::ColliderModus::validate_IC_kinematic_range,smash::ColliderModus::same_inputfile,smash::ColliderModus::custom_file_path opaque=Nucleus::set_label,Nucleus::size,Nucleus::number_of_particles,create_deformed_nucleus,create_alphaclustered_nucleus,CustomNucleus::CustomNucleus,Nucleus::Nucleus,s_from_Etot,s_from_Ekin,s_from_plab,InterpolateDataLinear::InterpolateDataLinear,RectangularLattice::RectangularLattice limit=100
Collider collider(Configuration config, const ExperimentParameters &par) {
  Collider c;
  Configuration cfg = config.extract_complete_sub_configuration(InputSections::m_collider);
  Configuration p = cfg.extract_complete_sub_configuration(InputSections::m_c_projectile);
  Configuration t = cfg.extract_complete_sub_configuration(InputSections::m_c_target);
  c.frame_ = cfg.take(InputKeys::modi_collider_calculationFrame);
  bool same = false;
  if (p.has_section(InputSections::m_c_p_deformed)) {
    c.projectile_ = ColliderModus::create_deformed_nucleus(p, par.testparticles, "projectile");
  } else if (p.has_section(InputSections::m_c_p_custom)) {
    same = t.has_section(InputSections::m_c_t_custom) &&
           file_of(p.read(InputKeys::modi_collider_projectile_custom_fileDirectory),
                   p.read(InputKeys::modi_collider_projectile_custom_fileName)) ==
               file_of(t.read(InputKeys::modi_collider_target_custom_fileDirectory),
                       t.read(InputKeys::modi_collider_target_custom_fileName));
    c.projectile_ = std::make_unique<CustomNucleus>(p, par.testparticles, same);
  } else if (p.has_section(InputSections::m_c_p_alphaClustered)) {
    c.projectile_ = ColliderModus::create_alphaclustered_nucleus(p, par.testparticles, "projectile");
  } else {
    c.projectile_ = std::make_unique<Nucleus>(p, par.testparticles);
  }
  if (c.projectile_->size() == 0) throw ColliderModus::ColliderEmpty("projectile");
  c.projectile_->set_label(BelongsTo::Projectile);
  if (t.has_section(InputSections::m_c_t_deformed))
    c.target_ = ColliderModus::create_deformed_nucleus(t, par.testparticles, "target");
  else if (t.has_section(InputSections::m_c_t_custom))
    c.target_ = std::make_unique<CustomNucleus>(t, par.testparticles, same);
  else if (t.has_section(InputSections::m_c_t_alphaClustered))
    c.target_ = ColliderModus::create_alphaclustered_nucleus(t, par.testparticles, "target");
  else
    c.target_ = std::make_unique<Nucleus>(t, par.testparticles);
  if (c.target_->size() == 0) throw ColliderModus::ColliderEmpty("target");
  c.target_->set_label(BelongsTo::Target);
  c.fermi_motion_ = cfg.take(InputKeys::modi_collider_fermiMotion);

  // energy: exactly one of seven ways
  const double M_a = c.projectile_->mass(), M_b = c.target_->mass();
  const double N_a = c.projectile_->number_of_particles(), N_b = c.target_->number_of_particles();
  const double m_a = M_a / c.projectile_->number_of_particles(), m_b = M_b / c.target_->number_of_particles();
  int given = 0;
  if (cfg.has_value(InputKeys::modi_collider_sqrtSNN)) {
    ++given;
    const double root = cfg.take(InputKeys::modi_collider_sqrtSNN);
    c.sqrt_s_NN_ = root;
    if (root <= m_a + m_b) throw ModusDefault::InvalidEnergy("sqrt(s)");
    c.total_s_ = M_a * M_a + M_b * M_b + M_a * M_b / (m_a * m_b) * (root * root - m_a * m_a - m_b * m_b);
  }
  if (cfg.has_value(InputKeys::modi_collider_eTot)) {
    ++given;
    const double e = cfg.take(InputKeys::modi_collider_eTot);
    if (e < 0) throw ModusDefault::InvalidEnergy("E_Tot");
    c.total_s_ = s_from_Etot(e * N_a, M_a, M_b);
    c.sqrt_s_NN_ = std::sqrt(s_from_Etot(e, m_a, m_b));
  }
  if (cfg.has_value(InputKeys::modi_collider_eKin)) {
    ++given;
    const double e = cfg.take(InputKeys::modi_collider_eKin);
    if (e < 0) throw ModusDefault::InvalidEnergy("E_Kin");
    c.total_s_ = s_from_Ekin(e * N_a, M_a, M_b);
    c.sqrt_s_NN_ = std::sqrt(s_from_Ekin(e, m_a, m_b));
  }
  if (cfg.has_value(InputKeys::modi_collider_pLab)) {
    ++given;
    const double k = cfg.take(InputKeys::modi_collider_pLab);
    if (k < 0) throw ModusDefault::InvalidEnergy("P_Lab");
    c.total_s_ = s_from_plab(k * N_a, M_a, M_b);
    c.sqrt_s_NN_ = std::sqrt(s_from_plab(k, m_a, m_b));
  }
  if (p.has_value(InputKeys::modi_collider_projectile_eTot) && t.has_value(InputKeys::modi_collider_target_eTot)) {
    ++given;
    const double a = p.take(InputKeys::modi_collider_projectile_eTot), b = t.take(InputKeys::modi_collider_target_eTot);
    if (a < 0 || b < 0) throw ModusDefault::InvalidEnergy("E_Tot");
    c.total_s_ = s_from_Etot(a * N_a, b * N_b, M_a, M_b);
    c.sqrt_s_NN_ = std::sqrt(s_from_Etot(a, b, m_a, m_b));
  }
  if (p.has_value(InputKeys::modi_collider_projectile_eKin) && t.has_value(InputKeys::modi_collider_target_eKin)) {
    ++given;
    const double a = p.take(InputKeys::modi_collider_projectile_eKin), b = t.take(InputKeys::modi_collider_target_eKin);
    if (a < 0 || b < 0) throw ModusDefault::InvalidEnergy("E_Kin");
    c.total_s_ = s_from_Ekin(a * N_a, b * N_b, M_a, M_b);
    c.sqrt_s_NN_ = std::sqrt(s_from_Ekin(a, b, m_a, m_b));
  }
  if (p.has_value(InputKeys::modi_collider_projectile_pLab) && t.has_value(InputKeys::modi_collider_target_pLab)) {
    ++given;
    const double a = p.take(InputKeys::modi_collider_projectile_pLab), b = t.take(InputKeys::modi_collider_target_pLab);
    if (a < 0 || b < 0) throw ModusDefault::InvalidEnergy("P_Lab");
    c.total_s_ = s_from_plab(a * N_a, b * N_b, M_a, M_b);
    c.sqrt_s_NN_ = std::sqrt(s_from_plab(a, b, m_a, m_b));
  }
  if (given == 0) throw std::domain_error("no energy");
  if (given > 1) throw std::invalid_argument("energies");

  // impact parameter
  if (cfg.has_value(InputKeys::modi_collider_impact_value)) {
    c.impact_ = c.imp_min_ = c.imp_max_ = cfg.take(InputKeys::modi_collider_impact_value);
  } else {
    if (cfg.has_value(InputKeys::modi_collider_impact_sample)) {
      c.sampling_ = cfg.take(InputKeys::modi_collider_impact_sample);
      if (c.sampling_ == Sampling::Custom) {
        if (!cfg.has_value(InputKeys::modi_collider_impact_values) && !cfg.has_value(InputKeys::modi_collider_impact_yields))
          throw std::invalid_argument("no spectrum");
        const std::vector<double> b = cfg.take(InputKeys::modi_collider_impact_values);
        const std::vector<double> y = cfg.take(InputKeys::modi_collider_impact_yields);
        if (b.size() != y.size()) throw std::invalid_argument("lengths");
        c.impact_interpolation_ = std::make_unique<InterpolateDataLinear<double>>(InterpolateDataLinear<double>(b, y));
        const auto mm = std::minmax_element(b.begin(), b.end());
        c.imp_min_ = *mm.first;
        c.imp_max_ = *mm.second;
        c.yield_max_ = *std::max_element(y.begin(), y.end());
      }
    }
    if (cfg.has_value(InputKeys::modi_collider_impact_range)) {
      const std::array<double, 2> r = cfg.take(InputKeys::modi_collider_impact_range);
      c.imp_min_ = r[0];
      c.imp_max_ = r[1];
    }
    if (cfg.has_value(InputKeys::modi_collider_impact_max)) {
      c.imp_min_ = 0;
      c.imp_max_ = cfg.take(InputKeys::modi_collider_impact_max);
    }
  }
  c.random_reaction_plane_ = cfg.take(InputKeys::modi_collider_impact_randomReactionPlane);
  c.initial_z_displacement_ = 0.5 * cfg.take(InputKeys::modi_collider_initialDistance);

  // initial conditions for hydrodynamics
  if (!cfg.has_section(InputSections::m_c_initialConditions)) return c;
  c.IC_for_hybrid_ = true;
  c.IC_parameters_ = std::make_unique<InitialConditionParameters>();
  InitialConditionParameters &ic = *c.IC_parameters_;
  ic.type = cfg.take(InputKeys::modi_collider_initialConditions_type);
  if (ic.type == FluidizationType::ConstantTau) {
    FluidizationAction::remove_particle_ = true;
    if (cfg.has_value(InputKeys::modi_collider_initialConditions_properTime)) {
      ic.proper_time = cfg.take(InputKeys::modi_collider_initialConditions_properTime);
    } else {
      ic.lower_bound = cfg.take(InputKeys::modi_collider_initialConditions_lowerBound);
      ic.proper_time_scaling = cfg.take(InputKeys::modi_collider_initialConditions_scaling);
    }
    const double y = cfg.take(InputKeys::modi_collider_initialConditions_rapidityCut);
    const double k = cfg.take(InputKeys::modi_collider_initialConditions_pTCut);
    ic.rapidity_cut = y;
    ic.pT_cut = k;
    if (y < 0 || k < 0) throw std::runtime_error("cuts");
  } else if (ic.type == FluidizationType::Dynamic) {
    FluidizationAction::remove_particle_ = false;
    const double e = cfg.take(InputKeys::modi_collider_initialConditions_eDenThreshold);
    const double t0 = cfg.take(InputKeys::modi_collider_initialConditions_minTime);
    const double t1 = cfg.take(InputKeys::modi_collider_initialConditions_maxTime);
    const int n = cfg.take(InputKeys::modi_collider_initialConditions_fluidCells);
    const double f = cfg.take(InputKeys::modi_collider_initialConditions_formTimeFraction);
    if (!(e > 0) || t1 < t0 || t0 < 0 || n < 2 || f < 0) throw std::invalid_argument("dynamic");
    ic.fluidizable_processes = cfg.take(InputKeys::modi_collider_initialConditions_fluidProcesses);
    const double h = t0 > 40. ? t0 : 40.;
    c.fluid_lattice_ = std::make_unique<RectangularLattice<EnergyMomentumTensor>>(
        std::array<double, 3>{2 * h, 2 * h, 2 * h}, std::array<int, 3>{n, n, n}, std::array<double, 3>{-h, -h, -h}, false,
        LatticeUpdate::EveryTimestep);
    c.fluid_background_ = std::make_unique<std::map<int32_t, double>>();
    ic.energy_density_threshold = e;
    ic.min_time = t0;
    ic.max_time = t1;
    ic.num_fluid_cells = n;
    ic.formation_time_fraction = f;
    ic.smearing_kernel_at_0 = 1 / std::pow(2 * M_PI * par.gaussian_sigma * par.gaussian_sigma, 1.5);
    ic.delay_initial_elastic = cfg.take(InputKeys::modi_collider_initialConditions_delayInitialElastic);
  }
  return c;
}
//@ C30 smash::ColliderModus::create_deformed_nucleus pure=Configuration::take,Configuration::has_value opaque=is_about_projectile,DeformedNucleus::DeformedNucleus
std::unique_ptr<DeformedNucleus> deformed(Configuration &cfg, int ntest, const std::string &type) {
  bool automatic, b2, b3, b4, g;
  if (is_about_projectile(cfg)) {
    automatic = cfg.take(InputKeys::modi_collider_projectile_deformed_automatic);
    b2 = cfg.has_value(InputKeys::modi_collider_projectile_deformed_beta2);
    b3 = cfg.has_value(InputKeys::modi_collider_projectile_deformed_beta3);
    b4 = cfg.has_value(InputKeys::modi_collider_projectile_deformed_beta4);
    g = cfg.has_value(InputKeys::modi_collider_projectile_deformed_gamma);
  } else {
    automatic = cfg.take(InputKeys::modi_collider_target_deformed_automatic);
    b2 = cfg.has_value(InputKeys::modi_collider_target_deformed_beta2);
    b3 = cfg.has_value(InputKeys::modi_collider_target_deformed_beta3);
    b4 = cfg.has_value(InputKeys::modi_collider_target_deformed_beta4);
    g = cfg.has_value(InputKeys::modi_collider_target_deformed_gamma);
  }
  if (automatic ? (b2 || b3 || b4 || g) : (!(b2 || b3 || b4) || (g && !b2))) throw std::invalid_argument("deformed");
  return std::make_unique<DeformedNucleus>(cfg, ntest, automatic);
}
//@ C30 smash::ColliderModus::create_alphaclustered_nucleus pure=Configuration::take,Configuration::has_value opaque=is_about_projectile,AlphaClusteredNucleus::AlphaClusteredNucleus
std::unique_ptr<AlphaClusteredNucleus> clustered(Configuration &cfg, int ntest, const std::string &type) {
  bool automatic, side;
  if (is_about_projectile(cfg)) {
    automatic = cfg.take(InputKeys::modi_collider_projectile_alphaClustered_automatic);
    side = cfg.has_value(InputKeys::modi_collider_projectile_alphaClustered_sideLength);
  } else {
    automatic = cfg.take(InputKeys::modi_collider_target_alphaClustered_automatic);
    side = cfg.has_value(InputKeys::modi_collider_target_alphaClustered_sideLength);
  }
  if (automatic == side) throw std::invalid_argument("clustered");
  return std::make_unique<AlphaClusteredNucleus>(cfg, ntest, automatic);
}
}  // namespace spec
