// C26: thermodynamic quantities, lattices and VTK files
#include "smash/thermodynamicoutput.h"
#include "smash/thermodynamiclatticeoutput.h"
#include "smash/vtkoutput.h"
#include "smash/density.h"
#include "smash/energymomentumtensor.h"
#include "smash/particles.h"
#include "smash/config.h"
#include "smash/clock.h"
namespace spec {
using namespace smash;

//@ C26 smash::ThermodynamicOutput::at_eventstart sig=vector,int
void start(ThermodynamicOutput &self, const std::vector<Particles> &, int event) {
  std::fprintf(self.file_.get(), "# event %i\n", event);
}
//@ C26 smash::ThermodynamicOutput::at_eventend sig=vector,int
void end(ThermodynamicOutput &self, const std::vector<Particles> &, int) { std::fflush(self.file_.get()); }
inline void components(FILE *f, const EnergyMomentumTensor &t) {
  std::fprintf(f, "%15.12f ", t[0]);
  for (int i = 1; i < 10; i++) std::fprintf(f, "%15.12f ", t[i]);
}
inline void current(FILE *f, const FourVector &j) {
  std::fprintf(f, "%15.12f %15.12f %15.12f %15.12f ", j.x0(), j.x1(), j.x2(), j.x3());
}
// the tensor and currents of all ensembles at the point or in the whole volume
//@ C26 smash::ThermodynamicOutput::at_intermediate_time sig=vector,unique_ptr,DensityParameters
void between(ThermodynamicOutput &self, const std::vector<Particles> &all, const std::unique_ptr<Clock> &clock,
             const DensityParameters &par) {
  const OutputParameters &out = self.out_par_;
  const ThreeVector where = out.td_position;
  FILE *f = self.file_.get();
  std::fprintf(f, "%6.2f ", clock->current_time());
  if (out.td_rho_eckart) {
    FourVector j;
    for (const Particles &list : all)
      j += std::get<1>(current_eckart(where, list, par, out.td_dens_type, false, out.td_smearing));
    std::fprintf(f, "%15.12f ", j.abs());
  }
  if (out.td_tmn || out.td_tmn_landau || out.td_v_landau) {
    EnergyMomentumTensor t;
    for (const Particles &list : all) {
      for (const ParticleData &p : list) {
        const bool spectator = p.get_history().collisions_per_particle == 0;
        if (spectator && par.only_participants()) continue;
        const double counts = density_factor(p.type(), out.td_dens_type);
        if (std::abs(counts) < really_small) continue;
        double weight = counts;
        if (out.td_smearing) {
          const double near = unnormalized_smearing_factor(p.position().threevec() - where, p.momentum(),
                                                           1 / p.momentum().abs(), par, false).first;
          if (near < really_small) continue;
          weight = counts * near * par.norm_factor_sf();
        }
        t.add_particle(p, weight);
      }
    }
    const FourVector u = t.landau_frame_4velocity();
    const EnergyMomentumTensor rest = t.boosted(u);
    if (out.td_tmn) components(f, t);
    if (out.td_tmn_landau) components(f, rest);
    if (out.td_v_landau) std::fprintf(f, "%15.12f %15.12f %15.12f ", -u.x1() / u.x0(), -u.x2() / u.x0(), -u.x3() / u.x0());
  }
  if (out.td_jQBS) {
    FourVector q, b, s;
    for (const Particles &list : all) {
      q += std::get<1>(current_eckart(where, list, par, DensityType::Charge, false, out.td_smearing));
      b += std::get<1>(current_eckart(where, list, par, DensityType::Baryon, false, out.td_smearing));
      s += std::get<1>(current_eckart(where, list, par, DensityType::Strangeness, false, out.td_smearing));
    }
    current(f, q);
    current(f, b);
    current(f, s);
  }
  std::fprintf(f, "\n");
}
inline const char *name_of(DensityType d) {
  if (d == DensityType::Hadron) return "hadron";
  if (d == DensityType::Baryon) return "net_baryon";
  if (d == DensityType::BaryonicIsospin) return "net_baryonI3";
  if (d == DensityType::Pion) return "pion";
  if (d == DensityType::Isospin3_tot) return "tot_isospin3";
  if (d == DensityType::Charge) return "charge";
  if (d == DensityType::Strangeness) return "strangeness";
  if (d == DensityType::None) return "none";
  throw std::invalid_argument("density");
}
inline const char *name_of(ThermodynamicQuantity q) {
  if (q == ThermodynamicQuantity::EckartDensity) return "rho_eckart";
  if (q == ThermodynamicQuantity::Tmn) return "tmn";
  if (q == ThermodynamicQuantity::TmnLandau) return "tmn_landau";
  if (q == ThermodynamicQuantity::LandauVelocity) return "v_landau";
  if (q == ThermodynamicQuantity::j_QBS) return "j_QBS";
  throw std::invalid_argument("quantity");
}
//@ C26 smash::OutputInterface::to_string sig=DensityType
const char *name1(OutputInterface &self, const DensityType d) { return name_of(d); }
//@ C26 smash::OutputInterface::to_string sig=ThermodynamicQuantity
const char *name2(OutputInterface &self, const ThermodynamicQuantity q) { return name_of(q); }
struct Thermo {
  bool is_dilepton_output_, is_photon_output_, is_IC_output_;
  RenamingFilePtr file_;
  OutputParameters out_par_;
};
//@ C26 smash::ThermodynamicOutput::ThermodynamicOutput
Thermo thermo(const std::filesystem::path &path, const std::string &name, const OutputParameters &par) {
  Thermo o{name == "Dileptons", name == "Photons", name.substr(0, 8) == "SMASH_IC", {path / "thermodynamics.dat", "w"}, par};
  FILE *f = o.file_.get();
  std::fprintf(f, "# %s thermodynamics output\n", SMASH_VERSION);
  if (par.td_only_participants) std::fprintf(f, "# only participants are taken into account\n");
  const ThreeVector &r = par.td_position;
  if (!par.td_smearing)
    std::fprintf(f, "# averaged over the entire volume\n");
  else
    std::fprintf(f, "# @ point (%6.2f, %6.2f, %6.2f) [fm]\n", r[0], r[1], r[2]);
  std::fprintf(f, "# %s\n", name_of(par.td_dens_type));
  std::fprintf(f, "# time [fm], ");
  if (par.td_rho_eckart) std::fprintf(f, "%s [fm^-3], ", "rho_eckart");
  const char *tensors[2] = {"tmn", "tmn_landau"};
  const bool wanted[2] = {par.td_tmn, par.td_tmn_landau};
  for (int i = 0; i < 2; i++) {
    if (!wanted[i]) continue;
    if (par.td_smearing)
      std::fprintf(f, "%s [GeV/fm^3] 00 01 02 03 11 12 13 22 23 33, ", tensors[i]);
    else
      std::fprintf(f, "%s [GeV] 00 01 02 03 11 12 13 22 23 33, ", tensors[i]);
  }
  if (par.td_v_landau) std::fprintf(f, "%s x y z, ", "v_landau");
  if (par.td_jQBS) {
    if (par.td_smearing)
      std::fprintf(f, "j_QBS [(Q,B,S)/fm^3] (0 1 2 3)x3");
    else
      std::fprintf(f, "j_QBS [(Q,B,S)] (0 1 2 3)x3");
  }
  std::fprintf(f, "\n");
  return o;
}
//@ C26 smash::ThermodynamicOutput::density_along_line
void along_line(const char *file_name, const ParticleList &list, const DensityParameters &par, DensityType what,
                const ThreeVector &a, const ThreeVector &b, int n) {
  std::ofstream f;
  f.open(file_name, std::ios::out);
  for (int i = 0; i <= n; i++) {
    const ThreeVector r = a + (b - a) * (1.0 * i / n);
    const double rho = std::get<0>(current_eckart(r, list, par, what, false, true));
    f << r.x1() << " " << r.x2() << " " << r.x3() << " " << rho << "\n";
  }
}

// ---- VTK
//@ C26 smash::VtkOutput::at_eventstart opaque=write
void start(VtkOutput &self, const Particles &p, const EventLabel &l, const EventInfo &) {
  self.vtk_density_output_counter_ = self.vtk_tmn_output_counter_ = self.vtk_tmn_landau_output_counter_ = 0;
  self.vtk_v_landau_output_counter_ = self.vtk_fluidization_counter_ = self.vtk_fields_output_counter_ = 0;
  self.current_event_ = l.event_number;
  self.current_ensemble_ = l.ensemble_number;
  const std::pair<int, int> k{self.current_event_, self.current_ensemble_};
  self.vtk_output_counter_[k] = 0;
  if (self.is_thermodynamics_output_ || self.is_fields_output_) return;
  self.write(p);
  self.vtk_output_counter_[std::pair<int, int>{self.current_event_, self.current_ensemble_}] += 1;
}
//@ C26 smash::VtkOutput::at_eventend
void end(VtkOutput &self, const Particles &, const EventLabel &, const EventInfo &) {}
//@ C26 smash::VtkOutput::at_intermediate_time opaque=write
void between(VtkOutput &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &,
             const EventLabel &l, const EventInfo &) {
  self.current_event_ = l.event_number;
  self.current_ensemble_ = l.ensemble_number;
  if (self.is_thermodynamics_output_ || self.is_fields_output_) return;
  self.write(p);
  self.vtk_output_counter_[std::pair<int, int>{self.current_event_, self.current_ensemble_}] += 1;
}
//@ C26 smash::VtkOutput::write
void write(VtkOutput &self, const Particles &all) {
  char name[64];
  snprintf(name, sizeof(name), "pos_ev%05i_ens%05i_tstep%05i.vtk", self.current_event_, self.current_ensemble_,
           self.vtk_output_counter_[std::pair<int, int>{self.current_event_, self.current_ensemble_}]);
  FilePtr file{std::fopen((self.base_path_ / name).native().c_str(), "w")};
  FILE *f = file.get();
  const size_t n = all.size();
  std::fprintf(f, "# vtk DataFile Version 2.0\n");
  std::fprintf(f, "Generated from molecular-offset data %s\n", SMASH_VERSION);
  std::fprintf(f, "ASCII\n");
  std::fprintf(f, "DATASET UNSTRUCTURED_GRID\n");
  std::fprintf(f, "POINTS %zu double\n", n);
  for (const ParticleData &p : all) std::fprintf(f, "%g %g %g\n", p.position()[1], p.position()[2], p.position()[3]);
  std::fprintf(f, "CELLS %zu %zu\n", n, 2 * n);
  for (size_t i = 0; i < n; i++) std::fprintf(f, "1 %zu\n", i);
  std::fprintf(f, "CELL_TYPES %zu\n", n);
  for (size_t i = 0; i < n; i++) std::fprintf(f, "1\n");
  std::fprintf(f, "POINT_DATA %zu\n", n);
  std::fprintf(f, "SCALARS pdg_codes int 1\n");
  std::fprintf(f, "LOOKUP_TABLE default\n");
  for (const ParticleData &p : all) std::fprintf(f, "%s\n", p.pdgcode().string().c_str());
  std::fprintf(f, "SCALARS is_formed int 1\n");
  std::fprintf(f, "LOOKUP_TABLE default\n");
  const double now = all.time();
  for (const ParticleData &p : all) std::fprintf(f, "%s\n", p.formation_time() <= now ? "1" : "0");
  std::fprintf(f, "SCALARS cross_section_scaling_factor double 1\n");
  std::fprintf(f, "LOOKUP_TABLE default\n");
  for (const ParticleData &p : all) std::fprintf(f, "%g\n", p.xsec_scaling_factor());
  std::fprintf(f, "SCALARS mass double 1\n");
  std::fprintf(f, "LOOKUP_TABLE default\n");
  for (const ParticleData &p : all) std::fprintf(f, "%g\n", p.effective_mass());
  std::fprintf(f, "SCALARS N_coll int 1\n");
  std::fprintf(f, "LOOKUP_TABLE default\n");
  for (const ParticleData &p : all) std::fprintf(f, "%i\n", p.get_history().collisions_per_particle);
  std::fprintf(f, "SCALARS particle_ID int 1\n");
  std::fprintf(f, "LOOKUP_TABLE default\n");
  for (const ParticleData &p : all) std::fprintf(f, "%i\n", p.id());
  std::fprintf(f, "SCALARS baryon_number int 1\n");
  std::fprintf(f, "LOOKUP_TABLE default\n");
  for (const ParticleData &p : all) std::fprintf(f, "%i\n", p.type().pdgcode().baryon_number());
  std::fprintf(f, "SCALARS strangeness int 1\n");
  std::fprintf(f, "LOOKUP_TABLE default\n");
  for (const ParticleData &p : all) std::fprintf(f, "%i\n", p.type().pdgcode().strangeness());
  std::fprintf(f, "VECTORS momentum double\n");
  for (const ParticleData &p : all) std::fprintf(f, "%g %g %g\n", p.momentum()[1], p.momentum()[2], p.momentum()[3]);
}
//@ C26 smash::VtkOutput::make_filename
std::string file_name(VtkOutput &self, const std::string &what, int n) {
  char end[22];
  snprintf(end, sizeof(end), "_%05i_tstep%05i.vtk", self.current_event_, n);
  return self.base_path_.string() + std::string("/") + what + std::string(end);
}
//@ C26 smash::VtkOutput::make_varname
std::string variable(VtkOutput &self, const ThermodynamicQuantity q, const DensityType d) {
  return std::string(self.to_string(d)) + std::string("_") + std::string(self.to_string(q));
}
template <class T>
void header(std::ofstream &f, RectangularLattice<T> &l, const std::string &what) {
  const std::array<int, 3> n = l.n_cells();
  const std::array<double, 3> d = l.cell_sizes(), o = l.origin();
  f << "# vtk DataFile Version 2.0\n" << what << "\n" << "ASCII\n" << "DATASET STRUCTURED_POINTS\n"
    << "DIMENSIONS " << n[0] << " " << n[1] << " " << n[2] << "\n"
    << "SPACING " << d[0] << " " << d[1] << " " << d[2] << "\n"
    << "ORIGIN " << o[0] << " " << o[1] << " " << o[2] << "\n"
    << "POINT_DATA " << l.size() << "\n";
}
template <class T, class F>
void scalar(std::ofstream &f, RectangularLattice<T> &l, const std::string &what, F get) {
  f << "SCALARS " << what << " double 1\n" << "LOOKUP_TABLE default\n";
  f << std::setprecision(3);
  f << std::fixed;
  const std::array<int, 3> n = l.n_cells();
  l.iterate_sublattice({0, 0, 0}, n, [&](T &node, int ix, int, int) {
    const double x = get(node);
    f << x << " ";
    if (ix == n[0] - 1) f << "\n";
  });
}
template <class T, class F>
void vec(std::ofstream &f, RectangularLattice<T> &l, const std::string &what, F get) {
  f << "VECTORS " << what << " double\n";
  f << std::setprecision(3);
  f << std::fixed;
  l.iterate_sublattice({0, 0, 0}, l.n_cells(), [&](T &node, int, int, int) {
    const ThreeVector v = get(node);
    f << v.x1() << " " << v.x2() << " " << v.x3() << "\n";
  });
}
//@ C26 smash::VtkOutput::thermodynamics_output sig=Quantity,DensityType,DensityOnLattice
void density(VtkOutput &self, const ThermodynamicQuantity q, const DensityType d, RectangularLattice<DensityOnLattice> &l) {
  if (!self.is_thermodynamics_output_) return;
  const std::string what = self.make_varname(q, d);
  std::ofstream f;
  f.open(self.make_filename(what, self.vtk_density_output_counter_), std::ios::out);
  header(f, l, what);
  scalar(f, l, what, [](DensityOnLattice &node) { return node.rho(); });
  self.vtk_density_output_counter_ += 1;
}
//@ C26 smash::VtkOutput::thermodynamics_output sig=Quantity,DensityType,EnergyMomentumTensor
void tensor(VtkOutput &self, const ThermodynamicQuantity q, const DensityType d, RectangularLattice<EnergyMomentumTensor> &l) {
  if (!self.is_thermodynamics_output_) return;
  const std::string what = self.make_varname(q, d);
  std::ofstream f;
  if (q == ThermodynamicQuantity::Tmn) {
    f.open(self.make_filename(what, self.vtk_tmn_output_counter_), std::ios::out);
    self.vtk_tmn_output_counter_ += 1;
    header(f, l, what);
    for (int i = 0; i < 4; i++)
      for (int j = i; j < 4; j++)
        scalar(f, l, what + std::to_string(i) + std::to_string(j),
               [&](EnergyMomentumTensor &node) { return node[EnergyMomentumTensor::tmn_index(i, j)]; });
  } else if (q == ThermodynamicQuantity::TmnLandau) {
    f.open(self.make_filename(what, self.vtk_tmn_landau_output_counter_), std::ios::out);
    self.vtk_tmn_landau_output_counter_ += 1;
    header(f, l, what);
    for (int i = 0; i < 4; i++)
      for (int j = i; j < 4; j++)
        scalar(f, l, what + std::to_string(i) + std::to_string(j), [&](EnergyMomentumTensor &node) {
          return node.boosted(node.landau_frame_4velocity())[EnergyMomentumTensor::tmn_index(i, j)];
        });
  } else {
    f.open(self.make_filename(what, self.vtk_v_landau_output_counter_), std::ios::out);
    self.vtk_v_landau_output_counter_ += 1;
    header(f, l, what);
    vec(f, l, what, [](EnergyMomentumTensor &node) { return -node.landau_frame_4velocity().velocity(); });
  }
}
using Fields = std::pair<ThreeVector, ThreeVector>;
//@ C26 smash::VtkOutput::fields_output
void fields(VtkOutput &self, const std::string a, const std::string b, RectangularLattice<Fields> &l) {
  if (!self.is_fields_output_) return;
  std::ofstream f;
  f.open(self.make_filename(a, self.vtk_fields_output_counter_), std::ios::out);
  header(f, l, a);
  vec(f, l, a, [](Fields &node) { return node.first; });
  std::ofstream g;
  g.open(self.make_filename(b, self.vtk_fields_output_counter_), std::ios::out);
  header(g, l, b);
  vec(g, l, b, [](Fields &node) { return node.second; });
  self.vtk_fields_output_counter_ += 1;
}
struct Vtk {
  bool is_dilepton_output_, is_photon_output_, is_IC_output_;
  std::filesystem::path base_path_;
  std::map<std::pair<int, int>, int> vtk_output_counter_{};
  bool is_thermodynamics_output_, is_fields_output_;
};

// ---- lattices
using Q = ThermodynamicQuantity;
//@ C26 smash::ThermodynamicLatticeOutput::to_int
int number(const Q &q) {
  if (q == Q::EckartDensity) return 0;
  if (q == Q::Tmn) return 1;
  if (q == Q::TmnLandau) return 2;
  if (q == Q::LandauVelocity) return 3;
  if (q == Q::j_QBS) return 4;
  throw std::runtime_error("quantity");
}
//@ C26 smash::ThermodynamicLatticeOutput::make_filename
std::string file_name(ThermodynamicLatticeOutput &self, const std::string &what, const int event, const char kind) {
  char end[13];
  if (kind == 'a')
    snprintf(end, sizeof(end), "_%07i.dat", event);
  else
    snprintf(end, sizeof(end), "_%07i.bin", event);
  return self.base_path_.string() + std::string("/") + what + std::string(end);
}
//@ C26 smash::ThermodynamicLatticeOutput::make_varname
std::string variable(ThermodynamicLatticeOutput &self, const Q q, const DensityType d) {
  return std::string(self.to_string(d)) + std::string("_") + std::string(self.to_string(q));
}
//@ C26 smash::ThermodynamicLatticeOutput::write_therm_lattice_ascii_header
void header(ThermodynamicLatticeOutput &self, std::shared_ptr<std::ofstream> f, const Q &q) {
  *f << std::setprecision(2);
  *f << std::fixed;
  *f << "#Thermodynamic Lattice Output version: " << 1.0 << std::endl;
  *f << std::setprecision(6);
  *f << "#Quantity:" << " " << std::string(self.to_string(q)) << std::endl;
  *f << "#Grid dimensions: " << self.nodes_[0] << " " << self.nodes_[1] << " " << self.nodes_[2] << std::endl;
  *f << "#Grid spacing: " << self.sizes_[0] << " " << self.sizes_[1] << " " << self.sizes_[2] << std::endl;
  *f << "#Grid origin: " << self.origin_[0] << " " << self.origin_[1] << " " << self.origin_[2] << std::endl;
}
//@ C26 smash::ThermodynamicLatticeOutput::write_therm_lattice_binary_header
void binary_header(ThermodynamicLatticeOutput &self, std::shared_ptr<std::ofstream> f, const Q &q) {
  int id = number(q);
  f->write(reinterpret_cast<const char *>(&ThermodynamicLatticeOutput::version), 8);
  f->write(reinterpret_cast<char *>(&id), 4);
  f->write(reinterpret_cast<char *>(&self.nodes_), 12);
  f->write(reinterpret_cast<char *>(&self.sizes_), 24);
  f->write(reinterpret_cast<char *>(&self.origin_), 24);
}
inline void time_line(std::ofstream &f, double t) {
  f << std::setprecision(14);
  f << std::scientific;
  f << t << std::endl;
}
inline void put(std::ofstream &f, double x) { f.write(reinterpret_cast<char *>(&x), 8); }
//@ C26 smash::ThermodynamicLatticeOutput::thermodynamics_lattice_output sig=DensityOnLattice,double
void lattice1(ThermodynamicLatticeOutput &self, RectangularLattice<DensityOnLattice> &l, double now) {
  const std::array<int, 3> n = l.n_cells();
  std::shared_ptr<std::ofstream> a(nullptr), b(nullptr);
  if (self.enable_ascii_) {
    a = self.output_ascii_files_[Q::EckartDensity];
    time_line(*a, now);
  }
  if (self.enable_binary_) {
    b = self.output_binary_files_[Q::EckartDensity];
    put(*b, now);
  }
  l.iterate_sublattice({0, 0, 0}, n, [&](DensityOnLattice &node, int ix, int, int) {
    if (self.enable_ascii_) {
      *a << node.rho() << " ";
      if (ix == n[0] - 1) *a << "\n";
    }
    if (self.enable_binary_) put(*b, node.rho());
  });
}
//@ C26 smash::ThermodynamicLatticeOutput::thermodynamics_lattice_output sig=DensityOnLattice,double,vector,DensityParameters
void lattice2(ThermodynamicLatticeOutput &self, RectangularLattice<DensityOnLattice> &l, double now,
              const std::vector<Particles> &all, const DensityParameters &par) {
  if (!self.enable_output_) return;
  const std::array<int, 3> n = l.n_cells();
  std::shared_ptr<std::ofstream> a(nullptr), b(nullptr);
  if (self.enable_ascii_) {
    a = self.output_ascii_files_[Q::j_QBS];
    time_line(*a, now);
  }
  if (self.enable_binary_) {
    b = self.output_binary_files_[Q::j_QBS];
    put(*b, now);
  }
  const bool smear = self.out_par_.td_smearing;
  l.iterate_sublattice({0, 0, 0}, n, [&](DensityOnLattice &, int ix, int iy, int iz) {
    const ThreeVector r = l.cell_center(ix, iy, iz);
    FourVector q, B, S;
    for (const Particles &list : all) {
      q += std::get<1>(current_eckart(r, list, par, DensityType::Charge, false, smear));
      B += std::get<1>(current_eckart(r, list, par, DensityType::Baryon, false, smear));
      S += std::get<1>(current_eckart(r, list, par, DensityType::Strangeness, false, smear));
    }
    if (self.enable_ascii_) {
      *a << q[0] << " " << q[1] << " " << q[2] << " " << q[3];
      for (int i = 0; i < 4; i++) *a << " " << B[i];
      for (int i = 0; i < 4; i++) *a << " " << S[i];
      *a << "\n";
    }
    if (self.enable_binary_) {
      for (int i = 0; i < 4; i++) put(*b, q[i]);
      for (int i = 0; i < 4; i++) put(*b, B[i]);
      for (int i = 0; i < 4; i++) put(*b, S[i]);
    }
  });
}
//@ C26 smash::ThermodynamicLatticeOutput::thermodynamics_lattice_output sig=Quantity,EnergyMomentumTensor,double
void lattice3(ThermodynamicLatticeOutput &self, const Q q, RectangularLattice<EnergyMomentumTensor> &l, double now) {
  if (!self.enable_output_) return;
  const std::array<int, 3> n = l.n_cells();
  std::shared_ptr<std::ofstream> a(nullptr), b(nullptr);
  const bool known = q == Q::Tmn || q == Q::TmnLandau || q == Q::LandauVelocity;
  if (!known) return;
  if (self.enable_ascii_) {
    if (q == Q::Tmn) a = self.output_ascii_files_[Q::Tmn];
    else if (q == Q::TmnLandau) a = self.output_ascii_files_[Q::TmnLandau];
    else a = self.output_ascii_files_[Q::LandauVelocity];
    time_line(*a, now);
  }
  if (self.enable_binary_) {
    if (q == Q::Tmn) b = self.output_binary_files_[Q::Tmn];
    else if (q == Q::TmnLandau) b = self.output_binary_files_[Q::TmnLandau];
    else b = self.output_binary_files_[Q::LandauVelocity];
    put(*b, now);
  }
  if (q == Q::LandauVelocity) {
    l.iterate_sublattice({0, 0, 0}, n, [&](EnergyMomentumTensor &node, int, int, int) {
      ThreeVector v = -node.landau_frame_4velocity().velocity();
      if (self.enable_ascii_) *a << v.x1() << " " << v.x2() << " " << v.x3() << "\n";
      if (self.enable_binary_) b->write(reinterpret_cast<char *>(&v), 24);
    });
    return;
  }
  for (int i = 0; i < 4; i++) {
    for (int j = i; j < 4; j++) {
      const int k = EnergyMomentumTensor::tmn_index(i, j);
      if (q == Q::Tmn)
        l.iterate_sublattice({0, 0, 0}, n, [&](EnergyMomentumTensor &node, int ix, int, int) {
          if (self.enable_ascii_) {
            *a << node[k] << " ";
            if (ix == n[0] - 1) *a << "\n";
          }
          if (self.enable_binary_) put(*b, node[k]);
        });
      else
        l.iterate_sublattice({0, 0, 0}, n, [&](EnergyMomentumTensor &node, int ix, int, int) {
          const double x = node.boosted(node.landau_frame_4velocity())[k];
          if (self.enable_ascii_) {
            *a << x << " ";
            if (ix == n[0] - 1) *a << "\n";
          }
          if (self.enable_binary_) put(*b, x);
        });
    }
  }
}
//@ C26 smash::ThermodynamicLatticeOutput::at_eventend
void finish(ThermodynamicLatticeOutput &self, const Q q) {
  if (!self.enable_output_) return;
  const Q all[5] = {Q::EckartDensity, Q::Tmn, Q::TmnLandau, Q::LandauVelocity, Q::j_QBS};
  for (int i = 0; i < 5; i++) {
    if (q != all[i]) continue;
    if (self.enable_ascii_) self.output_ascii_files_[all[i]]->close();
    if (self.enable_binary_) self.output_binary_files_[all[i]]->close();
  }
}
//@ C26 smash::ThermodynamicLatticeOutput::at_eventstart sig=int,Quantity,DensityType,DensityOnLattice opaque=write_therm_lattice_ascii_header,write_therm_lattice_binary_header
void start1(ThermodynamicLatticeOutput &self, const int event, const Q q, const DensityType d, RectangularLattice<DensityOnLattice> l) {
  if (!self.enable_output_) return;
  for (int i = 0; i < 3; i++) {
    self.nodes_[i] = l.n_cells()[i];
    self.sizes_[i] = l.cell_sizes()[i];
    self.origin_[i] = l.origin()[i];
  }
  const std::string what = self.make_varname(q, d);
  if (q == Q::EckartDensity) {
    if (self.enable_ascii_) {
      try {
        self.output_ascii_files_[Q::EckartDensity]->open(self.make_filename(what, event, 'a'), std::ios::out);
      } catch (std::ofstream::failure &) {
        throw std::runtime_error("file");
      }
      self.write_therm_lattice_ascii_header(self.output_ascii_files_[Q::EckartDensity], q);
    }
    if (self.enable_binary_) {
      try {
        self.output_binary_files_[Q::EckartDensity]->open(self.make_filename(what, event, 'b'), std::ios::out | std::ios::binary);
      } catch (std::ofstream::failure &) {
        throw std::runtime_error("file");
      }
      self.write_therm_lattice_binary_header(self.output_binary_files_[Q::EckartDensity], q);
    }
  } else {
    if (self.enable_ascii_) {
      try {
        self.output_ascii_files_[Q::j_QBS]->open(self.make_filename(what, event, 'a'), std::ios::out);
      } catch (std::ofstream::failure &) {
        throw std::runtime_error("file");
      }
      self.write_therm_lattice_ascii_header(self.output_ascii_files_[Q::j_QBS], q);
    }
    if (self.enable_binary_) {
      try {
        self.output_binary_files_[Q::j_QBS]->open(self.make_filename(what, event, 'b'), std::ios::out | std::ios::binary);
      } catch (std::ofstream::failure &) {
        throw std::runtime_error("file");
      }
      self.write_therm_lattice_binary_header(self.output_binary_files_[Q::j_QBS], q);
    }
  }
}
}  // namespace spec
