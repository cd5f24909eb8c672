// C24: particles from external lists
#include "smash/listmodus.h"
#include "smash/configuration.h"
#include "smash/input_keys.h"
#include "smash/inputfunctions.h"
#include "smash/stringfunctions.h"
#include "smash/particles.h"
#include "smash/propagation.h"
#include "smash/algorithms.h"
#include "smash/wallcrossingaction.h"
#include "smash/outputinterface.h"
#include "smash/experimentparameters.h"
#include "smash/logging.h"
#include <fstream>
#include <filesystem>
namespace spec {
using namespace smash;

// everything starts at the earliest time; particles at different times are moved back on straight lines
//@ C24 smash::ListModus::backpropagate_to_same_time_if_needed_ opaque=backpropagate_straight_line
void same_time(ListModus &self, Particles &list) {
  bool first = true;
  double earliest = std::numeric_limits<double>::max(), reference = 0., spread = 0.;
  for (const ParticleData &d : list) {
    const double t = d.position().x0();
    if (t < earliest) earliest = t;
    if (first) reference = t;
    else spread += std::abs(t - reference);
    first = false;
  }
  self.start_time_ = earliest;
  if (spread > really_small) backpropagate_straight_line(&list, self.start_time_);
}
//@ C24 smash::ListModus::try_create_particle opaque=create_valid_smash_particle_matching_provided_quantities,insert_optional_quantities_to_,insert
void create(ListModus &self, Particles &list, PdgCode code, double t, double x, double y, double z, double m, double e, double px, double py,
            double pz, const std::vector<std::string> &extra) {
  try {
    ParticleData d = create_valid_smash_particle_matching_provided_quantities(code, m, FourVector(t, x, y, z), FourVector(e, px, py, pz),
                                                                             LogArea::List::id, self.warn_about_mass_discrepancy_,
                                                                             self.warn_about_off_shell_particles_);
    self.insert_optional_quantities_to_(d, extra);
    list.insert(d);
  } catch (ParticleType::PdgNotFoundFailure &) {
  }
}
//@ C24 smash::ListModus::insert_optional_quantities_to_ opaque=PdgCode,charge,exists,is_valid_process_type,set_spin_vector_component unroll=1
void optional(const ListModus &self, ParticleData &d, const std::vector<std::string> &values) {
  if (values.empty()) return;
  if (values.size() != self.optional_fields_.size()) throw std::out_of_range("");
  HistoryData h = d.get_history();
  std::ostringstream bad{"", std::ios_base::ate};
  for (size_t i = 0; i < self.optional_fields_.size(); ++i) {
    const std::string name = self.optional_fields_[i];
    const std::string v = values[i];
    size_t n = 0;
    if (name == "ID") {
    } else if (name == "charge") {
      const PdgCode code = d.pdgcode();
      if (std::stoi(v, &n) != code.charge()) throw std::invalid_argument("");
    } else if (name == "ncoll") {
      h.collisions_per_particle = std::stoi(v, &n);
      if (h.collisions_per_particle < 0) bad << "ncoll < 0.\n";
    } else if (name == "form_time") {
      d.set_formation_time(std::stod(v, &n));
    } else if (name == "xsecfac") {
      const double x = std::stod(v, &n);
      if (x < 0 || x > 1) bad << "xsecfac < 0 or xsecfac > 1.\n";
      d.set_cross_section_scaling_factor(x);
    } else if (name == "proc_type") {
      const int k = std::stoi(v, &n);
      if (!is_valid_process_type(k)) bad << "Invalid proc_type.\n";
      h.process_type = static_cast<ProcessType>(k);
    } else if (name == "time_last_coll") {
      const double t = std::stod(v, &n);
      if (t > d.position().x0()) bad << "time_last_coll > particle time.\n";
      h.time_last_collision = t;
    } else if (name == "pdg_mother1") {
      if (v == "0") continue;
      if (!ParticleType::exists(PdgCode(v))) bad << "pdg_mother1 cannot be " << v << ".\n";
      h.p1 = PdgCode(v);
    } else if (name == "pdg_mother2") {
      if (v == "0") continue;
      if (!ParticleType::exists(PdgCode(v))) bad << "pdg_mother2 cannot be " << v << ".\n";
      h.p2 = PdgCode(v);
    } else if (name == "spin0") {
      d.set_spin_vector_component(0, std::stod(v, &n));
    } else if (name == "spinx") {
      d.set_spin_vector_component(1, std::stod(v, &n));
    } else if (name == "spiny") {
      d.set_spin_vector_component(2, std::stod(v, &n));
    } else if (name == "spinz") {
      d.set_spin_vector_component(3, std::stod(v, &n));
    } else if (name == "perturbative_weight") {
      const double w = std::stod(v, &n);
      if (w < 0 || w > 1) bad << "Perturbative weight must be between 0 and 1.\n";
      d.set_perturbative_weight(w);
    } else {
      bad << " Unknown quantities given in the configuration.\n";
    }
  }
  if (bad.str().size() > 0) throw std::invalid_argument("");
  d.set_history(std::move(h));
}
//@ C24 smash::ListModus::initial_conditions opaque=read_particles_from_next_event_,backpropagate_to_same_time_if_needed_
double initial(ListModus &self, Particles *list, const ExperimentParameters &) {
  self.read_particles_from_next_event_(*list);
  if (list->size() == 0) self.start_time_ = 0.;
  else self.backpropagate_to_same_time_if_needed_(*list);
  self.event_id_ += 1;
  return self.start_time_;
}
//@ C24 smash::ListModus::read_particles_from_next_event_ opaque=next_event_,line_parser,try_create_particle,PdgCode,build_error_string
void read_event(ListModus &self, Particles &list) {
  const std::string text = self.next_event_();
  for (const Line &line : line_parser(text)) {
    std::istringstream in(line.text);
    double v[9];
    std::string code;
    in >> v[0] >> v[1] >> v[2] >> v[3] >> v[4] >> v[5] >> v[6] >> v[7] >> v[8] >> code;
    std::vector<std::string> extra(self.optional_fields_.size());
    for (size_t i = 0; i < self.optional_fields_.size(); ++i) in >> extra[i];
    if (in.fail()) throw ListModus::LoadFailure("");
    self.try_create_particle(list, PdgCode(code), v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], extra);
  }
}
//@ C24 smash::ListModus::file_path_
std::filesystem::path path(ListModus &self, std::optional<int> id) {
  const std::filesystem::path dir = std::filesystem::absolute(self.particle_list_file_directory_);
  std::string name = self.particle_list_filename_or_prefix_;
  if (id) name += std::to_string(*id);
  else name += "";
  const std::filesystem::path p = dir / name;
  if (!std::filesystem::exists(p)) throw std::runtime_error("");
  return p;
}
// one event: up to a line holding " end ", or the rest of the file; then the next file of a sequence
//@ C24 smash::ListModus::next_event_ opaque=file_path_,file_has_events_
std::string next(ListModus &self) {
  const std::filesystem::path p = self.file_path_(self.file_id_);
  std::ifstream in{p};
  in.seekg(self.last_read_position_);
  if (!self.file_has_events_(p, self.last_read_position_)) {
    if (!self.file_id_) throw std::runtime_error("");
    *self.file_id_ += 1;
    self.last_read_position_ = 0;
    return self.next_event_();
  }
  std::string text, line;
  while (std::getline(in, line)) {
    if (line.find(" end ") != std::string::npos) break;
    text += line + "\n";
  }
  if (!in.eof() && (in.fail() || in.bad())) throw std::runtime_error("");
  self.last_read_position_ = in.tellg();
  return text;
}
// something other than blanks follows
//@ C24 smash::ListModus::file_has_events_ opaque=trim
bool more(ListModus &self, std::filesystem::path p, std::streampos at) {
  std::ifstream in{p};
  if (at == -1) return false;
  in.seekg(at);
  std::string line;
  while (std::getline(in, line))
    if (trim(line).size() != 0) return true;
  if (!in.eof() && !in.good()) throw std::runtime_error("");
  return false;
}
//@ C24 smash::ListModus::validate_list_of_particles_of_all_events_ opaque=read_particles_from_next_event_
void validate(const ListModus &self) {
  ListModus copy{self};
  copy.verbose_ = copy.warn_about_mass_discrepancy_ = copy.warn_about_off_shell_particles_ = false;
  bool faulty = false;
  for (;;) {
    try {
      Particles list{};
      copy.read_particles_from_next_event_(list);
      std::map<std::string, int> count;
      for (const ParticleData &d : list) {
        const FourVector x = d.position();
        count["(" + std::to_string(x[0]) + ", " + std::to_string(x[1]) + ", " + std::to_string(x[2]) + ", " + std::to_string(x[3]) + ")"]++;
      }
      for (const auto &kv : count)
        if (kv.second > 2) faulty = true;
      copy.event_id_++;
    } catch (const std::exception &) {
      break;
    }
  }
  if (faulty) throw ListModus::InvalidEvents("");
}
//@ C24 smash::ListModus::validate_optional_fields_
void spins(const ListModus &self) {
  if (self.spin_interaction_type_ == SpinInteractionType::Off) return;
  bool s0 = false, sx = false, sy = false, sz = false;
  for (const std::string &f : self.optional_fields_) {
    if (f == "spin0") s0 = true;
    if (f == "spinx") sx = true;
    if (f == "spiny") sy = true;
    if (f == "spinz") sz = true;
  }
  if (!s0 || !sx || !sy || !sz) throw std::invalid_argument("");
}
//@ C24 smash::ListBoxModus::impose_boundary_conditions opaque=WallcrossingAction,at_interaction,is_dilepton_output,is_photon_output
int wrap_list(ListBoxModus &self, Particles *list, const OutputsList &outputs) {
  int n = 0;
  for (ParticleData &d : *list) {
    FourVector x = d.position();
    if (!enforce_periodic_boundaries(x.begin() + 1, x.end(), self.length_)) continue;
    n += 1;
    const ParticleData before(d);
    d.set_4position(x);
    ActionPtr wall = std::make_unique<WallcrossingAction>(before, d);
    for (const auto &o : outputs)
      if (!o->is_dilepton_output() && !o->is_photon_output()) o->at_interaction(*wall, 0.);
  }
  return n;
}
}
