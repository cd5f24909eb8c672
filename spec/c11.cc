// C11: quantities of particles in ASCII and binary output
#include "smash/outputformatter.h"
#include "smash/outputparameters.h"
#include "smash/particledata.h"
#include "smash/particles.h"
namespace spec {
using namespace smash;

//@ C11 smash::ToASCII::as_integer
std::string integer(const ToASCII &self, int v) { return std::to_string(v); }
//@ C11 smash::ToASCII::as_double
std::string six_digits(ToASCII &self, double v) {
  char b[14];
  const int n = std::snprintf(b, sizeof(b), "%g", v);
  return std::string(b, b + n);
}
//@ C11 smash::ToASCII::as_precise_double
std::string nine_digits(ToASCII &self, double v) {
  char b[17];
  const int n = std::snprintf(b, sizeof(b), "%.9g", v);
  return std::string(b, b + n);
}
//@ C11 smash::ToASCII::as_string
std::string text(const ToASCII &self, const std::string &s) { return s; }
template <class T>
std::vector<char> bytes(T v) {
  std::vector<char> r(sizeof(T));
  std::memcpy(r.data(), &v, sizeof(T));
  return r;
}
template std::vector<char> bytes(int32_t);
template std::vector<char> bytes(double);
//@ C11 smash::ToBinary::as_integer inline=smash::ToBinary::as_binary_data
std::vector<char> integer(const ToBinary &self, int32_t v) { return bytes(v); }
//@ C11 smash::ToBinary::as_double inline=smash::ToBinary::as_binary_data
std::vector<char> number(const ToBinary &self, double v) { return bytes(v); }
//@ C11 smash::ToBinary::as_precise_double inline=smash::ToBinary::as_binary_data,smash::ToBinary::as_double
std::vector<char> precise(const ToBinary &self, double v) { return bytes(v); }
//@ C11 smash::ToBinary::as_string
std::vector<char> text(const ToBinary &self, const std::string &s) {
  return std::vector<char>(s.begin(), s.end());
}

template <class C>
struct Formatter {
  C converter_{};
  std::vector<std::string> quantities_{};
  std::vector<std::function<typename C::type(const ParticleData &)>> getters_{};
  const std::map<std::string, std::string> units_ = {
      {"t", "fm"}, {"x", "fm"}, {"y", "fm"}, {"z", "fm"},
      {"mass", "GeV"}, {"p0", "GeV"}, {"px", "GeV"}, {"py", "GeV"}, {"pz", "GeV"},
      {"pdg", "none"}, {"ID", "none"}, {"id", "none"}, {"charge", "e"}, {"ncoll", "none"},
      {"form_time", "fm"}, {"xsecfac", "none"}, {"proc_id_origin", "none"}, {"proc_type_origin", "none"},
      {"time_last_coll", "fm"}, {"pdg_mother1", "none"}, {"pdg_mother2", "none"},
      {"baryon_number", "none"}, {"strangeness", "none"}, {"0", "0"},
      {"tau", "fm"}, {"eta", "none"}, {"eta_s", "none"}, {"mt", "GeV"}, {"Rap", "none"}, {"y_rap", "none"},
      {"spin0", "none"}, {"spinx", "none"}, {"spiny", "none"}, {"spinz", "none"}, {"perturbative_weight", "none"}};
  const std::vector<std::pair<std::string, std::string>> aliases_ = {{"ID", "id"}, {"eta_s", "eta"}, {"y_rap", "Rap"}};
};
template <class C>
Formatter<C> formatter(const std::vector<std::string> &in) {
  Formatter<C> f;
  f.quantities_ = in;
  if (in.empty()) throw std::invalid_argument("no quantities");
  std::string twice{}, unknown{};
  for (const std::string &q : in)
    if (std::count(in.begin(), in.end(), q) > 1) twice += "'" + q + "',";
  if (!twice.empty()) throw typename OutputFormatter<C>::RepeatedQuantity("");
  for (const std::string &q : in)
    if (f.units_.count(q) == 0) unknown += "'" + q + "',";
  if (!unknown.empty()) throw typename OutputFormatter<C>::UnknownQuantity("");
  for (const auto &a : f.aliases_)
    if (std::find(in.begin(), in.end(), a.first) != in.end() && std::find(in.begin(), in.end(), a.second) != in.end())
      throw typename OutputFormatter<C>::AliasesQuantity("");
  C c = f.converter_;
  for (const std::string &q : in) {
    auto add = [&f](std::function<typename C::type(const ParticleData &)> g) { f.getters_.push_back(g); };
    // position and time
    if (q == "t") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_double(p.position().x0()); });
    if (q == "x") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_double(p.position().x1()); });
    if (q == "y") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_double(p.position().x2()); });
    if (q == "z") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_double(p.position().x3()); });
    if (q == "tau") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_double(p.hyperbolic_time()); });
    if (q == "eta" || q == "eta_s") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_double(p.spatial_rapidity()); });
    // momentum
    if (q == "mass") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_double(p.effective_mass()); });
    if (q == "p0") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_precise_double(p.momentum().x0()); });
    if (q == "px") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_precise_double(p.momentum().x1()); });
    if (q == "py") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_precise_double(p.momentum().x2()); });
    if (q == "pz") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_precise_double(p.momentum().x3()); });
    if (q == "mt") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_double(p.transverse_mass()); });
    if (q == "Rap" || q == "y_rap") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_double(p.rapidity()); });
    // what it is
    if (q == "pdg") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_integer(p.pdgcode().get_decimal()); });
    if (q == "ID" || q == "id") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_integer(p.id()); });
    if (q == "charge") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_integer(p.type().charge()); });
    if (q == "baryon_number") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_integer(p.pdgcode().baryon_number()); });
    if (q == "strangeness") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_integer(p.pdgcode().strangeness()); });
    if (q == "spin0") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_double(p.spin_vector().x0()); });
    if (q == "spinx") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_double(p.spin_vector().x1()); });
    if (q == "spiny") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_double(p.spin_vector().x2()); });
    if (q == "spinz") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_double(p.spin_vector().x3()); });
    if (q == "perturbative_weight") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_double(p.perturbative_weight()); });
    // where it comes from
    if (q == "ncoll") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_integer(p.get_history().collisions_per_particle); });
    if (q == "form_time") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_double(p.formation_time()); });
    if (q == "xsecfac") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_double(p.xsec_scaling_factor()); });
    if (q == "proc_id_origin") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_integer(p.get_history().id_process); });
    if (q == "proc_type_origin") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_integer(static_cast<int>(p.get_history().process_type)); });
    if (q == "time_last_coll") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_double(p.get_history().time_last_collision); });
    if (q == "pdg_mother1") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_integer(p.get_history().p1.get_decimal()); });
    if (q == "pdg_mother2") f.getters_.push_back([c](const ParticleData &p) mutable { return c.as_integer(p.get_history().p2.get_decimal()); });
    if (q == "0") f.getters_.push_back([c](const ParticleData &) mutable { return c.as_integer(0); });
  }
  return f;
}
//@ C11 smash::OutputFormatter<smash::ToASCII>::OutputFormatter inline=smash::OutputFormatter<smash::ToASCII>::validate_quantities,smash::OutputFormatter<smash::ToBinary>::validate_quantities pure=as_double,as_precise_double,as_integer
Formatter<ToASCII> ascii(const std::vector<std::string> &in) { return formatter<ToASCII>(in); }
//@ C11 smash::OutputFormatter<smash::ToBinary>::OutputFormatter inline=smash::OutputFormatter<smash::ToASCII>::validate_quantities,smash::OutputFormatter<smash::ToBinary>::validate_quantities pure=as_double,as_precise_double,as_integer
Formatter<ToBinary> binary(const std::vector<std::string> &in) { return formatter<ToBinary>(in); }

// one line per particle
//@ C11 smash::OutputFormatter<smash::ToASCII>::append_to_buffer
void line(const OutputFormatter<ToASCII> &self, const ParticleData &p, std::string &out) {
  bool first = true;
  for (const auto &g : self.getters_) {
    if (!first) out += ' ';
    first = false;
    out += g(p);
  }
  out += '\n';
}
//@ C11 smash::OutputFormatter<smash::ToBinary>::append_to_buffer
void record(const OutputFormatter<ToBinary> &self, const ParticleData &p, std::vector<char> &out) {
  for (const auto &g : self.getters_) {
    const std::vector<char> d = g(p);
    out.insert(out.end(), d.begin(), d.end());
  }
}
//@ C11 smash::OutputFormatter<smash::ToASCII>::single_particle_data opaque=append_to_buffer
std::string single(const OutputFormatter<ToASCII> &self, const ParticleData &p) {
  std::string s;
  self.append_to_buffer(p, s);
  return s;
}
//@ C11 smash::OutputFormatter<smash::ToBinary>::single_particle_data opaque=append_to_buffer
std::vector<char> single(const OutputFormatter<ToBinary> &self, const ParticleData &p) {
  std::vector<char> s;
  self.append_to_buffer(p, s);
  return s;
}
//@ C11 smash::OutputFormatter<smash::ToASCII>::quantities_line
std::string names(const OutputFormatter<ToASCII> &self) {
  std::string s;
  for (const std::string &q : self.quantities_) {
    if (!s.empty()) s += ' ';
    s += q;
  }
  return s + '\n';
}
//@ C11 smash::OutputFormatter<smash::ToASCII>::unit_line
std::string units(const OutputFormatter<ToASCII> &self) {
  std::string s;
  for (const std::string &q : self.quantities_) {
    if (!s.empty()) s += ' ';
    s += self.units_.at(q);
  }
  return s + '\n';
}
//@ C11 smash::OutputFormatter<smash::ToASCII>::compute_single_size
size_t length(const OutputFormatter<ToASCII> &self, const ParticleData &p) {
  if (self.getters_.empty()) return 0;
  size_t n = self.getters_.size();
  for (const auto &g : self.getters_) n += g(p).size();
  return n;
}
//@ C11 smash::OutputFormatter<smash::ToBinary>::compute_single_size
size_t length(const OutputFormatter<ToBinary> &self, const ParticleData &p) {
  size_t n = 0;
  for (const auto &g : self.getters_) n += g(p).size();
  return n;
}
template <class C, class R>
typename C::type all(const OutputFormatter<C> &self, const R &list) {
  typename C::type s{};
  if (list.size() == 0) return s;
  for (const ParticleData &p : list) self.append_to_buffer(p, s);
  return s;
}
//@ C11 smash::OutputFormatter<smash::ToASCII>::particles_data_chunk inst=chunk<smash::Particles opaque=append_to_buffer pure=compute_single_size
std::string chunk1(const OutputFormatter<ToASCII> &self, const Particles &l) { return all<ToASCII>(self, l); }
//@ C11 smash::OutputFormatter<smash::ToBinary>::particles_data_chunk inst=chunk<smash::Particles opaque=append_to_buffer pure=compute_single_size
std::vector<char> chunk2(const OutputFormatter<ToBinary> &self, const Particles &l) { return all<ToBinary>(self, l); }
//@ C11 smash::OutputFormatter<smash::ToBinary>::particles_data_chunk inst=chunk<std::vector opaque=append_to_buffer pure=compute_single_size
std::vector<char> chunk3(const OutputFormatter<ToBinary> &self, const ParticleList &l) { return all<ToBinary>(self, l); }
}  // namespace spec
