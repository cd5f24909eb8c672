// C12: blocks of OSCAR and binary output (instances written by tools/gen_c12.py)
#include "smash/binaryoutput.h"
#include "smash/oscaroutput.h"
#include "smash/action.h"
#include "smash/config.h"
#include "smash/particles.h"
#include "smash/outputformatter.h"
#include "smash/numeric_cast.h"
namespace spec {
using namespace smash;

// ---- binary
template <class T>
void put(BinaryOutputBase &o, const T &x) { std::fwrite(&x, sizeof(T), 1, o.file_.get()); }
inline void label(BinaryOutputBase &o, char kind, const EventLabel &l) {
  put<char>(o, kind);
  put<int32_t>(o, l.event_number);
  put<int32_t>(o, l.ensemble_number);
}
template <class L>
void particles(BinaryOutputBase &o, const L &list) {
  put<uint32_t>(o, numeric_cast<uint32_t>(list.size()));
  o.write(list);
}
inline void finish(BinaryOutputBase &o, const EventLabel &l, const EventInfo &e) {
  label(o, 'f', l);
  put<double>(o, e.impact_parameter);
  put<char>(o, e.empty_event ? 1 : 0);
  std::fflush(o.file_.get());
}
//@ C12 smash::BinaryOutputCollisions::at_eventstart inline=smash::BinaryOutputBase::write
void start(BinaryOutputCollisions &self, const Particles &p, const EventLabel &l, const EventInfo &) {
  if (!self.print_start_end_) return;
  label(self, 'p', l);
  particles(self, p);
}
//@ C12 smash::BinaryOutputCollisions::at_eventend inline=smash::BinaryOutputBase::write
void end(BinaryOutputCollisions &self, const Particles &p, const EventLabel &l, const EventInfo &e) {
  if (self.print_start_end_) {
    label(self, 'p', l);
    particles(self, p);
  }
  finish(self, l, e);
}
//@ C12 smash::BinaryOutputCollisions::at_interaction inline=smash::BinaryOutputBase::write
void interaction(BinaryOutputCollisions &self, const Action &a, const double density) {
  put<char>(self, 'i');
  put<uint32_t>(self, numeric_cast<uint32_t>(a.incoming_particles().size()));
  put<uint32_t>(self, numeric_cast<uint32_t>(a.outgoing_particles().size()));
  put<double>(self, density);
  put<double>(self, a.get_total_weight());
  put<double>(self, a.get_partial_weight());
  put<uint32_t>(self, static_cast<uint32_t>(a.get_type()));
  self.write(a.incoming_particles());
  self.write(a.outgoing_particles());
}
//@ C12 smash::BinaryOutputParticles::at_eventstart inline=smash::BinaryOutputBase::write
void start(BinaryOutputParticles &self, const Particles &p, const EventLabel &l, const EventInfo &) {
  if (self.only_final_ != OutputOnlyFinal::No) return;
  label(self, 'p', l);
  particles(self, p);
}
//@ C12 smash::BinaryOutputParticles::at_intermediate_time inline=smash::BinaryOutputBase::write
void between(BinaryOutputParticles &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &,
             const EventLabel &l, const EventInfo &) {
  if (self.only_final_ != OutputOnlyFinal::No) return;
  label(self, 'p', l);
  particles(self, p);
}
//@ C12 smash::BinaryOutputParticles::at_eventend inline=smash::BinaryOutputBase::write
void end(BinaryOutputParticles &self, const Particles &p, const EventLabel &l, const EventInfo &e) {
  const bool leave_out = e.empty_event && self.only_final_ == OutputOnlyFinal::IfNotEmpty;
  if (!leave_out) {
    label(self, 'p', l);
    particles(self, p);
  }
  finish(self, l, e);
}
//@ C12 smash::BinaryOutputInitialConditions::at_eventstart
void start(BinaryOutputInitialConditions &self, const Particles &, const EventLabel &, const EventInfo &) {}
//@ C12 smash::BinaryOutputInitialConditions::at_eventend inline=smash::BinaryOutputBase::write
void end(BinaryOutputInitialConditions &self, const Particles &, const EventLabel &l, const EventInfo &e) { finish(self, l, e); }
//@ C12 smash::BinaryOutputInitialConditions::at_interaction inline=smash::BinaryOutputBase::write
void interaction(BinaryOutputInitialConditions &self, const Action &a, const double) {
  const ProcessType t = a.get_type();
  if (t != ProcessType::Fluidization && t != ProcessType::FluidizationNoRemoval) return;
  put<char>(self, 'p');
  particles(self, a.incoming_particles());
}
//@ C12 smash::BinaryOutputBase::write sig=string
void write_string(BinaryOutputBase &self, const std::string &s) {
  put<uint32_t>(self, numeric_cast<uint32_t>(s.size()));
  std::fwrite(s.c_str(), s.size(), 1, self.file_.get());
}
//@ C12 smash::BinaryOutputBase::write sig=FourVector
void write_four(BinaryOutputBase &self, const FourVector &v) { std::fwrite(v.begin(), sizeof(double), 4, self.file_.get()); }
//@ C12 smash::BinaryOutputBase::write sig=Particles
void write_particles(BinaryOutputBase &self, const Particles &p) {
  write_in_chunk<ToBinary>(p, self.formatter_, [&self](const ToBinary::type &b) { self.write(b); });
}
//@ C12 smash::BinaryOutputBase::write sig=vector<smash::ParticleData
void write_list(BinaryOutputBase &self, const ParticleList &p) {
  write_in_chunk<ToBinary>(p, self.formatter_, [&self](const ToBinary::type &b) { self.write(b); });
}
//@ C12 smash::BinaryOutputBase::write sig=vector<char
void write_chunk(BinaryOutputBase &self, const ToBinary::type &b) { std::fwrite(b.data(), sizeof(char), b.size(), self.file_.get()); }
//@ C12 smash::BinaryOutputBase::write_particledata
void write_one(BinaryOutputBase &self, const ParticleData &p) { self.write(self.formatter_.single_particle_data(p)); }

// what the files contain
inline std::vector<std::string> quantities_of(const std::string &content, const std::string &format, const OutputParameters &par) {
  bool extended = false;
  if (content == "Particles") extended = par.part_extended;
  if (content == "Collisions") extended = par.coll_extended;
  if (content == "Dileptons") extended = par.dil_extended;
  if (content == "Photons") extended = par.photons_extended;
  if (content == "Initial_Conditions") extended = par.ic_extended;
  std::vector<std::string> q = OutputDefaultQuantities::oscar2013;
  if (extended) q = OutputDefaultQuantities::oscar2013extended;
  if (format == "Oscar2013_bin") return q;
  if (format != "Binary") throw std::invalid_argument("format");
  if (content != "Particles" && content != "Collisions" && content != "Dileptons" && content != "Photons" &&
      content != "Initial_Conditions")
    throw std::invalid_argument("content");
  const std::vector<std::string> own = par.quantities.at(content);
  return own.empty() ? q : own;
}
//@ C12 smash::get_list_of_binary_quantities
std::vector<std::string> quantities(const std::string &content, const std::string &format, const OutputParameters &par) {
  return quantities_of(content, format, par);
}
//@ C12 smash::create_binary_output opaque=BinaryOutputParticles::BinaryOutputParticles,BinaryOutputCollisions::BinaryOutputCollisions,BinaryOutputInitialConditions::BinaryOutputInitialConditions inline=smash::get_list_of_binary_quantities
std::unique_ptr<OutputInterface> create_binary(const std::string &format, const std::string &content,
                                               const std::filesystem::path &path, const OutputParameters &par) {
  const std::vector<std::string> q = quantities_of(content, format, par);
  if (content == "Initial_Conditions") return std::make_unique<BinaryOutputInitialConditions>(path, content, q);
  if (content == "Particles") return std::make_unique<BinaryOutputParticles>(path, content, par, q);
  if (content != "Collisions" && content != "Dileptons" && content != "Photons") throw std::invalid_argument("content");
  return std::make_unique<BinaryOutputCollisions>(path, content, par, q);
}
//@ C12 smash::get_binary_filename
std::string file_name(const std::string &content, const std::vector<std::string> &q) {
  std::string s = content;
  if (content == "Particles" || content == "Collisions") {
    std::transform(s.begin(), s.end(), s.begin(), [](unsigned char c) { return std::tolower(c); });
  } else if (content == "Initial_Conditions") {
    s = "SMASH_IC";
  } else if (content != "Photons" && content != "Dileptons") {
    throw std::invalid_argument("content");
  }
  if (q == OutputDefaultQuantities::oscar2013) return s + "_oscar2013" + ".bin";
  if (q == OutputDefaultQuantities::oscar2013extended) return s + "_oscar2013_extended" + ".bin";
  return s + "_custom" + ".bin";
}
struct Binary {
  bool is_dilepton_output_, is_photon_output_, is_IC_output_;
  RenamingFilePtr file_;
  OutputFormatter<ToBinary> formatter_;
  uint16_t format_version_ = 10, format_custom_ = 2;
};
//@ C12 smash::BinaryOutputBase::BinaryOutputBase inline=smash::BinaryOutputBase::write
Binary header(const std::filesystem::path &path, const std::string &mode, const std::string &name,
              const std::vector<std::string> &q) {
  Binary b{name == "Dileptons", name == "Photons", name.substr(0, 8) == "SMASH_IC", {path, mode}, OutputFormatter<ToBinary>{q}};
  if (q.empty()) throw std::invalid_argument("quantities");
  FILE *f = b.file_.get();
  std::fwrite("SMSH", 4, 1, f);
  uint16_t version = 10, variant = 2;
  if (q == OutputDefaultQuantities::oscar2013) variant = 0;
  else if (q == OutputDefaultQuantities::oscar2013extended) variant = 1;
  std::fwrite(&version, 2, 1, f);
  std::fwrite(&variant, 2, 1, f);
  const std::string release = SMASH_VERSION;
  const uint32_t letters = numeric_cast<uint32_t>(release.size());
  std::fwrite(&letters, 4, 1, f);
  std::fwrite(release.c_str(), release.size(), 1, f);
  return b;
}
template <class To, class L>
void chunks(const L &list, const OutputFormatter<To> &o, std::function<void(const typename To::type &)> put, size_t most) {
  if (list.size() == 0) return;
  const size_t one = o.compute_single_size(list.front());
  if (2.0 * one > most) throw std::runtime_error("too small");
  if (list.size() * one <= most) {
    put(o.particles_data_chunk(list));
    return;
  }
  typename To::type kept;
  size_t n = 0;
  for (const ParticleData &p : list) {
    typename To::type line = o.single_particle_data(p);
    if (n + line.size() > most) {
      put(kept);
      kept.clear();
      n = 0;
    }
    kept.insert(kept.end(), line.begin(), line.end());
    n += line.size();
  }
  if (!kept.empty()) put(kept);
}
//@ C12 smash::details::write_in_chunk_impl sig=vector,ToBinary,,
void chunks1(const ParticleList &list, const OutputFormatter<ToBinary> &o, std::function<void(const ToBinary::type &)> put, size_t most) { chunks<ToBinary>(list, o, put, most); }
//@ C12 smash::details::write_in_chunk_impl sig=Particles,ToASCII,,
void chunks2(const Particles &list, const OutputFormatter<ToASCII> &o, std::function<void(const ToASCII::type &)> put, size_t most) { chunks<ToASCII>(list, o, put, most); }
//@ C12 smash::details::write_in_chunk_impl sig=smash::Particles,ToBinary,,
void chunks3(const Particles &list, const OutputFormatter<ToBinary> &o, std::function<void(const ToBinary::type &)> put, size_t most) { chunks<ToBinary>(list, o, put, most); }

// ---- OSCAR
template <OscarOutputFormat F, int C>
void oscar_start(OscarOutput<F, C> &self, const Particles &p, const EventLabel &l) {
  FILE *f = self.file_.get();
  const size_t none = 0;
  if (C & OscarParticlesIC) {
    if (F == OscarFormat1999)
      std::fprintf(f, "%zu %zu %i %i\n", none, none, l.event_number, l.ensemble_number);
    else
      std::fprintf(f, "# event %i ensemble %i start\n", l.event_number, l.ensemble_number);
  } else if (C & OscarAtEventstart) {
    if (F == OscarFormat1999)
      std::fprintf(f, "%zu %zu %i %i\n", none, p.size(), l.event_number, l.ensemble_number);
    else
      std::fprintf(f, "# event %i ensemble %i in %zu\n", l.event_number, l.ensemble_number, p.size());
    self.write(p);
  }
}
template <OscarOutputFormat F, int C>
void oscar_block(OscarOutput<F, C> &self, const Particles &p, const EventLabel &l) {
  if (F == OscarFormat1999) {
    const size_t none = 0;
    std::fprintf(self.file_.get(), "%zu %zu %i %i\n", p.size(), none, l.event_number, l.ensemble_number);
  } else {
    std::fprintf(self.file_.get(), "# event %i ensemble %i out %zu\n", l.event_number, l.ensemble_number, p.size());
  }
  self.write(p);
}
template <OscarOutputFormat F, int C>
void oscar_between(OscarOutput<F, C> &self, const Particles &p, const EventLabel &l) {
  if (C & OscarTimesteps) oscar_block<F, C>(self, p, l);
}
template <OscarOutputFormat F, int C>
void oscar_end(OscarOutput<F, C> &self, const Particles &p, const EventLabel &l, const EventInfo &e) {
  if ((C & OscarParticlesAtEventend) || ((C & OscarParticlesAtEventendIfNotEmpty) && !e.empty_event))
    oscar_block<F, C>(self, p, l);
  FILE *f = self.file_.get();
  const size_t none = 0;
  if (F == OscarFormat1999)
    std::fprintf(f, "%zu %zu %i %i %7.3f\n", none, none, l.event_number, l.ensemble_number, e.impact_parameter);
  else if (C & OscarParticlesIC)
    std::fprintf(f, "# event %i ensemble %i end\n", l.event_number, l.ensemble_number);
  else
    std::fprintf(f, "# event %i ensemble %i end 0 impact %7.3f scattering_projectile_target %s\n", l.event_number,
                 l.ensemble_number, e.impact_parameter, e.empty_event ? "no" : "yes");
  std::fflush(f);
}
template <OscarOutputFormat F, int C>
void oscar_interaction(OscarOutput<F, C> &self, const Action &a, double rho) {
  FILE *f = self.file_.get();
  if (C & OscarInteractions) {
    const int type = static_cast<int>(a.get_type());
    if (F == OscarFormat1999)
      std::fprintf(f, "%zu %zu %12.7f %12.7f %12.7f %5i\n", a.incoming_particles().size(), a.outgoing_particles().size(), rho,
                   a.get_total_weight(), a.get_partial_weight(), type);
    else
      std::fprintf(f, "# interaction in %zu out %zu rho %12.7f weight %12.7g partial %12.7f type %5i\n",
                   a.incoming_particles().size(), a.outgoing_particles().size(), rho, a.get_total_weight(),
                   a.get_partial_weight(), type);
  }
  if (C & (OscarInteractions | OscarParticlesIC))
    for (const ParticleData &p : a.incoming_particles()) self.write_particledata(p);
  if (C & OscarInteractions)
    for (const ParticleData &p : a.outgoing_particles()) self.write_particledata(p);
}
struct Oscar {
  bool is_dilepton_output_, is_photon_output_, is_IC_output_;
  RenamingFilePtr file_;
  OutputFormatter<ToASCII> formatter_;
};
template <OscarOutputFormat F>
Oscar oscar(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) {
  std::string ending = ".oscar";
  if (F == ASCII) ending = ".dat";
  std::string year = "";
  if (F == OscarFormat1999) year = "1999";
  std::vector<std::string> what = q;
  if (F == OscarFormat2013) what = OutputDefaultQuantities::oscar2013;
  if (F == OscarFormat2013Extended) what = OutputDefaultQuantities::oscar2013extended;
  if (F == OscarFormat1999) what = OutputDefaultQuantities::oscar1999;
  Oscar o{name == "Dileptons", name == "Photons", name.substr(0, 8) == "SMASH_IC",
          {path / (name + ending + year), "w"}, OutputFormatter<ToASCII>{what}};
  if (F != ASCII && q.size() > 0) throw std::logic_error("quantities");
  FILE *f = o.file_.get();
  if (F == OscarFormat1999) {
    const std::string called = name == "particle_lists" ? "final_id_p_x" : name;
    std::fprintf(f, "# %s\n# %s\n# %s\n", std::string("OSC1999A").c_str(), called.c_str(), SMASH_VERSION);
    std::fprintf(f, "# Block format:\n");
    if (called == "full_event_history")
      std::fprintf(f, "# nin nout density tot_weight part_weight proc_type\n");
    else
      std::fprintf(f, "# nin nout event_number ensemble_number\n");
    std::fprintf(f, "# %s", o.formatter_.quantities_line().c_str());
    std::fprintf(f, "# End of event: 0 0 event_number ensemble_number impact_parameter\n");
    std::fprintf(f, "#\n");
    return o;
  }
  const std::string title = F == ASCII ? "ASCII" : F == OscarFormat2013 ? "OSCAR2013" : "OSCAR2013Extended";
  std::fprintf(f, "#!%s %s %s", title.c_str(), name.c_str(), o.formatter_.quantities_line().c_str());
  std::fprintf(f, "# Units: %s", o.formatter_.unit_line().c_str());
  std::fprintf(f, "# %s\n", SMASH_VERSION);
  return o;
}
template <int C>
std::unique_ptr<OutputInterface> selected(const std::string &format, bool extended, const std::filesystem::path &path,
                                          const std::string &name, const std::vector<std::string> &q) {
  if (format == "ASCII") return std::make_unique<OscarOutput<ASCII, C>>(path, name, q);
  if (format == "Oscar1999") return std::make_unique<OscarOutput<OscarFormat1999, C>>(path, name);
  if (extended) return std::make_unique<OscarOutput<OscarFormat2013Extended, C>>(path, name);
  return std::make_unique<OscarOutput<OscarFormat2013, C>>(path, name);
}
//@ C12 smash::create_oscar_output opaque=OscarOutput
std::unique_ptr<OutputInterface> create_oscar(const std::string &format, const std::string &content,
                                              const std::filesystem::path &path, const OutputParameters &par) {
  if (format != "Oscar2013" && format != "Oscar1999" && format != "ASCII") throw std::invalid_argument("format");
  std::vector<std::string> q;
  if (format == "ASCII") q = par.quantities.at(content);
  if (content == "Dileptons") return selected<OscarInteractions>(format, par.dil_extended, path, "Dileptons", q);
  if (content == "Photons") return selected<OscarInteractions>(format, par.photons_extended, path, "Photons", q);
  if (content == "Initial_Conditions")
    return selected<OscarParticlesIC | OscarAtEventstart>(format, par.ic_extended, path, "SMASH_IC", q);
  if (content == "Collisions") {
    if (!par.coll_printstartend)
      return selected<OscarInteractions>(format, par.coll_extended, path, "full_event_history", q);
    return selected<OscarInteractions | OscarAtEventstart | OscarParticlesAtEventend>(format, par.coll_extended, path,
                                                                                      "full_event_history", q);
  }
  if (content != "Particles") throw std::invalid_argument("content");
  if (par.part_only_final == OutputOnlyFinal::Yes)
    return selected<OscarParticlesAtEventend>(format, par.part_extended, path, "particle_lists", q);
  if (par.part_only_final == OutputOnlyFinal::IfNotEmpty)
    return selected<OscarParticlesAtEventendIfNotEmpty>(format, par.part_extended, path, "particle_lists", q);
  return selected<OscarTimesteps | OscarAtEventstart | OscarParticlesAtEventend>(format, par.part_extended, path,
                                                                                 "particle_lists", q);
}
//@ C12 smash::OscarOutput<smash::ASCII, 1>::at_eventstart
void start(OscarOutput<smash::ASCII, 1> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<ASCII, 1>(self, p, l); }
//@ C12 smash::OscarOutput<smash::ASCII, 1>::at_eventend
void end(OscarOutput<smash::ASCII, 1> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<ASCII, 1>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::ASCII, 1>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::ASCII, 1> &self, const Action &a, const double rho) { oscar_interaction<ASCII, 1>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::ASCII, 1>::at_intermediate_time
void between(OscarOutput<smash::ASCII, 1> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<ASCII, 1>(self, p, l); }
//@ C12 smash::OscarOutput<smash::ASCII, 1>::write_particledata
void line(OscarOutput<smash::ASCII, 1> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::ASCII, 1>::write sig=Particles
void list(OscarOutput<smash::ASCII, 1> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::ASCII, 1>::write sig=string
void text(OscarOutput<smash::ASCII, 1> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::ASCII, 1>::OscarOutput pure=quantities_line,unit_line
Oscar oscarASCII1(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<ASCII>(path, name, q); }
//@ C12 smash::OscarOutput<smash::ASCII, 13>::at_eventstart
void start(OscarOutput<smash::ASCII, 13> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<ASCII, 13>(self, p, l); }
//@ C12 smash::OscarOutput<smash::ASCII, 13>::at_eventend
void end(OscarOutput<smash::ASCII, 13> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<ASCII, 13>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::ASCII, 13>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::ASCII, 13> &self, const Action &a, const double rho) { oscar_interaction<ASCII, 13>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::ASCII, 13>::at_intermediate_time
void between(OscarOutput<smash::ASCII, 13> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<ASCII, 13>(self, p, l); }
//@ C12 smash::OscarOutput<smash::ASCII, 13>::write_particledata
void line(OscarOutput<smash::ASCII, 13> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::ASCII, 13>::write sig=Particles
void list(OscarOutput<smash::ASCII, 13> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::ASCII, 13>::write sig=string
void text(OscarOutput<smash::ASCII, 13> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::ASCII, 13>::OscarOutput pure=quantities_line,unit_line
Oscar oscarASCII13(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<ASCII>(path, name, q); }
//@ C12 smash::OscarOutput<smash::ASCII, 14>::at_eventstart
void start(OscarOutput<smash::ASCII, 14> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<ASCII, 14>(self, p, l); }
//@ C12 smash::OscarOutput<smash::ASCII, 14>::at_eventend
void end(OscarOutput<smash::ASCII, 14> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<ASCII, 14>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::ASCII, 14>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::ASCII, 14> &self, const Action &a, const double rho) { oscar_interaction<ASCII, 14>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::ASCII, 14>::at_intermediate_time
void between(OscarOutput<smash::ASCII, 14> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<ASCII, 14>(self, p, l); }
//@ C12 smash::OscarOutput<smash::ASCII, 14>::write_particledata
void line(OscarOutput<smash::ASCII, 14> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::ASCII, 14>::write sig=Particles
void list(OscarOutput<smash::ASCII, 14> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::ASCII, 14>::write sig=string
void text(OscarOutput<smash::ASCII, 14> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::ASCII, 14>::OscarOutput pure=quantities_line,unit_line
Oscar oscarASCII14(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<ASCII>(path, name, q); }
//@ C12 smash::OscarOutput<smash::ASCII, 16>::at_eventstart
void start(OscarOutput<smash::ASCII, 16> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<ASCII, 16>(self, p, l); }
//@ C12 smash::OscarOutput<smash::ASCII, 16>::at_eventend
void end(OscarOutput<smash::ASCII, 16> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<ASCII, 16>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::ASCII, 16>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::ASCII, 16> &self, const Action &a, const double rho) { oscar_interaction<ASCII, 16>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::ASCII, 16>::at_intermediate_time
void between(OscarOutput<smash::ASCII, 16> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<ASCII, 16>(self, p, l); }
//@ C12 smash::OscarOutput<smash::ASCII, 16>::write_particledata
void line(OscarOutput<smash::ASCII, 16> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::ASCII, 16>::write sig=Particles
void list(OscarOutput<smash::ASCII, 16> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::ASCII, 16>::write sig=string
void text(OscarOutput<smash::ASCII, 16> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::ASCII, 16>::OscarOutput pure=quantities_line,unit_line
Oscar oscarASCII16(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<ASCII>(path, name, q); }
//@ C12 smash::OscarOutput<smash::ASCII, 36>::at_eventstart
void start(OscarOutput<smash::ASCII, 36> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<ASCII, 36>(self, p, l); }
//@ C12 smash::OscarOutput<smash::ASCII, 36>::at_eventend
void end(OscarOutput<smash::ASCII, 36> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<ASCII, 36>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::ASCII, 36>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::ASCII, 36> &self, const Action &a, const double rho) { oscar_interaction<ASCII, 36>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::ASCII, 36>::at_intermediate_time
void between(OscarOutput<smash::ASCII, 36> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<ASCII, 36>(self, p, l); }
//@ C12 smash::OscarOutput<smash::ASCII, 36>::write_particledata
void line(OscarOutput<smash::ASCII, 36> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::ASCII, 36>::write sig=Particles
void list(OscarOutput<smash::ASCII, 36> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::ASCII, 36>::write sig=string
void text(OscarOutput<smash::ASCII, 36> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::ASCII, 36>::OscarOutput pure=quantities_line,unit_line
Oscar oscarASCII36(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<ASCII>(path, name, q); }
//@ C12 smash::OscarOutput<smash::ASCII, 8>::at_eventstart
void start(OscarOutput<smash::ASCII, 8> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<ASCII, 8>(self, p, l); }
//@ C12 smash::OscarOutput<smash::ASCII, 8>::at_eventend
void end(OscarOutput<smash::ASCII, 8> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<ASCII, 8>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::ASCII, 8>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::ASCII, 8> &self, const Action &a, const double rho) { oscar_interaction<ASCII, 8>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::ASCII, 8>::at_intermediate_time
void between(OscarOutput<smash::ASCII, 8> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<ASCII, 8>(self, p, l); }
//@ C12 smash::OscarOutput<smash::ASCII, 8>::write_particledata
void line(OscarOutput<smash::ASCII, 8> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::ASCII, 8>::write sig=Particles
void list(OscarOutput<smash::ASCII, 8> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::ASCII, 8>::write sig=string
void text(OscarOutput<smash::ASCII, 8> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::ASCII, 8>::OscarOutput pure=quantities_line,unit_line
Oscar oscarASCII8(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<ASCII>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 1>::at_eventstart
void start(OscarOutput<smash::OscarFormat2013, 1> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat2013, 1>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 1>::at_eventend
void end(OscarOutput<smash::OscarFormat2013, 1> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat2013, 1>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 1>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat2013, 1> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat2013, 1>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 1>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat2013, 1> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat2013, 1>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 1>::write_particledata
void line(OscarOutput<smash::OscarFormat2013, 1> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 1>::write sig=Particles
void list(OscarOutput<smash::OscarFormat2013, 1> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 1>::write sig=string
void text(OscarOutput<smash::OscarFormat2013, 1> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 1>::OscarOutput pure=quantities_line,unit_line
Oscar oscarOscar20131(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat2013>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 13>::at_eventstart
void start(OscarOutput<smash::OscarFormat2013, 13> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat2013, 13>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 13>::at_eventend
void end(OscarOutput<smash::OscarFormat2013, 13> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat2013, 13>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 13>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat2013, 13> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat2013, 13>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 13>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat2013, 13> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat2013, 13>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 13>::write_particledata
void line(OscarOutput<smash::OscarFormat2013, 13> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 13>::write sig=Particles
void list(OscarOutput<smash::OscarFormat2013, 13> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 13>::write sig=string
void text(OscarOutput<smash::OscarFormat2013, 13> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 13>::OscarOutput pure=quantities_line,unit_line
Oscar oscarOscar201313(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat2013>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 14>::at_eventstart
void start(OscarOutput<smash::OscarFormat2013, 14> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat2013, 14>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 14>::at_eventend
void end(OscarOutput<smash::OscarFormat2013, 14> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat2013, 14>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 14>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat2013, 14> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat2013, 14>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 14>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat2013, 14> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat2013, 14>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 14>::write_particledata
void line(OscarOutput<smash::OscarFormat2013, 14> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 14>::write sig=Particles
void list(OscarOutput<smash::OscarFormat2013, 14> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 14>::write sig=string
void text(OscarOutput<smash::OscarFormat2013, 14> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 14>::OscarOutput pure=quantities_line,unit_line
Oscar oscarOscar201314(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat2013>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 16>::at_eventstart
void start(OscarOutput<smash::OscarFormat2013, 16> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat2013, 16>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 16>::at_eventend
void end(OscarOutput<smash::OscarFormat2013, 16> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat2013, 16>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 16>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat2013, 16> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat2013, 16>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 16>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat2013, 16> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat2013, 16>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 16>::write_particledata
void line(OscarOutput<smash::OscarFormat2013, 16> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 16>::write sig=Particles
void list(OscarOutput<smash::OscarFormat2013, 16> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 16>::write sig=string
void text(OscarOutput<smash::OscarFormat2013, 16> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 16>::OscarOutput pure=quantities_line,unit_line
Oscar oscarOscar201316(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat2013>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 36>::at_eventstart
void start(OscarOutput<smash::OscarFormat2013, 36> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat2013, 36>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 36>::at_eventend
void end(OscarOutput<smash::OscarFormat2013, 36> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat2013, 36>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 36>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat2013, 36> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat2013, 36>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 36>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat2013, 36> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat2013, 36>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 36>::write_particledata
void line(OscarOutput<smash::OscarFormat2013, 36> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 36>::write sig=Particles
void list(OscarOutput<smash::OscarFormat2013, 36> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 36>::write sig=string
void text(OscarOutput<smash::OscarFormat2013, 36> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 36>::OscarOutput pure=quantities_line,unit_line
Oscar oscarOscar201336(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat2013>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 8>::at_eventstart
void start(OscarOutput<smash::OscarFormat2013, 8> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat2013, 8>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 8>::at_eventend
void end(OscarOutput<smash::OscarFormat2013, 8> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat2013, 8>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 8>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat2013, 8> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat2013, 8>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 8>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat2013, 8> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat2013, 8>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 8>::write_particledata
void line(OscarOutput<smash::OscarFormat2013, 8> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 8>::write sig=Particles
void list(OscarOutput<smash::OscarFormat2013, 8> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 8>::write sig=string
void text(OscarOutput<smash::OscarFormat2013, 8> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013, 8>::OscarOutput pure=quantities_line,unit_line
Oscar oscarOscar20138(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat2013>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 1>::at_eventstart
void start(OscarOutput<smash::OscarFormat2013Extended, 1> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat2013Extended, 1>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 1>::at_eventend
void end(OscarOutput<smash::OscarFormat2013Extended, 1> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat2013Extended, 1>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 1>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat2013Extended, 1> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat2013Extended, 1>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 1>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat2013Extended, 1> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat2013Extended, 1>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 1>::write_particledata
void line(OscarOutput<smash::OscarFormat2013Extended, 1> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 1>::write sig=Particles
void list(OscarOutput<smash::OscarFormat2013Extended, 1> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 1>::write sig=string
void text(OscarOutput<smash::OscarFormat2013Extended, 1> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 1>::OscarOutput pure=quantities_line,unit_line
Oscar oscarExtended1(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat2013Extended>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 13>::at_eventstart
void start(OscarOutput<smash::OscarFormat2013Extended, 13> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat2013Extended, 13>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 13>::at_eventend
void end(OscarOutput<smash::OscarFormat2013Extended, 13> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat2013Extended, 13>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 13>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat2013Extended, 13> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat2013Extended, 13>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 13>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat2013Extended, 13> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat2013Extended, 13>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 13>::write_particledata
void line(OscarOutput<smash::OscarFormat2013Extended, 13> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 13>::write sig=Particles
void list(OscarOutput<smash::OscarFormat2013Extended, 13> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 13>::write sig=string
void text(OscarOutput<smash::OscarFormat2013Extended, 13> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 13>::OscarOutput pure=quantities_line,unit_line
Oscar oscarExtended13(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat2013Extended>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 14>::at_eventstart
void start(OscarOutput<smash::OscarFormat2013Extended, 14> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat2013Extended, 14>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 14>::at_eventend
void end(OscarOutput<smash::OscarFormat2013Extended, 14> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat2013Extended, 14>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 14>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat2013Extended, 14> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat2013Extended, 14>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 14>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat2013Extended, 14> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat2013Extended, 14>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 14>::write_particledata
void line(OscarOutput<smash::OscarFormat2013Extended, 14> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 14>::write sig=Particles
void list(OscarOutput<smash::OscarFormat2013Extended, 14> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 14>::write sig=string
void text(OscarOutput<smash::OscarFormat2013Extended, 14> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 14>::OscarOutput pure=quantities_line,unit_line
Oscar oscarExtended14(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat2013Extended>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 16>::at_eventstart
void start(OscarOutput<smash::OscarFormat2013Extended, 16> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat2013Extended, 16>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 16>::at_eventend
void end(OscarOutput<smash::OscarFormat2013Extended, 16> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat2013Extended, 16>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 16>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat2013Extended, 16> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat2013Extended, 16>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 16>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat2013Extended, 16> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat2013Extended, 16>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 16>::write_particledata
void line(OscarOutput<smash::OscarFormat2013Extended, 16> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 16>::write sig=Particles
void list(OscarOutput<smash::OscarFormat2013Extended, 16> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 16>::write sig=string
void text(OscarOutput<smash::OscarFormat2013Extended, 16> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 16>::OscarOutput pure=quantities_line,unit_line
Oscar oscarExtended16(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat2013Extended>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 36>::at_eventstart
void start(OscarOutput<smash::OscarFormat2013Extended, 36> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat2013Extended, 36>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 36>::at_eventend
void end(OscarOutput<smash::OscarFormat2013Extended, 36> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat2013Extended, 36>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 36>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat2013Extended, 36> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat2013Extended, 36>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 36>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat2013Extended, 36> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat2013Extended, 36>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 36>::write_particledata
void line(OscarOutput<smash::OscarFormat2013Extended, 36> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 36>::write sig=Particles
void list(OscarOutput<smash::OscarFormat2013Extended, 36> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 36>::write sig=string
void text(OscarOutput<smash::OscarFormat2013Extended, 36> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 36>::OscarOutput pure=quantities_line,unit_line
Oscar oscarExtended36(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat2013Extended>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 8>::at_eventstart
void start(OscarOutput<smash::OscarFormat2013Extended, 8> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat2013Extended, 8>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 8>::at_eventend
void end(OscarOutput<smash::OscarFormat2013Extended, 8> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat2013Extended, 8>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 8>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat2013Extended, 8> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat2013Extended, 8>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 8>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat2013Extended, 8> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat2013Extended, 8>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 8>::write_particledata
void line(OscarOutput<smash::OscarFormat2013Extended, 8> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 8>::write sig=Particles
void list(OscarOutput<smash::OscarFormat2013Extended, 8> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 8>::write sig=string
void text(OscarOutput<smash::OscarFormat2013Extended, 8> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat2013Extended, 8>::OscarOutput pure=quantities_line,unit_line
Oscar oscarExtended8(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat2013Extended>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 1>::at_eventstart
void start(OscarOutput<smash::OscarFormat1999, 1> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat1999, 1>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 1>::at_eventend
void end(OscarOutput<smash::OscarFormat1999, 1> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat1999, 1>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 1>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat1999, 1> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat1999, 1>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 1>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat1999, 1> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat1999, 1>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 1>::write_particledata
void line(OscarOutput<smash::OscarFormat1999, 1> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 1>::write sig=Particles
void list(OscarOutput<smash::OscarFormat1999, 1> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 1>::write sig=string
void text(OscarOutput<smash::OscarFormat1999, 1> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 1>::OscarOutput pure=quantities_line,unit_line
Oscar oscarOscar19991(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat1999>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 13>::at_eventstart
void start(OscarOutput<smash::OscarFormat1999, 13> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat1999, 13>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 13>::at_eventend
void end(OscarOutput<smash::OscarFormat1999, 13> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat1999, 13>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 13>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat1999, 13> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat1999, 13>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 13>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat1999, 13> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat1999, 13>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 13>::write_particledata
void line(OscarOutput<smash::OscarFormat1999, 13> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 13>::write sig=Particles
void list(OscarOutput<smash::OscarFormat1999, 13> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 13>::write sig=string
void text(OscarOutput<smash::OscarFormat1999, 13> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 13>::OscarOutput pure=quantities_line,unit_line
Oscar oscarOscar199913(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat1999>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 14>::at_eventstart
void start(OscarOutput<smash::OscarFormat1999, 14> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat1999, 14>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 14>::at_eventend
void end(OscarOutput<smash::OscarFormat1999, 14> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat1999, 14>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 14>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat1999, 14> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat1999, 14>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 14>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat1999, 14> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat1999, 14>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 14>::write_particledata
void line(OscarOutput<smash::OscarFormat1999, 14> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 14>::write sig=Particles
void list(OscarOutput<smash::OscarFormat1999, 14> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 14>::write sig=string
void text(OscarOutput<smash::OscarFormat1999, 14> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 14>::OscarOutput pure=quantities_line,unit_line
Oscar oscarOscar199914(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat1999>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 16>::at_eventstart
void start(OscarOutput<smash::OscarFormat1999, 16> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat1999, 16>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 16>::at_eventend
void end(OscarOutput<smash::OscarFormat1999, 16> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat1999, 16>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 16>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat1999, 16> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat1999, 16>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 16>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat1999, 16> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat1999, 16>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 16>::write_particledata
void line(OscarOutput<smash::OscarFormat1999, 16> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 16>::write sig=Particles
void list(OscarOutput<smash::OscarFormat1999, 16> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 16>::write sig=string
void text(OscarOutput<smash::OscarFormat1999, 16> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 16>::OscarOutput pure=quantities_line,unit_line
Oscar oscarOscar199916(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat1999>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 36>::at_eventstart
void start(OscarOutput<smash::OscarFormat1999, 36> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat1999, 36>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 36>::at_eventend
void end(OscarOutput<smash::OscarFormat1999, 36> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat1999, 36>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 36>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat1999, 36> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat1999, 36>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 36>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat1999, 36> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat1999, 36>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 36>::write_particledata
void line(OscarOutput<smash::OscarFormat1999, 36> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 36>::write sig=Particles
void list(OscarOutput<smash::OscarFormat1999, 36> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 36>::write sig=string
void text(OscarOutput<smash::OscarFormat1999, 36> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 36>::OscarOutput pure=quantities_line,unit_line
Oscar oscarOscar199936(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat1999>(path, name, q); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 8>::at_eventstart
void start(OscarOutput<smash::OscarFormat1999, 8> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_start<OscarFormat1999, 8>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 8>::at_eventend
void end(OscarOutput<smash::OscarFormat1999, 8> &self, const Particles &p, const EventLabel &l, const EventInfo &e) { oscar_end<OscarFormat1999, 8>(self, p, l, e); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 8>::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::OscarFormat1999, 8> &self, const Action &a, const double rho) { oscar_interaction<OscarFormat1999, 8>(self, a, rho); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 8>::at_intermediate_time
void between(OscarOutput<smash::OscarFormat1999, 8> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) { oscar_between<OscarFormat1999, 8>(self, p, l); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 8>::write_particledata
void line(OscarOutput<smash::OscarFormat1999, 8> &self, const ParticleData &p) { std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 8>::write sig=Particles
void list(OscarOutput<smash::OscarFormat1999, 8> &self, const Particles &p) {
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) { self.write(text); });
}
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 8>::write sig=string
void text(OscarOutput<smash::OscarFormat1999, 8> &self, const ToASCII::type &text) { std::fprintf(self.file_.get(), "%s", text.c_str()); }
//@ C12 smash::OscarOutput<smash::OscarFormat1999, 8>::OscarOutput pure=quantities_line,unit_line
Oscar oscarOscar19998(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) { return oscar<OscarFormat1999>(path, name, q); }
}  // namespace spec
