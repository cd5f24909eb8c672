"""spec/c12.cc: one obligation per format and content of the OSCAR output"""
HEAD = open('/verif/tools/c12.head').read()
F = [('ASCII', 'ASCII'), ('OscarFormat2013', 'Oscar2013'), ('OscarFormat2013Extended', 'Extended'), ('OscarFormat1999', 'Oscar1999')]
C = [1, 13, 14, 16, 36, 8]
out = HEAD
for f, n in F:
    for c in C:
        q = 'smash::OscarOutput<smash::%s, %d>' % (f, c)
        o = 'OscarOutput<smash::%s, %d>' % (f, c)
        out += f'''//@ C12 {q}::at_eventstart
void start(OscarOutput<smash::{f}, {c}> &self, const Particles &p, const EventLabel &l, const EventInfo &e) {{ oscar_start<{f}, {c}>(self, p, l); }}
//@ C12 {q}::at_eventend
void end(OscarOutput<smash::{f}, {c}> &self, const Particles &p, const EventLabel &l, const EventInfo &e) {{ oscar_end<{f}, {c}>(self, p, l, e); }}
//@ C12 {q}::at_interaction opaque=write_particledata
void interaction(OscarOutput<smash::{f}, {c}> &self, const Action &a, const double rho) {{ oscar_interaction<{f}, {c}>(self, a, rho); }}
//@ C12 {q}::at_intermediate_time
void between(OscarOutput<smash::{f}, {c}> &self, const Particles &p, const std::unique_ptr<Clock> &, const DensityParameters &, const EventLabel &l, const EventInfo &) {{ oscar_between<{f}, {c}>(self, p, l); }}
//@ C12 {q}::write_particledata
void line(OscarOutput<smash::{f}, {c}> &self, const ParticleData &p) {{ std::fprintf(self.file_.get(), "%s", self.formatter_.single_particle_data(p).c_str()); }}
//@ C12 {q}::write sig=Particles
void list(OscarOutput<smash::{f}, {c}> &self, const Particles &p) {{
  write_in_chunk<ToASCII>(p, self.formatter_, [&self](const ToASCII::type &text) {{ self.write(text); }});
}}
//@ C12 {q}::write sig=string
void text(OscarOutput<smash::{f}, {c}> &self, const ToASCII::type &text) {{ std::fprintf(self.file_.get(), "%s", text.c_str()); }}
//@ C12 {q}::OscarOutput pure=quantities_line,unit_line
Oscar oscar{n}{c}(const std::filesystem::path &path, const std::string &name, const std::vector<std::string> q) {{ return oscar<{f}>(path, name, q); }}
'''
open('/verif/spec/c12.cc', 'w').write(out + '}  // namespace spec\n')
