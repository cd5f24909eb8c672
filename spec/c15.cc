// Conserved quantities of sets of particles.
#include "smash/particles.h"
#include "smash/quantumnumbers.h"

using namespace smash;
namespace spec {

struct Numbers {
  FourVector momentum_;
  int charge_, isospin3_, strangeness_, charmness_, bottomness_, baryon_number_;
};

//@ C15 smash::QuantumNumbers::QuantumNumbers n=0
Numbers none() {
  return Numbers{FourVector(0., 0., 0., 0.), 0, 0, 0, 0, 0, 0};
}
//@ C15 smash::QuantumNumbers::QuantumNumbers n=7
Numbers given(const FourVector &m, const int q, const int i3, const int s,
              const int c, const int b, const int B) {
  Numbers r;
  r.momentum_ = m;
  r.charge_ = q;
  r.isospin3_ = i3;
  r.strangeness_ = s;
  r.charmness_ = c;
  r.bottomness_ = b;
  r.baryon_number_ = B;
  return r;
}
//@ C15 smash::QuantumNumbers::add_values
void add(QuantumNumbers &self, const ParticleData &p) {
  const PdgCode c = p.pdgcode();
  self.baryon_number_ += c.baryon_number();
  self.bottomness_ += c.bottomness();
  self.charmness_ += c.charmness();
  self.strangeness_ += c.strangeness();
  self.isospin3_ += c.isospin3();
  self.charge_ += c.charge();
  self.momentum_ = self.momentum_ + p.momentum();
}
static void add_one(QuantumNumbers &self, const ParticleData &p) {
  self.momentum_ = self.momentum_ + p.momentum();
  const PdgCode c = p.pdgcode();
  self.baryon_number_ += c.baryon_number();
  self.bottomness_ += c.bottomness();
  self.charmness_ += c.charmness();
  self.strangeness_ += c.strangeness();
  self.isospin3_ += c.isospin3();
  self.charge_ += c.charge();
}
//@ C15 smash::QuantumNumbers::QuantumNumbers sig=smash::Particles inline=smash::QuantumNumbers::add_values
QuantumNumbers of_particles(const Particles &ps) {
  QuantumNumbers r(FourVector(0., 0., 0., 0.), 0, 0, 0, 0, 0, 0);
  for (const ParticleData &p : ps) add_one(r, p);
  return r;
}
//@ C15 smash::QuantumNumbers::QuantumNumbers sig=std::vector<smash::Particles inline=smash::QuantumNumbers::add_values
QuantumNumbers of_ensembles(const std::vector<Particles> &all) {
  QuantumNumbers r(FourVector(0., 0., 0., 0.), 0, 0, 0, 0, 0, 0);
  for (const Particles &ps : all)
    for (const ParticleData &p : ps) add_one(r, p);
  return r;
}
//@ C15 smash::QuantumNumbers::QuantumNumbers sig=ParticleData inline=smash::QuantumNumbers::add_values
QuantumNumbers of_list(const ParticleList &ps) {
  QuantumNumbers r(FourVector(0., 0., 0., 0.), 0, 0, 0, 0, 0, 0);
  for (const ParticleData &p : ps) add_one(r, p);
  return r;
}
//@ C15 smash::QuantumNumbers::momentum
FourVector momentum(const QuantumNumbers &self) { return self.momentum_; }
//@ C15 smash::QuantumNumbers::charge
int charge(const QuantumNumbers &self) { return self.charge_; }
//@ C15 smash::QuantumNumbers::isospin3
int isospin3(const QuantumNumbers &self) { return self.isospin3_; }
//@ C15 smash::QuantumNumbers::strangeness
int strangeness(const QuantumNumbers &self) { return self.strangeness_; }
//@ C15 smash::QuantumNumbers::charmness
int charmness(const QuantumNumbers &self) { return self.charmness_; }
//@ C15 smash::QuantumNumbers::bottomness
int bottomness(const QuantumNumbers &self) { return self.bottomness_; }
//@ C15 smash::QuantumNumbers::baryon_number
int baryon_number(const QuantumNumbers &self) { return self.baryon_number_; }

static bool same(const QuantumNumbers &a, const QuantumNumbers &b) {
  return a.baryon_number_ == b.baryon_number_ && a.bottomness_ == b.bottomness_ &&
         a.charmness_ == b.charmness_ && a.strangeness_ == b.strangeness_ &&
         a.isospin3_ == b.isospin3_ && a.charge_ == b.charge_ &&
         a.momentum_ == b.momentum_;
}
//@ C15 smash::QuantumNumbers::operator==
bool equal(const QuantumNumbers &self, const QuantumNumbers &o) {
  return same(self, o);
}
//@ C15 smash::QuantumNumbers::operator!=
bool unequal(const QuantumNumbers &self, const QuantumNumbers &o) {
  return !(self == o);
}
//@ C15 smash::QuantumNumbers::operator-
QuantumNumbers minus(const QuantumNumbers &self, const QuantumNumbers &o) {
  return QuantumNumbers(self.momentum_ - o.momentum_, self.charge_ - o.charge_,
                        self.isospin3_ - o.isospin3_,
                        self.strangeness_ - o.strangeness_,
                        self.charmness_ - o.charmness_,
                        self.bottomness_ - o.bottomness_,
                        self.baryon_number_ - o.baryon_number_);
}
//@ C15 smash::QuantumNumbers::report_deviations sig=vector
std::string report(const QuantumNumbers &self, const std::vector<Particles> &all) {
  return self.report_deviations(QuantumNumbers(all));
}

}  // namespace spec
