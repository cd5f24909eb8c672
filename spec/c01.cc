// Particle container: slots, holes, identifiers.
#include "smash/particledata.h"
#include "smash/particles.h"
#include "smash/particletype.h"

using namespace smash;
namespace spec {

// a slot for one new particle: a hole is reused before the list grows
static unsigned slot_for_one(Particles &self) {
  if (!self.dirty_.empty()) {
    const unsigned at = self.dirty_.back();
    self.dirty_.pop_back();
    self.data_[at].hole_ = false;
    return at;
  }
  if (self.data_size_ + 1 >= self.data_capacity_)
    self.increase_capacity((self.data_capacity_ + 1) * 2u);
  return self.data_size_++;
}

// every new particle gets the next, never used, identifier; its slot keeps
// its index
static void fill_slot(Particles &self, ParticleData &to,
                      const ParticleData &from) {
  self.id_max_ += 1;
  to.id_ = self.id_max_;
  to.type_ = from.type_;
  from.copy_to(to);
}

//@ C01 smash::Particles::Particles
struct Particles_ {
  int id_max_;
  unsigned data_size_, data_capacity_;
  std::unique_ptr<ParticleData[]> data_;
  std::vector<unsigned> dirty_;
};
Particles_ ctor() {
  Particles_ r;
  r.id_max_ = -1;
  r.data_size_ = 0;
  r.data_capacity_ = 100;
  r.data_ = std::unique_ptr<ParticleData[]>(new ParticleData[100]);
  for (unsigned i = 0; i < 100; ++i)
    r.data_[i].index_ = i;
  return r;
}

//@ C01 smash::Particles::increase_capacity
void grow(Particles &self, unsigned n) {
  std::unique_ptr<ParticleData[]> bigger(new ParticleData[n]);
  unsigned i = 0;
  while (i < self.data_size_) {
    bigger[i] = self.data_[i];
    i++;
  }
  for (; i < n; i++)
    bigger[i].index_ = i;
  self.data_capacity_ = n;
  self.data_ = std::move(bigger);
}

//@ C01 smash::Particles::ensure_capacity
void ensure(Particles &self, unsigned more) {
  if (self.data_size_ + more >= self.data_capacity_)
    self.increase_capacity((self.data_capacity_ + more) * 2u);
}

//@ C01 smash::Particles::copy_in
void copy_in(Particles &self, ParticleData &to, const ParticleData &from) {
  fill_slot(self, to, from);
}

//@ C01 smash::Particles::insert
const ParticleData &insert(Particles &self, const ParticleData &p) {
  if (self.dirty_.empty()) {
    if (self.data_size_ + 1 >= self.data_capacity_)
      self.increase_capacity((self.data_capacity_ + 1) * 2u);
    fill_slot(self, self.data_[self.data_size_], p);
    self.data_size_ += 1;
    return self.data_[self.data_size_ - 1];
  }
  const unsigned at = self.dirty_.back();
  self.dirty_.pop_back();
  fill_slot(self, self.data_[at], p);
  self.data_[at].hole_ = false;
  return self.data_[at];
}

//@ C01 smash::Particles::create n=1
ParticleData &create1(Particles &self, const PdgCode pdg) {
  const ParticleData pd(ParticleType::find(pdg));
  const unsigned at = slot_for_one(self);
  fill_slot(self, self.data_[at], pd);
  return self.data_[at];
}

//@ C01 smash::Particles::create n=2
void create_n(Particles &self, size_t n, PdgCode pdg) {
  const ParticleData pd(ParticleType::find(pdg));
  // first fill up the holes
  while (n > 0 && !self.dirty_.empty()) {
    const unsigned at = self.dirty_.back();
    self.dirty_.pop_back();
    fill_slot(self, self.data_[at], pd);
    self.data_[at].hole_ = false;
    n--;
  }
  if (n == 0)
    return;
  if (self.data_size_ + static_cast<unsigned>(n) >= self.data_capacity_)
    self.increase_capacity((self.data_capacity_ + static_cast<unsigned>(n)) *
                           2u);
  for (size_t i = 0; i < n; i++)
    fill_slot(self, self.data_[self.data_size_ + i], pd);
  self.data_size_ += n;
}

// the last one is cut off, any other becomes a hole with an invalid identifier
//@ C01 smash::Particles::remove
void remove(Particles &self, const ParticleData &p) {
  const unsigned at = p.index_;
  if (at + 1 == self.data_size_) {
    self.data_size_ = at;
    return;
  }
  self.dirty_.push_back(at);
  self.data_[at].hole_ = true;
  self.data_[at].id_ = -1;
}

//@ C01 smash::Particles::replace
void replace(Particles &self, const ParticleList &old, ParticleList &now) {
  std::size_t i = 0;
  for (; i < old.size() && i < now.size(); ++i) {
    const unsigned at = old[i].index_;
    fill_slot(self, self.data_[at], now[i]);
    now[i].id_ = self.data_[at].id_;
    now[i].index_ = at;
  }
  for (; i < old.size(); ++i)
    self.remove(old[i]);
  for (; i < now.size(); ++i) {
    const ParticleData &p = self.insert(now[i]);
    now[i].id_ = p.id_;
    now[i].index_ = p.index_;
  }
}

//@ C01 smash::Particles::reset
void reset(Particles &self) {
  for (std::size_t i = 0; i < self.dirty_.size(); i++)
    self.data_[self.dirty_[i]].hole_ = false;
  self.dirty_.clear();
  self.data_size_ = 0;
  self.id_max_ = -1;
}

//@ C01 smash::Particles::size
size_t size(const Particles &self) {
  return self.data_size_ - self.dirty_.size();
}
// empty means that no particle is left, holes do not count
//@ C01 smash::Particles::is_empty
bool is_empty(const Particles &self) {
  return self.data_size_ == self.dirty_.size();
}
//@ C01 smash::Particles::time
double time(const Particles &self) { return self.begin().ptr_->position_.x0(); }
//@ C01 smash::Particles::front const=1
const ParticleData &front(const Particles &self) { return *self.begin().ptr_; }
//@ C01 smash::Particles::front const=0
ParticleData &front_m(Particles &self) { return *self.begin().ptr_; }
//@ C01 smash::Particles::back const=1
const ParticleData &back(const Particles &self) {
  auto e = self.end();
  --e;
  return *e.ptr_;
}
//@ C01 smash::Particles::back const=0
ParticleData &back_m(Particles &self) {
  auto e = self.end();
  --e;
  return *e.ptr_;
}
// valid: same slot, same identifier, not scattered since
//@ C01 smash::Particles::is_valid
bool is_valid(const Particles &self, const ParticleData &copy) {
  return copy.index_ < self.data_size_ &&
         copy.id_ == self.data_[copy.index_].id_ &&
         copy.id_process() == self.data_[copy.index_].id_process();
}
//@ C01 smash::Particles::update_particle
const ParticleData &update_particle(Particles &self, const ParticleData &p,
                                    const ParticleData &new_state) {
  new_state.copy_to(self.data_[p.index_]);
  return self.data_[p.index_];
}
//@ C01 smash::Particles::update
void update(Particles &self, const ParticleList &old_state,
            ParticleList &new_state, bool do_replace) {
  if (do_replace) {
    self.replace(old_state, new_state);
    return;
  }
  for (std::size_t i = 0; i < old_state.size(); ++i)
    new_state[i] = self.update_particle(old_state[i], new_state[i]);
}
//@ C01 smash::Particles::lookup
const ParticleData &lookup(const Particles &self, const ParticleData &old) {
  return self.data_[old.index_];
}

// iteration visits every slot that is not a hole
//@ C01 smash::Particles::begin const=1
Particles::const_iterator begin_c(const Particles &self) {
  const ParticleData *p = &self.data_[0];
  while (p->hole_)
    p++;
  return p;
}
//@ C01 smash::Particles::begin const=0
Particles::iterator begin_m(Particles &self) {
  ParticleData *p = &self.data_[0];
  while (p->hole_)
    p++;
  return p;
}
//@ C01 smash::Particles::end const=1
Particles::const_iterator end_c(const Particles &self) {
  return &self.data_[self.data_size_];
}
//@ C01 smash::Particles::end const=0
Particles::iterator end_m(Particles &self) {
  return &self.data_[self.data_size_];
}
//@ C01 smash::Particles::GenericIterator<smash::ParticleData>::operator++ n=0
Particles::iterator &inc(Particles::iterator &self) {
  self.ptr_ = self.ptr_ + 1;
  while (self.ptr_->hole_)
    self.ptr_ = self.ptr_ + 1;
  return self;
}
//@ C01 smash::Particles::GenericIterator<const smash::ParticleData>::operator++ n=0
Particles::const_iterator &inc_c(Particles::const_iterator &self) {
  self.ptr_ = self.ptr_ + 1;
  while (self.ptr_->hole_)
    self.ptr_ = self.ptr_ + 1;
  return self;
}
//@ C01 smash::Particles::GenericIterator<smash::ParticleData>::operator-- n=0
Particles::iterator &dec(Particles::iterator &self) {
  self.ptr_ = self.ptr_ - 1;
  while (self.ptr_->hole_)
    self.ptr_ = self.ptr_ - 1;
  return self;
}
//@ C01 smash::Particles::GenericIterator<const smash::ParticleData>::operator-- n=0
Particles::const_iterator &dec_c(Particles::const_iterator &self) {
  self.ptr_ = self.ptr_ - 1;
  while (self.ptr_->hole_)
    self.ptr_ = self.ptr_ - 1;
  return self;
}
//@ C01 smash::Particles::copy_to_vector
ParticleList copy_to_vector(const Particles &self) {
  if (self.dirty_.size() == 0)
    return ParticleList(&self.data_[0], &self.data_[self.data_size_]);
  return ParticleList(self.begin(), self.end());
}
}  // namespace spec
