// C25: periodic box: particles leave through one wall and re-enter through the opposite one
#include "smash/algorithms.h"
#include "smash/boxmodus.h"
#include "smash/freeforallaction.h"
#include "smash/listmodus.h"
#include "smash/outputinterface.h"
#include "smash/wallcrossingaction.h"

namespace spec {
using namespace smash;

struct Box {
  std::array<double, 3> l_;
};
//@ C25 smash::WallCrossActionsFinder::WallCrossActionsFinder n=1 sig=double
Box walls(double l) {
  Box b;
  b.l_[0] = l;
  b.l_[1] = l;
  b.l_[2] = l;
  return b;
}
//@ C25 smash::WallCrossActionsFinder::find_actions_in_cell
ActionList crossings(const WallCrossActionsFinder &self, const ParticleList &l, double dt, const double, const std::vector<FourVector> &) {
  ActionList out;
  for (size_t n = 0; n < l.size(); n++) {
    const ParticleData &p = l[n];
    const ThreeVector v = p.velocity();
    const FourVector x = p.position();
    // first wall reached before dt
    int wall = -1;
    double first = dt;
    for (int i = 0; i < 3; i++) {
      if (std::abs(v[i]) <= really_small)
        continue;
      const double way = v[i] > 0 ? self.l_[i] - x[i + 1] : x[i + 1];
      const double t = way / std::abs(v[i]);
      if (t < first) {
        first = t;
        wall = i;
      }
    }
    if (wall < 0)
      continue;
    // there it appears at the opposite wall
    FourVector y(x.x0() + first, x.x1() + first * v[0], x.x2() + first * v[1], x.x3() + first * v[2]);
    if (v[wall] > 0)
      y[wall + 1] = 0;
    else
      y[wall + 1] = self.l_[wall];
    ParticleData q = p;
    q.set_4position(y);
    out.push_back(std::make_unique<WallcrossingAction>(p, q, first));
  }
  return out;
}
//@ C25 smash::WallCrossActionsFinder::find_actions_with_neighbors
ActionList none1(const WallCrossActionsFinder &self, const ParticleList &, const ParticleList &, double, const std::vector<FourVector> &) {
  return ActionList();
}
//@ C25 smash::WallCrossActionsFinder::find_actions_with_surrounding_particles
ActionList none2(const WallCrossActionsFinder &self, const ParticleList &, const Particles &, double, const std::vector<FourVector> &) {
  return ActionList();
}
//@ C25 smash::WallCrossActionsFinder::find_final_actions
ActionList none3(const WallCrossActionsFinder &self, const Particles &) { return ActionList(); }

struct Act {
  ParticleList incoming_particles_, outgoing_particles_;
  double time_of_execution_;
  ProcessType process_type_;
  double box_length_;
  int stochastic_position_idx_;
};
//@ C25 smash::WallcrossingAction::WallcrossingAction n=3
Act wallact(const ParticleData &a, const ParticleData &b, const double t) {
  Act x;
  x.incoming_particles_ = {a};
  x.outgoing_particles_ = {b};
  x.time_of_execution_ = a.position().x0() + t;
  x.process_type_ = ProcessType::Wall;
  x.box_length_ = -1;
  x.stochastic_position_idx_ = -1;
  return x;
}
bool wrap(double &x, double l) {
  if (x >= 0 && x < l)
    return false;
  x = x < 0 ? x + l : x - l;
  return true;
}
//@ C25 smash::enforce_periodic_boundaries
bool periodic(std::array<double, 4>::iterator a, const std::array<double, 4>::iterator &b, double l) {
  bool any = false;
  while (a != b) {
    if (wrap(*a, l))
      any = true;
    ++a;
  }
  return any;
}
template <typename M>
int impose(M &self, Particles *ps, const OutputsList &outs) {
  int n = 0;
  for (ParticleData &p : *ps) {
    const FourVector x = p.position();
    FourVector y = x;
    const bool a = wrap(y[1], self.length_), b = wrap(y[2], self.length_), c = wrap(y[3], self.length_);
    if (!a && !b && !c)
      continue;
    n++;
    const ParticleData old = p;
    p.set_4position(y);
    ActionPtr act = std::make_unique<WallcrossingAction>(old, p);
    for (size_t i = 0; i < outs.size(); i++)
      if (!outs[i]->is_dilepton_output() && !outs[i]->is_photon_output())
        outs[i]->at_interaction(*act, 0.);
  }
  return n;
}
//@ C25 smash::BoxModus::impose_boundary_conditions
int imposebox(BoxModus &self, Particles *ps, const OutputsList &outs) { return impose(self, ps, outs); }
//@ C25 smash::ListBoxModus::impose_boundary_conditions
int imposelist(ListBoxModus &self, Particles *ps, const OutputsList &outs) { return impose(self, ps, outs); }
//@ C25 smash::BoxModus::length
double len(const BoxModus &self) { return self.length_; }
//@ C25 smash::BoxModus::is_box
bool box(const BoxModus &self) { return true; }
//@ C25 smash::ListBoxModus::is_box
bool box(const ListBoxModus &self) { return true; }
//@ C03 smash::FreeforallAction::FreeforallAction n=3
Act freeact(const ParticleList &a, const ParticleList &b, double t) {
  if (a.size() > 0 && b.size() > 0)
    throw std::invalid_argument("");
  Act x;
  x.incoming_particles_ = a;
  x.outgoing_particles_ = b;
  x.time_of_execution_ = t;
  x.process_type_ = ProcessType::Freeforall;
  x.box_length_ = -1;
  x.stochastic_position_idx_ = -1;
  return x;
}
//@ C03 smash::FreeforallAction::generate_final_state
void freefinal(FreeforallAction &self) {
  for (size_t i = 0; i < self.outgoing_particles_.size(); i++) {
    ParticleData &p = self.outgoing_particles_[i];
    const FourVector x = p.position();
    const double dt = self.time_of_execution_ - x.x0();
    const ThreeVector v = p.velocity();
    p.set_formation_time(x.x0());
    p.set_4position(FourVector(x.x0() + dt, x.x1() + v.x1() * dt, x.x2() + v.x2() * dt, x.x3() + v.x3() * dt));
  }
}
}  // namespace spec
