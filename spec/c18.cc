// C18: the lattice maps positions, indices and nodes onto each other, and visits each node once
#include "smash/lattice.h"

namespace spec {
using namespace smash;
using Lat = RectangularLattice<double>;
using Int3 = std::array<int, 3>;
using Real3 = std::array<double, 3>;

void visit(double &v, int ix, int iy, int iz);
struct Visit {
  void operator()(double &v, int ix, int iy, int iz) { visit(v, ix, iy, iz); }
};
struct Near {
  void operator()(double &v, int i, int c) { visit(v, i, c, 0); }
};
double integrand(ThreeVector, double &, ThreeVector);
// makes the compiler instantiate the members
void use(Lat &l, Int3 a, Visit &v, Near &w, ThreeVector p, Real3 r, double &x, RectangularLattice<ThreeVector> &g,
         RectangularLattice<FourVector> &h, RectangularLattice<std::array<FourVector, 4>> &gg) {
  Lat fresh(r, a, r, true, LatticeUpdate::AtOutput);
  Lat copy(l);
  l.reset();
  l.iterate_sublattice(a, a, v);
  l.iterate_in_cube(p, 1., v);
  l.iterate_in_rectangle(p, r, v);
  l.iterate_nearest_neighbors(p, w);
  l.integrate_volume(x, integrand, 1., p);
  l.value_at(p, x);
  l.node(1, 2, 3);
  l.cell_center(3);
  l.out_of_bounds(1, 2, 3);
  l.assign_value(3, 4.);
  l.identical_to_lattice(&g);
  l.reset_and_resize(r, r, a);
  l.compute_gradient_lattice(g);
  h.compute_four_gradient_lattice(h, 0.1, gg);
  for (double &y : l)
    y += l[3];
  const Lat &c = l;
  for (double y : c)
    x += c[3] + c.size();
  c.lattice_sizes(), c.n_cells(), c.cell_sizes(), c.origin(), c.periodic(), c.when_update();
}

struct Lattice {
  std::vector<double> lattice_;
  Real3 lattice_sizes_;
  Int3 n_cells_;
  Real3 cell_sizes_;
  double cell_volume_;
  Real3 origin_;
  bool periodic_;
  LatticeUpdate when_update_;
};

//@ C18 smash::RectangularLattice<double>::RectangularLattice n=5
Lattice make(const Real3 &l, const Int3 &n, const Real3 &o, bool per, const LatticeUpdate upd) {
  for (int i = 0; i < 3; i++)
    if (n[i] < 1 || l[i] < 0)
      throw std::invalid_argument("");
  Lattice r;
  r.lattice_sizes_ = l;
  r.n_cells_ = n;
  r.origin_ = o;
  r.periodic_ = per;
  r.when_update_ = upd;
  r.cell_sizes_ = {l[0] / n[0], l[1] / n[1], l[2] / n[2]};
  r.cell_volume_ = l[0] / n[0] * (l[1] / n[1]) * (l[2] / n[2]);
  r.lattice_.resize(n[0] * n[1] * n[2]);
  return r;
}
//@ C18 smash::RectangularLattice<double>::RectangularLattice n=1
Lattice copy(const Lat &o) {
  Lattice r;
  r.lattice_ = o.lattice_;
  r.lattice_sizes_ = o.lattice_sizes_;
  r.n_cells_ = o.n_cells_;
  r.origin_ = o.origin_;
  r.periodic_ = o.periodic_;
  r.when_update_ = o.when_update_;
  r.cell_sizes_ = o.cell_sizes_;
  r.cell_volume_ = o.cell_volume_;
  return r;
}
//@ C18 smash::RectangularLattice<double>::reset
void reset(Lat &self) {
  for (std::size_t i = 0; i < self.lattice_.size(); i++)
    self.lattice_[i] = 0.;
}
//@ C18 smash::RectangularLattice<double>::out_of_bounds
bool out(const Lat &self, int ix, int iy, int iz) {
  if (self.periodic_)
    return false;
  const bool inside = 0 <= ix && ix < self.n_cells_[0] && 0 <= iy && iy < self.n_cells_[1] && 0 <= iz &&
                      iz < self.n_cells_[2];
  return !inside;
}
//@ C18 smash::RectangularLattice<double>::cell_center n=3
ThreeVector center3(const Lat &self, int ix, int iy, int iz) {
  const auto &o = self.origin_;
  const auto &s = self.cell_sizes_;
  return ThreeVector(o[0] + s[0] * ix + s[0] / 2, o[1] + s[1] * iy + s[1] / 2, o[2] + s[2] * iz + s[2] / 2);
}
//@ C18 smash::RectangularLattice<double>::cell_center n=1
ThreeVector center1(const Lat &self, int index) {
  const int nx = self.n_cells_[0], ny = self.n_cells_[1];
  return self.cell_center(index % nx, (index / nx) % ny, (index / nx) / ny);
}
//@ C18 smash::RectangularLattice<double>::lattice_sizes
const Real3 &sizes(const Lat &self) { return self.lattice_sizes_; }
//@ C18 smash::RectangularLattice<double>::n_cells
const Int3 &ncells(const Lat &self) { return self.n_cells_; }
//@ C18 smash::RectangularLattice<double>::cell_sizes
const Real3 &csizes(const Lat &self) { return self.cell_sizes_; }
//@ C18 smash::RectangularLattice<double>::origin
const Real3 &origin(const Lat &self) { return self.origin_; }
//@ C18 smash::RectangularLattice<double>::periodic
bool periodic(const Lat &self) { return self.periodic_; }
//@ C18 smash::RectangularLattice<double>::when_update
LatticeUpdate when(const Lat &self) { return self.when_update_; }
//@ C18 smash::RectangularLattice<double>::operator[] const=0
double &at(Lat &self, std::size_t i) { return self.lattice_[i]; }
//@ C18 smash::RectangularLattice<double>::operator[] const=1
const double &cat(const Lat &self, std::size_t i) { return self.lattice_[i]; }
//@ C18 smash::RectangularLattice<double>::begin const=0
auto begin(Lat &self) { return self.lattice_.begin(); }
//@ C18 smash::RectangularLattice<double>::end const=0
auto end(Lat &self) { return self.lattice_.end(); }
//@ C18 smash::RectangularLattice<double>::begin const=1
auto cbegin(const Lat &self) { return self.lattice_.begin(); }
//@ C18 smash::RectangularLattice<double>::end const=1
auto cend(const Lat &self) { return self.lattice_.end(); }
//@ C18 smash::RectangularLattice<double>::size
std::size_t size(const Lat &self) { return self.lattice_.size(); }
//@ C18 smash::RectangularLattice<double>::assign_value
void assign(Lat &self, int i, double v) { self.lattice_[i] = v; }
//@ C18 smash::RectangularLattice<double>::index1d
int index(Lat &self, int ix, int iy, int iz) {
  return iz * self.n_cells_[1] * self.n_cells_[0] + iy * self.n_cells_[0] + ix;
}
int neighbour(Lat &self, int at[3], int axis, int step) {
  const int n = self.n_cells_[axis];
  int to = at[axis] + step;
  if (step < 0 ? at[axis] == 0 : at[axis] == n - 1)
    to = !self.periodic_ ? at[axis] : step < 0 ? n - 1 : 0;
  at[axis] = to;
  return self.index1d(at[0], at[1], at[2]);
}
//@ C18 smash::RectangularLattice<double>::index_left
int left(Lat &self, int ix, int iy, int iz) {
  int at[3] = {ix, iy, iz};
  return neighbour(self, at, 0, -1);
}
//@ C18 smash::RectangularLattice<double>::index_right
int right(Lat &self, int ix, int iy, int iz) {
  int at[3] = {ix, iy, iz};
  return neighbour(self, at, 0, 1);
}
//@ C18 smash::RectangularLattice<double>::index_down
int down(Lat &self, int ix, int iy, int iz) {
  int at[3] = {ix, iy, iz};
  return neighbour(self, at, 1, -1);
}
//@ C18 smash::RectangularLattice<double>::index_up
int up(Lat &self, int ix, int iy, int iz) {
  int at[3] = {ix, iy, iz};
  return neighbour(self, at, 1, 1);
}
//@ C18 smash::RectangularLattice<double>::index_backward
int backward(Lat &self, int ix, int iy, int iz) {
  int at[3] = {ix, iy, iz};
  return neighbour(self, at, 2, -1);
}
//@ C18 smash::RectangularLattice<double>::index_forward
int forward(Lat &self, int ix, int iy, int iz) {
  int at[3] = {ix, iy, iz};
  return neighbour(self, at, 2, 1);
}
int wrap(int i, int n) { return (i + 256 * n) % n; }
//@ C18 smash::RectangularLattice<double>::positive_modulo
int modulo(const Lat &self, int i, int n) { return wrap(i, n); }
//@ C18 smash::RectangularLattice<double>::node
const double &node(const Lat &self, int ix, int iy, int iz) {
  const int nx = self.n_cells_[0], ny = self.n_cells_[1], nz = self.n_cells_[2];
  if (self.periodic_)
    return self.lattice_[self.positive_modulo(ix, nx) + nx * self.positive_modulo(iy, ny) +
                         nx * ny * self.positive_modulo(iz, nz)];
  return self.lattice_[ix + nx * iy + nx * ny * iz];
}
//@ C18 smash::RectangularLattice<double>::value_at
bool value_at(const Lat &self, const ThreeVector &r, double &value) {
  int c[3];
  for (int i = 0; i < 3; i++)
    c[i] = numeric_cast<int>(std::floor((r[i] - self.origin_[i]) / self.cell_sizes_[i]));
  if (self.out_of_bounds(c[0], c[1], c[2])) {
    value = 0.;
    return false;
  }
  value = self.node(c[0], c[1], c[2]);
  return true;
}
//@ C18 smash::RectangularLattice<double>::iterate_sublattice inst=Visit
void sublattice(Lat &self, const Int3 &lo, const Int3 &hi, Visit &f) {
  const int nx = self.n_cells_[0], ny = self.n_cells_[1], nz = self.n_cells_[2];
  for (int z = lo[2]; z < hi[2]; z++)
    for (int y = lo[1]; y < hi[1]; y++)
      for (int x = lo[0]; x < hi[0]; x++) {
        const int i = self.periodic_ ? self.positive_modulo(x, nx) + nx * (self.positive_modulo(y, ny) +
                                                                           ny * self.positive_modulo(z, nz))
                                     : x + nx * (y + ny * z);
        f(self.lattice_[i], x, y, z);
      }
}
//@ C18 smash::RectangularLattice<double>::iterate_in_rectangle inst=Visit
void rectangle(Lat &self, const ThreeVector &p, const Real3 &half, Visit &f) {
  Int3 lo, hi;
  for (int i = 0; i < 3; i++) {
    const double x = p[i] - self.origin_[i];
    lo[i] = numeric_cast<int>(std::ceil((x - half[i]) / self.cell_sizes_[i] - 0.5));
    hi[i] = numeric_cast<int>(std::ceil((x + half[i]) / self.cell_sizes_[i] - 0.5));
  }
  if (!self.periodic_)
    for (int i = 0; i < 3; i++) {
      lo[i] = std::max(lo[i], 0);
      hi[i] = std::min(hi[i], self.n_cells_[i]);
      if (lo[i] > self.n_cells_[i] || hi[i] < 0)
        return;
    }
  self.iterate_sublattice(lo, hi, f);
}
//@ C18 smash::RectangularLattice<double>::iterate_in_cube inst=Visit
void cube(Lat &self, const ThreeVector &p, const double r, Visit &f) {
  Int3 lo, hi;
  for (int i = 0; i < 3; i++) {
    const double x = p[i] - self.origin_[i];
    lo[i] = numeric_cast<int>(std::ceil((x - r) / self.cell_sizes_[i] - 0.5));
    hi[i] = numeric_cast<int>(std::ceil((x + r) / self.cell_sizes_[i] - 0.5));
  }
  if (!self.periodic_)
    for (int i = 0; i < 3; i++) {
      lo[i] = std::max(lo[i], 0);
      hi[i] = std::min(hi[i], self.n_cells_[i]);
      if (lo[i] > self.n_cells_[i] || hi[i] < 0)
        return;
    }
  self.iterate_sublattice(lo, hi, f);
}
//@ C18 smash::RectangularLattice<double>::iterate_nearest_neighbors inst=Near
void neighbours(Lat &self, const ThreeVector &p, Near &f) {
  int c[3];
  for (int i = 0; i < 3; i++)
    c[i] = numeric_cast<int>(std::floor((p[i] - self.origin_[i]) / self.cell_sizes_[i]));
  const int i = self.index1d(c[0], c[1], c[2]);
  f(self.lattice_[i], i, i);
  int j = self.index_left(c[0], c[1], c[2]);
  f(self.lattice_[j], j, i);
  j = self.index_right(c[0], c[1], c[2]);
  f(self.lattice_[j], j, i);
  j = self.index_down(c[0], c[1], c[2]);
  f(self.lattice_[j], j, i);
  j = self.index_up(c[0], c[1], c[2]);
  f(self.lattice_[j], j, i);
  j = self.index_backward(c[0], c[1], c[2]);
  f(self.lattice_[j], j, i);
  j = self.index_forward(c[0], c[1], c[2]);
  f(self.lattice_[j], j, i);
}
//@ C18 smash::RectangularLattice<double>::identical_to_lattice inst=ThreeVector
bool identical(const Lat &self, const RectangularLattice<ThreeVector> *o) {
  for (int i = 0; i < 3; i++) {
    if (self.n_cells_[i] != o->n_cells_[i])
      return false;
    if (!(std::abs(self.lattice_sizes_[i] - o->lattice_sizes_[i]) < really_small))
      return false;
    if (!(std::abs(self.origin_[i] - o->origin_[i]) < really_small))
      return false;
  }
  return self.periodic_ == o->periodic_;
}
//@ C18 smash::RectangularLattice<double>::reset_and_resize
void resize(Lat &self, std::optional<Real3> len, std::optional<Real3> org, std::optional<Int3> cells) {
  if (!len && !org && !cells)
    throw std::invalid_argument("");
  if (len)
    self.lattice_sizes_ = *len;
  if (org)
    self.origin_ = *org;
  if (cells)
    self.n_cells_ = *cells;
  const auto &n = self.n_cells_;
  if (cells)
    self.lattice_.assign(n[0] * n[1] * n[2], 0.);
  else
    for (std::size_t i = 0; i < self.lattice_.size(); i++)
      self.lattice_[i] = 0.;
  self.cell_sizes_ = {self.lattice_sizes_[0] / n[0], self.lattice_sizes_[1] / n[1], self.lattice_sizes_[2] / n[2]};
  self.cell_volume_ = self.cell_sizes_[0] * self.cell_sizes_[1] * self.cell_sizes_[2];
}
// central differences inside, one-sided ones at the edges of a finite lattice, wrapped ones in a periodic lattice
template <typename L>
auto slope(const L &lat, int x, int y, int z, int axis) {
  const int n[3] = {lat.n_cells_[0], lat.n_cells_[1], lat.n_cells_[2]};
  const int stride[3] = {1, n[0], n[0] * n[1]};
  const int at[3] = {x, y, z};
  const int i = x + n[0] * y + n[0] * n[1] * z;
  const int period = stride[axis] * n[axis];
  const double h = 0.5 / lat.cell_sizes_[axis];
  if (at[axis] == 0) {
    if (lat.periodic_)
      return (lat.lattice_[i + stride[axis]] - lat.lattice_[i + period - stride[axis]]) * h;
    return (lat.lattice_[i + stride[axis]] - lat.lattice_[i]) * (2 * h);
  }
  if (at[axis] == n[axis] - 1) {
    if (lat.periodic_)
      return (lat.lattice_[i + stride[axis] - period] - lat.lattice_[i - stride[axis]]) * h;
    return (lat.lattice_[i] - lat.lattice_[i - stride[axis]]) * (2 * h);
  }
  return (lat.lattice_[i + stride[axis]] - lat.lattice_[i - stride[axis]]) * h;
}
//@ C18 smash::RectangularLattice<double>::compute_gradient_lattice
void gradient(const Lat &self, RectangularLattice<ThreeVector> &g) {
  if (self.n_cells_[0] < 2 || self.n_cells_[1] < 2 || self.n_cells_[2] < 2)
    throw std::runtime_error("");
  if (!self.identical_to_lattice(&g))
    throw std::invalid_argument("");
  const auto &n = self.n_cells_;
  for (int z = 0; z < n[2]; z++)
    for (int y = 0; y < n[1]; y++)
      for (int x = 0; x < n[0]; x++) {
        const int i = x + n[0] * y + n[0] * n[1] * z;
        g[i].set_x1(slope(self, x, y, z, 0));
        g[i].set_x2(slope(self, x, y, z, 1));
        g[i].set_x3(slope(self, x, y, z, 2));
      }
}
//@ C18 smash::RectangularLattice<smash::FourVector>::compute_four_gradient_lattice opaque=identical_to_lattice
void gradient4(const RectangularLattice<FourVector> &self, RectangularLattice<FourVector> &old, double dt,
               RectangularLattice<std::array<FourVector, 4>> &g) {
  if (self.n_cells_[0] < 2 || self.n_cells_[1] < 2 || self.n_cells_[2] < 2)
    throw std::runtime_error("");
  if (!self.identical_to_lattice(&g))
    throw std::invalid_argument("");
  const auto &n = self.n_cells_;
  for (int z = 0; z < n[2]; z++)
    for (int y = 0; y < n[1]; y++)
      for (int x = 0; x < n[0]; x++) {
        const int i = x + n[0] * y + n[0] * n[1] * z;
        g[i][0] = (self.lattice_[i] - old[i]) * (1. / dt);
        g[i][1] = slope(self, x, y, z, 0);
        g[i][2] = slope(self, x, y, z, 1);
        g[i][3] = slope(self, x, y, z, 2);
      }
}
}  // namespace spec
