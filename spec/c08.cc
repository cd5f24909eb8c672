// C08: the grid of cells used to find interaction partners
#include "smash/grid.h"
#include "smash/algorithms.h"
#include "smash/logging.h"
#include "smash/numeric_cast.h"

namespace spec {
using namespace smash;
typedef std::pair<std::array<double, 3>, std::array<double, 3>> Region;

// the smallest box around all positions: lower corner and extent
//@ C08 smash::GridBase::find_min_and_length
Region region(const Particles &all) {
  std::array<double, 3> lo, hi;
  const FourVector x0 = all.front().position();
  for (int i = 0; i < 3; i++) lo[i] = hi[i] = x0[i + 1];
  for (const ParticleData &p : all) {
    const FourVector x = p.position();
    for (int i = 0; i < 3; i++) {
      if (x[i + 1] < lo[i]) lo[i] = x[i + 1];
      if (x[i + 1] > hi[i]) hi[i] = x[i + 1];
    }
  }
  Region r;
  for (int i = 0; i < 3; i++) {
    r.first[i] = lo[i];
    r.second[i] = hi[i] - lo[i];
  }
  return r;
}

//@ C08 smash::Grid<smash::GridOptions::Normal>::make_index sig=int,int,int
int index(const Grid<GridOptions::Normal> &self, int x, int y, int z) {
  return x + self.number_of_cells_[0] * (y + self.number_of_cells_[1] * z);
}
//@ C08 smash::Grid<smash::GridOptions::PeriodicBoundaries>::make_index sig=int,int,int
int index(const Grid<GridOptions::PeriodicBoundaries> &self, int x, int y, int z) {
  return x + self.number_of_cells_[0] * (y + self.number_of_cells_[1] * z);
}
//@ C08 smash::Grid<smash::GridOptions::Normal>::cell_volume
double volume(const Grid<GridOptions::Normal> &self) { return self.cell_volume_; }
//@ C08 smash::Grid<smash::GridOptions::PeriodicBoundaries>::cell_volume
double volume(const Grid<GridOptions::PeriodicBoundaries> &self) { return self.cell_volume_; }

// every cell once, and every pair of neighbouring cells once: the partner is
// the one of the two which comes later
//@ C08 smash::Grid<smash::GridOptions::Normal>::iterate_cells
void cells(const Grid<GridOptions::Normal> &self,
           const std::function<void(const ParticleList &)> &one,
           const std::function<void(const ParticleList &, const ParticleList &)> &two) {
  const int nx = self.number_of_cells_[0], ny = self.number_of_cells_[1], nz = self.number_of_cells_[2];
  for (int z = 0; z < nz; z++)
    for (int y = 0; y < ny; y++)
      for (int x = 0; x < nx; x++) {
        const int here = x + nx * (y + ny * z);
        one(self.cells_[here]);
        for (int k = z; k <= z + 1; k++) {
          if (k >= nz) continue;
          for (int j = y - 1; j <= y + 1; j++) {
            if (j < 0 || j >= ny) continue;
            for (int i = x - 1; i <= x + 1; i++) {
              if (i < 0 || i >= nx) continue;
              const int there = i + nx * (j + ny * k);
              if (there > here) two(self.cells_[here], self.cells_[there]);
            }
          }
        }
      }
}

// the same in a periodic box, where each pair is shown with the searching
// cell moved by the box lengths such that the two lie next to each other
//@ C08 smash::Grid<smash::GridOptions::PeriodicBoundaries>::iterate_cells unroll=1
void cells(const Grid<GridOptions::PeriodicBoundaries> &self,
           const std::function<void(const ParticleList &)> &one,
           const std::function<void(const ParticleList &, const ParticleList &)> &two) {
  const int nx = self.number_of_cells_[0], ny = self.number_of_cells_[1], nz = self.number_of_cells_[2];
  for (int z = 0; z < nz; z++)
    for (int y = 0; y < ny; y++)
      for (int x = 0; x < nx; x++) {
        const int here = x + nx * (y + ny * z);
        one(self.cells_[here]);
        for (int c = 0; c < 2; c++) {
          // the layer itself, then the next one
          int k = z + c, lz = z;
          double wz = 0;
          if (k == nz) {
            k = 0;
            lz = -1;
            wz = -self.length_[2];
          }
          for (int b = 0; b < 3; b++) {
            // the wrapped one comes last
            int j = b == 0 ? y : b == 1 ? (y == 0 ? 1 : y - 1) : (y == 0 ? ny - 1 : y + 1), ly = y;
            double wy = 0;
            if (b == 2 && y == 0) {
              ly = ny;
              wy = self.length_[1];
            } else if (b == 2 && j == ny) {
              j = 0;
              ly = -1;
              wy = -self.length_[1];
            }
            for (int a = 0; a < 3; a++) {
              int i = a == 0 ? x : a == 1 ? (x == 0 ? 1 : x - 1) : (x == 0 ? nx - 1 : x + 1), lx = x;
              double wx = 0;
              if (a == 2 && x == 0) {
                lx = nx;
                wx = self.length_[0];
              } else if (a == 2 && i == nx) {
                i = 0;
                lx = -1;
                wx = -self.length_[0];
              }
              const int there = i + nx * (j + ny * k);
              if (there > lx + nx * (ly + ny * lz)) {
                ParticleList moved = self.cells_[here];
                for (ParticleData &p : moved) p = p.translated(ThreeVector(wx, wy, wz));
                two(moved, self.cells_[there]);
              }
            }
          }
        }
      }
}

struct AGrid {
  std::array<double, 3> length_;
  double cell_volume_;
  std::array<int, 3> number_of_cells_;
  std::vector<ParticleList> cells_;
};

// All (formed, where asked for) particles are in exactly the cell of their position,
// cells are at least as long as the interaction length.
//@ C08 smash::Grid<smash::GridOptions::Normal>::Grid n=7
AGrid open_grid(const Region &where, const Particles &all, double reach, double dt, CellNumberLimitation limit,
                const bool unformed, CellSizeStrategy strategy) {
  AGrid g;
  g.length_ = where.second;
  if (strategy == CellSizeStrategy::Largest) {
    g.number_of_cells_ = {1, 1, 1};
    g.cell_volume_ = where.second[0] * where.second[1] * where.second[2];
    g.cells_.push_back(all.copy_to_vector());
    return g;
  }
  const int most = numeric_cast<int>(std::floor(std::cbrt(static_cast<int>(all.size()))));
  std::array<double, 3> per_length;
  for (int i = 0; i < 3; i++) {
    const double l = where.second[i];
    if (l > std::numeric_limits<int>::max() / (1. / reach)) throw std::overflow_error("grid");
    int n = static_cast<int>(std::floor(l * (1. / reach)));
    if (n == 0)
      n = 1;
    else if (limit == CellNumberLimitation::ParticleNumber && n > most)
      n = most;
    g.number_of_cells_[i] = n;
    double f = 1. / reach;
    if (l >= reach) {
      f = n / l;
      while (f * l >= n) f = std::nextafter(f, 0.);
    }
    per_length[i] = f;
  }
  if (g.number_of_cells_[0] <= 2 && g.number_of_cells_[1] <= 2 && g.number_of_cells_[2] <= 2) {
    g.number_of_cells_ = {1, 1, 1};
    g.cell_volume_ = where.second[0] * where.second[1] * where.second[2];
    if (unformed) {
      g.cells_.push_back(all.copy_to_vector());
    } else {
      g.cells_.resize(1);
      for (const ParticleData &p : all)
        if (p.xsec_scaling_factor(dt) > 0.0) g.cells_[0].push_back(p);
    }
    return g;
  }
  const int nx = g.number_of_cells_[0], ny = g.number_of_cells_[1], nz = g.number_of_cells_[2];
  g.cell_volume_ = where.second[0] / nx * where.second[1] / ny * where.second[2] / nz;
  g.cells_.resize(nx * ny * nz);
  for (const ParticleData &p : all) {
    if (!unformed && p.xsec_scaling_factor(dt) <= 0.0) continue;
    const int x = numeric_cast<int>(std::floor((p.position().x1() - where.first[0]) * per_length[0]));
    const int y = numeric_cast<int>(std::floor((p.position().x2() - where.first[1]) * per_length[1]));
    const int z = numeric_cast<int>(std::floor((p.position().x3() - where.first[2]) * per_length[2]));
    g.cells_[x + nx * (y + ny * z)].push_back(p);
  }
  return g;
}

//@ C08 smash::Grid<smash::GridOptions::PeriodicBoundaries>::Grid n=7 unroll=1
AGrid periodic_grid(const Region &where, const Particles &all, double reach, double dt, CellNumberLimitation limit,
                const bool unformed, CellSizeStrategy strategy) {
  AGrid g;
  g.length_ = where.second;
  const int most = numeric_cast<int>(std::max(2., std::floor(std::cbrt(static_cast<int>(all.size())))));
  std::array<double, 3> per_length;
  for (int i = 0; i < 3; i++) {
    const double l = where.second[i];
    int n = 2;
    if (strategy != CellSizeStrategy::Largest) {
      if (l > std::numeric_limits<int>::max() / (1. / reach)) throw std::overflow_error("grid");
      n = static_cast<int>(std::floor(l * (1. / reach)));
      if (n < 2) throw std::runtime_error("box");
      if (limit == CellNumberLimitation::ParticleNumber && n > most) n = most;
    } else if (limit == CellNumberLimitation::ParticleNumber && most < 2) {
      n = most;
    }
    g.number_of_cells_[i] = n;
    double f = 1. / reach;
    if (l >= reach) {
      f = n / l;
      while (f * l >= n) f = std::nextafter(f, 0.);
    }
    per_length[i] = f;
  }
  const int nx = g.number_of_cells_[0], ny = g.number_of_cells_[1], nz = g.number_of_cells_[2];
  g.cell_volume_ = where.second[0] / nx * where.second[1] / ny * where.second[2] / nz;
  g.cells_.resize(nx * ny * nz);
  for (const ParticleData &p : all) {
    if (!unformed && p.xsec_scaling_factor(dt) <= 0.0) continue;
    const int x = numeric_cast<int>(std::floor((p.position().x1() - where.first[0]) * per_length[0]));
    const int y = numeric_cast<int>(std::floor((p.position().x2() - where.first[1]) * per_length[1]));
    const int z = numeric_cast<int>(std::floor((p.position().x3() - where.first[2]) * per_length[2]));
    g.cells_[x + nx * (y + ny * z)].push_back(p);
  }
  return g;
}
}  // namespace spec
