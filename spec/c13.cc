// Clocks: integer arithmetic in units of 1e-6 fm; an end time; lists of times.
#include "smash/clock.h"

using namespace smash;
namespace spec {

using Int = std::int64_t;
static const Int biggest = std::numeric_limits<Int>::max();
static Int units(double t) {
  return numeric_cast<Int>(std::round(t * 1000000.));
}
static double fm(Int n) { return 0.000001 * n; }

//@ C13 smash::UniformClock::convert sig=double
Int to_units(double x) { return units(x); }
//@ C13 smash::UniformClock::convert sig=long
double from_units(Int x) { return fm(x); }

//@ C13 smash::Clock::operator++
Clock &tick(Clock &self) {
  if (self.counter_ >= biggest - 1)
    throw std::overflow_error("");
  self.counter_ = self.counter_ + 1;
  return self;
}
//@ C13 smash::Clock::operator+= sig=long
Clock &ticks(Clock &self, Int n) {
  if (self.counter_ >= biggest - n)
    throw std::overflow_error("");
  self.counter_ = n + self.counter_;
  return self;
}
//@ C13 smash::UniformClock::operator+= sig=long
Clock &uticks(UniformClock &self, Int n) {
  if (self.counter_ >= biggest - n)
    throw std::overflow_error("");
  self.counter_ = n + self.counter_;
  return self;
}
//@ C13 smash::Clock::operator< sig=Clock
bool earlier(const Clock &self, const Clock &rhs) {
  const double a = self.present_internal_time();
  const double b = rhs.present_internal_time();
  return b > a;
}
//@ C13 smash::Clock::operator< sig=double
bool earlier_than(const Clock &self, double t) {
  return t > self.present_internal_time();
}
//@ C13 smash::Clock::operator> sig=double
bool later_than(const Clock &self, double t) {
  return t < self.present_internal_time();
}

//@ C13 smash::UniformClock::UniformClock n=3
struct Uniform {
  Int counter_, timestep_duration_, reset_time_, time_end_;
};
Uniform uniform(double t, double dt, double end) {
  Uniform r;
  r.timestep_duration_ = units(dt);
  r.reset_time_ = units(t);
  r.time_end_ = units(end);
  r.counter_ = 0;
  if (dt <= 0. || !(r.reset_time_ < r.time_end_))
    throw std::range_error("");
  return r;
}

// time since the last reset plus whole ticks
static Int now(const UniformClock &self) {
  return self.counter_ * self.timestep_duration_ + self.reset_time_;
}
//@ C13 smash::UniformClock::present_internal_time
double internal(const UniformClock &self) { return fm(now(self)); }

// the clock stands still at its end
//@ C13 smash::UniformClock::current_time
double current(const UniformClock &self) {
  if (units(fm(now(self))) <= self.time_end_)
    return fm(now(self));
  return fm(self.time_end_);
}
//@ C13 smash::UniformClock::next_time
double next(const UniformClock &self) {
  if (self.timestep_duration_ * self.counter_ >= biggest - self.timestep_duration_)
    throw std::overflow_error("");
  const Int n = now(self) + self.timestep_duration_;
  return n <= self.time_end_ ? fm(n) : fm(self.time_end_);
}
//@ C13 smash::UniformClock::timestep_duration
double duration(const UniformClock &self) {
  const Int t = units(fm(now(self)));
  if (t > self.time_end_)
    return 0.;
  if (self.time_end_ < t + self.timestep_duration_)
    return fm(self.time_end_ - t);
  return fm(self.timestep_duration_);
}
// changing the step does not move the present
//@ C13 smash::UniformClock::set_timestep_duration
void set_duration(UniformClock &self, double dt) {
  if (dt <= 0.)
    throw std::range_error("");
  self.reset_time_ = now(self);
  self.timestep_duration_ = units(dt);
  self.counter_ = 0;
}
//@ C13 smash::UniformClock::reset
void reset(UniformClock &self, double start, bool output) {
  double to = start;
  if (output) {
    // output times are multiples of the step
    const double dt = fm(self.timestep_duration_);
    to = dt * std::floor(start / dt);
  }
  self.counter_ = 0;
  self.reset_time_ = units(to);
}
//@ C13 smash::UniformClock::remove_times_in_past
void uremove(UniformClock &self, double) {}

//@ C13 smash::CustomClock::CustomClock sig=vector
struct Custom {
  Int counter_;
  std::vector<double> custom_times_;
  double start_time_;
};
Custom custom(std::vector<double> times) {
  Custom r;
  r.counter_ = -1;
  r.start_time_ = 0.;
  std::sort(times.begin(), times.end());
  r.custom_times_ = times;
  return r;
}
//@ C13 smash::CustomClock::current_time
double ccurrent(const CustomClock &self) {
  if (self.counter_ >= 0)
    return self.custom_times_.at(self.counter_);
  if (self.counter_ != -1)
    throw std::runtime_error("");
  return self.start_time_;
}
//@ C13 smash::CustomClock::next_time
double cnext(const CustomClock &self) {
  return self.custom_times_.at(1 + self.counter_);
}
//@ C13 smash::CustomClock::timestep_duration inline=smash::CustomClock::next_time,smash::CustomClock::current_time
double cduration(const CustomClock &self) {
  const double later = cnext(self);
  return later - ccurrent(self);
}
//@ C13 smash::CustomClock::reset
void creset(CustomClock &self, double start, bool) {
  self.start_time_ = start;
  self.counter_ = -1;
}
//@ C13 smash::CustomClock::present_internal_time
double cinternal(const CustomClock &self) { return self.current_time(); }
//@ C13 smash::CustomClock::remove_times_in_past
void cremove(CustomClock &self, double start) {
  auto &ts = self.custom_times_;
  ts.erase(std::remove_if(ts.begin(), ts.end(), [start](double t) { return t <= start; }), ts.end());
}

}  // namespace spec
