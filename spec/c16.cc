// Particle codes: digits n, n_R, n_L, n_q1, n_q2, n_q3, n_J; nuclei 10LZZZAAAI.
#include "smash/pdgcode.h"

using namespace smash;
namespace spec {

static int sign(const PdgCode &self) { return self.digits_.antiparticle_ ? -1 : 1; }
static bool nucleus(const PdgCode &self) { return self.nucleus_.is_nucleus_; }
static bool hadron(const PdgCode &self) {
  return !nucleus(self) && self.digits_.n_q3_ > 0 && self.digits_.n_q2_ > 0;
}
static bool baryon(const PdgCode &self) {
  return hadron(self) && self.digits_.n_q1_ > 0;
}
static bool meson(const PdgCode &self) {
  return hadron(self) && self.digits_.n_q1_ == 0;
}
static int signed_code(const PdgCode &self) {
  return sign(self) * static_cast<int>(self.dump_ & 0x0fffffff);
}

//@ C16 smash::PdgCode::antiparticle_sign
int antiparticle_sign(const PdgCode &self) { return sign(self); }
//@ C16 smash::PdgCode::is_nucleus
bool is_nucleus(const PdgCode &self) { return nucleus(self); }
//@ C16 smash::PdgCode::is_hadron
bool is_hadron(const PdgCode &self) { return hadron(self); }
//@ C16 smash::PdgCode::is_baryon
bool is_baryon(const PdgCode &self) { return baryon(self); }
//@ C16 smash::PdgCode::is_meson
bool is_meson(const PdgCode &self) { return meson(self); }
//@ C16 smash::PdgCode::is_lepton
bool is_lepton(const PdgCode &self) {
  return !nucleus(self) && self.digits_.n_q3_ == 1 && self.digits_.n_q2_ == 0 &&
         self.digits_.n_q1_ == 0;
}
//@ C16 smash::PdgCode::is_neutrino
bool is_neutrino(const PdgCode &self) {
  return self.is_lepton() && !(self.digits_.n_J_ % 2 == 1);
}
//@ C16 smash::PdgCode::is_charmonia
bool is_charmonia(const PdgCode &self) {
  return self.digits_.n_q3_ == 4 && self.digits_.n_q2_ == 4 && meson(self);
}
//@ C16 smash::PdgCode::baryon_number
int baryon_number(const PdgCode &self) {
  if (nucleus(self)) return sign(self) * static_cast<int>(self.nucleus_.A_);
  return baryon(self) ? sign(self) : 0;
}
//@ C16 smash::PdgCode::dump
std::uint32_t dump(const PdgCode &self) { return self.dump_ & 0x8fffffffu; }
//@ C16 smash::PdgCode::ucode
std::uint32_t ucode(const PdgCode &self) { return self.dump_ & 0x0fffffff; }
//@ C16 smash::PdgCode::code
std::int32_t code(const PdgCode &self) { return signed_code(self); }
//@ C16 smash::PdgCode::get_antiparticle
PdgCode get_antiparticle(const PdgCode &self) {
  PdgCode r(self);
  if (self.digits_.antiparticle_)
    r.digits_.antiparticle_ = false;
  else
    r.digits_.antiparticle_ = true;
  return r;
}

//@ C16 smash::PdgCode::is_nucleon
bool is_nucleon(const PdgCode &self) {
  const int c = std::abs(signed_code(self));
  return c == 0x2112 || c == 0x2212;
}
//@ C16 smash::PdgCode::is_proton
bool is_proton(const PdgCode &self) { return std::abs(signed_code(self)) == 0x2212; }
//@ C16 smash::PdgCode::is_neutron
bool is_neutron(const PdgCode &self) { return std::abs(signed_code(self)) == 0x2112; }
//@ C16 smash::PdgCode::is_Nstar1535
bool is_Nstar1535(const PdgCode &self) {
  const int c = std::abs(signed_code(self));
  return c == 0x22112 || c == 0x22212;
}
//@ C16 smash::PdgCode::is_Delta
bool is_Delta(const PdgCode &self) {
  const int c = std::abs(signed_code(self));
  return c == 0x1114 || c == 0x2114 || c == 0x2214 || c == 0x2224;
}
//@ C16 smash::PdgCode::is_hyperon
bool is_hyperon(const PdgCode &self) { return self.digits_.n_q1_ == 3 && hadron(self); }
//@ C16 smash::PdgCode::is_Omega
bool is_Omega(const PdgCode &self) {
  return hadron(self) && self.digits_.n_q1_ == 3 && self.digits_.n_q2_ == 3 &&
         self.digits_.n_q3_ == 3;
}
//@ C16 smash::PdgCode::is_Xi
bool is_Xi(const PdgCode &self) {
  return hadron(self) && self.digits_.n_q1_ == 3 && self.digits_.n_q2_ == 3 &&
         self.digits_.n_q3_ != 3;
}
//@ C16 smash::PdgCode::is_Lambda
bool is_Lambda(const PdgCode &self) {
  return hadron(self) && self.digits_.n_q1_ == 3 && self.digits_.n_q2_ == 1 &&
         self.digits_.n_q3_ == 2;
}
//@ C16 smash::PdgCode::is_Sigma
bool is_Sigma(const PdgCode &self) {
  return hadron(self) && self.digits_.n_q1_ == 3 && self.digits_.n_q2_ != 3 &&
         !(self.digits_.n_q2_ == 1 && self.digits_.n_q3_ == 2);
}
//@ C16 smash::PdgCode::is_Sigmastar
bool is_Sigmastar(const PdgCode &self) {
  const int c = std::abs(signed_code(self));
  return c == 0x3224 || c == 0x3214 || c == 0x3114;
}
//@ C16 smash::PdgCode::is_kaon
bool is_kaon(const PdgCode &self) {
  const int c = std::abs(signed_code(self));
  return c == 0x311 || c == 0x321;
}
//@ C16 smash::PdgCode::is_pion
bool is_pion(const PdgCode &self) {
  const int c = signed_code(self);
  return c == -0x211 || c == 0x111 || c == 0x211;
}
//@ C16 smash::PdgCode::is_omega
bool is_omega(const PdgCode &self) { return signed_code(self) == 0x223; }
//@ C16 smash::PdgCode::is_rho
bool is_rho(const PdgCode &self) {
  const int c = signed_code(self);
  return c == -0x213 || c == 0x113 || c == 0x213;
}
//@ C16 smash::PdgCode::is_deuteron
bool is_deuteron(const PdgCode &self) {
  return nucleus(self) && self.nucleus_.A_ == 2 && self.nucleus_.Z_ == 1 &&
         self.nucleus_.n_Lambda_ == 0 && self.nucleus_.I_ == 0;
}
//@ C16 smash::PdgCode::is_triton
bool is_triton(const PdgCode &self) {
  return nucleus(self) && self.nucleus_.A_ == 3 && self.nucleus_.Z_ == 1 &&
         self.nucleus_.n_Lambda_ == 0 && self.nucleus_.I_ == 0;
}
//@ C16 smash::PdgCode::has_antiparticle
bool has_antiparticle(const PdgCode &self) {
  if (nucleus(self) || baryon(self)) return true;
  if (meson(self)) return self.digits_.n_q3_ != self.digits_.n_q2_;
  return self.digits_.n_q3_ == 1;
}
//@ C16 smash::PdgCode::is_antiparticle_of
bool is_antiparticle_of(const PdgCode &self, const PdgCode o) {
  return signed_code(self) + signed_code(o) == 0;
}

// number of quarks minus antiquarks of a flavour (1..6: d u s c b t)
//@ C16 smash::PdgCode::net_quark_number
int net_quark_number(const PdgCode &self, const int q) {
  if (!(q >= 1 && q <= 6)) throw std::invalid_argument("");
  if (nucleus(self)) {
    const int L = self.nucleus_.n_Lambda_, Z = self.nucleus_.Z_, A = self.nucleus_.A_;
    const int N = A - Z - L;
    if (q == 1) return sign(self) * (Z + 2 * N + L);
    if (q == 2) return sign(self) * (2 * Z + N + L);
    if (q == 3) return sign(self) * L;
    return 0;
  }
  if (!hadron(self)) return 0;
  const int a = self.digits_.n_q1_, b = self.digits_.n_q2_, c = self.digits_.n_q3_;
  if (a != 0) {
    const int n = (a == q ? 1 : 0) + (b == q ? 1 : 0) + (c == q ? 1 : 0);
    return n * sign(self);
  }
  // a meson: the heavier one (written first) is a quark when up-type, an
  // antiquark when down-type; quarkonia have no net flavour
  if (b == c) return 0;
  if (b == q) {
    const bool heavier = q > c;
    const int up = heavier ? q : c;
    const int s = (up % 2 == 0) == heavier ? 1 : -1;
    return s * sign(self);
  }
  if (c == q) {
    const bool heavier = q > b;
    const int up = heavier ? q : b;
    const int s = (up % 2 == 0) == heavier ? 1 : -1;
    return s * sign(self);
  }
  return 0;
}
//@ C16 smash::PdgCode::isospin3
int isospin3(const PdgCode &self) {
  const int u = self.net_quark_number(2);
  return u - self.net_quark_number(1);
}
//@ C16 smash::PdgCode::strangeness
int strangeness(const PdgCode &self) { return 0 - self.net_quark_number(3); }
//@ C16 smash::PdgCode::charmness
int charmness(const PdgCode &self) { return self.net_quark_number(4); }
//@ C16 smash::PdgCode::bottomness
int bottomness(const PdgCode &self) { return 0 - self.net_quark_number(5); }
//@ C16 smash::PdgCode::charge opaque=smash::PdgCode::net_quark_number
int charge(const PdgCode &self) {
  if (hadron(self) || nucleus(self)) {
    const int d = self.net_quark_number(1), u = self.net_quark_number(2),
              s = self.net_quark_number(3), c = self.net_quark_number(4),
              b = self.net_quark_number(5), t = self.net_quark_number(6);
    return (2 * (u + c + t) - (d + s + b)) / 3;
  }
  if (self.digits_.n_q3_ == 1)
    return -static_cast<int>(self.digits_.n_J_ % 2) * sign(self);
  return (self.dump_ & 0xffff) == 0x24 ? sign(self) : 0;
}
static double fraction(const PdgCode &self, int flavour, int net) {
  if (baryon(self)) return std::abs(net) / 3.;
  if (meson(self)) {
    if (static_cast<int>(self.digits_.n_q2_) == flavour &&
        static_cast<int>(self.digits_.n_q3_) == flavour)
      return 1.;
    return std::abs(net) / 2.;
  }
  return 0.;
}
//@ C16 smash::PdgCode::frac_strange
double frac_strange(const PdgCode &self) { return fraction(self, 3, self.strangeness()); }
//@ C16 smash::PdgCode::frac_charm
double frac_charm(const PdgCode &self) { return fraction(self, 4, self.charmness()); }
//@ C16 smash::PdgCode::frac_bottom
double frac_bottom(const PdgCode &self) { return fraction(self, 5, self.bottomness()); }
//@ C16 smash::PdgCode::is_heavy_flavor
bool is_heavy_flavor(const PdgCode &self) {
  return self.frac_bottom() != 0 || self.frac_charm() != 0;
}
//@ C16 smash::PdgCode::spin
unsigned int spin(const PdgCode &self) {
  if (nucleus(self)) {
    const unsigned A = self.nucleus_.A_;
    if (A == 4) return 0;
    if (A == 3) return 1;
    if (A == 2) return 2;
    throw std::runtime_error("");
  }
  if (!hadron(self)) return self.digits_.n_q3_;
  return self.digits_.n_J_ == 0 ? 0 : self.digits_.n_J_ - 1;
}
//@ C16 smash::PdgCode::spin_degeneracy
unsigned int spin_degeneracy(const PdgCode &self) {
  if (self.digits_.n_J_ != 0 && hadron(self)) return self.digits_.n_J_;
  return 1 + self.spin();
}
//@ C16 smash::PdgCode::quarks
std::int32_t quarks(const PdgCode &self) {
  return hadron(self) ? self.chunks_.quarks_ : 0;
}
//@ C16 smash::PdgCode::quark_content
std::array<int, 3> quark_content(const PdgCode &self) {
  const int a = self.digits_.n_q1_, b = self.digits_.n_q2_, c = self.digits_.n_q3_;
  std::array<int, 3> r;
  r[0] = r[1] = r[2] = 0;
  if (baryon(self)) {
    r[0] = sign(self) * a;
    r[1] = sign(self) * b;
    r[2] = sign(self) * c;
  } else if (meson(self)) {
    if (b == c) {
      r[1] = b;
      r[2] = -c;
    } else {
      const int s = (b % 2 == 1 ? -1 : 1) * sign(self);
      r[1] = s * b;
      r[2] = -s * c;
    }
  }
  return r;
}
//@ C16 smash::PdgCode::contains_enough_valence_quarks
bool enough(const PdgCode &self, int n) {
  if (meson(self)) return n == 1 || n == -1;
  if (baryon(self)) return n == sign(self) || n == 2 * sign(self);
  throw std::runtime_error("");
}
//@ C16 smash::PdgCode::operator==
bool equal(const PdgCode &self, const PdgCode o) { return o.dump_ == self.dump_; }
//@ C16 smash::PdgCode::operator!=
bool unequal(const PdgCode &self, const PdgCode o) { return o.dump_ != self.dump_; }
//@ C16 smash::PdgCode::operator<
bool less(const PdgCode &self, const PdgCode o) { return o.dump_ > self.dump_; }

//@ C16 smash::PdgCode::get_decimal
std::int32_t get_decimal(const PdgCode &self) {
  if (nucleus(self)) {
    std::int32_t n = 100 + self.nucleus_.n_Lambda_;
    n = n * 1000 + self.nucleus_.Z_;
    n = n * 1000 + self.nucleus_.A_;
    return sign(self) * (n * 10 + static_cast<int>(self.nucleus_.I_));
  }
  const int J = self.digits_.n_J_;
  const int last = J <= 9 ? J : 9, first = J <= 9 ? 0 : J - 9;
  int n = first;
  n = n * 10 + self.digits_.n_;
  n = n * 10 + self.digits_.n_R_;
  n = n * 10 + self.digits_.n_L_;
  n = n * 10 + self.digits_.n_q1_;
  n = n * 10 + self.digits_.n_q2_;
  n = n * 10 + self.digits_.n_q3_;
  n = n * 10 + last;
  return sign(self) * n;
}
//@ C16 smash::PdgCode::from_decimal
PdgCode from_decimal(const int n) {
  if (std::abs(n) > 10000000) return PdgCode(std::to_string(n));
  int left = n, code = 0, place = 1;
  while (left != 0) {
    const int digit = left % 10;
    left /= 10;
    code = code + digit * place;
    place = place * 16;
  }
  return PdgCode(code);
}
//@ C16 smash::PdgCode::deexcite
void deexcite(PdgCode &self) {
  if (nucleus(self))
    self.nucleus_.I_ = 0;
  else
    self.chunks_.excitation_ = 0;
}
//@ C16 smash::PdgCode::test_code
int test_code(const PdgCode &self) {
  int r = 0;
  if (self.digits_.n_J_ > 15) r += 1;
  if (self.digits_.n_q3_ > 6) r += 2;
  if (self.digits_.n_q2_ > 6) r += 4;
  if (self.digits_.n_q1_ > 6) r += 8;
  if (self.digits_.n_L_ > 9) r += 16;
  if (self.digits_.n_R_ > 9) r += 32;
  if (self.digits_.n_ > 9) r += 64;
  return r;
}
//@ C16 smash::PdgCode::check
void check(const PdgCode &self) {
  const unsigned J = self.digits_.n_J_;
  const std::uint32_t d = self.dump_ & 0x8fffffffu;
  if (baryon(self)) {
    if (J % 2 == 1 || J == 0) throw PdgCode::InvalidPdgCode("");
  } else if (meson(self)) {
    if (J % 2 == 0 && d != 0x130 && d != 0x310) throw PdgCode::InvalidPdgCode("");
  } else if (J == 0 && d != 0) {
    throw PdgCode::InvalidPdgCode("");
  }
  if (self.digits_.antiparticle_ && !self.has_antiparticle())
    throw PdgCode::InvalidPdgCode("");
}
//@ C16 smash::PdgCode::get_digit_from_char
std::uint32_t digit(const PdgCode &self, const char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  throw PdgCode::InvalidPdgCode("");
}
//@ C16 smash::PdgCode::set_fields
void set_fields(PdgCode &self, std::uint32_t code) {
  const bool anti = self.digits_.antiparticle_;
  self.dump_ = code & 0x0fffffff;
  self.digits_.antiparticle_ = anti;
  if (self.test_code() > 0) throw PdgCode::InvalidPdgCode("");
  self.check();
}

//@ C16 smash::PdgCode::nucleus_p
int nucleus_p(const PdgCode &self) {
  if (!nucleus(self) || self.nucleus_.antiparticle_) return 0;
  return self.nucleus_.Z_;
}
//@ C16 smash::PdgCode::nucleus_n
int nucleus_n(const PdgCode &self) {
  if (!nucleus(self) || self.nucleus_.antiparticle_) return 0;
  return self.nucleus_.A_ - self.nucleus_.Z_ - self.nucleus_.n_Lambda_;
}
//@ C16 smash::PdgCode::nucleus_La
int nucleus_La(const PdgCode &self) {
  if (!nucleus(self) || self.nucleus_.antiparticle_) return 0;
  return self.nucleus_.n_Lambda_;
}
//@ C16 smash::PdgCode::nucleus_ap
int nucleus_ap(const PdgCode &self) {
  if (!nucleus(self) || !self.nucleus_.antiparticle_) return 0;
  return self.nucleus_.Z_;
}
//@ C16 smash::PdgCode::nucleus_an
int nucleus_an(const PdgCode &self) {
  if (!nucleus(self) || !self.nucleus_.antiparticle_) return 0;
  return self.nucleus_.A_ - self.nucleus_.Z_ - self.nucleus_.n_Lambda_;
}
//@ C16 smash::PdgCode::nucleus_aLa
int nucleus_aLa(const PdgCode &self) {
  if (!nucleus(self) || !self.nucleus_.antiparticle_) return 0;
  return self.nucleus_.n_Lambda_;
}
//@ C16 smash::PdgCode::nucleus_A
int nucleus_A(const PdgCode &self) { return nucleus(self) ? self.nucleus_.A_ : 0; }

//@ C16 smash::is_dilepton
bool is_dilepton(const PdgCode a, const PdgCode b) {
  const int x = a.code(), y = b.code();
  // e+ e-, mu+ mu-, or an electron with its neutrino
  auto pair = [](int p, int m) {
    return (p == 0x11 && m == -0x11) || (p == 0x13 && m == -0x13) ||
           (p == 0x12 && m == -0x11) || (p == 0x11 && m == -0x12);
  };
  return pair(x, y) || pair(y, x);
}
//@ C16 smash::has_lepton_pair
bool has_lepton_pair(const PdgCode a, const PdgCode b, const PdgCode c) {
  return smash::is_dilepton(b, c) || smash::is_dilepton(a, c) ||
         smash::is_dilepton(a, b);
}

}  // namespace spec
