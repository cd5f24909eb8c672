// Declarations-only stand-in for the parts of Pythia 8 that SMASH names; it
// only lets the extractor type-check SMASH's own sources (nothing is linked).
#ifndef VERIF_STUB_PYTHIA_H
#define VERIF_STUB_PYTHIA_H
#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#define PYTHIA_VERSION 8.316
#define PYTHIA_VERSION_INTEGER 8316
namespace Pythia8 {
class RndmEngine { public: virtual ~RndmEngine() {} virtual double flat() { return 1; } };
class Vec4 {
 public:
  Vec4(double x = 0., double y = 0., double z = 0., double t = 0.);
  double px() const; double py() const; double pz() const; double e() const;
  double mCalc() const; double m2Calc() const; double pAbs() const; double pT() const;
  void bst(double, double, double); void rot(double, double);
  void reset();
  Vec4 operator-() const;
  Vec4 &operator+=(const Vec4 &); Vec4 &operator-=(const Vec4 &);
  Vec4 &operator*=(double); Vec4 &operator/=(double);
  friend Vec4 operator+(const Vec4 &, const Vec4 &);
  friend Vec4 operator-(const Vec4 &, const Vec4 &);
  friend Vec4 operator*(double, const Vec4 &);
  friend Vec4 operator*(const Vec4 &, double);
  friend double operator*(const Vec4 &, const Vec4 &);
  double &operator[](int);
};
class RotBstMatrix { public: RotBstMatrix(); void bst(double,double,double); void bst(const Vec4&, const Vec4&); void rot(double,double); };
class Particle {
 public:
  int id() const; int status() const; int col() const; int acol() const;
  double px() const; double py() const; double pz() const; double e() const; double m() const;
  Vec4 p() const; bool isQuark() const; bool isGluon() const; bool isDiquark() const; bool isParton() const; bool isHadron() const; bool isFinal() const;
  void id(int); void status(int); void col(int); void acol(int); void cols(int,int);
  void p(Vec4); void px(double); void py(double); void pz(double); void e(double); void m(double);
  void statusNeg(); double tau() const; bool hasVertex() const; double eCalc() const; double mCalc() const;
  double pAbs() const; double pAbs2() const; double y() const; double y(double) const; double y(double, RotBstMatrix&) const; double pT() const; double phi() const; double theta() const; int colType() const; int chargeType() const;
  int mother1() const; int mother2() const;
};
class ParticleData;
class Event {
 public:
  Event();
  int size() const; Particle &operator[](int); const Particle &operator[](int) const;
  int append(int, int, int, int, double, double, double, double, double m = 0.);
  int append(int, int, int, int, Vec4, double m = 0.);
  int append(Particle);
  void init(std::string, void *, int s = 100);
  void listJunctions() const; void eraseJunction(int); void clearJunctions(); int sizeJunction() const; int kindJunction(int) const; int colJunction(int,int) const; int appendJunction(int,int,int,int); void colJunction(int,int,int); int endColJunction(int,int) const; int statusJunction(int) const;
  void reset(); void clear(); void list() const; void remove(int, int);
};
class Rndm { public: void init(int); bool rndmEnginePtr(RndmEngine *); double flat(); };
class Settings {
 public:
  bool flag(std::string); int mode(std::string); double parm(std::string); std::string word(std::string);
  void flag(std::string, bool); void mode(std::string, int); void parm(std::string, double);
};
class ParticleDataEntry { public: double mMin() const; };
class ParticleData {
 public:
  int baryonNumberType(int); bool isBaryon(int); bool isMeson(int); int spinType(int); int antiId(int);
  void m0(int,double); double mWidth(int); void mWidth(int,double); bool isOctetHadron(int); int nQuarksInCode(int,int); bool isHadron(int); bool isLepton(int); bool isGluon(int); bool isQuark(int);
  double m0(int); int colType(int); int chargeType(int); bool isParticle(int); std::string name(int);
  double mSel(int); double mMin(int); bool isDiquark(int);
};
class SigmaTotal;
class StringFlav;
class Info { public: Rndm *rndmPtr; Settings *settingsPtr; ParticleData *particleDataPtr; void list() const; };
class StringInteractions;
class HadronLevel;
class StringPT { public: void init(); std::pair<double, double> pxy(int, double n = 0.); };
class StringZ { public: void init(); double zFrag(int, int, double); };
class FlavContainer {
 public:
  FlavContainer(int idIn = 0, int rankIn = 0, int nPopIn = 0, int idPopIn = 0, int idVtxIn = 0);
  FlavContainer &operator=(const FlavContainer &);
  FlavContainer(const FlavContainer &);
  FlavContainer &anti(const FlavContainer &);
  int id, rank, nPop, idPop, idVtx;
};
class StringFlav {
 public:
  StringFlav();
  void init();
  FlavContainer pick(FlavContainer &, double pT = -1.0, double kappaModifier = -1.0, bool allowPop = true);
  int combine(FlavContainer &, FlavContainer &);
  int combineId(int, int, bool keepTrying = true);
  void initInfoPtr(Info &);
};
class SigmaTotal { public: SigmaTotal(); void init(); bool calc(int, int, double); double sigmaXX() const; double sigmaAX() const; double sigmaXB() const; double sigmaTot() const; double sigmaEl() const; double sigmaND() const; void initInfoPtr(Info &); };
class Pythia {
 public:
  Pythia(std::string, bool b = true);
  bool readString(std::string, bool w = true);
  bool init(); bool next(); bool forceHadronLevel(bool f = true); void stat();
  double parm(std::string); int mode(std::string); bool flag(std::string);
  bool moreDecays(); bool setRndmEnginePtr(RndmEngine *); bool setRndmEnginePtr(std::shared_ptr<RndmEngine>);
  bool setBeamIDs(int,int,int i=0); bool setKinematics(double,double); bool setKinematics(double);
  Event event, process; Settings settings; ParticleData particleData; Rndm rndm; const Info info;
};
}  // namespace Pythia8
#endif
