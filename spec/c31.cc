// C31: the names of options and the values they stand for
#include "smash/configuration.h"
#include "smash/stringify.h"
namespace spec {
using namespace smash;
using Wrong = Configuration::IncorrectTypeInAssignment;
//@ C31 smash::Configuration::Value::operator bitset ret=10
ReactionsBitSet toReactionsBitSet(const Configuration::Value &self) {
  const std::vector<std::string> names = self.operator std::vector<std::string>();
  ReactionsBitSet s;
  for (const std::string &n : names) {
    if (n == "All") {
      s.set();
      break;
    }
    if (false) {}
    else if (n == "Elastic") s.set(IncludedReactions::Elastic);
    else if (n == "NN_to_NR") s.set(IncludedReactions::NN_to_NR);
    else if (n == "NN_to_DR") s.set(IncludedReactions::NN_to_DR);
    else if (n == "KN_to_KN") s.set(IncludedReactions::KN_to_KN);
    else if (n == "KN_to_KDelta") s.set(IncludedReactions::KN_to_KDelta);
    else if (n == "Strangeness_exchange") s.set(IncludedReactions::Strangeness_exchange);
    else if (n == "NNbar") s.set(IncludedReactions::NNbar);
    else if (n == "PiDeuteron_to_NN") s.set(IncludedReactions::PiDeuteron_to_NN);
    else if (n == "PiDeuteron_to_pidprime") s.set(IncludedReactions::PiDeuteron_to_pidprime);
    else if (n == "NDeuteron_to_Ndprime") s.set(IncludedReactions::NDeuteron_to_Ndprime);
    else throw Wrong("name");
  }
  return s;
}
//@ C31 smash::Configuration::Value::operator bitset ret=4
MultiParticleReactionsBitSet toMultiParticleReactionsBitSet(const Configuration::Value &self) {
  const std::vector<std::string> names = self.operator std::vector<std::string>();
  MultiParticleReactionsBitSet s;
  for (const std::string &n : names) {
    if (n == "All") {
      s.set();
      break;
    }
    if (false) {}
    else if (n == "Meson_3to1") s.set(IncludedMultiParticleReactions::Meson_3to1);
    else if (n == "Deuteron_3to2") s.set(IncludedMultiParticleReactions::Deuteron_3to2);
    else if (n == "NNbar_5to2") s.set(IncludedMultiParticleReactions::NNbar_5to2);
    else if (n == "A3_Nuclei_4to2") s.set(IncludedMultiParticleReactions::A3_Nuclei_4to2);
    else throw Wrong("name");
  }
  return s;
}
//@ C31 smash::Configuration::Value::operator smash::CalculationFrame
CalculationFrame toCalculationFrame(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "center of velocity") return CalculationFrame::CenterOfVelocity;
  if (s == "center of mass") return CalculationFrame::CenterOfMass;
  if (s == "fixed target") return CalculationFrame::FixedTarget;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=CalculationFrame
std::string fromCalculationFrame(CalculationFrame x) {
  if (x == CalculationFrame::CenterOfVelocity) return "center of velocity";
  if (x == CalculationFrame::CenterOfMass) return "center of mass";
  if (x == CalculationFrame::FixedTarget) return "fixed target";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::FermiMotion
FermiMotion toFermiMotion(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "off") return FermiMotion::Off;
  if (s == "on") return FermiMotion::On;
  if (s == "frozen") return FermiMotion::Frozen;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=FermiMotion
std::string fromFermiMotion(FermiMotion x) {
  if (x == FermiMotion::Off) return "off";
  if (x == FermiMotion::On) return "on";
  if (x == FermiMotion::Frozen) return "frozen";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::DensityType
DensityType toDensityType(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "hadron") return DensityType::Hadron;
  if (s == "baryon") return DensityType::Baryon;
  if (s == "baryonic isospin") return DensityType::BaryonicIsospin;
  if (s == "pion") return DensityType::Pion;
  if (s == "total isospin") return DensityType::Isospin3_tot;
  if (s == "none") return DensityType::None;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=DensityType
std::string fromDensityType(DensityType x) {
  if (x == DensityType::Hadron) return "hadron";
  if (x == DensityType::Baryon) return "baryon";
  if (x == DensityType::BaryonicIsospin) return "baryonic isospin";
  if (x == DensityType::Pion) return "pion";
  if (x == DensityType::Isospin3_tot) return "total isospin";
  if (x == DensityType::None) return "none";
  if (x == DensityType::Charge) return "charge";
  if (x == DensityType::Strangeness) return "strangeness";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::ExpansionMode
ExpansionMode toExpansionMode(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "NoExpansion") return ExpansionMode::NoExpansion;
  if (s == "MasslessFRW") return ExpansionMode::MasslessFRW;
  if (s == "MassiveFRW") return ExpansionMode::MassiveFRW;
  if (s == "Exponential") return ExpansionMode::Exponential;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=ExpansionMode
std::string fromExpansionMode(ExpansionMode x) {
  if (x == ExpansionMode::NoExpansion) return "NoExpansion";
  if (x == ExpansionMode::MasslessFRW) return "MasslessFRW";
  if (x == ExpansionMode::MassiveFRW) return "MassiveFRW";
  if (x == ExpansionMode::Exponential) return "Exponential";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::DerivativesMode
DerivativesMode toDerivativesMode(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "Covariant Gaussian") return DerivativesMode::CovariantGaussian;
  if (s == "Finite difference") return DerivativesMode::FiniteDifference;
  if (s == "Off") return DerivativesMode::Off;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=DerivativesMode
std::string fromDerivativesMode(DerivativesMode x) {
  if (x == DerivativesMode::CovariantGaussian) return "Covariant Gaussian";
  if (x == DerivativesMode::FiniteDifference) return "Finite difference";
  if (x == DerivativesMode::Off) return "Off";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::FieldDerivativesMode
FieldDerivativesMode toFieldDerivativesMode(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "Chain Rule") return FieldDerivativesMode::ChainRule;
  if (s == "Direct") return FieldDerivativesMode::Direct;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=FieldDerivativesMode
std::string fromFieldDerivativesMode(FieldDerivativesMode x) {
  if (x == FieldDerivativesMode::ChainRule) return "Chain Rule";
  if (x == FieldDerivativesMode::Direct) return "Direct";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::SmearingMode
SmearingMode toSmearingMode(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "Covariant Gaussian") return SmearingMode::CovariantGaussian;
  if (s == "Discrete") return SmearingMode::Discrete;
  if (s == "Triangular") return SmearingMode::Triangular;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=SmearingMode
std::string fromSmearingMode(SmearingMode x) {
  if (x == SmearingMode::CovariantGaussian) return "Covariant Gaussian";
  if (x == SmearingMode::Discrete) return "Discrete";
  if (x == SmearingMode::Triangular) return "Triangular";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::TimeStepMode
TimeStepMode toTimeStepMode(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "None") return TimeStepMode::None;
  if (s == "Fixed") return TimeStepMode::Fixed;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=TimeStepMode
std::string fromTimeStepMode(TimeStepMode x) {
  if (x == TimeStepMode::None) return "None";
  if (x == TimeStepMode::Fixed) return "Fixed";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::BoxInitialCondition
BoxInitialCondition toBoxInitialCondition(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "thermal momenta") return BoxInitialCondition::ThermalMomentaBoltzmann;
  if (s == "thermal momenta quantum") return BoxInitialCondition::ThermalMomentaQuantum;
  if (s == "peaked momenta") return BoxInitialCondition::PeakedMomenta;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=BoxInitialCondition
std::string fromBoxInitialCondition(BoxInitialCondition x) {
  if (x == BoxInitialCondition::ThermalMomentaBoltzmann) return "thermal momenta";
  if (x == BoxInitialCondition::ThermalMomentaQuantum) return "thermal momenta quantum";
  if (x == BoxInitialCondition::PeakedMomenta) return "peaked momenta";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::SphereInitialCondition
SphereInitialCondition toSphereInitialCondition(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "thermal momenta") return SphereInitialCondition::ThermalMomentaBoltzmann;
  if (s == "thermal momenta quantum") return SphereInitialCondition::ThermalMomentaQuantum;
  if (s == "IC_ES") return SphereInitialCondition::IC_ES;
  if (s == "IC_1M") return SphereInitialCondition::IC_1M;
  if (s == "IC_2M") return SphereInitialCondition::IC_2M;
  if (s == "IC_Massive") return SphereInitialCondition::IC_Massive;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=SphereInitialCondition
std::string fromSphereInitialCondition(SphereInitialCondition x) {
  if (x == SphereInitialCondition::ThermalMomentaBoltzmann) return "thermal momenta";
  if (x == SphereInitialCondition::ThermalMomentaQuantum) return "thermal momenta quantum";
  if (x == SphereInitialCondition::IC_ES) return "IC_ES";
  if (x == SphereInitialCondition::IC_1M) return "IC_1M";
  if (x == SphereInitialCondition::IC_2M) return "IC_2M";
  if (x == SphereInitialCondition::IC_Massive) return "IC_Massive";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::NNbarTreatment
NNbarTreatment toNNbarTreatment(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "no annihilation") return NNbarTreatment::NoAnnihilation;
  if (s == "resonances") return NNbarTreatment::Resonances;
  if (s == "two to five") return NNbarTreatment::TwoToFive;
  if (s == "strings") return NNbarTreatment::Strings;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=NNbarTreatment
std::string fromNNbarTreatment(NNbarTreatment x) {
  if (x == NNbarTreatment::NoAnnihilation) return "no annihilation";
  if (x == NNbarTreatment::Resonances) return "resonances";
  if (x == NNbarTreatment::TwoToFive) return "two to five";
  if (x == NNbarTreatment::Strings) return "strings";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::Sampling
Sampling toSampling(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "quadratic") return Sampling::Quadratic;
  if (s == "custom") return Sampling::Custom;
  if (s == "uniform") return Sampling::Uniform;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=Sampling
std::string fromSampling(Sampling x) {
  if (x == Sampling::Quadratic) return "quadratic";
  if (x == Sampling::Custom) return "custom";
  if (x == Sampling::Uniform) return "uniform";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::ThermalizationAlgorithm
ThermalizationAlgorithm toThermalizationAlgorithm(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "mode sampling") return ThermalizationAlgorithm::ModeSampling;
  if (s == "biased BF") return ThermalizationAlgorithm::BiasedBF;
  if (s == "unbiased BF") return ThermalizationAlgorithm::UnbiasedBF;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=ThermalizationAlgorithm
std::string fromThermalizationAlgorithm(ThermalizationAlgorithm x) {
  if (x == ThermalizationAlgorithm::ModeSampling) return "mode sampling";
  if (x == ThermalizationAlgorithm::BiasedBF) return "biased BF";
  if (x == ThermalizationAlgorithm::UnbiasedBF) return "unbiased BF";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::CollisionCriterion
CollisionCriterion toCollisionCriterion(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "Geometric") return CollisionCriterion::Geometric;
  if (s == "Stochastic") return CollisionCriterion::Stochastic;
  if (s == "Covariant") return CollisionCriterion::Covariant;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=CollisionCriterion
std::string fromCollisionCriterion(CollisionCriterion x) {
  if (x == CollisionCriterion::Geometric) return "Geometric";
  if (x == CollisionCriterion::Stochastic) return "Stochastic";
  if (x == CollisionCriterion::Covariant) return "Covariant";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::SpinInteractionType
SpinInteractionType toSpinInteractionType(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "On") return SpinInteractionType::On;
  if (s == "Off") return SpinInteractionType::Off;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=SpinInteractionType
std::string fromSpinInteractionType(SpinInteractionType x) {
  if (x == SpinInteractionType::On) return "On";
  if (x == SpinInteractionType::Off) return "Off";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::TotalCrossSectionStrategy
TotalCrossSectionStrategy toTotalCrossSectionStrategy(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "BottomUp") return TotalCrossSectionStrategy::BottomUp;
  if (s == "TopDown") return TotalCrossSectionStrategy::TopDown;
  if (s == "TopDownMeasured") return TotalCrossSectionStrategy::TopDownMeasured;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=TotalCrossSectionStrategy
std::string fromTotalCrossSectionStrategy(TotalCrossSectionStrategy x) {
  if (x == TotalCrossSectionStrategy::BottomUp) return "BottomUp";
  if (x == TotalCrossSectionStrategy::TopDown) return "TopDown";
  if (x == TotalCrossSectionStrategy::TopDownMeasured) return "TopDownMeasured";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::PseudoResonance
PseudoResonance toPseudoResonance(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "None") return PseudoResonance::None;
  if (s == "Largest") return PseudoResonance::Largest;
  if (s == "Closest") return PseudoResonance::Closest;
  if (s == "LargestFromUnstable") return PseudoResonance::LargestFromUnstable;
  if (s == "ClosestFromUnstable") return PseudoResonance::ClosestFromUnstable;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=PseudoResonance
std::string fromPseudoResonance(PseudoResonance x) {
  if (x == PseudoResonance::None) return "None";
  if (x == PseudoResonance::Largest) return "Largest";
  if (x == PseudoResonance::Closest) return "Closest";
  if (x == PseudoResonance::LargestFromUnstable) return "LargestFromUnstable";
  if (x == PseudoResonance::ClosestFromUnstable) return "ClosestFromUnstable";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::FluidizationType
FluidizationType toFluidizationType(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "Constant_Tau") return FluidizationType::ConstantTau;
  if (s == "Dynamic") return FluidizationType::Dynamic;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=FluidizationType
std::string fromFluidizationType(FluidizationType x) {
  if (x == FluidizationType::ConstantTau) return "Constant_Tau";
  if (x == FluidizationType::Dynamic) return "Dynamic";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator smash::OutputOnlyFinal
OutputOnlyFinal toOutputOnlyFinal(const Configuration::Value &self) {
  const std::string s = self.operator std::string();
  if (s == "Yes") return OutputOnlyFinal::Yes;
  if (s == "No") return OutputOnlyFinal::No;
  if (s == "IfNotEmpty") return OutputOnlyFinal::IfNotEmpty;
  throw Wrong("name");
}
//@ C31 smash::to_string sig=OutputOnlyFinal
std::string fromOutputOnlyFinal(OutputOnlyFinal x) {
  if (x == OutputOnlyFinal::Yes) return "Yes";
  if (x == OutputOnlyFinal::No) return "No";
  if (x == OutputOnlyFinal::IfNotEmpty) return "IfNotEmpty";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::Configuration::Value::operator bitset ret=5
FluidizableProcessesBitSet toFluidizableProcessesBitSet(const Configuration::Value &self) {
  const std::vector<std::string> names = self.operator std::vector<std::string>();
  FluidizableProcessesBitSet s;
  for (const std::string &n : names) {
    if (n == "All") {
      s.set();
      break;
    }
    if (false) {}
    else if (n == "Elastic") s.set(IncludedFluidizableProcesses::From_Elastic);
    else if (n == "Decay") s.set(IncludedFluidizableProcesses::From_Decay);
    else if (n == "Inelastic") s.set(IncludedFluidizableProcesses::From_Inelastic);
    else if (n == "SoftString") s.set(IncludedFluidizableProcesses::From_SoftString);
    else if (n == "HardString") s.set(IncludedFluidizableProcesses::From_HardString);
    else throw Wrong("name");
  }
  return s;
}
//@ C31 smash::Configuration::Value::operator set
std::set<ThermodynamicQuantity> quantities(const Configuration::Value &self) {
  const std::vector<std::string> names = self.operator std::vector<std::string>();
  std::set<ThermodynamicQuantity> s;
  for (const std::string &n : names) {
    if (n == "rho_eckart") s.insert(ThermodynamicQuantity::EckartDensity);
    else if (n == "tmn") s.insert(ThermodynamicQuantity::Tmn);
    else if (n == "tmn_landau") s.insert(ThermodynamicQuantity::TmnLandau);
    else if (n == "landau_velocity") s.insert(ThermodynamicQuantity::LandauVelocity);
    else if (n == "j_QBS") s.insert(ThermodynamicQuantity::j_QBS);
    else throw Wrong("name");
  }
  return s;
}
//@ C31 smash::to_string sig=ThermodynamicQuantity
std::string fromThermodynamicQuantity(ThermodynamicQuantity q) {
  if (q == ThermodynamicQuantity::EckartDensity) return "rho_eckart";
  if (q == ThermodynamicQuantity::Tmn) return "tmn";
  if (q == ThermodynamicQuantity::TmnLandau) return "tmn_landau";
  if (q == ThermodynamicQuantity::LandauVelocity) return "landau_velocity";
  if (q == ThermodynamicQuantity::j_QBS) return "j_QBS";
  throw std::invalid_argument("unknown");
}
//@ C31 smash::to_string sig=LogLevel
std::string fromLevel(einhard::LogLevel l) {
  const einhard::LogLevel levels[8] = {einhard::LogLevel::ALL, einhard::LogLevel::TRACE, einhard::LogLevel::DEBUG,
                                       einhard::LogLevel::INFO, einhard::LogLevel::WARN, einhard::LogLevel::ERROR,
                                       einhard::LogLevel::FATAL, einhard::LogLevel::OFF};
  const char *names[8] = {"ALL", "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL", "OFF"};
  for (int i = 0; i < 8; i++)
    if (l == levels[i]) return names[i];
  throw std::invalid_argument("unknown");
}
//@ C31 smash::to_string sig=bitset<10
std::vector<std::string> fromReactions(const ReactionsBitSet &s) {
  std::vector<std::string> r;
  if (s.test(IncludedReactions::Elastic)) r.push_back("Elastic");
  if (s.test(IncludedReactions::NN_to_NR)) r.push_back("NN_to_NR");
  if (s.test(IncludedReactions::NN_to_DR)) r.push_back("NN_to_DR");
  if (s.test(IncludedReactions::KN_to_KN)) r.push_back("KN_to_KN");
  if (s.test(IncludedReactions::KN_to_KDelta)) r.push_back("KN_to_KDelta");
  if (s.test(IncludedReactions::Strangeness_exchange)) r.push_back("Strangeness_exchange");
  if (s.test(IncludedReactions::NNbar)) r.push_back("NNbar");
  if (s.test(IncludedReactions::PiDeuteron_to_NN)) r.push_back("PiDeuteron_to_NN");
  if (s.test(IncludedReactions::PiDeuteron_to_pidprime)) r.push_back("PiDeuteron_to_pidprime");
  if (s.test(IncludedReactions::NDeuteron_to_Ndprime)) r.push_back("NDeuteron_to_Ndprime");
  return r;
}
//@ C31 smash::to_string sig=bitset<4
std::vector<std::string> fromMulti(const MultiParticleReactionsBitSet &s) {
  std::vector<std::string> r;
  if (s.test(IncludedMultiParticleReactions::Meson_3to1)) r.push_back("Meson_3to1");
  if (s.test(IncludedMultiParticleReactions::Deuteron_3to2)) r.push_back("Deuteron_3to2");
  if (s.test(IncludedMultiParticleReactions::NNbar_5to2)) r.push_back("NNbar_5to2");
  if (s.test(IncludedMultiParticleReactions::A3_Nuclei_4to2)) r.push_back("A3_Nuclei_4to2");
  return r;
}
//@ C31 smash::to_string sig=bitset<5
std::vector<std::string> fromFluid(const FluidizableProcessesBitSet &s) {
  std::vector<std::string> r;
  if (s.test(IncludedFluidizableProcesses::From_Elastic)) r.push_back("Elastic");
  if (s.test(IncludedFluidizableProcesses::From_Decay)) r.push_back("Decay");
  if (s.test(IncludedFluidizableProcesses::From_Inelastic)) r.push_back("Inelastic");
  if (s.test(IncludedFluidizableProcesses::From_SoftString)) r.push_back("SoftString");
  if (s.test(IncludedFluidizableProcesses::From_HardString)) r.push_back("HardString");
  return r;
}
}  // namespace spec
