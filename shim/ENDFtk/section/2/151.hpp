// Stand-in for njoy/ENDFtk (not installed here): MF2 MT151 records as plain data.
#ifndef VERIF_SHIM_ENDFTK
#define VERIF_SHIM_ENDFTK
#include <optional>
#include <utility>
#include <variant>
#include <vector>

namespace njoy {

struct Log {
  template< typename... Args > static void error( Args&&... ) {}
  template< typename... Args > static void info( Args&&... ) {}
  template< typename... Args > static void warning( Args&&... ) {}
};

namespace ENDFtk { namespace section {

#define GET( NAME, FIELD ) decltype(auto) NAME() const { return ( this->FIELD ); }

struct LongSum {};   // the range type a resonance would carry in ENDFtk

struct TAB1 {
  std::vector< std::pair< std::vector< double >, std::vector< double > > > regions_;
  std::vector< long > interpolants_;
  GET( regions, regions_ ) GET( interpolants, interpolants_ )
};

struct BWLValue {
  double awri, qx; int l; bool lrx;
  template< typename Range > struct Resonance {
    double er, aj, gt, gn, gg, gf;
    GET( ER, er ) GET( AJ, aj ) GET( GT, gt ) GET( GN, gn ) GET( GG, gg ) GET( GF, gf )
    GET( resonanceEnergy, er ) GET( spin, aj ) GET( neutronWidth, gn ) GET( gammaWidth, gg ) GET( fissionWidth, gf )
    double GX() const { return gt - gn - gg - gf; }
    double competitiveWidth() const { return GX(); }
  };
  std::vector< Resonance< LongSum > > resonances_;
  GET( AWRI, awri ) GET( QX, qx ) GET( L, l ) GET( LRX, lrx ) GET( competitiveWidthFlag, lrx )
  GET( atomicWeightRatio, awri ) GET( orbitalMomentum, l ) GET( resonances, resonances_ )
  std::vector< double > spinValues() const { std::vector< double > r; for ( auto& x : resonances_ ) r.push_back( x.aj ); return r; }
};
template< typename L > struct Levels {
  using LValue = L;
  double spi, ap; std::vector< L > lvalues_;
  GET( SPI, spi ) GET( AP, ap ) GET( spin, spi ) GET( scatteringRadius, ap ) GET( lValues, lvalues_ )
  unsigned int numberLValues() const { return lvalues_.size(); }
  unsigned int NLS() const { return lvalues_.size(); }
};
struct SLBW : Levels< BWLValue > {};
struct MLBW : Levels< BWLValue > {};

struct RMLValue {
  double awri, apl; int l;
  template< typename Range > struct Resonance {
    double er, aj, gn, gg, gfa, gfb;
    GET( ER, er ) GET( AJ, aj ) GET( GN, gn ) GET( GG, gg ) GET( GFA, gfa ) GET( GFB, gfb )
    GET( resonanceEnergy, er ) GET( spin, aj ) GET( neutronWidth, gn ) GET( gammaWidth, gg )
    GET( firstFissionWidth, gfa ) GET( secondFissionWidth, gfb )
  };
  std::vector< Resonance< LongSum > > resonances_;
  GET( AWRI, awri ) GET( APL, apl ) GET( L, l ) GET( lDependentScatteringRadius, apl )
  GET( atomicWeightRatio, awri ) GET( orbitalMomentum, l ) GET( resonances, resonances_ )
  std::vector< double > spinValues() const { std::vector< double > r; for ( auto& x : resonances_ ) r.push_back( x.aj ); return r; }
};
struct RM : Levels< RMLValue > {
  unsigned int nlsc;
  GET( numberLValuesForConvergence, nlsc ) GET( NLSC, nlsc )
};

struct RML {
  struct ParticlePairs {
    std::vector< int > mt_, shf_, pnt_;
    std::vector< double > ma_, mb_, za_, zb_, ia_, ib_, pa_, pb_, q_;
    GET( MT, mt_ ) GET( shiftFactorFlag, shf_ ) GET( penetrabilityFlag, pnt_ )
    GET( massParticleA, ma_ ) GET( massParticleB, mb_ ) GET( chargeParticleA, za_ ) GET( chargeParticleB, zb_ )
    GET( spinParticleA, ia_ ) GET( spinParticleB, ib_ ) GET( parityParticleA, pa_ ) GET( parityParticleB, pb_ ) GET( Q, q_ )
  };
  struct ResonanceChannels {
    double spin_; double parity_;
    std::vector< unsigned int > ppi_; std::vector< unsigned int > l_; std::vector< double > s_, bnd_, ape_, apt_;
    GET( spin, spin_ ) GET( parity, parity_ ) GET( particlePairNumbers, ppi_ ) GET( orbitalMomentumValues, l_ )
    GET( channelSpinValues, s_ ) GET( boundaryConditionValues, bnd_ ) GET( effectiveChannelRadii, ape_ ) GET( trueChannelRadii, apt_ )
  };
  struct ResonanceParameters {
    std::vector< double > er_; std::vector< std::vector< double > > gam_;
    unsigned int numberResonances() const { return er_.size(); }
    GET( resonanceEnergies, er_ ) GET( resonanceParameters, gam_ )
  };
  struct SpinGroup {
    ResonanceChannels channels_; ResonanceParameters parameters_;
    GET( channels, channels_ ) GET( parameters, parameters_ )
  };
  int krm, ifg; ParticlePairs pairs_; std::vector< SpinGroup > groups_;
  GET( formalism, krm ) GET( KRM, krm ) GET( reducedWidths, ifg ) GET( IFG, ifg ) GET( particlePairs, pairs_ ) GET( spinGroups, groups_ )
};

template< typename J > struct UnresolvedLValue {
  double awri; int l; std::vector< J > jvalues_;
  GET( atomicWeightRatio, awri ) GET( AWRI, awri ) GET( orbitalMomentum, l ) GET( L, l ) GET( jValues, jvalues_ )
  unsigned int numberSpinValues() const { return jvalues_.size(); }
};
struct DegreesOfFreedom {
  int amun, amug, amuf, amux;
  GET( neutronWidthDegreesFreedom, amun ) GET( gammaWidthDegreesFreedom, amug )
  GET( fissionWidthDegreesFreedom, amuf ) GET( competitiveWidthDegreesFreedom, amux )
};
template< typename Range > struct UEIJ : DegreesOfFreedom {
  double aj, d, gn, gg, gf, gx;
  GET( spin, aj ) GET( averageLevelSpacing, d ) GET( averageNeutronWidth, gn ) GET( averageGammaWidth, gg )
  GET( averageFissionWidth, gf ) GET( averageCompetitiveWidth, gx )
};
struct UEI : Levels< UnresolvedLValue< UEIJ< LongSum > > > {
  template< typename Range > using JValue = UEIJ< Range >;
};
struct UEDFJ : DegreesOfFreedom {
  double aj, d, gn, gg, gx; std::vector< double > gf;
  GET( spin, aj ) GET( averageLevelSpacing, d ) GET( averageNeutronWidth, gn ) GET( averageGammaWidth, gg )
  GET( averageFissionWidths, gf ) GET( averageCompetitiveWidth, gx )
};
struct UEDF : Levels< UnresolvedLValue< UEDFJ > > {
  using JValue = UEDFJ;
  std::vector< double > energies_;
  GET( energies, energies_ )
};
struct UEDJ : DegreesOfFreedom {
  double aj; std::vector< double > es, d, gn, gg, gf, gx;
  GET( spin, aj ) GET( energies, es ) GET( averageLevelSpacings, d ) GET( averageNeutronWidths, gn ) GET( averageGammaWidths, gg )
  GET( averageFissionWidths, gf ) GET( averageCompetitiveWidths, gx )
};
struct UED : Levels< UnresolvedLValue< UEDJ > > { using JValue = UEDJ; };
struct Special { double spi, ap; };

struct Range151 {
  using Parameters = std::variant< Special, SLBW, MLBW, RM, RML, UEI, UEDF, UED >;
  double el, eh; int lru, lrf, nro, naps; std::optional< TAB1 > radius_; Parameters parameters_;
  GET( EL, el ) GET( EH, eh ) GET( lowerEnergy, el ) GET( upperEnergy, eh ) GET( NRO, nro ) GET( NAPS, naps )
  GET( scatteringRadiusCalculationOption, naps ) GET( type, lru ) GET( representation, lrf )
  GET( scatteringRadius, radius_ ) GET( parameters, parameters_ )
};
#undef GET

template< int MF, int MT > struct Type;
template<> struct Type< 2, 151 > {
  using ScatteringRadius = TAB1;
  using ResonanceRange = Range151;
  using BreitWignerLValue = BWLValue;
  using ReichMooreLValue = RMLValue;
  using SingleLevelBreitWigner = SLBW;
  using MultiLevelBreitWigner = MLBW;
  using ReichMoore = RM;
  using RMatrixLimited = RML;
  using UnresolvedEnergyIndependent = UEI;
  using UnresolvedEnergyDependentFissionWidths = UEDF;
  using UnresolvedEnergyDependent = UED;
};
}}}
#endif
