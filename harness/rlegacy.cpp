// legacy resolved (SLBW and MLBW as spin groups) and unresolved resonances (the whole library, against /verif/shim)
#include "full.hpp"
#include "entry.hpp"
#include "rtree.hpp"
namespace rr = njoy::resonanceReconstruction;
namespace rm = njoy::resonanceReconstruction::rmatrix;
namespace lr = rm::legacy::resolved;
namespace lu = rm::legacy::unresolved;
using namespace dimwits;
static inline rr::Energy ev( double x ) { return x * electronVolts; }
static inline rm::Particle particle( int id, double m, double z, double s ) {
  return rm::Particle( rm::ParticleID( id ), m * daltons, z * constant::elementaryCharge, s, +1 ); }
static inline rm::Channel< rm::Neutron > elastic( unsigned int l, double s, double J, double r ) {
  const rm::ParticlePair in( particle( 1, 1.00866491582, 0., .5 ), particle( 92235, 235., 92., 3.5 ), rm::ParticlePairID( rm::ParticleID( 1 ), rm::ParticleID( 92235 ) ) );
  return rm::Channel< rm::Neutron >( in, in, ev( 0. ), rm::ChannelQuantumNumbers( l, s, J, +1 ), rm::ChannelRadii( r * rr::rootBarn, 1.25 * r * rr::rootBarn, 1.5 * r * rr::rootBarn ) ); }
static inline rm::ReactionID reaction( const char* t ) { return rm::ReactionID( rm::ParticleID( 1 ), rm::ParticleID( 92235 ), njoy::elementary::ReactionType( t ) ); }

ENTRY( k_el, ( double e, double* out ), ( e, out ), out[0] = elastic( 0, .5, .5, 1. ).waveNumber( ev( e ) ).value; out[1] = 0.; )

// a resolved resonance
ENTRY( lres, ( double er, double n, double c, double f, double x, double P, double Q, double S, double p, double q, double s, double* out ), ( er, n, c, f, x, P, Q, S, p, q, s, out ),
  const lr::Resonance r( ev( er ), ev( n ), ev( c ), ev( f ), ev( x ), P, Q, S ); \
  out[0] = r.energy().value; out[1] = r.elastic().value; out[2] = r.capture().value; out[3] = r.fission().value; out[4] = r.competition().value; out[5] = r.total().value; \
  out[6] = r.penetrability(); out[7] = r.shiftfactor(); out[8] = r.elastic( p ).value; out[9] = r.competition( q ).value; out[10] = r.total( p, q ).value; out[11] = r.energyPrime( s ).value; )

#define RES( N ) double er##N, double n##N, double c##N, double f##N, double P##N, double S##N
#define PASS( N ) er##N, n##N, c##N, f##N, P##N, S##N
#define MAKE( N ) lr::Resonance( ev( er##N ), ev( n##N ), ev( c##N ), ev( f##N ), ev( 0. ), P##N, P##N, S##N )
#define GROUP( T, L, J, R, ... ) lr::SpinGroup< rm::T >( elastic( L, .5, J, R ), lr::ResonanceTable( { __VA_ARGS__ } ), ev( 0. ) )
#define READ out[0] = x[ reaction( "elastic" ) ].value; out[1] = x[ reaction( "capture" ) ].value; const double n = double( x.size() ); out[2] = x[ reaction( "fission" ) ].value; out[3] = n;
#define SG( NAME, T, ARGS, CALL, ... ) ENTRY( NAME##_##T, ARGS, CALL, \
  auto g = GROUP( T, l, J, r, __VA_ARGS__ ); std::map< rm::ReactionID, rr::CrossSection > x; g.evaluate( ev( e ), x ); READ )
#define ONE( T ) SG( lsg1, T, ( unsigned int l, double J, double r, double e, RES( 1 ), double* out ), ( l, J, r, e, PASS( 1 ), out ), MAKE( 1 ) )
#define TWO( T ) SG( lsg2, T, ( unsigned int l, double J, double r, double e, RES( 1 ), RES( 2 ), double* out ), ( l, J, r, e, PASS( 1 ), PASS( 2 ), out ), MAKE( 1 ), MAKE( 2 ) )
#define THREE( T ) SG( lsg3, T, ( unsigned int l, double J, double r, double e, RES( 1 ), RES( 2 ), RES( 3 ), double* out ), ( l, J, r, e, PASS( 1 ), PASS( 2 ), PASS( 3 ), out ), MAKE( 1 ), MAKE( 2 ), MAKE( 3 ) )
ONE( SingleLevelBreitWigner ) ONE( MultiLevelBreitWigner ) TWO( SingleLevelBreitWigner ) TWO( MultiLevelBreitWigner ) THREE( MultiLevelBreitWigner )

// two spin groups with the potential scattering of all l up to the largest
#define CS( T, A, B ) ENTRY( lcs##A##B##_##T, ( double J, double K, double r, double e, RES( 1 ), RES( 2 ), double* out ), ( J, K, r, e, PASS( 1 ), PASS( 2 ), out ), \
  std::vector< lr::SpinGroup< rm::T > > v; v.push_back( GROUP( T, A, J, r, MAKE( 1 ) ) ); v.push_back( GROUP( T, B, K, r, MAKE( 2 ) ) ); \
  lr::CompoundSystem< rm::T > g( std::move( v ) ); std::map< rm::ReactionID, rr::CrossSection > x; g.evaluate( ev( e ), x ); READ )
CS( SingleLevelBreitWigner, 0, 1 ) CS( SingleLevelBreitWigner, 2, 0 ) CS( MultiLevelBreitWigner, 0, 1 ) CS( SingleLevelBreitWigner, 1, 1 )

// fluctuation integrals
#define FLUCT( NAME, M, N, L ) ENTRY( fluct_##NAME, ( double n, double c, double f, double x, double* out ), ( n, c, f, x, out ), \
  const auto i = lu::calculateFluctuationIntegrals( lu::Widths( ev( n ), ev( c ), ev( f ), ev( x ) ), lu::Degrees( M, 0, N, L ) ); \
  out[0] = i.elastic.value; out[1] = i.capture.value; out[2] = i.fission.value; out[3] = i.competition.value; )
#define FLUCT_X( M, N ) FLUCT( M##0##N##0, M, N, 0 ) FLUCT( M##0##N##1, M, N, 1 ) FLUCT( M##0##N##2, M, N, 2 ) FLUCT( M##0##N##3, M, N, 3 ) FLUCT( M##0##N##4, M, N, 4 )
#define FLUCT_F( M ) FLUCT_X( M, 0 ) FLUCT_X( M, 1 ) FLUCT_X( M, 2 ) FLUCT_X( M, 3 ) FLUCT_X( M, 4 )
FLUCT_F( 1 ) FLUCT_F( 2 ) FLUCT_F( 3 ) FLUCT_F( 4 )

// spin groups of unresolved resonances given at two or three energies, and a system of two spin groups
#define PT( X ) lu::Resonance( ev( e##X ), ev( d##X ), n##X * rr::rootElectronVolts, ev( c##X ), ev( f##X ), ev( x##X ) )
#define PTS( X ) double e##X, double d##X, double n##X, double c##X, double f##X, double x##X
#define ARGS( X ) e##X, d##X, n##X, c##X, f##X, x##X
#define USG( MU, NU, LA ) \
ENTRY( usg2_##MU##NU##LA, ( unsigned int l, double J, double r, double e, PTS( a ), PTS( b ), double* out ), ( l, J, r, e, ARGS( a ), ARGS( b ), out ), \
  lu::SpinGroup g( elastic( l, .5, J, r ), lu::ResonanceTable( { PT( a ), PT( b ) }, lu::Degrees( MU, 0, NU, LA ) ) ); \
  std::map< rm::ReactionID, rr::CrossSection > x; g.evaluate( ev( e ), x ); READ )
USG( 1, 2, 0 ) USG( 2, 0, 0 ) USG( 3, 0, 4 ) USG( 1, 3, 2 )
ENTRY( usg3, ( unsigned int l, double J, double r, double e, PTS( a ), PTS( b ), PTS( c ), double* out ), ( l, J, r, e, ARGS( a ), ARGS( b ), ARGS( c ), out ), \
  lu::SpinGroup g( elastic( l, .5, J, r ), lu::ResonanceTable( { PT( a ), PT( b ), PT( c ) }, lu::Degrees( 2, 0, 1, 0 ) ) ); \
  std::map< rm::ReactionID, rr::CrossSection > x; g.evaluate( ev( e ), x ); READ )
#define UCS( A, B ) \
ENTRY( ucs##A##B, ( double J, double K, double r, double e, PTS( a ), PTS( b ), double* out ), ( J, K, r, e, ARGS( a ), ARGS( b ), out ), \
  std::vector< lu::SpinGroup > v; \
  v.emplace_back( elastic( A, .5, J, r ), lu::ResonanceTable( { PT( a ), PT( b ) }, lu::Degrees( 1, 0, 2, 0 ) ) ); \
  v.emplace_back( elastic( B, .5, K, r ), lu::ResonanceTable( { PT( a ), PT( b ) }, lu::Degrees( 2, 0, 3, 0 ) ) ); \
  lu::CompoundSystem g( std::move( v ) ); std::map< rm::ReactionID, rr::CrossSection > x; g.evaluate( ev( e ), x ); READ )
UCS( 0, 1 ) UCS( 2, 0 ) UCS( 1, 1 )

// the energy grid of a system of two spin groups given at the energies a, b and c, d
ENTRY( ugrid, ( double a, double b, double c, double d, double* out ), ( a, b, c, d, out ), \
  const auto at = [] ( double e ) { return lu::Resonance( ev( e ), ev( 1. ), 1. * rr::rootElectronVolts, ev( 1. ), ev( 0. ), ev( 0. ) ); }; \
  std::vector< lu::SpinGroup > v; \
  v.emplace_back( elastic( 0, .5, 0., 1. ), lu::ResonanceTable( { at( a ), at( b ) }, lu::Degrees( 1, 0, 0, 0 ) ) ); \
  v.emplace_back( elastic( 0, .5, 1., 1. ), lu::ResonanceTable( { at( c ), at( d ) }, lu::Degrees( 1, 0, 0, 0 ) ) ); \
  const auto g = lu::CompoundSystem( std::move( v ) ).grid(); \
  out[0] = g.size(); for ( unsigned int i = 0; i < g.size() && i < 127; ++i ) out[i + 1] = g[i].value; )

// the minimal energy grids of resolved resonances
#define GRID { const auto y = g.grid(); out[0] = y.size(); for ( unsigned int i = 0; i < y.size(); ++i ) out[i + 1] = y[i].value; }
ENTRY( lgrid1, ( double er1, double n1, double c1, double f1, double P1, double S1, double* out ), ( er1, n1, c1, f1, P1, S1, out ), \
  auto g = GROUP( SingleLevelBreitWigner, 0, .5, 1., MAKE( 1 ) ); GRID )
ENTRY( lgrid2, ( RES( 1 ), RES( 2 ), double* out ), ( PASS( 1 ), PASS( 2 ), out ), auto g = GROUP( MultiLevelBreitWigner, 0, .5, 1., MAKE( 1 ), MAKE( 2 ) ); GRID )
ENTRY( lgrid3, ( RES( 1 ), RES( 2 ), double* out ), ( PASS( 1 ), PASS( 2 ), out ), \
  std::vector< lr::SpinGroup< rm::MultiLevelBreitWigner > > v; v.push_back( GROUP( MultiLevelBreitWigner, 0, .5, 1., MAKE( 1 ) ) ); v.push_back( GROUP( MultiLevelBreitWigner, 1, .5, 1., MAKE( 2 ) ) ); \
  lr::CompoundSystem< rm::MultiLevelBreitWigner > g( std::move( v ) ); GRID )
