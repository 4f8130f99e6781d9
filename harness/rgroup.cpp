// resonances, L matrices, R_L matrix and spin groups of the R matrix code (the whole library, against /verif/shim)
#include "full.hpp"
#include "entry.hpp"
namespace rr = njoy::resonanceReconstruction;
namespace rm = njoy::resonanceReconstruction::rmatrix;
using namespace dimwits;
using eV = rr::Energy;
static inline eV ev( double x ) { return x * electronVolts; }
static inline rr::ReducedWidth rw( double x ) { return x * rr::rootElectronVolts; }

// R matrix of one resonance
ENTRY( rm1, ( double er, double a, double c, double e, double* out ), ( er, a, c, e, out ),
  const rm::Resonance r( ev( er ), { rw( a ) }, rw( c ) ); const auto m = r.rmatrix( ev( e ) );
  const std::complex< double > v = m[0][0]; out[0] = v.real(); out[1] = v.imag(); )
#define RM( N, ... ) { const auto m = r.rmatrix( ev( e ) ); \
  for ( int i = 0; i < N; ++i ) for ( int j = 0; j < N; ++j ) { const std::complex< double > v = m[i][j]; out[ 2 * ( N * i + j ) ] = v.real(); out[ 2 * ( N * i + j ) + 1 ] = v.imag(); } }
ENTRY( rm2, ( double er, double a, double b, double c, double e, double* out ), ( er, a, b, c, e, out ),
  const rm::Resonance r( ev( er ), { rw( a ), rw( b ) }, rw( c ) ); RM( 2 ) )
ENTRY( rm3, ( double er, double a, double b, double g, double c, double e, double* out ), ( er, a, b, g, c, e, out ),
  const rm::Resonance r( ev( er ), { rw( a ), rw( b ), rw( g ) }, rw( c ) ); RM( 3 ) )

static inline rm::Particle particle( int id, double m, double z, double s ) {
  return rm::Particle( rm::ParticleID( id ), m * daltons, z * constant::elementaryCharge, s, +1 ); }
static inline rm::ParticlePair incident() {
  return rm::ParticlePair( particle( 1, 1.00866491582, 0., .5 ), particle( 92235, 235., 92., 3.5 ), rm::ParticlePairID( rm::ParticleID( 1 ), rm::ParticleID( 92235 ) ) ); }
static inline rm::ParticlePair fission() {
  return rm::ParticlePair( particle( 1, 1.00866491582, 0., .5 ), particle( 92235, 235., 92., 3.5 ), rm::ParticlePairID( "fission" ) ); }
static inline rm::ParticlePair exit() {      // inelastic level
  return rm::ParticlePair( particle( 1, 1.00866491582, 0., .5 ), particle( 92236, 235., 92., 2.5 ), rm::ParticlePairID( rm::ParticleID( 1 ), rm::ParticleID( 92236 ) ) ); }
static inline rm::ParticleChannel elastic( unsigned int l, double s, double J, double r, double b ) {
  return rm::Channel< rm::Neutron >( incident(), incident(), ev( 0. ), rm::ChannelQuantumNumbers( l, s, J, +1 ), rm::ChannelRadii( r * rr::rootBarn, 1.25 * r * rr::rootBarn, 1.5 * r * rr::rootBarn ), b ); }
static inline rm::ParticleChannel inelastic( unsigned int l, double s, double J, double q, double r, double b ) {
  return rm::Channel< rm::Neutron >( incident(), exit(), ev( q ), rm::ChannelQuantumNumbers( l, s, J, +1 ), rm::ChannelRadii( r * rr::rootBarn, 1.25 * r * rr::rootBarn, 1.5 * r * rr::rootBarn ), b ); }
static inline rm::ParticleChannel fissile( double s, double J ) {
  return rm::Channel< rm::Fission >( incident(), fission(), ev( 0. ), rm::ChannelQuantumNumbers( 0, s, J, +1 ), rm::ChannelRadii( 1. * rr::rootBarn ) ); }

// the L matrix of an elastic, an inelastic and a fission channel
#define LM( B ) ENTRY( l_##B, ( unsigned int l, unsigned int k, double q, double r, double t, double b, double d, double p1, double p2, double p3, double e, double* out ), \
  ( l, k, q, r, t, b, d, p1, p2, p3, e, out ), \
  const std::vector< rm::ParticleChannel > c{ elastic( l, .5, .5, r, b ), inelastic( k, .5, .5, q, t, d ), fissile( .5, .5 ) }; \
  const std::vector< double > p{ p1, p2, p3 }; rm::LMatrixCalculator< rm::B > calc( 3 ); const auto& m = calc( ev( e ), p, c ); \
  for ( int i = 0; i < 3; ++i ) { out[ 2 * i ] = m.diagonal()[i].real(); out[ 2 * i + 1 ] = m.diagonal()[i].imag(); } )
LM( Constant ) LM( ShiftFactor )

// R_L of an elastic and an inelastic channel, two resonances
#define RL( B ) ENTRY( rl_##B, ( unsigned int l, unsigned int k, double q, double r, double t, double b, double d, double p1, double p2, \
  double e1, double a1, double b1, double c1, double e2, double a2, double b2, double c2, double e, double* out ), \
  ( l, k, q, r, t, b, d, p1, p2, e1, a1, b1, c1, e2, a2, b2, c2, e, out ), \
  const std::vector< rm::ParticleChannel > c{ elastic( l, .5, .5, r, b ), inelastic( k, .5, .5, q, t, d ) }; \
  const std::vector< double > p{ p1, p2 }; \
  const rm::ResonanceTable table( { "1", "2" }, { rm::Resonance( ev( e1 ), { rw( a1 ), rw( b1 ) }, rw( c1 ) ), rm::Resonance( ev( e2 ), { rw( a2 ), rw( b2 ) }, rw( c2 ) ) } ); \
  rm::RLMatrixCalculator< rm::ReichMoore, rm::B > calc( table ); const auto& m = calc( ev( e ), table, p, c ); \
  for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) { out[ 2 * ( 2 * i + j ) ] = m( i, j ).real(); out[ 2 * ( 2 * i + j ) + 1 ] = m( i, j ).imag(); } )
RL( Constant ) RL( ShiftFactor )

#include "rtree.hpp"

// the wave numbers of the channels (channel kinematics: rmatrix.cpp)
ENTRY( k_el, ( double e, double* out ), ( e, out ), const auto c = elastic( 0, .5, .5, 1., 0. ); \
  out[0] = std::visit( [&]( const auto& c ) { return c.waveNumber( ev( e ) ).value; }, c ); out[1] = std::visit( [&]( const auto& c ) { return c.belowThreshold( ev( e ) ) ? 1. : 0.; }, c ); )
ENTRY( k_in, ( double q, double e, double* out ), ( q, e, out ), const auto c = inelastic( 0, .5, .5, q, 1., 0. ); \
  out[0] = std::visit( [&]( const auto& c ) { return c.waveNumber( ev( e ) ).value; }, c ); out[1] = std::visit( [&]( const auto& c ) { return c.belowThreshold( ev( e ) ) ? 1. : 0.; }, c ); )

static inline rm::ChannelID id( const rm::ParticleChannel& c ) { return std::visit( []( const auto& c ) { return c.channelID(); }, c ); }
static inline rm::ReactionID reaction( const rm::ParticlePair& out ) { return rm::ReactionID( incident().pairID(), out.pairID() ); }
static inline rm::ReactionID captures() { return rm::ReactionID( incident().pairID(), rm::ParticlePairID( "capture" ) ); }
// one incident channel, two resonances: elastic and capture cross sections
#define SG1( B ) ENTRY( sg1_##B, ( unsigned int l, double J, double r, double b, double e1, double a1, double c1, double e2, double a2, double c2, double e, double* out ), \
  ( l, J, r, b, e1, a1, c1, e2, a2, c2, e, out ), \
  const auto u = elastic( l, .5, J, r, b ); \
  rm::SpinGroup< rm::ReichMoore, rm::B > g( { u }, rm::ResonanceTable( { id( u ) }, { rm::Resonance( ev( e1 ), { rw( a1 ) }, rw( c1 ) ), rm::Resonance( ev( e2 ), { rw( a2 ) }, rw( c2 ) ) } ) ); \
  std::map< rm::ReactionID, rr::CrossSection > x; g.evaluate( ev( e ), x ); \
  out[0] = x[ reaction( incident() ) ].value; out[1] = x[ captures() ].value; out[2] = double( x.size() ); )
SG1( Constant ) SG1( ShiftFactor )
// two incident channels and one resonance
#define SG2( B ) ENTRY( sg2_##B, ( unsigned int l, unsigned int k, double J, double r, double t, double b, double d, double e1, double a1, double b1, double c1, double e, double* out ), \
  ( l, k, J, r, t, b, d, e1, a1, b1, c1, e, out ), \
  const auto u = elastic( l, .5, J, r, b ), v = elastic( k, 1.5, J, t, d ); \
  rm::SpinGroup< rm::ReichMoore, rm::B > g( { u, v }, rm::ResonanceTable( { id( u ), id( v ) }, { rm::Resonance( ev( e1 ), { rw( a1 ), rw( b1 ) }, rw( c1 ) ) } ) ); \
  std::map< rm::ReactionID, rr::CrossSection > x; g.evaluate( ev( e ), x ); \
  out[0] = x[ reaction( incident() ) ].value; out[1] = x[ captures() ].value; out[2] = double( x.size() ); )
SG2( Constant ) SG2( ShiftFactor )
// an incident, an inelastic and a fission channel, and one resonance
#define SG3( B ) ENTRY( sg3_##B, ( unsigned int l, unsigned int k, double J, double q, double r, double t, double b, double d, double e1, double a1, double b1, double f1, double c1, double e, double* out ), \
  ( l, k, J, q, r, t, b, d, e1, a1, b1, f1, c1, e, out ), \
  const auto u = elastic( l, .5, J, r, b ), v = inelastic( k, .5, J, q, t, d ), w = fissile( .5, J ); \
  rm::SpinGroup< rm::ReichMoore, rm::B > g( { u, v, w }, rm::ResonanceTable( { id( u ), id( v ), id( w ) }, { rm::Resonance( ev( e1 ), { rw( a1 ), rw( b1 ), rw( f1 ) }, rw( c1 ) ) } ) ); \
  std::map< rm::ReactionID, rr::CrossSection > x; g.evaluate( ev( e ), x ); \
  out[0] = x[ reaction( incident() ) ].value; out[1] = x[ reaction( exit() ) ].value; out[2] = x[ reaction( fission() ) ].value; \
  out[3] = x[ captures() ].value; out[4] = double( x.size() ); )
SG3( Constant ) SG3( ShiftFactor )
// T matrix elements of two incident channels
#define TM( B ) ENTRY( t_##B, ( unsigned int l, unsigned int k, double J, double r, double t, double b, double d, double e1, double a1, double b1, double c1, double e, double* out ), \
  ( l, k, J, r, t, b, d, e1, a1, b1, c1, e, out ), \
  const auto u = elastic( l, .5, J, r, b ), v = elastic( k, 1.5, J, t, d ); const rm::ChannelID i = id( u ), j = id( v ); \
  rm::SpinGroup< rm::ReichMoore, rm::B > g( { u, v }, rm::ResonanceTable( { i, j }, { rm::Resonance( ev( e1 ), { rw( a1 ), rw( b1 ) }, rw( c1 ) ) } ) ); \
  std::map< rm::ReactionChannelID, std::complex< double > > x; g.evaluateTMatrix( ev( e ), x ); \
  const std::complex< double > m[4] = { x[ i + "->" + i ], x[ i + "->" + j ], x[ j + "->" + i ], x[ j + "->" + j ] }; \
  for ( int n = 0; n < 4; ++n ) { out[ 2 * n ] = m[n].real(); out[ 2 * n + 1 ] = m[n].imag(); } out[8] = double( x.size() ); )
TM( Constant ) TM( ShiftFactor )
// two spin groups of one channel and one resonance each
#define CS( B ) ENTRY( cs_##B, ( unsigned int l, unsigned int k, double J, double K, double r, double t, double b, double d, double e1, double a1, double c1, double e2, double a2, double c2, double e, double* out ), \
  ( l, k, J, K, r, t, b, d, e1, a1, c1, e2, a2, c2, e, out ), \
  const auto u = elastic( l, .5, J, r, b ), v = elastic( k, .5, K, t, d ); \
  std::vector< rm::SpinGroup< rm::ReichMoore, rm::B > > g; \
  g.emplace_back( std::vector< rm::ParticleChannel >{ u }, rm::ResonanceTable( { id( u ) }, { rm::Resonance( ev( e1 ), { rw( a1 ) }, rw( c1 ) ) } ) ); \
  g.emplace_back( std::vector< rm::ParticleChannel >{ v }, rm::ResonanceTable( { id( v ) }, { rm::Resonance( ev( e2 ), { rw( a2 ) }, rw( c2 ) ) } ) ); \
  rm::CompoundSystem< rm::ReichMoore, rm::B > s( std::move( g ) ); \
  std::map< rm::ReactionID, rr::CrossSection > x; s.evaluate( ev( e ), x ); \
  out[0] = x[ reaction( incident() ) ].value; out[1] = x[ captures() ].value; out[2] = double( x.size() ); )
CS( Constant ) CS( ShiftFactor )
// the minimal energy grids
#define GRID { const auto y = g.grid(); out[0] = y.size(); for ( unsigned int i = 0; i < y.size(); ++i ) out[i + 1] = y[i].value; }
ENTRY( grid1, ( unsigned int l, unsigned int k, double r, double t, double q, double er, double a1, double b1, double f1, double c1, double* out ), ( l, k, r, t, q, er, a1, b1, f1, c1, out ), \
  const auto u = elastic( l, .5, 1., r, 0. ), v = inelastic( k, .5, 1., q, t, 0. ), w = fissile( .5, 1. ); \
  rm::SpinGroup< rm::ReichMoore, rm::ShiftFactor > g( { u, v, w }, rm::ResonanceTable( { id( u ), id( v ), id( w ) }, { rm::Resonance( ev( er ), { rw( a1 ), rw( b1 ), rw( f1 ) }, rw( c1 ) ) } ) ); GRID )
ENTRY( grid2, ( unsigned int l, double r, double e1, double a1, double c1, double e2, double a2, double c2, double* out ), ( l, r, e1, a1, c1, e2, a2, c2, out ), \
  const auto u = elastic( l, .5, 1., r, 0. ), v = elastic( l, .5, 2., r, 0. ); \
  std::vector< rm::SpinGroup< rm::ReichMoore, rm::Constant > > y; \
  y.emplace_back( std::vector< rm::ParticleChannel >{ u }, rm::ResonanceTable( { id( u ) }, { rm::Resonance( ev( e1 ), { rw( a1 ) }, rw( c1 ) ) } ) ); \
  y.emplace_back( std::vector< rm::ParticleChannel >{ v }, rm::ResonanceTable( { id( v ) }, { rm::Resonance( ev( e2 ), { rw( a2 ) }, rw( c2 ) ) } ) ); \
  rm::CompoundSystem< rm::ReichMoore, rm::Constant > g( std::move( y ) ); GRID )
