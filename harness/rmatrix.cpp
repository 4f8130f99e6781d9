// channels of the R matrix code (the whole library, against /verif/shim)
#include "full.hpp"
#include "entry.hpp"
namespace rr = njoy::resonanceReconstruction;
namespace rm = njoy::resonanceReconstruction::rmatrix;
using namespace dimwits;
using eV = rr::Energy;
static inline eV ev( double x ) { return x * electronVolts; }

static inline rm::Particle particle( int id, double m, double z, double s ) {
  return rm::Particle( rm::ParticleID( id ), m * daltons, z * constant::elementaryCharge, s, +1 );
}
// the pair of the channel (ma, mb, za, zb, ia, ib), the incident pair (Ma, Mb), Q, l, s, J, the three radii and the boundary condition
#define CH_ARGS double ma, double mb, double za, double zb, double ia, double ib, double Ma, double Mb, double q, unsigned int l, double s, double J, \
                double rp, double rs, double rf, double b
#define CH_PASS ma, mb, za, zb, ia, ib, Ma, Mb, q, l, s, J, rp, rs, rf, b
template< typename T > static inline rm::Channel< T > channel( CH_ARGS ) {
  const rm::ParticlePair in( particle( 1, Ma, 0., .5 ), particle( 92235, Mb, 0., .5 ), rm::ParticlePairID( rm::ParticleID( 1 ), rm::ParticleID( 92235 ) ) );
  const rm::ParticlePair own( particle( 1001, ma, za, ia ), particle( 91235, mb, zb, ib ), rm::ParticlePairID( rm::ParticleID( 1001 ), rm::ParticleID( 91235 ) ) );
  return rm::Channel< T >( in, own, ev( q ), rm::ChannelQuantumNumbers( l, s, J, +1 ),
                           rm::ChannelRadii( rp * rr::rootBarn, rs * rr::rootBarn, rf * rr::rootBarn ), b );
}
#define METHOD( NAME, T, EXPR ) ENTRY( ch_##NAME##_##T, ( CH_ARGS, double e, double* out ), ( CH_PASS, e, out ), \
  const auto c = channel< rm::T >( CH_PASS ); out[0] = EXPR; )
#define METHODS( T ) METHOD( P, T, c.penetrability( ev( e ) ) ) METHOD( S, T, c.shiftFactor( ev( e ) ) ) METHOD( F, T, c.phaseShift( ev( e ) ) ) \
  METHOD( C, T, c.coulombPhaseShift( ev( e ) ) ) METHOD( k, T, c.waveNumber( ev( e ) ).value ) METHOD( eta, T, c.sommerfeldParameter( ev( e ) ) ) \
  METHOD( below, T, c.belowThreshold( ev( e ) ) ? 1. : 0. ) METHOD( g, T, c.statisticalSpinFactor() ) METHOD( b, T, c.boundaryCondition() )
METHODS( Neutron ) METHODS( Photon ) METHODS( ChargedParticle ) METHODS( Fission )
// the same pair: the channel is an incident one
ENTRY( ch_incident, ( int a, int b, int c, int d, double* out ), ( a, b, c, d, out ),
       const rm::ParticlePair in( particle( a, 1., 0., .5 ), particle( b, 10., 0., .5 ), rm::ParticlePairID( rm::ParticleID( a ), rm::ParticleID( b ) ) );
       const rm::ParticlePair own( particle( c, 2., 0., .5 ), particle( d, 20., 0., .5 ), rm::ParticlePairID( rm::ParticleID( c ), rm::ParticleID( d ) ) );
       const rm::Channel< rm::Neutron > ch( in, own, ev( 0. ), rm::ChannelQuantumNumbers( 0, .5, .5, +1 ), rm::ChannelRadii( 1. * rr::rootBarn ), 0. );
       out[0] = ch.isIncidentChannel() ? 1. : 0.; )
ENTRY( pair, ( double ma, double mb, double za, double zb, double* out ), ( ma, mb, za, zb, out ),
       const rm::ParticlePair p( particle( 1, ma, za, .5 ), particle( 92235, mb, zb, .5 ), rm::ParticlePairID( rm::ParticleID( 1 ), rm::ParticleID( 92235 ) ) );
       out[0] = p.reducedMass().value; out[1] = p.massRatio(); )
// radii from one, two or three values
ENTRY( radii1, ( double a, double e, double* out ), ( a, e, out ), const rm::ChannelRadii r( a * rr::rootBarn );
       out[0] = r.penetrabilityRadius( ev( e ) ).value; out[1] = r.shiftFactorRadius( ev( e ) ).value; out[2] = r.phaseShiftRadius( ev( e ) ).value; )
ENTRY( radii2, ( double a, double b, double e, double* out ), ( a, b, e, out ), const rm::ChannelRadii r( a * rr::rootBarn, b * rr::rootBarn );
       out[0] = r.penetrabilityRadius( ev( e ) ).value; out[1] = r.shiftFactorRadius( ev( e ) ).value; out[2] = r.phaseShiftRadius( ev( e ) ).value; )
ENTRY( radii3, ( double a, double b, double c, double e, double* out ), ( a, b, c, e, out ), const rm::ChannelRadii r( a * rr::rootBarn, b * rr::rootBarn, c * rr::rootBarn );
       out[0] = r.penetrabilityRadius( ev( e ) ).value; out[1] = r.shiftFactorRadius( ev( e ) ).value; out[2] = r.phaseShiftRadius( ev( e ) ).value; )
#ifndef IRVC
#define CALC( T ) extern "C" int n_calc_##T( int what, unsigned int l, double rho, double eta, double* out ) { try { \
  out[0] = what == 0 ? rm::calculatePenetrability< rm::T >( l, rho, eta ) : what == 1 ? rm::calculateShiftFactor< rm::T >( l, rho, eta ) \
         : what == 2 ? rm::calculatePhaseShift< rm::T >( l, rho, eta ) : rm::calculateCoulombPhaseShift< rm::T >( l, eta ); return 0; } catch ( ... ) { return 1; } }
CALC( Neutron ) CALC( Photon ) CALC( ChargedParticle ) CALC( Fission )
#endif
