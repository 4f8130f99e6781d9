// Entry points of the verification: every function below only calls the real, public code of
// /repo (included as it is) and hands its result out.  h_*: lowered to IR and proved.
// n_*: the same call compiled by g++ and executed natively (replay).
#include "std.hpp"
#include "resonanceReconstruction.hpp"
namespace rr = njoy::resonanceReconstruction;
namespace rm = njoy::resonanceReconstruction::rmatrix;
using u32 = unsigned int;

#ifdef IRVC
#define ENTRY( NAME, PARAMS, ARGS, ... ) extern "C" void h_##NAME PARAMS { __VA_ARGS__ }
#else
#define ENTRY( NAME, PARAMS, ARGS, ... ) \
  static void h_##NAME PARAMS { __VA_ARGS__ } \
  extern "C" int n_##NAME PARAMS { try { h_##NAME ARGS; return 0; } catch ( ... ) { return 1; } }
#endif

// hard-sphere functions of a neutron channel
ENTRY( pen_neutron, ( u32 l, double rho, double eta, double* out ), ( l, rho, eta, out ),
       out[0] = rm::calculatePenetrability< rm::Neutron >( l, rho, eta ); )
ENTRY( shift_neutron, ( u32 l, double rho, double eta, double* out ), ( l, rho, eta, out ),
       out[0] = rm::calculateShiftFactor< rm::Neutron >( l, rho, eta ); )
ENTRY( phase_neutron, ( u32 l, double rho, double eta, double* out ), ( l, rho, eta, out ),
       out[0] = rm::calculatePhaseShift< rm::Neutron >( l, rho, eta ); )

// legacy hard-sphere functions
ENTRY( ps_free, ( int l, double rho, double* out ), ( l, rho, out ),
       auto r = rr::penetrationShift( l, rho ); out[0] = r[0]; out[1] = r[1]; )
ENTRY( ps_object, ( int l, double rho, double* out ), ( l, rho, out ),
       const rr::PenetrationShift f( l ); auto r = f( rho ); out[0] = r[0]; out[1] = r[1]; )
#define PSI( L ) ENTRY( ps_integer##L, ( double rho, double* out ), ( rho, out ), \
       auto f = rr::penetrationShift( rr::Integer< L >{} ); auto r = f( rho ); out[0] = r[0]; out[1] = r[1]; )
PSI( 0 ) PSI( 1 ) PSI( 2 ) PSI( 3 ) PSI( 4 ) PSI( 5 )
ENTRY( phase_free, ( int l, double rho, double* out ), ( l, rho, out ),
       out[0] = rr::phaseShift( l, rho ); )

// channels without a penetration barrier
#define NOBARRIER( NAME, TYPE ) ENTRY( NAME, ( u32 l, double rho, double eta, double* out ), ( l, rho, eta, out ), \
       out[0] = rm::calculatePenetrability< rm::TYPE >( l, rho, eta ); \
       out[1] = rm::calculateShiftFactor< rm::TYPE >( l, rho, eta ); \
       out[2] = rm::calculatePhaseShift< rm::TYPE >( l, rho, eta ); \
       out[3] = rm::calculateCoulombPhaseShift< rm::TYPE >( int( l ), eta ); )
NOBARRIER( photon, Photon )
NOBARRIER( fission, Fission )
ENTRY( neutron_coulomb_phase, ( int l, double eta, double* out ), ( l, eta, out ),
       out[0] = rm::calculateCoulombPhaseShift< rm::Neutron >( l, eta ); )

// Coulomb phase shift
ENTRY( coulomb_phase, ( int l, double eta, double* out ), ( l, eta, out ),
       out[0] = rm::calculateCoulombPhaseShift< rm::ChargedParticle >( l, eta ); )

// charged particle channels
ENTRY( pen_charged, ( u32 l, double rho, double eta, double* out ), ( l, rho, eta, out ),
       out[0] = rm::calculatePenetrability< rm::ChargedParticle >( l, rho, eta ); )
ENTRY( shift_charged, ( u32 l, double rho, double eta, double* out ), ( l, rho, eta, out ),
       out[0] = rm::calculateShiftFactor< rm::ChargedParticle >( l, rho, eta ); )
ENTRY( phase_charged, ( u32 l, double rho, double eta, double* out ), ( l, rho, eta, out ),
       out[0] = rm::calculatePhaseShift< rm::ChargedParticle >( l, rho, eta ); )
ENTRY( coulomb, ( int l, double rho, double eta, double* out ), ( l, rho, eta, out ),
       std::complex< double > gf; std::complex< double > dgf; rm::coulombWaveFunctions( l, rho, eta, gf, dgf );
       out[0] = gf.real(); out[1] = gf.imag(); out[2] = dgf.real(); out[3] = dgf.imag(); )

// angular momentum coupling
#ifdef IRVC
extern "C" void h_spins( double i, double I, std::vector< double >* out ) {
  new ( out ) std::vector< double >( rm::possibleChannelSpinValues( i, I ) ); }
extern "C" void h_J2( u32 l, double s, std::vector< double >* out ) {
  new ( out ) std::vector< double >( rm::possibleChannelTotalAngularMomentumValues( l, s ) ); }
extern "C" void h_J3( u32 l, double i, double I, std::vector< double >* out ) {
  new ( out ) std::vector< double >( rm::possibleChannelTotalAngularMomentumValues( l, i, I ) ); }
extern "C" void h_qn_string( u32 l, double s, double J, short pi, std::string* out ) {
  new ( out ) std::string( rm::ChannelQuantumNumbers( l, s, J, pi ).toString() ); }
#else
static int hand( const std::vector< double >& v, double* out ) {
  out[0] = double( v.size() );
  for ( std::size_t k = 0; k < v.size() && k < 255; ++k ) out[k + 1] = v[k];
  return 0;
}
extern "C" int n_spins( double i, double I, double* out ) {
  try { return hand( rm::possibleChannelSpinValues( i, I ), out ); } catch ( ... ) { return 1; } }
extern "C" int n_J2( u32 l, double s, double* out ) {
  try { return hand( rm::possibleChannelTotalAngularMomentumValues( l, s ), out ); } catch ( ... ) { return 1; } }
extern "C" int n_J3( u32 l, double i, double I, double* out ) {
  try { return hand( rm::possibleChannelTotalAngularMomentumValues( l, i, I ), out ); } catch ( ... ) { return 1; } }
extern "C" int n_qn_string( u32 l, double s, double J, short pi, double* out ) {
  try { std::string r = rm::ChannelQuantumNumbers( l, s, J, pi ).toString();
    out[0] = double( r.size() );
    for ( std::size_t k = 0; k < r.size() && k < 255; ++k ) out[k + 1] = r[k];
    return 0; } catch ( ... ) { return 1; } }
#endif
ENTRY( qn_getters, ( u32 l, double s, double J, short pi, double* out ), ( l, s, J, pi, out ),
       const rm::ChannelQuantumNumbers n( l, s, J, pi );
       out[0] = n.orbitalAngularMomentum(); out[1] = n.spin(); out[2] = n.totalAngularMomentum(); out[3] = n.parity(); )
ENTRY( qn_copy, ( u32 l, double s, double J, short pi, double* out ), ( l, s, J, pi, out ),
       rm::ChannelQuantumNumbers n( l, s, J, pi ); rm::ChannelQuantumNumbers m( 0, 0., 0., 1 ); m = n;
       n = rm::ChannelQuantumNumbers( 1, 2., 3., -1 );
       out[0] = m.orbitalAngularMomentum(); out[1] = m.spin(); out[2] = m.totalAngularMomentum(); out[3] = m.parity(); )

// polynomial evaluation: out-of-order iterators and plain pointers
#ifdef IRVC
extern "C" void h_horner( const double* c, long long n, double x, double* out ) {
  out[0] = rm::horner( c, c + n, x ); }
#else
extern "C" int n_horner( const double* c, long long n, double x, double* out ) {
  out[0] = rm::horner( c, c + n, x ); return 0; }
#endif

// element-wise arithmetic of packs
ENTRY( pack_add, ( double a, double b, double c, double x, double y, double z, double* out ), ( a, b, c, x, y, z, out ),
       auto r = ( rr::pack( a, b, c ) + rr::pack( x, y, z ) ).data;
       out[0] = std::get<0>( r ); out[1] = std::get<1>( r ); out[2] = std::get<2>( r ); )
ENTRY( pack_sub, ( double a, double b, double c, double x, double y, double z, double* out ), ( a, b, c, x, y, z, out ),
       auto r = ( rr::pack( a, b, c ) - rr::pack( x, y, z ) ).data;
       out[0] = std::get<0>( r ); out[1] = std::get<1>( r ); out[2] = std::get<2>( r ); )
ENTRY( pack_mul, ( double a, double b, double c, double x, double* out ), ( a, b, c, x, out ),
       auto r = ( rr::pack( a, b, c ) * x ).data;
       out[0] = std::get<0>( r ); out[1] = std::get<1>( r ); out[2] = std::get<2>( r ); )
ENTRY( pack_mixed, ( int a, double b, double x, int y, double* out ), ( a, b, x, y, out ),
       auto r = ( rr::pack( a, b ) + rr::pack( x, y ) ).data;
       auto d = ( rr::pack( a, b ) - rr::pack( x, y ) ).data;
       auto s = ( rr::pack( a, b ) * x ).data;
       out[0] = std::get<0>( r ); out[1] = std::get<1>( r ); out[2] = std::get<0>( d ); out[3] = std::get<1>( d );
       out[4] = std::get<0>( s ); out[5] = std::get<1>( s ); )
ENTRY( pack_single, ( double a, double x, double* out ), ( a, x, out ),
       auto r = ( rr::pack( a ) + rr::pack( x ) ).data; auto d = ( rr::pack( a ) - rr::pack( x ) ).data;
       auto s = ( rr::pack( a ) * x ).data;
       out[0] = std::get<0>( r ); out[1] = std::get<0>( d ); out[2] = std::get<0>( s ); )
