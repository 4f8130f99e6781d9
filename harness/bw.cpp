// Breit-Wigner and Reich-Moore evaluation (the whole library, against /verif/shim)
#include "full.hpp"
#include "entry.hpp"
EXT( rho ) EXT( a ) EXT( as )
namespace rr = njoy::resonanceReconstruction;
namespace bw = njoy::resonanceReconstruction::breitWigner;
using namespace dimwits;
using eV = Quantity< ElectronVolts >;
static inline eV ev( double x ) { return x * electronVolts; }
using Res = bw::resonance::Type;
using Lv = bw::lvalue::Type;

#define RES_ARGS double er, double gn, double gg, double gf, double gx, double p, double s, double g
#define RES_PASS ev( er ), ev( gn ), ev( gg ), ev( gf ), ev( gx ), p, s, g
#ifdef IRVC
extern "C" long long h_bw_resonance_size() { return sizeof( Res ); }
extern "C" void h_bw_resonance_make( Res* out, RES_ARGS ) { new ( out ) Res( RES_PASS ); }
#endif

// wave number and radii
ENTRY( wavenumber, ( double awr, double e, double* out ), ( awr, e, out ), out[0] = rr::neutronWaveNumber( awr )( ev( e ) ).value; )
ENTRY( wavefraction, ( double f, double e, double* out ), ( f, e, out ), out[0] = rr::NeutronWaveNumber( f, 0 )( ev( e ) ).value; )
ENTRY( channelradius, ( double awr, double e, double* out ), ( awr, e, out ), out[0] = rr::channelRadius( awr )( ev( e ) ).value; )
ENTRY( radius, ( double r, double e, double* out ), ( r, e, out ), out[0] = rr::radius( r )( ev( e ) ).value; )

// one resonance
ENTRY( slbw_resonance, ( RES_ARGS, double P, double S, double sin2, double sin2phi, double cw, double e, double* out ),
       ( er, gn, gg, gf, gx, p, s, g, P, S, sin2, sin2phi, cw, e, out ),
       const Res r( RES_PASS );
       auto v = static_cast< const bw::singleLevel::Resonance& >( r )( P, S, sin2, sin2phi, ev( cw ), bw::psiChi( ev( e ) ) ).data;
       out[0] = std::get<0>( v ); out[1] = std::get<1>( v ); out[2] = std::get<2>( v ); )
ENTRY( mlbw_resonance, ( RES_ARGS, double P, double S, double cw, double e, double* out ),
       ( er, gn, gg, gf, gx, p, s, g, P, S, cw, e, out ),
       const Res r( RES_PASS );
       auto v = static_cast< const bw::multiLevel::Resonance& >( r )( P, S, ev( cw ), bw::psiChi( ev( e ) ) ).data;
       auto w = std::get<0>( v ).data;
       out[0] = std::get<0>( w ); out[1] = std::get<1>( w ); out[2] = std::get<1>( v ); out[3] = std::get<2>( v ); )

// one l value with any number of resonances
#define SLBW_L auto v = static_cast< const bw::singleLevel::Lvalue& >( L )( ev( e ), bw::psiChi( ev( e ) ), rc, rs, \
                 []( eV x ) { return ext_rho( x.value ); } ).data; \
               out[0] = std::get<0>( v ); out[1] = std::get<1>( v ); out[2] = std::get<2>( v );
#define MLBW_L auto v = static_cast< const bw::multiLevel::Lvalue& >( L )( ev( e ), bw::psiChi( ev( e ) ), rc, rs, I, \
                 []( eV x ) { return ext_rho( x.value ); } ).data; \
               out[0] = std::get<0>( v ); out[1] = std::get<1>( v ); out[2] = std::get<2>( v );
ENTRY( mlbw_D, ( double I, int l, double* out ), ( I, l, out ), out[0] = bw::multiLevel::D( I, l ); )
#ifdef IRVC
extern "C" void h_mlbw_lvalue( Res* res, long long n, int l, double I, double e, double rc, double rs, double* out ) {
  Adopted< Res > a( res, n ); Slot< Lv > slot; Lv& L = *new ( slot.raw ) Lv( std::move( *a.at() ), l, I );
  MLBW_L }
extern "C" void h_mlbw_lvalue_x( Res* res, long long n, int l, double I, double q, double e, double rc, double rs, double* out ) {
  Adopted< Res > a( res, n ); Slot< Lv > slot; Lv& L = *new ( slot.raw ) Lv( std::move( *a.at() ), l, ev( q ), I );
  MLBW_L }
extern "C" void h_slbw_lvalue( Res* res, long long n, int l, double I, double e, double rc, double rs, double* out ) {
  Adopted< Res > a( res, n ); Slot< Lv > slot; Lv& L = *new ( slot.raw ) Lv( std::move( *a.at() ), l, I );
  SLBW_L }
extern "C" void h_slbw_lvalue_x( Res* res, long long n, int l, double I, double q, double e, double rc, double rs, double* out ) {
  Adopted< Res > a( res, n ); Slot< Lv > slot; Lv& L = *new ( slot.raw ) Lv( std::move( *a.at() ), l, ev( q ), I );
  SLBW_L }
#else
static std::vector< Res > many( const double* d, long long n ) {
  std::vector< Res > r;
  for ( long long i = 0; i < n; ++i, d += 8 )
    r.push_back( Res( ev( d[0] ), ev( d[1] ), ev( d[2] ), ev( d[3] ), ev( d[4] ), d[5], d[6], d[7] ) );
  return r;
}
extern "C" int n_mlbw_lvalue( const double* d, long long n, int l, double I, double e, double rc, double rs, double* out ) {
  try { const Lv L( many( d, n ), l, I ); MLBW_L return 0; } catch ( ... ) { return 1; } }
extern "C" int n_mlbw_lvalue_x( const double* d, long long n, int l, double I, double q, double e, double rc, double rs, double* out ) {
  try { const Lv L( many( d, n ), l, ev( q ), I ); MLBW_L return 0; } catch ( ... ) { return 1; } }
extern "C" int n_slbw_lvalue( const double* d, long long n, int l, double I, double e, double rc, double rs, double* out ) {
  try { const Lv L( many( d, n ), l, I ); SLBW_L return 0; } catch ( ... ) { return 1; } }
extern "C" int n_slbw_lvalue_x( const double* d, long long n, int l, double I, double q, double e, double rc, double rs, double* out ) {
  try { const Lv L( many( d, n ), l, ev( q ), I ); SLBW_L return 0; } catch ( ... ) { return 1; } }
#endif

// all l values: the object of the library, with channel and scattering radii of which nothing is known
struct ExtA { Quantity< rr::RootBarn > operator()( eV e ) const { return ext_a( e.value ) * rr::rootBarn; } };
struct ExtAS { Quantity< rr::RootBarn > operator()( eV e ) const { return ext_as( e.value ) * rr::rootBarn; } };
#define XS( X ) { auto xs = X; out[0] = xs.elastic.value; out[1] = xs.capture.value; out[2] = xs.fission.value; }
using SL1 = bw::singleLevel::Type< ExtA >;
using SL2 = bw::singleLevel::Type< ExtA, ExtAS >;
using ML1 = bw::multiLevel::Type< ExtA >;
using ML2 = bw::multiLevel::Type< ExtA, ExtAS >;
static rr::EnergyRange anyRange() { return { ev( 1. ), ev( 2. ) }; }
// the resonances of an l value put in order as by the constructor of the multi level object
struct Order : ML1 { using ML1::Parent::order; };
static std::vector< Lv > ordered( Lv&& L ) { std::vector< Lv > v; v.push_back( std::move( L ) ); return Order::order( std::move( v ) ); }
#ifdef IRVC
extern "C" void h_mlbw_sorted( Res* res, long long n, int l, double I, double e, double rc, double rs, double* out ) {
  Adopted< Res > a( res, n ); Slot< std::vector< Lv > > slot;
  auto& os = *new ( slot.raw ) std::vector< Lv >( ordered( Lv( std::move( *a.at() ), l, I ) ) ); const Lv& L = os.front();
  MLBW_L }
#else
extern "C" int n_mlbw_sorted( const double* d, long long n, int l, double I, double e, double rc, double rs, double* out ) {
  try { auto os = ordered( Lv( many( d, n ), l, I ) ); const Lv& L = os.front(); MLBW_L return 0; } catch ( ... ) { return 1; } }
#endif
#ifdef IRVC
extern "C" long long h_bw_lvalue_size() { return sizeof( Lv ); }
extern "C" void h_slbw_evaluate1( Lv* ls, long long n, double awr, double e, double* out ) {
  Adopted< Lv > a( ls, n ); Slot< SL1 > slot;
  XS( ( *new ( slot.raw ) SL1( std::move( *a.at() ), awr, anyRange(), 1, ExtA{} ) )( ev( e ) ) ) }
extern "C" void h_slbw_evaluate2( Lv* ls, long long n, double awr, double e, double* out ) {
  Adopted< Lv > a( ls, n ); Slot< SL2 > slot;
  XS( ( *new ( slot.raw ) SL2( std::move( *a.at() ), awr, anyRange(), 1, ExtA{}, ExtAS{} ) )( ev( e ) ) ) }
extern "C" void h_mlbw_evaluate1( Lv* ls, long long n, double I, double awr, double e, double* out ) {
  Adopted< Lv > a( ls, n ); Slot< ML1 > slot;
  XS( ( *new ( slot.raw ) ML1( std::move( *a.at() ), awr, anyRange(), 1, I, ExtA{} ) )( ev( e ) ) ) }
extern "C" void h_mlbw_evaluate2( Lv* ls, long long n, double I, double awr, double e, double* out ) {
  Adopted< Lv > a( ls, n ); Slot< ML2 > slot;
  XS( ( *new ( slot.raw ) ML2( std::move( *a.at() ), awr, anyRange(), 1, I, ExtA{}, ExtAS{} ) )( ev( e ) ) ) }
#else
// nl l values: for each l, has_q, q, number of resonances, then the resonances
static std::vector< Lv > manyL( const double* d, long long nl, double I ) {
  std::vector< Lv > ls;
  for ( long long i = 0; i < nl; ++i ) {
    const int l = d[0]; const bool hq = d[1] != 0.; const double q = d[2]; const long long n = d[3];
    d += 4;
    if ( hq ) ls.push_back( Lv( many( d, n ), l, ev( q ), I ) ); else ls.push_back( Lv( many( d, n ), l, I ) );
    d += 8 * n;
  }
  return ls;
}
extern "C" int n_slbw_evaluate1( const double* d, long long nl, double I, double awr, double e, double* out ) {
  try { XS( SL1( manyL( d, nl, I ), awr, anyRange(), 1, ExtA{} )( ev( e ) ) ) return 0; } catch ( ... ) { return 1; } }
extern "C" int n_slbw_evaluate2( const double* d, long long nl, double I, double awr, double e, double* out ) {
  try { XS( SL2( manyL( d, nl, I ), awr, anyRange(), 1, ExtA{}, ExtAS{} )( ev( e ) ) ) return 0; } catch ( ... ) { return 1; } }
extern "C" int n_mlbw_evaluate1( const double* d, long long nl, double I, double awr, double e, double* out ) {
  try { XS( ML1( manyL( d, nl, I ), awr, anyRange(), 1, I, ExtA{} )( ev( e ) ) ) return 0; } catch ( ... ) { return 1; } }
extern "C" int n_mlbw_evaluate2( const double* d, long long nl, double I, double awr, double e, double* out ) {
  try { XS( ML2( manyL( d, nl, I ), awr, anyRange(), 1, I, ExtA{}, ExtAS{} )( ev( e ) ) ) return 0; } catch ( ... ) { return 1; } }
#endif
