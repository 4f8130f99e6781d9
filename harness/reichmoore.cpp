// Reich-Moore evaluation (the whole library, against /verif/shim)
#include "full.hpp"
#include "entry.hpp"
EXT( a ) EXT( as )
namespace rr = njoy::resonanceReconstruction;
namespace rm = njoy::resonanceReconstruction::reichMoore;
using namespace dimwits;
using eV = Quantity< ElectronVolts >;
static inline eV ev( double x ) { return x * electronVolts; }
using Res = rm::Resonance;
using Lv = rm::Lvalue;
using Mat = rr::Matrix3x3;

#define RES_ARGS double er, double gn, double gg, double fa, double fb, double p, double g
#define RES_PASS ev( er ), ev( gn ), ev( gg ), ev( fa ), ev( fb ), p, g
#ifdef IRVC
extern "C" long long h_rm_resonance_size() { return sizeof( Res ); }
extern "C" void h_rm_resonance_make( Res* out, RES_ARGS ) { new ( out ) Res( RES_PASS ); }
#endif
// one resonance: the upper triangle of the matrix before (k) and after (out), and whether it fissions
static inline void fill( Mat& m, const double* k ) {
  m = Mat::Zero();
  int n = 0;
  for ( int i = 0; i < 3; ++i ) for ( int j = i; j < 3; ++j, n += 2 ) m( i, j ) = { k[ n ], k[ n + 1 ] };
}
ENTRY( rm_resonance, ( RES_ARGS, double e, double rp, double* k, double* out ), ( er, gn, gg, fa, fb, p, g, e, rp, k, out ),
       const Res r( RES_PASS ); Mat m; fill( m, k );
       const bool f = r( ev( e ), rp, m );
       int n = 0;
       for ( int i = 0; i < 3; ++i ) for ( int j = i; j < 3; ++j ) { out[ n++ ] = m( i, j ).real(); out[ n++ ] = m( i, j ).imag(); }
       out[ n ] = f ? 1. : 0.; )

#define PACK4( X ) auto v = ( X ).data; out[0] = std::get<0>( v ); out[1] = std::get<1>( v ); out[2] = std::get<2>( v ); out[3] = std::get<3>( v );
ENTRY( rm_function, ( double* k, double c, double s, double g, double phi, double* out ), ( k, c, s, g, phi, out ),
       Mat m; fill( m, k ); PACK4( Lv::solveRfunction( m, c, s, g, phi ) ) )
ENTRY( rm_matrix, ( double* k, double c, double s, double g, double* out ), ( k, c, s, g, out ),
       Mat m; fill( m, k ); PACK4( Lv::solveRmatrix( m, c, s, g ) ) )

#define PACK3( X ) auto v = ( X ).data; out[0] = std::get<0>( v ); out[1] = std::get<1>( v ); out[2] = std::get<2>( v );
struct ExtA { Quantity< rr::RootBarn > operator()( eV e ) const { return ext_a( e.value ) * rr::rootBarn; } };
struct ExtAS { Quantity< rr::RootBarn > operator()( eV e ) const { return ext_as( e.value ) * rr::rootBarn; } };
#define XS( X ) { auto xs = X; out[0] = xs.elastic.value; out[1] = xs.capture.value; out[2] = xs.fission.value; }
static rr::EnergyRange anyRange() { return { ev( 1. ), ev( 2. ) }; }
using T1 = rm::Type< ExtA >;
using T2 = rm::Type< ExtA, ExtAS >;
struct Order : T1 { using T1::Parent::order; };
static std::vector< Lv > ordered( Lv&& L ) { std::vector< Lv > v; v.push_back( std::move( L ) ); return Order::order( std::move( v ) ); }
#ifdef IRVC
extern "C" void h_rm_lvalue( Res* res, long long n, int l, double e, double rc, double rs, double* out ) {
  Adopted< Res > a( res, n ); Slot< Lv > slot; Lv& L = *new ( slot.raw ) Lv( std::move( *a.at() ), l );
  PACK3( L( ev( e ), rc, rs ) ) }
extern "C" void h_rm_sorted( Res* res, long long n, int l, double e, double rc, double rs, double* out ) {
  Adopted< Res > a( res, n ); Slot< std::vector< Lv > > slot;
  auto& os = *new ( slot.raw ) std::vector< Lv >( ordered( Lv( std::move( *a.at() ), l ) ) ); const Lv& L = os.front();
  PACK3( L( ev( e ), rc, rs ) ) }
extern "C" long long h_rm_lvalue_size() { return sizeof( Lv ); }
extern "C" void h_rm_lvalue_ap( Lv* ls, double ap ) { Slot< std::vector< Res > > v; new ( v.raw ) std::vector< Res >(); new ( ls ) Lv( std::move( *v.at() ), 0, rr::radius( ap ) ); }
extern "C" void h_rm_lvalue_noap( Lv* ls ) { Slot< std::vector< Res > > v; new ( v.raw ) std::vector< Res >(); new ( ls ) Lv( std::move( *v.at() ), 0 ); }
#define EVAL( TAG ) \
extern "C" void h_rm_evaluate1_##TAG( Lv* ls, long long n, double awr, double e, double* out ) { \
  Adopted< Lv > a( ls, n ); Slot< T1 > slot; \
  XS( ( *new ( slot.raw ) T1( std::move( *a.at() ), awr, anyRange(), rm::TAG{}, ExtA{} ) )( ev( e ) ) ) } \
extern "C" void h_rm_evaluate2_##TAG( Lv* ls, long long n, double awr, double e, double* out ) { \
  Adopted< Lv > a( ls, n ); Slot< T2 > slot; \
  XS( ( *new ( slot.raw ) T2( std::move( *a.at() ), awr, anyRange(), rm::TAG{}, ExtA{}, ExtAS{} ) )( ev( e ) ) ) }
EVAL( Both ) EVAL( Neither ) EVAL( Channel ) EVAL( Scattering )
#else
static std::vector< Res > many( const double* d, long long n ) {
  std::vector< Res > r;
  for ( long long i = 0; i < n; ++i, d += 7 ) r.push_back( Res( ev( d[0] ), ev( d[1] ), ev( d[2] ), ev( d[3] ), ev( d[4] ), d[5], d[6] ) );
  return r;
}
extern "C" int n_rm_sorted( const double* d, long long n, int l, double e, double rc, double rs, double* out ) {
  try { auto os = ordered( Lv( many( d, n ), l ) ); const Lv& L = os.front(); PACK3( L( ev( e ), rc, rs ) ) return 0; } catch ( ... ) { return 1; } }
extern "C" int n_rm_lvalue( const double* d, long long n, int l, double e, double rc, double rs, double* out ) {
  try { const Lv L( many( d, n ), l ); PACK3( L( ev( e ), rc, rs ) ) return 0; } catch ( ... ) { return 1; } }
// nl l values: for each l, has_ap, ap, number of resonances, then the resonances
static std::vector< Lv > manyL( const double* d, long long nl ) {
  std::vector< Lv > ls;
  ls.reserve( nl );
  for ( long long i = 0; i < nl; ++i ) {
    const int l = d[0]; const bool ha = d[1] != 0.; const double ap = d[2]; const long long n = d[3];
    d += 4;
    if ( ha ) ls.push_back( Lv( many( d, n ), l, rr::radius( ap ) ) ); else ls.push_back( Lv( many( d, n ), l ) );
    d += 7 * n;
  }
  return ls;
}
#define EVAL( TAG ) \
extern "C" int n_rm_evaluate1_##TAG( const double* d, long long nl, double awr, double e, double* out ) { \
  try { XS( T1( manyL( d, nl ), awr, anyRange(), rm::TAG{}, ExtA{} )( ev( e ) ) ) return 0; } catch ( ... ) { return 1; } } \
extern "C" int n_rm_evaluate2_##TAG( const double* d, long long nl, double awr, double e, double* out ) { \
  try { XS( T2( manyL( d, nl ), awr, anyRange(), rm::TAG{}, ExtA{}, ExtAS{} )( ev( e ) ) ) return 0; } catch ( ... ) { return 1; } }
EVAL( Both ) EVAL( Neither ) EVAL( Channel ) EVAL( Scattering )
#endif
ENTRY( wavenumber, ( double awr, double e, double* out ), ( awr, e, out ), out[0] = rr::neutronWaveNumber( awr )( ev( e ) ).value; )
