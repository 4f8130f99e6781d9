// Evaluation of the Coulomb wave functions as a whole (see slice.cpp for the conventions)
#include "std.hpp"
#include "resonanceReconstruction.hpp"
namespace rm = njoy::resonanceReconstruction::rmatrix;

#ifdef IRVC
extern "C" void h_coulomb( int l, double rho, double eta, double* out ) {
  std::complex< double > gf; std::complex< double > dgf;
  rm::coulombWaveFunctions( l, rho, eta, gf, dgf );
  out[0] = gf.real(); out[1] = gf.imag(); out[2] = dgf.real(); out[3] = dgf.imag();
}
#else
// every allocation of the evaluation is counted; the program is also built with the address and undefined
// behaviour sanitizers and fed from standard input
static long balance = 0;
void* operator new( std::size_t n ) { ++balance; void* p = std::malloc( n ? n : 1 ); if ( !p ) throw std::bad_alloc(); return p; }
void* operator new[]( std::size_t n ) { ++balance; void* p = std::malloc( n ? n : 1 ); if ( !p ) throw std::bad_alloc(); return p; }
void operator delete( void* p ) noexcept { if ( p ) { --balance; std::free( p ); } }
void operator delete[]( void* p ) noexcept { if ( p ) { --balance; std::free( p ); } }
void operator delete( void* p, std::size_t ) noexcept { if ( p ) { --balance; std::free( p ); } }
void operator delete[]( void* p, std::size_t ) noexcept { if ( p ) { --balance; std::free( p ); } }

int main() {
  int l; double rho; double eta;
  while ( std::scanf( "%d %lf %lf", &l, &rho, &eta ) == 3 ) {
    std::printf( "> %d %.17g %.17g\n", l, rho, eta ); std::fflush( stdout );
    std::complex< double > gf; std::complex< double > dgf;
    long before = balance; int thrown = 0;
    try { rm::coulombWaveFunctions( l, rho, eta, gf, dgf ); } catch ( ... ) { thrown = 1; }
    std::printf( "< %d %ld %.17g %.17g %.17g %.17g\n", thrown, balance - before, gf.real(), gf.imag(), dgf.real(), dgf.imag() );
    std::fflush( stdout );
  }
  return 0;
}
#endif
