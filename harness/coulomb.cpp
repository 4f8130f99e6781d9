// Entry points for the internals of the Coulomb wave functions (see slice.cpp for the conventions)
#include "std.hpp"
#include "resonanceReconstruction.hpp"
namespace rm = njoy::resonanceReconstruction::rmatrix;

#ifdef IRVC
#define ENTRY( NAME, PARAMS, ARGS, ... ) extern "C" void h_##NAME PARAMS { __VA_ARGS__ }
#else
#define ENTRY( NAME, PARAMS, ARGS, ... ) \
  static void h_##NAME PARAMS { __VA_ARGS__ } \
  extern "C" int n_##NAME PARAMS { try { h_##NAME ARGS; return 0; } catch ( ... ) { return 1; } }
#endif

ENTRY( omG, ( int l, double eta, double rho, double a, double b, double* out ), ( l, eta, rho, a, b, out ),
       out[0] = rm::omGfunction( l, eta, rho, a, b ); )
ENTRY( omF, ( int l, double eta, double rho, double a, double b, double* out ), ( l, eta, rho, a, b, out ),
       out[0] = rm::omFfunction( l, eta, rho, a, b ); )
ENTRY( omD, ( int l, double eta, double rho, double a, double b, double* out ), ( l, eta, rho, a, b, out ),
       out[0] = rm::omDfunction( l, eta, rho, a, b ); )
ENTRY( case1, ( double rho, double eta, double* out ), ( rho, eta, out ),
       rm::omGcase1( rho, eta, out, out + 1 ); )
ENTRY( case2, ( double eta, double* out ), ( eta, out ),
       rm::omGcase2( eta, out, out + 1 ); )
ENTRY( case3, ( double rho, double eta, double sigma, double* out ), ( rho, eta, sigma, out ),
       rm::omGcase3( rho, eta, sigma, out, out + 1 ); )
ENTRY( case4, ( double rho, double eta, double* out ), ( rho, eta, out ),
       rm::omGcase4( rho, eta, out, out + 1 ); )
ENTRY( newmark, ( int n, double h, double eta, double rho, double g, double d, double* out ), ( n, h, eta, rho, g, d, out ),
       out[0] = g; out[1] = d; rm::omNewmark( n, h, eta, rho, out, out + 1 ); )
ENTRY( asymptotic, ( double rho, double eta, double sigma, double* out ), ( rho, eta, sigma, out ),
       rm::omAsymptotic( rho, eta, sigma, out, out + 1 ); )
#ifdef IRVC
extern "C" int h_external( int lmax, double rho, double eta, double sigma, std::complex< double >* w, std::complex< double >* d ) {
  return rm::omExternalFunction( lmax, rho, eta, sigma, w, d ); }
#endif
