#pragma once
// ENTRY: the call lowered to IR (h_*) and the same call compiled natively (n_*, returns 1 when it throws)
#ifdef IRVC
#define ENTRY( NAME, PARAMS, ARGS, ... ) extern "C" void h_##NAME PARAMS { __VA_ARGS__ }
#else
#define ENTRY( NAME, PARAMS, ARGS, ... ) \
  static void h_##NAME PARAMS { __VA_ARGS__ } \
  extern "C" int n_##NAME PARAMS { try { h_##NAME ARGS; return 0; } catch ( ... ) { return 1; } }
#endif

// storage for an object that is never destroyed
template< typename T > struct Slot {
  alignas( T ) unsigned char raw[ sizeof( T ) ];
  T* at() { return reinterpret_cast< T* >( raw ); }
};
// a vector whose elements are the caller's array (proofs: elements of symbolic number); never destroyed
template< typename T > struct Adopted : Slot< std::vector< T > > {
  Adopted( T* first, long long n ) {
    T** p = reinterpret_cast< T** >( this->raw );
    p[0] = first; p[1] = first + n; p[2] = first + n;
  }
};
// functions of which nothing is known (proofs: uninterpreted; natively: linear, set by the caller)
#ifdef IRVC
#define EXT( NAME ) extern "C" double ext_##NAME( double );
#else
#define EXT( NAME ) static double ext_##NAME##_c[2]; \
  extern "C" void n_set_##NAME( double a, double b ) { ext_##NAME##_c[0] = a; ext_##NAME##_c[1] = b; } \
  static double ext_##NAME( double e ) { return ext_##NAME##_c[0] + ext_##NAME##_c[1] * e; }
#endif
