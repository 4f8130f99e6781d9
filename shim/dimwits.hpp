// Stand-in for njoy/dimwits (not installed here): quantities with compile-time units.
// A unit is a product of powers (stored in quarters) of kilogram, metre, second, coulomb, kelvin times
// 10^P * e^E * u^D with e = joules per electronvolt and u = kilograms per dalton, so that conversions
// between decimal multiples (barn, centimetre, metre) are exact.
#ifndef VERIF_SHIM_DIMWITS
#define VERIF_SHIM_DIMWITS
#include <cmath>
#include <cstdlib>
#include <iostream>
#include <type_traits>
#include <limits>

namespace dimwits {

namespace detail {
  constexpr double joulePerElectronVolt = 1.6021766208e-19;
  constexpr double kilogramPerDalton = 1.660539040e-27;
  constexpr double root( double x ) {
    if ( x == 0. ) return 0.;
    double s = 1.;
    while ( x > 4. ) { x /= 4.; s *= 2.; }
    while ( x < 1. ) { x *= 4.; s /= 2.; }
    double r = x;
    for ( int i = 0; i < 60; ++i ) r = 0.5 * ( r + x / r );
    return s * r;
  }
  constexpr double power( double x, int n ) {
    double r = 1.;
    for ( int i = 0; i < ( n < 0 ? -n : n ); ++i ) r *= x;
    return n < 0 ? 1. / r : r;
  }
  constexpr double quarter( double x, int n ) {      // x^(n/4)
    return n % 4 == 0 ? power( x, n / 4 ) : n % 2 == 0 ? power( root( x ), n / 2 ) : power( root( root( x ) ), n );
  }
}

template< int KG, int M, int S, int C, int K, int P, int E, int D >
struct Unit {};

using NoUnit = Unit< 0, 0, 0, 0, 0, 0, 0, 0 >;

template< int N, int D = 1 > struct RatioType {};
template< int N, int D = 1 > constexpr RatioType< N, D > Ratio{};

template< typename A, typename B > struct Product;
template< int a1, int a2, int a3, int a4, int a5, int a6, int a7, int a8,
          int b1, int b2, int b3, int b4, int b5, int b6, int b7, int b8 >
struct Product< Unit< a1, a2, a3, a4, a5, a6, a7, a8 >, Unit< b1, b2, b3, b4, b5, b6, b7, b8 > > {
  using type = Unit< a1 + b1, a2 + b2, a3 + b3, a4 + b4, a5 + b5, a6 + b6, a7 + b7, a8 + b8 >;
};
template< typename A, int N, int D > struct Power;
template< int a1, int a2, int a3, int a4, int a5, int a6, int a7, int a8, int N, int D >
struct Power< Unit< a1, a2, a3, a4, a5, a6, a7, a8 >, N, D > {
  static_assert( a1 * N % D == 0 and a2 * N % D == 0 and a3 * N % D == 0 and a4 * N % D == 0 and a5 * N % D == 0
                 and a6 * N % D == 0 and a7 * N % D == 0 and a8 * N % D == 0, "fractional unit" );
  using type = Unit< a1 * N / D, a2 * N / D, a3 * N / D, a4 * N / D, a5 * N / D, a6 * N / D, a7 * N / D, a8 * N / D >;
};
// the factor to convert a value in A to a value in B; only defined for units of the same dimension
template< typename A, typename B > struct Conversion : std::false_type {};
template< int k, int m, int s, int c, int t, int a6, int a7, int a8, int b6, int b7, int b8 >
struct Conversion< Unit< k, m, s, c, t, a6, a7, a8 >, Unit< k, m, s, c, t, b6, b7, b8 > > : std::true_type {
  static constexpr double factor = detail::quarter( 10., a6 - b6 )
                                   * detail::quarter( detail::joulePerElectronVolt, a7 - b7 )
                                   * detail::quarter( detail::kilogramPerDalton, a8 - b8 );
};

template< typename U > class Quantity;

template< typename T > struct IsQuantity : std::false_type {};
template< typename U > struct IsQuantity< Quantity< U > > : std::true_type {};
template< typename T > struct IsUnit : std::false_type {};
template< int a1, int a2, int a3, int a4, int a5, int a6, int a7, int a8 >
struct IsUnit< Unit< a1, a2, a3, a4, a5, a6, a7, a8 > > : std::true_type {};
template< typename T > using IfArithmetic = std::enable_if_t< std::is_arithmetic< T >::value >;

// a dimensionless quantity is a number
template< typename U, bool = Conversion< U, NoUnit >::value > struct ToNumber {};
template< typename U > struct ToNumber< U, true > {
  constexpr operator double() const {
    return std::is_same< U, NoUnit >::value ? static_cast< const Quantity< U >& >( *this ).value
         : static_cast< const Quantity< U >& >( *this ).value * Conversion< U, NoUnit >::factor; }
};

template< typename U >
class Quantity : public ToNumber< U > {
public:
  using Units = U;
  double value{};

  constexpr Quantity() = default;
  constexpr explicit Quantity( double v ) : value( v ) {}
  template< typename V, typename = std::enable_if_t< Conversion< V, U >::value > >
  constexpr Quantity( const Quantity< V >& other ) : value( convert< V >( other.value ) ) {}

  template< typename V > constexpr Quantity& operator+=( const Quantity< V >& o ) { value += Quantity( o ).value; return *this; }
  template< typename V > constexpr Quantity& operator-=( const Quantity< V >& o ) { value -= Quantity( o ).value; return *this; }
  template< typename T, typename = IfArithmetic< T > > constexpr Quantity& operator*=( T x ) { value *= x; return *this; }
  template< typename T, typename = IfArithmetic< T > > constexpr Quantity& operator/=( T x ) { value /= x; return *this; }
  constexpr Quantity operator-() const { return Quantity( -value ); }
  constexpr Quantity operator+() const { return *this; }

private:
  template< typename V > static constexpr double convert( double v ) {
    return std::is_same< U, V >::value ? v : v * Conversion< V, U >::factor;
  }
};

// quantity and quantity
template< typename U, typename V, typename = std::enable_if_t< Conversion< V, U >::value > >
constexpr Quantity< U > operator+( const Quantity< U >& a, const Quantity< V >& b ) { return Quantity< U >( a.value + Quantity< U >( b ).value ); }
template< typename U, typename V, typename = std::enable_if_t< Conversion< V, U >::value > >
constexpr Quantity< U > operator-( const Quantity< U >& a, const Quantity< V >& b ) { return Quantity< U >( a.value - Quantity< U >( b ).value ); }
template< typename U, typename V >
constexpr auto operator*( const Quantity< U >& a, const Quantity< V >& b ) { return Quantity< typename Product< U, V >::type >( a.value * b.value ); }
template< typename U, typename V >
constexpr auto operator/( const Quantity< U >& a, const Quantity< V >& b ) {
  return Quantity< typename Product< U, typename Power< V, -1, 1 >::type >::type >( a.value / b.value ); }
#define VERIF_COMPARE( OP ) \
template< typename U, typename V, typename = std::enable_if_t< Conversion< V, U >::value > > \
constexpr bool operator OP( const Quantity< U >& a, const Quantity< V >& b ) { return a.value OP Quantity< U >( b ).value; }
VERIF_COMPARE( == ) VERIF_COMPARE( != ) VERIF_COMPARE( < ) VERIF_COMPARE( <= ) VERIF_COMPARE( > ) VERIF_COMPARE( >= )
#undef VERIF_COMPARE

// quantity and number
template< typename U, typename T, typename = IfArithmetic< T > >
constexpr Quantity< U > operator*( const Quantity< U >& a, T x ) { return Quantity< U >( a.value * x ); }
template< typename U, typename T, typename = IfArithmetic< T > >
constexpr Quantity< U > operator*( T x, const Quantity< U >& a ) { return Quantity< U >( x * a.value ); }
template< typename U, typename T, typename = IfArithmetic< T > >
constexpr Quantity< U > operator/( const Quantity< U >& a, T x ) { return Quantity< U >( a.value / x ); }
template< typename U, typename T, typename = IfArithmetic< T > >
constexpr auto operator/( T x, const Quantity< U >& a ) { return Quantity< typename Power< U, -1, 1 >::type >( x / a.value ); }
template< typename U, typename T, typename = std::enable_if_t< std::is_arithmetic< T >::value and Conversion< U, NoUnit >::value > >
constexpr double operator+( const Quantity< U >& a, T x ) { return double( a ) + x; }
template< typename U, typename T, typename = std::enable_if_t< std::is_arithmetic< T >::value and Conversion< U, NoUnit >::value > >
constexpr double operator+( T x, const Quantity< U >& a ) { return x + double( a ); }
template< typename U, typename T, typename = std::enable_if_t< std::is_arithmetic< T >::value and Conversion< U, NoUnit >::value > >
constexpr double operator-( const Quantity< U >& a, T x ) { return double( a ) - x; }
template< typename U, typename T, typename = std::enable_if_t< std::is_arithmetic< T >::value and Conversion< U, NoUnit >::value > >
constexpr double operator-( T x, const Quantity< U >& a ) { return x - double( a ); }

// units with units, numbers and quantities
template< typename A, typename B, typename = std::enable_if_t< IsUnit< A >::value and IsUnit< B >::value > >
constexpr typename Product< A, B >::type operator*( const A&, const B& ) { return {}; }
template< typename A, typename B, typename = std::enable_if_t< IsUnit< A >::value and IsUnit< B >::value >, typename = void >
constexpr typename Product< A, typename Power< B, -1, 1 >::type >::type operator/( const A&, const B& ) { return {}; }
template< typename T, typename U, typename = std::enable_if_t< std::is_arithmetic< T >::value and IsUnit< U >::value >, typename = void, typename = void >
constexpr Quantity< U > operator*( T x, const U& ) { return Quantity< U >( double( x ) ); }
template< typename T, typename U, typename = std::enable_if_t< std::is_arithmetic< T >::value and IsUnit< U >::value >, typename = void, typename = void >
constexpr auto operator/( T x, const U& ) { return Quantity< typename Power< U, -1, 1 >::type >( double( x ) ); }
template< typename U, typename V, typename = std::enable_if_t< IsUnit< V >::value >, typename = void, typename = void, typename = void >
constexpr auto operator*( const Quantity< U >& a, const V& ) { return Quantity< typename Product< U, V >::type >( a.value ); }
template< typename U, typename V, typename = std::enable_if_t< IsUnit< V >::value >, typename = void, typename = void, typename = void >
constexpr auto operator/( const Quantity< U >& a, const V& ) { return Quantity< typename Product< U, typename Power< V, -1, 1 >::type >::type >( a.value ); }

template< typename U, int N, int D, typename = std::enable_if_t< IsUnit< U >::value > >
constexpr typename Power< U, N, D >::type pow( const U&, RatioType< N, D > ) { return {}; }
template< typename U, int N, int D >
auto pow( const Quantity< U >& a, RatioType< N, D > ) { return Quantity< typename Power< U, N, D >::type >( std::pow( a.value, double( N ) / D ) ); }
template< typename U >
auto sqrt( const Quantity< U >& a ) { return Quantity< typename Power< U, 1, 2 >::type >( std::sqrt( a.value ) ); }
template< typename U >
Quantity< U > abs( const Quantity< U >& a ) { return Quantity< U >( std::abs( a.value ) ); }

namespace unit {
  template< typename U, typename = std::enable_if_t< IsUnit< U >::value > >
  constexpr typename Power< U, 1, 2 >::type sqrt( const U& ) { return {}; }
}

template< typename U > std::ostream& operator<<( std::ostream& os, const Quantity< U >& a ) { return os << a.value; }

//                     kg  m   s  C  K    P  E  D
using Meter    = Unit< 0,  4,  0, 0, 0,   0, 0, 0 >;
using Second   = Unit< 0,  0,  4, 0, 0,   0, 0, 0 >;
using Gram     = Unit< 4,  0,  0, 0, 0, -12, 0, 0 >;
using Coulomb  = Unit< 0,  0,  0, 4, 0,   0, 0, 0 >;
using Kelvin   = Unit< 0,  0,  0, 0, 4,   0, 0, 0 >;
using Barn     = Unit< 0,  8,  0, 0, 0,-112, 0, 0 >;
using Joule    = Unit< 4,  8, -8, 0, 0,   0, 0, 0 >;
using ElectronVolt = Unit< 4, 8, -8, 0, 0, 0, 4, 0 >;
using Dalton   = Unit< 4,  0,  0, 0, 0,   0, 0, 4 >;
using Farad    = Unit< -4, -8, 8, 8, 0,   0, 0, 0 >;   // C^2 / J
#define VERIF_NAMES( TYPE, NAME ) using TYPE##s = TYPE; constexpr TYPE NAME{}; constexpr TYPE NAME##s{};
VERIF_NAMES( Meter, meter ) VERIF_NAMES( Second, second ) VERIF_NAMES( Gram, gram ) VERIF_NAMES( Coulomb, coulomb )
VERIF_NAMES( Kelvin, kelvin ) VERIF_NAMES( Barn, barn ) VERIF_NAMES( Joule, joule ) VERIF_NAMES( ElectronVolt, electronVolt )
VERIF_NAMES( Dalton, dalton ) VERIF_NAMES( Farad, farad )
#undef VERIF_NAMES

template< int P, typename U > using Scaled = typename Product< Unit< 0, 0, 0, 0, 0, 4 * P, 0, 0 >, U >::type;
#define VERIF_PREFIX( NAME, TYPE, P ) \
template< typename U, typename = std::enable_if_t< IsUnit< U >::value > > constexpr Scaled< P, U > NAME( const U& ) { return {}; } \
template< typename U > using TYPE = Scaled< P, U >;
VERIF_PREFIX( centi, Centi, -2 ) VERIF_PREFIX( milli, Milli, -3 ) VERIF_PREFIX( femto, Femto, -15 )
VERIF_PREFIX( kilo, Kilo, 3 ) VERIF_PREFIX( mega, Mega, 6 )
#undef VERIF_PREFIX

namespace constant {
  constexpr Quantity< Product< Joule, Second >::type > dirac( 1.054571800e-34 );
  constexpr Quantity< Coulomb > elementaryCharge( 1.6021766208e-19 );
}
}

namespace std {
  template< typename U > dimwits::Quantity< U > abs( const dimwits::Quantity< U >& a ) { return dimwits::abs( a ); }
  template< typename U > auto sqrt( const dimwits::Quantity< U >& a ) { return dimwits::sqrt( a ); }
}
#endif
