// Stand-in for njoy/interpolation (not installed here): one-dimensional tables with the ENDF
// interpolation laws; outside of the table an exception is thrown.
#ifndef VERIF_SHIM_INTERPOLATION
#define VERIF_SHIM_INTERPOLATION
#include <algorithm>
#include <cmath>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace interpolation {

struct Histogram { template< typename X, typename Y >
  static Y apply( X, X, X, Y yl, Y ) { return yl; } };
struct LinearLinear { template< typename X, typename Y >
  static Y apply( X x, X xl, X xr, Y yl, Y yr ) { return yl + ( yr - yl ) * double( ( x - xl ) / ( xr - xl ) ); } };
struct LinearLogarithmic { template< typename X, typename Y >     // y linear in ln(x)
  static Y apply( X x, X xl, X xr, Y yl, Y yr ) { return yl + ( yr - yl ) * ( std::log( double( x / xl ) ) / std::log( double( xr / xl ) ) ); } };
struct LogarithmicLinear { template< typename X, typename Y >     // ln(y) linear in x
  static Y apply( X x, X xl, X xr, Y yl, Y yr ) { return yl * std::exp( std::log( double( yr / yl ) ) * double( ( x - xl ) / ( xr - xl ) ) ); } };
struct LogarithmicLogarithmic { template< typename X, typename Y >
  static Y apply( X x, X xl, X xr, Y yl, Y yr ) {
    return yl * std::exp( std::log( double( yr / yl ) ) * std::log( double( x / xl ) ) / std::log( double( xr / xl ) ) ); } };

namespace table {
  namespace search { struct Binary {}; }
  namespace discontinuity { struct TakeLeft {}; }
  namespace left { namespace interval { struct Throws {}; } }
  namespace right { namespace interval { struct Throws {}; } }

  template< typename Law, typename Search, typename Discontinuity, typename X, typename Y >
  class Type {
    X x_;
    Y y_;
  public:
    Type( X&& x, Y&& y ) : x_( std::move( x ) ), y_( std::move( y ) ) {
      if ( x_.size() != y_.size() or x_.size() < 2 ) throw std::runtime_error( "table of unequal or too short arrays" ); }
    auto low() const { return *( x_.begin() ); }
    auto high() const { return *( x_.begin() + ( x_.size() - 1 ) ); }
    template< typename E > auto operator()( const E& x ) const {
      if ( x < low() or x > high() ) throw std::out_of_range( "outside of the table" );
      std::size_t k = 1;
      while ( k + 1 < x_.size() and *( x_.begin() + k ) < x ) ++k;
      return Law::apply( x, E( *( x_.begin() + ( k - 1 ) ) ), E( *( x_.begin() + k ) ),
                         *( y_.begin() + ( k - 1 ) ), *( y_.begin() + k ) );
    }
  };
  template< typename... Ts > class Variant {
    std::variant< Ts... > core_;
  public:
    template< typename T, typename = std::enable_if_t< ( std::is_same< std::decay_t< T >, Ts >::value or ... ) > >
    Variant( T&& t ) : core_( std::forward< T >( t ) ) {}
    auto low() const { return std::visit( []( const auto& t ) { return t.low(); }, core_ ); }
    auto high() const { return std::visit( []( const auto& t ) { return t.high(); }, core_ ); }
    template< typename E > auto operator()( const E& x ) const { return std::visit( [&]( const auto& t ) { return t( x ); }, core_ ); }
  };
  template< typename T > class Vector {
    std::vector< T > core_;
  public:
    Vector( std::vector< T >&& tables ) : core_( std::move( tables ) ) {
      if ( core_.empty() ) throw std::runtime_error( "no tables" ); }
    auto low() const { return core_.front().low(); }
    auto high() const { return core_.back().high(); }
    template< typename E > auto operator()( const E& x ) const {
      std::size_t k = 0;
      while ( k + 1 < core_.size() and core_[ k ].high() < x ) ++k;
      return core_[ k ]( x );
    }
  };
}

template< typename Core, typename... Options >
class Table : public Core { public: using Core::Core; };

namespace table {
  template< typename Law, typename X, typename Y >
  Table< Type< Law, search::Binary, discontinuity::TakeLeft, std::decay_t< X >, std::decay_t< Y > >,
         left::interval::Throws, right::interval::Throws > make( X&& x, Y&& y ) { return { std::move( x ), std::move( y ) }; }
}
}
#endif
