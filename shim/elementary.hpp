// Stand-in for njoy/elementary (not installed here): identifiers of particles, pairs and reactions.
// Only what the library relies on: identity, order, and the parts of a pair.
#ifndef VERIF_SHIM_ELEMENTARY
#define VERIF_SHIM_ELEMENTARY
#include <string>
#include <vector>
#include <tuple>
#include <map>

namespace njoy {
namespace elementary {

class ParticleID {
  int number_ = 0;
public:
  ParticleID() = default;
  explicit ParticleID( int number ) : number_( number ) {}
  ParticleID( const std::string& symbol ) : number_( code( symbol ) ) {}
  ParticleID( const char* symbol ) : ParticleID( std::string( symbol ) ) {}
  int number() const { return number_; }
#ifdef IRVC
  std::string symbol() const { return std::to_string( number_ ); }
  static int code( const std::string& ) { return 0; }            // the proofs use numbers
#else
  static std::map< int, std::string >& names() { static std::map< int, std::string > m; return m; }
  std::string symbol() const { return names().count( number_ ) ? names()[ number_ ] : std::to_string( number_ ); }
  static int code( std::string s ) {
    if ( s.size() > 3 and s.substr( s.size() - 3 ) == "_e0" ) s = s.substr( 0, s.size() - 3 );
    if ( s == "g" ) s = "photon";
    int n = s == "n" ? 1 : s == "photon" ? 0 : s == "p" ? 1001 : s == "a" ? 2004 : -1;
    if ( n < 0 ) {
      unsigned int h = 2166136261u;
      for ( char c : s ) h = ( h ^ (unsigned char) c ) * 16777619u;
      n = 10000 + int( h % 900000u );
    }
    names()[ n ] = s;
    return n;
  }
#endif
};
#define VERIF_ORDER( TYPE, KEY ) \
inline bool operator==( const TYPE& a, const TYPE& b ) { return a.KEY == b.KEY; } \
inline bool operator!=( const TYPE& a, const TYPE& b ) { return not ( a == b ); } \
inline bool operator<( const TYPE& a, const TYPE& b ) { return a.KEY < b.KEY; }
VERIF_ORDER( ParticleID, number() )

class ParticlePairID {
  ParticleID particle_;
  ParticleID residual_;
  int special_ = 0;                      // 1: fission, 2: capture
public:
  ParticlePairID() = default;
  ParticlePairID( const ParticleID& particle, const ParticleID& residual ) : particle_( particle ), residual_( residual ) {}
#ifdef IRVC
  explicit ParticlePairID( const std::string& name ) : special_( name == "fission" ? 1 : name == "capture" ? 2 : 3 ) {}
#else
  explicit ParticlePairID( const std::string& name ) :
    special_( name == "fission" ? 1 : name == "capture" ? 2 : name.find( ',' ) == std::string::npos ? 3 : 0 ) {
    if ( not special_ ) { particle_ = name.substr( 0, name.find( ',' ) ); residual_ = name.substr( name.find( ',' ) + 1 ); } }
#endif
  explicit ParticlePairID( const char* name ) : ParticlePairID( std::string( name ) ) {}
  const ParticleID& particle() const { return particle_; }
  const ParticleID& residual() const { return residual_; }
  std::string symbol() const {
    return special_ == 1 ? "fission" : special_ == 2 ? "capture" : particle_.symbol() + "," + residual_.symbol(); }
  std::tuple< int, int, int > key() const { return { special_, particle_.number(), residual_.number() }; }
};
VERIF_ORDER( ParticlePairID, key() )

class ReactionType {
  int mt_ = 0;
public:
  ReactionType() = default;
  explicit ReactionType( int mt ) : mt_( mt ) {}
  explicit ReactionType( const char* name ) : ReactionType( std::string( name ) ) {}
  explicit ReactionType( const std::string& name ) :
    mt_( name == "elastic" ? 2 : name == "capture" ? 102 : name == "fission" ? 18 : -1 ) {}
  int number() const { return mt_; }
  std::vector< ParticleID > particles() const {
    if ( mt_ == 102 ) return { ParticleID( 0 ) };
    if ( mt_ == 103 or ( mt_ >= 600 and mt_ < 650 ) ) return { ParticleID( 1001 ) };
    if ( mt_ == 107 or ( mt_ >= 800 and mt_ < 850 ) ) return { ParticleID( 2004 ) };
    return { ParticleID( 1 ) };
  }
};
VERIF_ORDER( ReactionType, number() )

// the residual of a reaction (level number in the last digits, as a number only)
inline ParticleID resolve( const ParticleID& incident, const ParticleID& target, const ReactionType& type ) {
  return ParticleID( 1000000 * type.number() + 1000 * incident.number() + target.number() );
}

class ReactionID {
  std::tuple< int, int, int, int, int, int > key_;
public:
  ReactionID() = default;
#ifndef IRVC
  // "a,b->c,d", "a,b->fission", "a,b->capture"
  explicit ReactionID( const std::string& s ) : ReactionID( pair( s.substr( 0, s.find( "->" ) ) ), pair( s.substr( s.find( "->" ) + 2 ) ) ) {}
  explicit ReactionID( const char* s ) : ReactionID( std::string( s ) ) {}
  static ParticlePairID pair( const std::string& s ) {
    const auto i = s.find( ',' );
    return i == std::string::npos ? ParticlePairID( s ) : ParticlePairID( ParticleID( s.substr( 0, i ) ), ParticleID( s.substr( i + 1 ) ) ); }
#endif
  ReactionID( const ParticleID& incident, const ParticleID& target, const ReactionType& type ) :
    key_( incident.number(), target.number(), type.number(), 0, 0, 0 ) {}
  ReactionID( const ParticlePairID& in, const ParticlePairID& out ) :
    key_( in == out ? std::tuple< int, int, int, int, int, int >{ in.particle().number(), in.residual().number(), 2, 0, 0, 0 }
        : out == ParticlePairID( "fission" ) ? std::tuple< int, int, int, int, int, int >{ in.particle().number(), in.residual().number(), 18, 0, 0, 0 }
        : out == ParticlePairID( "capture" ) ? std::tuple< int, int, int, int, int, int >{ in.particle().number(), in.residual().number(), 102, 0, 0, 0 }
        : std::tuple< int, int, int, int, int, int >{ in.particle().number(), in.residual().number(), -2,
                                                    0, out.particle().number(), out.residual().number() } ) {}
  const std::tuple< int, int, int, int, int, int >& key() const { return key_; }
  std::string symbol() const {
    const auto name = []( int n ) { return ParticleID( n ).symbol(); };
    const int type = std::get< 2 >( key_ );
    return name( std::get< 0 >( key_ ) ) + "," + name( std::get< 1 >( key_ ) ) + "->"
           + ( type == 2 ? name( std::get< 0 >( key_ ) ) + "," + name( std::get< 1 >( key_ ) )
             : type == 18 ? std::string( "fission" ) : type == 102 ? std::string( "capture" )
             : name( std::get< 4 >( key_ ) ) + "," + name( std::get< 5 >( key_ ) ) ); }
};
VERIF_ORDER( ReactionID, key() )
#undef VERIF_ORDER
}
}
#endif
