"""the planted bugs (python3 tools/seeds.py [id...] plants those that are not kept yet)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
S = "src/resonanceReconstruction/"
R = S + "rmatrix/src/"
ALL = []
def s(*a, **k): ALL.append((a, k))

s("pen-asymptote", "C01", [(R + "calculatePenetrability.hpp",
 "  double squared = ratio * ratio;\n  switch ( l ) {\n\n    case 0 : return ratio;\n    case 1 : return ratio * squared / ( 1. + squared );",
 "  double squared = ratio * ratio;\n  if ( squared > 1.0e+8 ) {\n\n    // far above the barrier\n    return ratio;\n  }\n  switch ( l ) {\n\n    case 0 : return ratio;\n    case 1 : return ratio * squared / ( 1. + squared );")],
 "  ok( throws( [] { rm::calculatePenetrability< rm::Neutron >( 5, 2.0e+4, 0. ); } ) );\n  ok( throws( [] { rm::calculatePenetrability< rm::Neutron >( 7, 2.0e+5, 0. ); } ) );",
 "l > 4 together with rho > 1e4", "an unsupported l returns a number instead of throwing when rho is large")

s("shift-low-energy", "C02", [(R + "calculateShiftFactor.hpp",
 "  double squared = ratio * ratio;\n  switch ( l ) {\n\n    case 0 : return 0.;",
 "  double squared = ratio * ratio;\n  if ( l < 5 && squared < 1.0e-9 ) {\n\n    // low energy limit\n    return l == 4 ? -4. + squared / 9. : -static_cast< double >( l );\n  }\n  switch ( l ) {\n\n    case 0 : return 0.;")],
 "  double r = 3.0e-5; double x = r * r;\n  near( rm::calculateShiftFactor< rm::Neutron >( 1, r, 0. ), -1. / ( 1. + x ), 1e-13 );",
 "rho below 3e-5", "the shift factor is cut off to its low energy limit, off by a relative 1e-9 just below the cut")

s("phase-branch", "C03", [(R + "calculatePhaseShift.hpp",
 "    case 1 : return ratio - std::atan( ratio );",
 "    case 1 : return ratio - ( squared > 1.0e+6 ? std::acos( 0. ) - 1. / ratio : std::atan( ratio ) );")],
 "  double r = -2.0e+3;\n  near( rm::calculatePhaseShift< rm::Neutron >( 1, r, 0. ), r - std::atan( r ), 1e-12 );\n  near( rm::calculatePhaseShift< rm::Neutron >( 1, 2., 0. ), 2. - std::atan( 2. ), 1e-12 );",
 "l = 1 and a large negative rho", "an asymptotic shortcut ignores the sign of rho")

s("ps-negative-l", "C04", [(S + "src/penetrationShift.hpp",
 "   explicit PenetrationShift(const int ell) : L(ell) { }",
 "   explicit PenetrationShift(const int ell) : L(ell < 0 ? -ell - 1 : ell) { }")],
 "  ok( throws( [] { rr::penetrationShift( -1, 1.0 ); } ) );\n  ok( throws( [] { rr::penetrationShift( -3, 1.0 ); } ) );\n  ok( throws( [] { rr::penetrationShift( 5, 1.0 ); } ) );",
 "a negative angular momentum between -5 and -1", "negative l is mapped on the analytic continuation instead of being rejected")

s("ps-zero", "C04", [(S + "src/penetrationShift.hpp",
 "(channelRatio > 0)*channelRatio*a/r", "std::abs(channelRatio)*a/r")],
 "  ok( rr::penetrationShift( 1, -2.0 )[0] == 0. );\n  ok( rr::penetrationShift( 0, -0.5 )[0] == 0. );\n  near( rr::penetrationShift( 0, 0.5 )[0], 0.5, 1e-12 );",
 "a negative channel ratio (below threshold)", "the penetrability below threshold is not zero")

s("nobarrier-fission", "C05", [(R + "calculatePenetrability.hpp",
 "double calculatePenetrability( const unsigned int, const double, const double ) {\n\n  return 1.0;",
 "double calculatePenetrability( const unsigned int, const double ratio, const double ) {\n\n  return ratio > 0. ? 1.0 : 0.0;")],
 "  near( rm::calculatePenetrability< rm::Fission >( 0, 0., 0. ), 1., 1e-15 );\n  near( rm::calculatePenetrability< rm::Photon >( 1, 0., 0. ), 1., 1e-15 );\n  near( rm::calculatePenetrability< rm::Photon >( 1, 1., 0. ), 1., 1e-15 );",
 "a photon or fission channel evaluated with rho <= 0", "eliminated and fission channels get a barrier at zero wave number")

s("charged-deep", "C06", [(R + "calculatePenetrability.hpp",
 "return ( F == 0. ) and ( G == 0. ) ? 0. :", "return std::abs( F ) < 1.0e-12 ? 0. :")],
 """  std::complex< double > gf, dgf;
  rm::coulombWaveFunctions( 8, 0.5, 1., gf, dgf );
  near( rm::calculatePenetrability< rm::ChargedParticle >( 8, 0.5, 1. ), 0.5 / std::norm( gf ), 1e-10 );
  rm::coulombWaveFunctions( 10, 0.1, 1., gf, dgf );
  near( rm::calculatePenetrability< rm::ChargedParticle >( 10, 0.1, 1. ), 0.1 / std::norm( gf ), 1e-10 );
""",
 "a charged channel far below its barrier", "the small but nonzero penetrability is cut to zero")

s("charged-shift-zero", "C06", [(R + "calculateShiftFactor.hpp",
 "  return ( F == 0. ) and ( G == 0. )\n           ? 0.\n           : ratio / ( F * F + G * G ) * ( F * dF + G * dG );",
 "  if ( ( F == 0. ) and ( G == 0. ) ) { return 0.; }\n  // one of both dominates\n  if ( std::abs( G ) > 1.0e+5 * std::abs( F ) ) { return ratio * dG / G; }\n  if ( std::abs( F ) > 1.0e+3 * std::abs( G ) ) { return ratio * dG / G; }\n  return ratio / ( F * F + G * G ) * ( F * dF + G * dG );")],
 """  // a zero of G
  std::complex< double > gf, dgf;
  double a = 2.0, b = 2.0;
  auto G = [&] ( double r ) { rm::coulombWaveFunctions( 0, r, 0., gf, dgf ); return gf.real(); };
  a = 1.0; b = 2.0;
  for ( int i = 0; i < 60; ++i ) { double m = 0.5 * ( a + b ); if ( G( m ) * G( a ) > 0. ) { a = m; } else { b = m; } }
  double r = a + 1e-6;
  rm::coulombWaveFunctions( 0, r, 0., gf, dgf );
  double s = r * ( gf.imag() * dgf.imag() + gf.real() * dgf.real() ) / std::norm( gf );
  ok( std::abs( rm::calculateShiftFactor< rm::ChargedParticle >( 0, r, 0. ) - s ) < 1e-6 );
""",
 "rho within about 1e-3 of a zero of G", "the shift factor diverges near the zeros of G")

s("coulomb-turning", "C07", [(R + "coh3-asympt.hpp",
 "      if(rm<=5.0*coulomb/3.0-5.0){", "      if(rm<=2.0*coulomb-5.0){")],
 """  std::complex< double > gf, dgf;
  // eta = 20, rho = 34.5: G_0 from an independent high precision evaluation
  rm::coulombWaveFunctions( 0, 34.5, 20., gf, dgf );
  near( gf.real(), 7.04149909212647, 2e-6 );
""",
 "eta >= 15 and rho between 5/3 eta - 5 and 2 eta - 5", "the expansion below the turning point is used too close to it")

s("coulomb-airy", "C07", [(R + "coh3-asympt.hpp",
 "-0.003581214850 *pow(y,- 8.0/3.0)", "-0.003581214850 *pow(y,- 8./3)".replace("8./3", "10.0/3.0"))],
 """  std::complex< double > gf, dgf;
  rm::coulombWaveFunctions( 0, 10., 5., gf, dgf );
  near( dgf.real(), -0.509318942457823, 1e-5 );
""",
 "eta between 5 and 15 below the turning point, largest at eta = 5", "one exponent of the expansion at the turning point is wrong: G' is off by some 1e-5")

s("coulomb-edge", "C14", [(R + "coh3-extwave.hpp",
 "      if(l <= lmax+2) wfn[l-1].imag(p3);", "      if(l <= lmax+3) wfn[l-1].imag(p3);")],
 """  // a table with a guard element behind it, as large as the library allocates
  std::vector< std::complex< double > > w( rm::MAX_L + 2, { 0., 7. } ), d( rm::MAX_L + 2, { 0., 7. } );
  rm::omExternalFunction( 58, 20., 0., 0., w.data(), d.data() );
  ok( w[ rm::MAX_L ].imag() == 7. && d[ rm::MAX_L ].imag() == 7. );
  rm::omExternalFunction( 20, 20., 0., 0., w.data(), d.data() );
  ok( w[ rm::MAX_L ].imag() == 7. && d[ rm::MAX_L ].imag() == 7. );
""",
 "l = 58, or any l where rho is so large that the recurrence runs to the last order", "one element is written behind the table of wave functions")

s("coulomb-giveup", "C14", [(R + "coh3-extwave.hpp",
 "    if(l0 > MAX_L0){\n      Log::error( \"angular momentum too large {}\", l0 );\n      throw std::exception();\n    }\n  }while(flag);",
 "    // l0 cannot be raised any further\n    if(l0 > MAX_L0) break;\n  }while(flag);")],
 """  std::complex< double > gf, dgf;
  try { rm::coulombWaveFunctions( 2, 1e-6, 30., gf, dgf );
    double W = dgf.imag() * gf.real() - dgf.real() * gf.imag();
    ok( std::abs( W - 1. ) < 1e-5 || ( gf == 0. && dgf == 0. ) ); } catch ( ... ) {}
  rm::coulombWaveFunctions( 2, 5., 1., gf, dgf );
  near( dgf.imag() * gf.real() - dgf.real() * gf.imag(), 1., 1e-5 );
""",
 "rho, eta for which the recurrence does not converge", "values that fail the Wronskian are returned instead of an exception")

s("coulomb-phase-int", "C08", [(R + "calculateCoulombPhaseShift.hpp",
 "ranges::view::indices( 1, l + 1 )", "ranges::view::indices( 1, static_cast< int >( static_cast< std::int8_t >( l + 1 ) ) )")],
 "  double a = rm::calculateCoulombPhaseShift< rm::ChargedParticle >( 200, 0.7 ), b = rm::calculateCoulombPhaseShift< rm::ChargedParticle >( 199, 0.7 );\n  near( a - b, 1. / std::tan( 0.7 / 200 ), 1e-6 );\n",
 "l >= 127", "the upper limit of the sum wraps around")

s("spin-guard", "C09", [(R + "possibleChannelSpinValues.hpp",
 "  while ( max > values.back() ) {", "  while ( max > values.back() && values.size() < 16 ) {")],
 "  ok( rm::possibleChannelSpinValues( 8.0, 8.5 ).size() == 17 );\n  ok( rm::possibleChannelSpinValues( 0.5, 8.5 ).size() == 2 );",
 "both spins above 7.5", "channel spins above the sixteenth are dropped")

s("J-unsigned", "C10", [(R + "possibleChannelTotalAngularMomentumValues.hpp",
 "  TotalAngularMomentum min = std::abs(l - s);", "  TotalAngularMomentum min = s == std::floor( s ) && l + 1 < s ? static_cast< double >( static_cast< unsigned char >( l - static_cast< int >( s ) ) ) : std::abs(l - s);")],
 "  auto v = rm::possibleChannelTotalAngularMomentumValues( 1, 4.0 );\n  ok( v.size() == 3 && v.front() == 3. && v.back() == 5. );",
 "an integer channel spin larger than l + 1", "|l-s| computed modulo 256: the whole list is one wrong value")

s("qn-text", "C11", [(S + "rmatrix/ChannelQuantumNumbers/src/toString.hpp",
 "std::to_string( static_cast<int>( half ) ) :", "std::to_string( static_cast<int>( static_cast< signed char >( half ) ) ) :")],
 "  ok( rm::ChannelQuantumNumbers( 0, 0., 200., 1 ).toString() == \"{0,0,200+}\" );\n  ok( rm::ChannelQuantumNumbers( 0, 0., 2., 1 ).toString() == \"{0,0,2+}\" );",
 "an integer spin above 127", "distinct quantum numbers share a text")

s("horner-zero", "C12", [(R + "horner.hpp", "    y *= x;\n    y += *first;", "    if ( y == Y{} ) { y = *first; if ( y == Y{} ) { return y; } continue; }\n    y *= x;\n    y += *first;")],
 "  double c[] = { 0., 0., 3., 1. };\n  near( rm::horner( c, c + 4, 2. ), 7., 1e-15 );\n  double d[] = { 1., 2. }; near( rm::horner( d, d + 2, 2. ), 4., 1e-15 );",
 "two successive zero partial results", "a polynomial with leading zero coefficients is cut to zero")

s("pack-mul", "C13", [(S + "pack.hpp",
 "      return pack((std::get<Is>(data) * value)...);", "      return pack((std::get<Is>(data) * static_cast< std::decay_t< decltype(std::get<Is>(data)) > >(value))...);")],
 "  auto r = ( rr::pack( 3, 2.0 ) * 0.5 ).data;\n  near( std::get<0>( r ), 1.5, 1e-15 ); near( std::get<1>( r ), 1., 1e-15 );",
 "a pack with an integer element times a fractional scalar", "the scalar is truncated to the element's type")

BWTOP = """namespace bw = rr::breitWigner;
using Res = bw::resonance::Type; using Lv = bw::lvalue::Type;
// s wave, single level: sin^2 phi + sum of the resonances
static void slbw( double e, std::vector< Res > rs, double r[3] ) {
  const Lv L( std::move( rs ), 1, 0. );
  auto v = static_cast< const bw::singleLevel::Lvalue& >( L )( ev( e ), bw::psiChi( ev( e ) ), 0.3, 0.3, []( eV x ) { return 0.1; } ).data;
  r[0] = std::get<0>( v ); r[1] = std::get<1>( v ); r[2] = std::get<2>( v ); }
"""
s("slbw-bound-shift", "C15", [(S + "breitWigner/singleLevel/Resonance/src/call.hpp",
 "  const auto primedResonanceEnergy =\n    this->energy\n    + 0.5 * weightedWidth * ( this->shiftFactor - shiftFactor );",
 "  // a bound level has no shift\n  const auto primedResonanceEnergy =\n    this->energy.value < 0. ? this->energy\n    : this->energy + 0.5 * weightedWidth * ( this->shiftFactor - shiftFactor );")],
 """  for ( double er : { 4., -4. } ) {
    double r[3]; slbw( 2., { Res( ev( er ), ev( 1.5 ), ev( .2 ), ev( .1 ), ev( 0. ), .05, -.9, .25 ) }, r );
    double x = .09, p = .3 * x / ( 1 + x ), s = -1 / ( 1 + x ), gn = 1.5 / .05 * p, t = gn + .3, ep = er + .5 * 1.5 / .05 * ( -.9 - s ), z = 2 * ( 2. - ep ) / t;
    near( r[1], .25 * gn / t / ( 1 + z * z ) * .2 / t, 1e-10 );
    near( r[2], .25 * gn / t / ( 1 + z * z ) * .1 / t, 1e-10 );
  }""",
 "a bound level (negative resonance energy) with l > 0", "the level shift is left out below zero energy", full=True, top=BWTOP)

MLTOP = """namespace bw = rr::breitWigner;
using Res = bw::resonance::Type; using Lv = bw::lvalue::Type;
static double mlbw( double e, double I, std::vector< Res > rs ) {
  const Lv L( std::move( rs ), 0, I );
  return std::get<0>( static_cast< const bw::multiLevel::Lvalue& >( L )( ev( e ), bw::psiChi( ev( e ) ), 0.3, 0.3, I, []( eV x ) { return 0.1; } ).data ); }
static double ref( double e, double I, std::vector< std::array< double, 2 > > rs ) {   // energy, J; all Gn = .5 at p = .3, Gg = .2
  double sum = 0.;
  for ( double J : { I - .5, I + .5 } ) {
    std::complex< double > q = 1.;
    for ( auto& r : rs ) if ( r[1] == J ) q += std::complex< double >( 0., .5 ) / std::complex< double >( r[0] - e, -.35 );
    sum += ( 2 * J + 1 ) / ( 4 * I + 2 ) * std::norm( 1. - std::polar( 1., -.6 ) * q ) / 4;
  }
  return sum; }
static void pair( double e, double I, double J0, double J1 ) {
  auto r = [&]( double er, double J ) { return Res( ev( er ), ev( .5 ), ev( .2 ), ev( 0. ), ev( 0. ), .3, 0., ( 2 * J + 1 ) / ( 4 * I + 2 ) ); };
  near( mlbw( e, I, { r( 5., J0 ), r( 5.8, J1 ) } ), ref( e, I, { { 5., J0 }, { 5.8, J1 } } ), 1e-9 ); }
"""
s("mlbw-tolerance", "C16", [(S + "breitWigner/multiLevel/Lvalue/src/evaluate.hpp",
 "        return reference.statisticalFactor == trial.statisticalFactor;",
 "        return std::abs( reference.statisticalFactor - trial.statisticalFactor ) < 0.1;")],
 "  pair( 5.3, .5, 0., 1. ); pair( 5.3, 3.5, 3., 4. ); pair( 5.3, 3.5, 4., 4. ); pair( 5.3, 5.5, 5., 6. );",
 "two J values whose statistical factors differ by less than 0.1 (target spin of 9/2 or more)", "resonances of different J interfere", full=True, top=MLTOP)

RMTOP = """namespace rm = rr::reichMoore;
struct Lv : rm::Lvalue { using rm::Lvalue::Lvalue; };
static double sq( double x ) { return x < 0 ? -std::sqrt( -x ) : std::sqrt( x ); }
using Res = rm::Resonance;
static double total( double e, std::vector< std::array< double, 2 > > rs ) {     // energy, flagged statistical factor; p wave
  std::vector< Res > v;
  for ( auto& r : rs ) v.push_back( Res( ev( r[0] ), ev( .5 ), ev( .2 ), ev( 0. ), ev( 0. ), .2, r[1] ) );
  auto d = Lv( std::move( v ), 1 )( ev( e ), .3, .3 ).data;
  return std::get<0>( d ) + std::get<1>( d ); }
static double ref( double e, std::vector< std::array< double, 2 > > rs ) {
  double rho = .3, p = rho * rho * rho / ( 1 + rho * rho ), phi = rho - std::atan( rho ), gn = .5 * p / .2;
  std::map< double, std::complex< double > > R;
  for ( auto& r : rs ) R[ r[1] ] += std::complex< double >( 0., -.5 ) * gn / std::complex< double >( r[0] - e, -.1 ) ;
  double sum = 0., g = 0.;
  for ( auto& j : R ) { auto U = std::polar( 1., -2 * phi ) * ( 2. / ( 1. + j.second ) - 1. );
    sum += 2 * std::abs( j.first ) * ( 1. - U.real() ); g += std::abs( j.first ); }
  double s = std::sin( phi );
  return sum + ( 3. - g ) * 4 * s * s; }
"""
s("rm-channel-spin", "C17", [(S + "reichMoore/Lvalue/src/call.hpp",
 "        return left.flaggedStatisticalFactor == right.flaggedStatisticalFactor;",
 "        return std::abs( left.flaggedStatisticalFactor )\n               == std::abs( right.flaggedStatisticalFactor );")],
 "  near( total( 5.3, { { 5., .25 }, { 5.8, .75 } } ), ref( 5.3, { { 5., .25 }, { 5.8, .75 } } ), 1e-9 );\n"
 "  near( total( 5.3, { { 5., .75 }, { 5.8, .75 } } ), ref( 5.3, { { 5., .75 }, { 5.8, .75 } } ), 1e-9 );\n"
 "  near( total( 5.3, { { 5., -.75 }, { 5.8, .75 } } ), ref( 5.3, { { 5., -.75 }, { 5.8, .75 } } ), 1e-9 );",
 "two neighbouring groups with the same J but different channel spins (AJ given with opposite signs)", "resonances of the two channel spins interfere", full=True, top=RMTOP)

s("wave-closed", "C18", [(S + "src/neutronWaveNumber.hpp",
 "      return constant * sqrt(std::abs(energy));",
 "      return constant * sqrt(energy.value > 0. ? energy : 0. * energy);")],
 "  near( rr::neutronWaveNumber( 10. )( ev( 4. ) ).value, 2.196771e-3 * 10. / 11. * 2., 1e-4 );\n"
 "  near( rr::neutronWaveNumber( 10. )( ev( -4. ) ).value, 2.196771e-3 * 10. / 11. * 2., 1e-4 );",
 "a negative energy (competitive channel below its threshold)", "the wave number is zero below threshold", full=True)

RMT = r"""
static inline rr::ReducedWidth rw( double x ) { return x * rr::rootElectronVolts; }
static inline rm::Particle particle( int id, double m, double z, double s ) {
  return rm::Particle( rm::ParticleID( id ), m * daltons, z * constant::elementaryCharge, s, +1 ); }
static inline rm::ParticlePair incident() {
  return rm::ParticlePair( particle( 1, 1.00866491582, 0., .5 ), particle( 92235, 235., 92., 3.5 ), rm::ParticlePairID( rm::ParticleID( 1 ), rm::ParticleID( 92235 ) ) ); }
static inline rm::Channel< rm::Neutron > elastic( unsigned int l, double s, double J, rm::ChannelRadii r ) {
  return rm::Channel< rm::Neutron >( incident(), incident(), ev( 0. ), rm::ChannelQuantumNumbers( l, s, J, +1 ), r, 0. ); }
static inline rm::ChannelRadii radius( double r ) { return rm::ChannelRadii( r * rr::rootBarn ); }
static inline rm::ReactionID reaction( const char* t ) { return rm::ReactionID( rm::ParticleID( 1 ), rm::ParticleID( 92235 ), njoy::elementary::ReactionType( t ) ); }
static double k2( double e ) { const double k = elastic( 0, 3., 3., radius( 1. ) ).waveNumber( ev( e ) ).value; return k * k; }
static double phi( unsigned int l, double e, double r ) { return rm::calculatePhaseShift< rm::Neutron >( l, std::sqrt( k2( e ) ) * r, 0. ); }
"""

s("channel-phase-radius", "C19", [(S + "rmatrix/Channel/src/phaseShift.hpp",
 "                       this->radii().phaseShiftRadius( energy );",
 "                       this->radii().shiftFactorRadius( energy );")],
 "  const double k = std::sqrt( k2( 3.e+4 ) );\n"
 "  near( elastic( 1, 3., 3., radius( .9 ) ).phaseShift( ev( 3.e+4 ) ), rm::calculatePhaseShift< rm::Neutron >( 1, k * .9, 0. ), 1e-9 );\n"
 "  near( elastic( 1, 3., 3., rm::ChannelRadii( .8 * rr::rootBarn, 1. * rr::rootBarn ) ).phaseShift( ev( 3.e+4 ) ), rm::calculatePhaseShift< rm::Neutron >( 1, k, 0. ), 1e-9 );",
 "a true radius that differs from the effective radius", "phase shifts are evaluated at the radius of the shift factor", full="rm", top=RMT)

s("rm-one-incident", "C20", [(S + "rmatrix/SpinGroup/src/evaluate.hpp",
 "  // process the incident channels\n  ranges::for_each( this->incident_, processIncidentChannel );",
 "  // process the incident channels\n  processIncidentChannel( this->incident_.front() );")],
 "  const auto one = elastic( 0, 3., 3., radius( .9 ) ); const auto two = elastic( 2, 4., 3., radius( .9 ) );\n"
 "  const auto i1 = one.channelID(); const auto i2 = two.channelID(); std::map< rm::ReactionID, rr::CrossSection > x, y;\n"
 "  using G = rm::SpinGroup< rm::ReichMoore, rm::ShiftFactor >; const double e = 1.2e+5;\n"
 "  G g( std::vector< rm::ParticleChannel >{ one }, rm::ResonanceTable( { i1 }, { rm::Resonance( ev( 1.3e+5 ), { rw( 5. ) }, rw( 1. ) ) } ) );\n"
 "  G h( std::vector< rm::ParticleChannel >{ one, two }, rm::ResonanceTable( { i1, i2 }, { rm::Resonance( ev( 1.3e+5 ), { rw( 5. ), rw( 0. ) }, rw( 1. ) ) } ) );\n"
 "  g.evaluate( ev( e ), x ); h.evaluate( ev( e ), y );\n"
 "  const double s = std::sin( phi( 2, e, .9 ) ); const auto el = rm::ReactionID( incident().pairID(), incident().pairID() );\n"
 "  ok( x[ el ].value > 0. ); near( y[ el ].value - x[ el ].value, 4. * std::acos( -1. ) / k2( e ) * 7. / 16. * s * s, 1e-6 );",
 "a spin group with several incident channels (channel spins, or l and l + 2)", "only the first incident channel contributes", full="rm", top=RMT)

LGT = RMT + r"""
static lr::SpinGroup< rm::SingleLevelBreitWigner > group( unsigned int l, double J ) {
  return { elastic( l, .5, J, radius( .9 ) ), lr::ResonanceTable( { lr::Resonance( ev( 10. ), ev( 1e-30 ), ev( .1 ), ev( 0. ), ev( 0. ), 1., 1., 0. ) } ), ev( 0. ) }; }
static double system( unsigned int a, unsigned int b, double e ) {
  std::vector< lr::SpinGroup< rm::SingleLevelBreitWigner > > v; v.push_back( group( a, 2. ) ); v.push_back( group( b, 3. ) );
  lr::CompoundSystem< rm::SingleLevelBreitWigner > c( std::move( v ) ); std::map< rm::ReactionID, rr::CrossSection > x; c.evaluate( ev( e ), x ); return x[ reaction( "elastic" ) ].value; }
"""

s("legacy-lmax-last", "C21", [(S + "rmatrix/legacy/CompoundSystemBase/src/getLMax.hpp",
 "    return ranges::max(\n             groups\n               | ranges::view::transform(\n                   [] ( const auto& spingroup )\n                      { return spingroup.orbitalAngularMomentum(); } ) );",
 "    // the spin groups are given by increasing l\n    return groups.back().orbitalAngularMomentum();")],
 "  const double e = 2.e+5; double w = 0.; for ( unsigned int l = 0; l < 3; ++l ) { const double s = std::sin( phi( l, e, .9 ) ); w += ( 2. * l + 1. ) * s * s; }\n"
 "  w *= 4. * std::acos( -1. ) / k2( e );\n  near( system( 0, 2, e ), w, 1e-6 );\n  near( system( 2, 0, e ), w, 1e-6 );",
 "spin groups that are not given by increasing l", "the potential scattering of the highest l is left out", full="rm", top=LGT)

s("fluctuation-weight", "C22", [(S + "rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp",
 "          double factor = w[i][mu] * w[j][nu] * w[k][lambda];",
 "          double factor = w[i][mu] * w[j][nu] * w[k][nu];")],
 "  auto f = [] ( double fission, unsigned int nu, unsigned int lambda ) { return lu::calculateFluctuationIntegrals( lu::Widths( ev( .3 ), ev( .1 ), ev( fission ), ev( .5 ) ), lu::Degrees( 1, 0, nu, lambda ) ).elastic.value; };\n"
 "  near( f( 1e-30, 2, 2 ), f( 0., 2, 2 ), 2e-3 );\n  near( f( 1e-30, 3, 4 ), f( 0., 3, 4 ), 2e-3 );",
 "fission and competition together, with different degrees of freedom", "the competition is weighted with the distribution of the fission width", full="rm", top=RMT)

s("unresolved-grid-decade", "C23", [(S + "rmatrix/legacy/unresolved/CompoundSystem/src/grid.hpp",
 "* electronVolt <= *previous ) {",
 "* electronVolt < *previous ) {")],
 "  alarm( 20 );\n  auto n = [] ( double a, double b ) { std::vector< lu::SpinGroup > v; auto at = [] ( double e ) { return lu::Resonance( ev( e ), ev( 1. ), rw( 1. ), ev( 1. ), ev( 0. ), ev( 0. ) ); };\n"
 "    v.emplace_back( elastic( 0, .5, 3., radius( .9 ) ), lu::ResonanceTable( { at( a ), at( b ) }, lu::Degrees( 1, 0, 0, 0 ) ) ); return lu::CompoundSystem( std::move( v ) ).grid().size(); };\n"
 "  ok( n( 100., 1000. ) == 14 ); ok( n( 8600., 20000. ) == 6 ); ok( n( 8500., 20000. ) == 6 );",
 "a table energy that is the last point of a decade (8.5, 85, 850, ...) before a large step", "the grid never ends", full="rm", top="#include <unistd.h>\n" + RMT)

s("grid-repeated", "C24", [(S + "rmatrix/CompoundSystem/src/grid.hpp",
 "  grid |= ranges::action::sort | ranges::action::unique;",
 "  grid |= ranges::action::sort;")],
 "  using G = rm::SpinGroup< rm::ReichMoore, rm::ShiftFactor >; std::vector< G > v; const auto a = elastic( 0, 3., 3., radius( .9 ) ), b = elastic( 0, 4., 4., radius( .9 ) );\n"
 "  v.emplace_back( std::vector< rm::ParticleChannel >{ a }, rm::ResonanceTable( { a.channelID() }, { rm::Resonance( ev( 10. ), { rw( .1 ) }, rw( .1 ) ) } ) );\n"
 "  v.emplace_back( std::vector< rm::ParticleChannel >{ b }, rm::ResonanceTable( { b.channelID() }, { rm::Resonance( ev( 10. ), { rw( .2 ) }, rw( .1 ) ) } ) );\n"
 "  const auto y = rm::CompoundSystem< rm::ReichMoore, rm::ShiftFactor >( std::move( v ) ).grid();\n"
 "  for ( unsigned int i = 1; i < y.size(); ++i ) ok( y[i - 1] < y[i] );\n  ok( y.size() == 5 );",
 "resonances of two spin groups at the same energy", "the grid repeats the energy", full="rm", top=RMT)


if __name__ == "__main__":
    for a, k in ALL:
        if len(sys.argv) < 2 or a[0] in sys.argv[1:]:
            seed(*a, force=len(sys.argv) > 1, **k)
