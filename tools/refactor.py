#!/usr/bin/env python3
"""Behaviour-preserving rewrites of /repo; every check has to stay quiet on them.

    python3 tools/refactor.py [name ...]      (works on a copy of /repo under /tmp)"""
import concurrent.futures, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "src/resonanceReconstruction/"
EDITS = {}


def edit(name, props, *subs):
    EDITS[name] = (props.split(), subs)


P, S, PH, CP = [R + "rmatrix/src/calculate%s.hpp" % x for x in ("Penetrability", "ShiftFactor", "PhaseShift", "CoulombPhaseShift")]
JV, SV = R + "rmatrix/src/possibleChannelTotalAngularMomentumValues.hpp", R + "rmatrix/src/possibleChannelSpinValues.hpp"
H = R + "rmatrix/src/horner.hpp"
EXT, ASY, COU = [R + "rmatrix/src/coh3-%s.hpp" % x for x in ("extwave", "asympt", "coulomb")]
QN = R + "rmatrix/ChannelQuantumNumbers/src/toString.hpp"
LP, LPH = R + "src/penetrationShift.hpp", R + "src/phaseShift.hpp"
PACK = R + "pack.hpp"


def body(f, start, new):
    """replaces the brace block that follows `start`"""
    return (f, "body", start, new)


N = "calculate%s< Neutron >"
edit("pen-helper-loop", "C01", body(P, N % "Penetrability", """{
  constexpr double table[5][5] = { { 1., 0., 0., 0., 0. }, { 1., 1., 0., 0., 0. }, { 9., 3., 1., 0., 0. },
                                   { 225., 45., 6., 1., 0. }, { 11025., 1575., 135., 10., 1. } };
  if ( l > 4 ) { throw std::exception(); }
  const double squared = ratio * ratio;
  double numerator = ratio;
  double denominator = 0.;
  for ( unsigned int k = 0; k < l; ++k ) { numerator *= squared; }
  for ( int k = int( l ); k >= 0; --k ) { denominator = denominator * squared + table[l][k]; }
  return numerator / denominator;
}"""))
edit("pen-pow", "C01", (P, "ratio * squared * squared * squared * squared\n", "ratio * std::pow( squared, 4 )\n"),
     (P, "ratio * squared * squared * squared\n", "std::pow( ratio, 7 )\n"))
edit("pen-lambda", "C01 C02 C06", (P, "  double squared = ratio * ratio;\n  switch ( l ) {", """  const double squared = std::pow( ratio, 2 );
  const auto evaluate = [&] ( const auto& coefficients ) { return horner( std::rbegin( coefficients ), std::rend( coefficients ), squared ); };
  (void) evaluate;
  switch ( l ) {"""), (P, "horner( std::rbegin( denominator ), std::rend( denominator ),\n                       squared )", "evaluate( denominator )"),
     (S, "return -horner( std::rbegin( numerator ), std::rend( numerator ), squared )\n             / horner( std::rbegin( denominator ), std::rend( denominator ), squared );",
      "const double top = horner( std::rbegin( numerator ), std::rend( numerator ), squared );\n      const double bottom = horner( std::rbegin( denominator ), std::rend( denominator ), squared );\n      return -top / bottom;"),
     (P, "return ( F == 0. ) and ( G == 0. ) ? 0. : ratio / ( F * F + G * G );", "if ( F == 0. and G == 0. ) { return 0.; }\n  return ratio / std::norm( gf );"))
edit("shift-helper", "C02", (S, "template <>\ndouble calculateShiftFactor< Neutron >", """inline double hardSphereShift( const double* numerator, int n, const double* denominator, int d, double x ) {
  return - horner( std::make_reverse_iterator( numerator + n ), std::make_reverse_iterator( numerator ), x )
         / horner( std::make_reverse_iterator( denominator + d ), std::make_reverse_iterator( denominator ), x );
}

template <>
double calculateShiftFactor< Neutron >"""),
     (S, "return -horner( std::rbegin( numerator ), std::rend( numerator ), squared )\n             / horner( std::rbegin( denominator ), std::rend( denominator ), squared );",
      "return hardSphereShift( numerator.data(), numerator.size(), denominator.data(), denominator.size(), squared );"))
edit("phase-helper", "C03 C04", (PH, "      double offset = 3. * ratio / ( 3. - squared );\n      return ratio - std::atan( offset );", "      return ratio - std::atan( 3. * ratio / ( 3. - squared ) );"),
     (PH, "      double offset = ratio * ( 15. - squared ) / ( 15. - 6. * squared );\n      return ratio - std::atan( offset );",
      "      const double top = 15. * ratio - ratio * squared;\n      const double bottom = 3. * ( 5. - 2. * squared );\n      return ratio - std::atan( top / bottom );"),
     body(LPH, "inline double phaseShift", """{
  if ( L < 0 || L > 4 ) { throw std::exception(); }
  if ( L == 0 ) { return channelRatio; }
  const double rho2 = channelRatio * channelRatio;
  const double offset = [&] {
    if ( L == 1 ) { return 1.; }
    if ( L == 2 ) { return 3. / ( 3. - rho2 ); }
    return L == 3 ? ( 15. - rho2 ) / ( 15. - 6. * rho2 ) : ( 105. - 10. * rho2 ) / ( 105. + rho2 * ( rho2 - 45. ) );
  }();
  return channelRatio - std::atan( channelRatio * offset );
}"""))
edit("legacy-ps-switch", "C04", body(LP, "operator()", """{
      struct Terms { double r, a, b; };
      const double rho2 = channelRatio * channelRatio;
      const auto terms = [&] () -> Terms {
         switch ( L ) {
            case 0: return { 1, 1, 0 };
            case 1: return { 1 + rho2, rho2, 1 };
            case 2: return { 9 + rho2*(3 + rho2), rho2*rho2, 18 + rho2*3 };
            case 3: return { 225 + rho2*(45 + rho2*(6 + rho2)), rho2*rho2*rho2, 675 + rho2*(90 + rho2*6) };
            case 4: return { 11025 + rho2*(1575 + rho2*(135 + rho2*(10 + rho2))), rho2*rho2*rho2*rho2, 44100 + rho2*(4725 + rho2*(270 + rho2*10)) };
            default: throw std::exception();
         }
      }();
      const double penetration = channelRatio > 0 ? channelRatio*terms.a/terms.r : 0.;
      return {{ penetration, -terms.b/terms.r }};
   }"""))
FOR = """  std::vector< %s > values;
  for ( auto value = min; value <= max; value += 1.0 ) { values.push_back( value ); }
  return values;
"""
W = "  std::vector< %s > values = { min };\n  while ( max > values.back() ) {\n\n    values.push_back( values.back() + 1.0 );\n  }\n  return values;\n"
T_ = "TotalAngularMomentum"
edit("spin-for", "C09 C10", (SV, W % "Spin", FOR % "Spin"), (JV, W % T_, FOR % T_))
SIZE = """  const auto number = static_cast< std::size_t >( std::lround( max - min ) ) + 1;
  std::vector< %s > values( number );
  for ( std::size_t k = 0; k < number; ++k ) { values[k] = min + k; }
  return values;
"""
edit("spin-size", "C09 C10", (SV, W % "Spin", SIZE % "Spin"), (JV, W % T_, SIZE % T_))
RES = """  std::vector< %s > values;
  values.reserve( static_cast< std::size_t >( max - min ) + 1 );
  auto value = min;
  do {
    values.push_back( value );
    value += 1.0;
  } while ( value <= max );
  return values;
"""
edit("spin-reserve", "C09 C10", (SV, W % "Spin", RES % "Spin"), (JV, W % T_, RES % T_))
edit("spin-shared", "C09 C10", (SV, "auto\npossibleChannelSpinValues", """inline std::vector< double > unitSteps( double min, double max ) {
  std::vector< double > values{ min };
  double last = min;
  while ( last < max ) {
    last += 1.0;
    values.emplace_back( last );
  }
  return values;
}

auto
possibleChannelSpinValues"""), (SV, W % "Spin", "  return unitSteps( min, max );\n"), (JV, W % T_, "  return unitSteps( min, max );\n"),
     (R + "rmatrix.hpp", "", ""))
edit("spin-iota", "C09", (SV, W % "Spin", """  std::vector< Spin > values( static_cast< std::size_t >( max - min ) + 1 );
  std::iota( values.begin(), values.end(), min );
  return values;
"""))
edit("spin-max", "C09 C10", (SV, "std::abs(i - I)", "std::max( i, I ) - std::min( i, I )"), (JV, "std::abs(l - s)", "( l > s ? l - s : s - l )"))
edit("horner-while", "C12 C01", body(H, "Y horner", """{

  Y y = *first;
  while ( ++first != last ) { y = y * x + *first; }
  return y;
}"""))
edit("horner-accumulate", "C12 C01", body(H, "Y horner", """{

  const Y start = *first;
  return std::accumulate( std::next( first ), last, start, [&x] ( const Y& y, const auto& c ) { return y * x + c; } );
}"""))
edit("horner-zero-start", "C12 C01", body(H, "Y horner", """{

  Y y = 0;
  for ( ; first != last; ++first ) { y = x * y + *first; }
  return y;
}"""))
edit("pack-fold", "C13", (PACK, "return add(indices,other); }", "return combine([](const auto &a, const auto &b) { return a + b; }, indices, other); }"),
     (PACK, "return sub(indices,other); }", "return combine([](const auto &a, const auto &b) { return a - b; }, indices, other); }"),
     (PACK, "public:\n", """   template<class Op, std::size_t... Is, class... Us>
   auto combine(const Op &op, const std::index_sequence<Is...>, const Pack<Us...> &other) const
   {
      static_assert(sizeof...(Ts) == sizeof...(Us), "");
      return pack(op(std::get<Is>(data), std::get<Is>(other.data))...);
   }
public:
"""))
edit("pack-apply", "C13", (PACK, "return pack((std::get<Is>(data) * value)...);", "return std::apply([&](const auto &... t) { return pack((t * value)...); }, data);"))
edit("coulphase-for", "C08", body(CP, "double calculateCoulombPhaseShift< ChargedParticle >", """{
  double sum = 0.0;
  for ( int n = 1; n <= l; ++n ) { sum += 1. / std::tan( eta / n ); }
  return sum;
}"""))
edit("coulphase-while", "C08", body(CP, "double calculateCoulombPhaseShift< ChargedParticle >", """{
  double sum = 0.0;
  int n = 0;
  while ( n++ < l ) {
    const double t = std::tan( eta / static_cast< double >( n ) );
    sum = sum + 1. / t;
  }
  return sum;
}"""))
edit("coulphase-down", "C08", body(CP, "double calculateCoulombPhaseShift< ChargedParticle >", """{
  double sum = 0.0;
  for ( int n = l; n > 0; --n ) { sum += 1. / std::tan( eta / n ); }
  return sum;
}"""))
edit("coulphase-helper", "C08", (CP, "template <>\ndouble calculateCoulombPhaseShift< Ch", "inline double coulombTerm( const double eta, const int n ) { return 1. / std::tan( eta / n ); }\n\ntemplate <>\ndouble calculateCoulombPhaseShift< Ch"),
     (CP, "return 1. / std::tan( eta / n );", "return coulombTerm( eta, n );", 2))
edit("qn-append", "C11", body(QN, "std::string toString", """{

  const auto text = [] ( const double a ) -> std::string {
    double whole;
    const double rest = std::modf( a, &whole );
    const int n = static_cast< int >( whole );
    if ( rest == 0. ) { return std::to_string( n ); }
    return std::to_string( 2 * n + 1 ) + "/2";
  };

  std::string result = "{";
  result += std::to_string( this->l_ );
  result += ",";
  result += text( this->s_ );
  result += ",";
  result += text( this->J_ );
  result += this->parity_ > 0 ? "+" : "-";
  result += "}";
  return result;
}"""))
edit("qn-trunc", "C11", (QN, "{ double half;\n           return std::modf( a, &half ) == 0. ?", "{ const double half = std::trunc( a );\n           return a == half ?"))
edit("qn-char", "C11", (QN, '"{" + std::to_string', 'std::string( "{" ) + std::to_string'), (QN, '( this->parity_ > 0 ? "+" : "-" ) + "}"', '( this->parity_ <= 0 ? "-}" : "+}" )'))
edit("qn-stream", "C11", body(QN, "std::string toString", """{

  std::ostringstream out;
  const auto put = [&out] ( const double a ) {
    double whole;
    if ( std::modf( a, &whole ) == 0. ) { out << static_cast< int >( whole ); }
    else { out << 2 * static_cast< int >( whole ) + 1 << "/2"; }
  };
  out << '{' << this->l_ << ',';
  put( this->s_ );
  out << ',';
  put( this->J_ );
  out << ( this->parity_ > 0 ? '+' : '-' ) << '}';
  return out.str();
}"""))
edit("charged-struct", "C06", (P, "  std::complex< double > gf, dgf;\n  coulombWaveFunctions( l, ratio, eta, gf, dgf);\n\n  double F = gf.imag();\n  double G = gf.real();\n",
     "  std::complex< double > gf, dgf;\n  coulombWaveFunctions( static_cast< int >( l ), ratio, eta, gf, dgf );\n  const double F = std::imag( gf ), G = std::real( gf );\n"),
     (S, "ratio / ( F * F + G * G ) * ( F * dF + G * dG )", "ratio * ( F * dF + G * dG ) / ( F * F + G * G )"),
     (PH, "std::atan2( F, G )", "std::arg( gf )"))
edit("charged-shared", "C06 C01", (P, "template <>\ndouble calculatePenetrability< Ch", """struct CoulombValues { double F, G, dF, dG; bool zero() const { return F == 0. && G == 0.; } double squared() const { return F * F + G * G; } };
inline CoulombValues coulombValues( unsigned int l, double ratio, double eta ) {
  std::complex< double > gf, dgf;
  coulombWaveFunctions( l, ratio, eta, gf, dgf );
  return { gf.imag(), gf.real(), dgf.imag(), dgf.real() };
}

template <>
double calculatePenetrability< Ch"""), (P, """  std::complex< double > gf, dgf;
  coulombWaveFunctions( l, ratio, eta, gf, dgf);

  double F = gf.imag();
  double G = gf.real();
  return ( F == 0. ) and ( G == 0. ) ? 0. : ratio / ( F * F + G * G );""", "  const auto c = coulombValues( l, ratio, eta );\n  return c.zero() ? 0. : ratio / c.squared();"))
# Coulomb functions
edit("coul-helper", "C14 C07 C06", (EXT, "      a = dfn[l].imag() * wfn[l].real()\n         -dfn[l].real() * wfn[l].imag();\n\n      if( !( std::fabs(a-1.0) <= CRIT_WRONSK ) ){",
     "      const double wronskian = omWronskian( wfn[l], dfn[l] );\n      if( !( std::abs( wronskian - 1.0 ) <= CRIT_WRONSK ) ){"),
     (EXT, "/**********************************************************/\n/*      I.A.Stegun", "inline double omWronskian(const std::complex<double>& u, const std::complex<double>& d)\n{\n  return d.imag()*u.real() - d.real()*u.imag();\n}\n\n/**********************************************************/\n/*      I.A.Stegun"))
edit("coul-while", "C14 C07", (EXT, "  for(l=1 ; l<MAX_L-1 ; l++){\n    p3 = omGfunction(l,coulomb,rho_match,p1,p2);\n    wfn[l+1] = std::complex<double>(p3, 0.0);\n    if( (a/(p3*p3)) < CRIT_LMAX && (l >= lmax) ) break;\n    p1 = p2;  p2 = p3;\n  }",
     "  l = 1;\n  while(l < MAX_L-1){\n    p3 = omGfunction(l,coulomb,rho_match,p1,p2);\n    wfn[l+1] = p3;\n    if(l >= lmax && a/(p3*p3) < CRIT_LMAX) break;\n    p1 = p2;\n    p2 = p3;\n    ++l;\n  }"))
edit("coul-forever", "C14 C07", (EXT, "  bool flag = false;\n  do{\n    flag = false;\n", "  for(;;){\n    bool flag = false;\n"), (EXT, "  }while(flag);\n", "    if(!flag) break;\n  }\n"))
edit("coul-array", "C14 C07", (COU, "std::vector< std::complex<double> > Cou0( MAX_L )", "std::array< std::complex<double>, MAX_L > Cou0{}"), (COU, "std::vector< std::complex<double> > Cou1( MAX_L )", "std::array< std::complex<double>, MAX_L > Cou1{}"))
edit("coul-unique", "C14 C07", (COU, "std::vector< std::complex<double> > Cou0( MAX_L )", "auto Cou0 = std::make_unique< std::complex<double>[] >( MAX_L )"),
     (COU, "std::vector< std::complex<double> > Cou1( MAX_L )", "auto Cou1 = std::make_unique< std::complex<double>[] >( MAX_L )"), (COU, "Cou0.data(), Cou1.data()", "Cou0.get(), Cou1.get()"))
edit("coul-split", "C14 C07", (EXT, "    for(l=0 ; l<=lmax+1 ; l++) wfn[l].imag(wfn[l].imag()*a);", "    omScaleRegular(wfn, lmax+2, a);"),
     (EXT, "    p1 = 0.0; p2 = 1.0e-36;\n    for(l=l0 ; l>0 ; l--){\n      p3 = omFfunction(l,coulomb,rho_match,p1,p2);\n      if(l <= lmax+2) wfn[l-1].imag(p3);\n      p1 = p2;  p2 = p3;\n    }\n",
      "    omDownward(l0, lmax, coulomb, rho_match, wfn);\n"),
     (EXT, "/**********************************************************/\n/*      I.A.Stegun", """inline void omScaleRegular(std::complex<double>* w, int n, double a)
{
  for(int k=0 ; k<n ; ++k) w[k] = std::complex<double>(w[k].real(), w[k].imag()*a);
}
inline void omDownward(int l0, int lmax, double coulomb, double rho, std::complex<double>* w)
{
  double above = 0.0, here = 1.0e-36;
  for(int l=l0 ; l>0 ; l--){
    const double below = omFfunction(l,coulomb,rho,above,here);
    if(l <= lmax+2) w[l-1].imag(below);
    above = here;
    here = below;
  }
}

/**********************************************************/
/*      I.A.Stegun"""))
edit("coul-horner", "C14 C07", (ASY, "  g3=  (8.0*t-3.0)/(64.0*t2);", "  const double denominator = 64.0*t2;\n  g3=  (8.0*t-3.0)/denominator;"),
     (ASY, "  if(q>100.0){\n    *p0 = *p1 = 0.0;\n    return;\n  }\n\n  *p0=  exp(q);", "  if(q>100.0){\n    *p0 = 0.0;\n    *p1 = 0.0;\n    return;\n  }\n\n  const double amplitude = std::exp(q);\n  *p0 = amplitude;"),
     (ASY, "  *p1= *p0*y1*(-2.0*y*g0", "  *p1= amplitude*y1*(-2.0*y*g0"))
edit("coul-newmark", "C14 C07", (ASY, "  for(int i=1 ; i<=n ; i++){\n    double x = ra+(double)i*h;\n    int itr = 0;\n    do{", "  for(int i=0 ; i<n ; ++i){\n    const double x = ra+(double)(i+1)*h;\n    int itr = 0;\n    do{"))
edit("coul-sigma", "C14 C07 C06", (COU, "  double y2 = eta*eta;", "  const double sigma0 = omCoulombSigma0(eta);\n\n  double y2 = eta*eta;"),
     (COU, re.compile(r"  double y2 = eta\*eta;.*?/\(12\.\*y3\);\n", re.S), ""),
     (COU, "void coulombWaveFunctions(", """inline double omCoulombSigma0(const double eta)
{
  const double y2 = eta*eta;
  const double y3 = 16.0 + y2;
  const double y4 = y3*y3;
  return -eta+eta*std::log(y3)/2.+3.5*std::atan(eta/4.)
         -(std::atan(eta)+std::atan(eta/2.)+std::atan(eta/3.))
         -eta*(1.+(y2-48.)/(30.*y4)+(y2*y2-160.*y2+1280.)/(105.*y4*y4))/(12.*y3);
}

void coulombWaveFunctions("""))
edit("coul-guard", "C14 C07", (EXT, "lmax < 0 || lmax > MAX_L-2", "!( 0 <= lmax && lmax + 1 < MAX_L )") if False else (EXT, "if(lmax < 0 || lmax > MAX_L-2){", "const bool reachable = lmax >= 0 && lmax <= MAX_L-2;\n  if(!reachable){"))


BW, RMO = R + "breitWigner/", R + "reichMoore/"
edit("slbw-resonance-div", "C15", (BW + "singleLevel/Resonance/src/call.hpp", """  const auto inverseTotalWidth =
    1. / ( neutronWidth
           + this->captureWidth
           + this->fissionWidth
           + competitiveWidth );
""", """  const auto totalWidth = competitiveWidth + this->captureWidth + ( this->fissionWidth + neutronWidth );
  const auto inverseTotalWidth = 1. / totalWidth;
"""), (BW + "singleLevel/Resonance/src/call.hpp", "const double widthRatio = neutronWidth * inverseTotalWidth;", "const double widthRatio = neutronWidth / totalWidth;"),
     (BW + "singleLevel/Resonance/src/call.hpp", "    + 0.5 * weightedWidth * ( this->shiftFactor - shiftFactor );", "    - weightedWidth * ( shiftFactor - this->shiftFactor ) / 2.;"))
edit("slbw-lvalue-loop", "C15", (BW + "singleLevel/Lvalue/src/evaluate.hpp", re.compile(r"  const auto crossSections =.*return ranges::accumulate[^;]*;", re.S), """  auto sum = pack( sinSquaredPhi * ( 2. * orbitalAngularMomentum + 1. ), 0.0, 0.0 );
  for ( const auto& resonance : this->resonances() ) {
    sum = sum + resonance( penetrationFactor, shiftFactor, sinSquaredPhi, sin2Phi, competitiveWidth( resonance ), kernel );
  }
  return sum;"""))
edit("slbw-lvalue-trig", "C15", (BW + "singleLevel/Lvalue/src/evaluate.hpp", "    const auto sin = std::sin( phaseShift );\n    return sin * sin;", "    return std::pow( std::sin( phaseShift ), 2 );"),
     (BW + "singleLevel/Lvalue/src/call.hpp", re.compile(r"return \( this->weightedQValue \).*;", re.S), """if ( not this->weightedQValue ) {
    return this->evaluate( kernel, channelRatio, scatteringRatio );
  }
  return this->evaluate( kernel, channelRatio, scatteringRatio, this->competitiveWidth( energy, rho ) );"""))
edit("slbw-base-loop", "C15", (BW + "singleLevel/Base/src/evaluate.hpp", re.compile(r"  const auto crossSections =.*pack\( 0\.0, 0\.0, 0\.0 \) \)\.data;", re.S), """  const auto scaling = 4.0 * pi / ( waveNumber * waveNumber );
  auto total = pack( 0.0, 0.0, 0.0 );
  for ( auto&& lvalue : this->derived().lvalues() ) {
    total = total + lvalue( energy, kernel, channelRatio, scatteringRatio, rho );
  }
  const auto reduction = total.data;"""))
edit("psichi-squared", "C15 C16", (BW + "src/psiChi.hpp", re.compile(r"    const double x =.*psi }};", re.S), """    const double half = ( energy - primedResonanceEnergy ) * inverseTotalWidth;
    const double psi = 1. / ( 4. * half * half + 1. );
    return std::array< double, 2 >{{ psi, 2. * half * psi }};"""))
edit("mlbw-d-formula", "C16", body(BW + "multiLevel/src/D.hpp", "inline double D(", """{
  double sum = 0.;
  for ( double J = std::abs( std::abs( I - l ) - 0.5 ); J <= I + l + 0.75; J += 1. ) { sum += ( 2. * J + 1. ) / ( 4. * I + 2. ); }
  return 2. * l + 1. - sum;
}"""))
edit("mlbw-lvalue-const", "C16", (BW + "multiLevel/Lvalue/src/evaluate.hpp", "        const auto scattering = first * ( first - 2 * sinSquaredPhi )\n                                + second * ( second + sin2Phi );",
     "        const double squares = first * first + second * second;\n        const double scattering = squares - ( 2 * sinSquaredPhi * first - second * sin2Phi );"),
     (BW + "multiLevel/Lvalue/src/evaluate.hpp", "      * ( sinSquaredPhi * sinSquaredPhi + 0.25 * sin2Phi * sin2Phi );", "      * ( 0.25 * ( sin2Phi * sin2Phi + 4. * sinSquaredPhi * sinSquaredPhi ) );"))
edit("mlbw-group-size", "C16", (BW + "multiLevel/Base/src/order.hpp", "               { return left.statisticalFactor < right.statisticalFactor; } );", "               { return right.statisticalFactor > left.statisticalFactor; } );"),
     (BW + "multiLevel/Base/src/order.hpp", "std::sort(", "std::stable_sort("))
edit("rm-resonance-half", "C17", (RMO + "Resonance/src/call.hpp", re.compile(r"  const auto energyDifference.*const auto imaginaryFactor[^;]*;", re.S), """  const auto half = 0.5 * this->captureWidth;
  const auto difference = energy - this->energy;
  const auto modulus = difference * difference + half * half;
  const auto realFactor = 0.5 * half / modulus;
  const auto imaginaryFactor = 0.5 * difference / modulus;"""))
edit("rm-resonance-order", "C17", (RMO + "Resonance/src/call.hpp", re.compile(r"  if \( this->rootFissionWidthA.value != 0.*return false;", re.S), """  const bool fissile = not ( this->rootFissionWidthA.value == 0.0 and this->rootFissionWidthB.value == 0.0 );
  if ( not fissile ) { return false; }
  const auto a = this->rootFissionWidthA;
  const auto b = this->rootFissionWidthB;
  accumulate( K( 2, 2 ), b, b );
  accumulate( K( 1, 1 ), a, a );
  accumulate( K( 1, 2 ), a, b );
  accumulate( K( 0, 1 ), a, rootNeutronWidth );
  accumulate( K( 0, 2 ), b, rootNeutronWidth );
  return true;"""))
edit("rm-function-complex", "C17", (RMO + "Lvalue/src/solveRfunction.hpp", re.compile(r"  const std::complex<double> collisionMatrixElement =.*?cos2Phi };", re.S), """  const std::complex<double> inverse( real, imaginary );
  const std::complex<double> collisionMatrixElement = std::complex<double>( cos2Phi, -sin2Phi ) * ( 2. * inverse - 1. );"""))
edit("rm-matrix-norm", "C17", (RMO + "Lvalue/src/solveRmatrix.hpp", "std::pow( std::abs( 1. - collisionMatrix(0,0) ), 2 )", "std::norm( 1. - collisionMatrix(0,0) )"),
     (RMO + "Lvalue/src/solveRmatrix.hpp", "    * ( std::abs( std::pow( collisionMatrix(0,1), 2 ) )\n        + std::abs( std::pow( collisionMatrix(0,2), 2 ) ) );",
      "    * ( std::norm( collisionMatrix(0,2) ) + std::norm( collisionMatrix(0,1) ) );"))
edit("rm-inspector-ternary", "C17", (RMO + "Inspector.hpp", """    if ( ap ){
      const double ratio = waveNumber * (*ap)(energy);
      return lValue( this->energy, ratio, ratio );
    }
    return lValue( this->energy, this->channelRatio, this->scatteringRatio );""", """    const double other = ap ? static_cast< double >( (*ap)(energy) * waveNumber ) : 0.;
    return lValue( this->energy, ap ? other : this->channelRatio, ap ? other : this->scatteringRatio );"""))
edit("rm-base-loop", "C17", (RMO + "Base/src/evaluate.hpp", re.compile(r"    const auto crossSections =.*pack\( 0\.0, 0\.0, 0\.0 \) \)\.data;", re.S), """    const Inspector< decltype( tag ) > inspect{ energy, waveNumber, channelRatio, scatteringRatio };
    auto total = pack( 0.0, 0.0, 0.0 );
    for ( const auto& lvalue : this->lvalues ) { total = total + inspect( lvalue ); }
    return total.data;"""))
edit("wave-number-order", "C18 C15", (R + "src/neutronWaveNumber.hpp", "constant(neutronConstant * atomicWeightRatio/(atomicWeightRatio+1)) { }", "constant(neutronConstant * (1. - 1./(1. + atomicWeightRatio))) { }"))
edit("channel-radius-cbrt", "C18", (R + "src/channelRadius.hpp", "0.123 * std::pow( amu * atomicWeightRatio, 1. / 3. ) + 0.08", "0.08 + 0.123 * std::cbrt( atomicWeightRatio * amu )"))

edit("double-angle", "C15 C16 C17", *[(f, "const auto sin2Phi = std::sin( 2. * phaseShift );", "const auto sin2Phi = 2. * std::sin( phaseShift ) * std::cos( phaseShift );")
     for f in (BW + "singleLevel/Lvalue/src/evaluate.hpp", BW + "multiLevel/Lvalue/src/evaluate.hpp", RMO + "Lvalue/src/call.hpp")],
     (RMO + "Lvalue/src/call.hpp", "const auto cos2Phi = std::cos( 2. * phaseShift );", "const auto cos2Phi = 1. - 2. * sinSquaredPhi;"))
edit("half-angle", "C15 C16", *[(f, "    const auto sin = std::sin( phaseShift );\n    return sin * sin;", "    return 0.5 * ( 1. - std::cos( phaseShift + phaseShift ) );")
     for f in (BW + "singleLevel/Lvalue/src/evaluate.hpp", BW + "multiLevel/Lvalue/src/evaluate.hpp")])

def apply(tree, subs):
    for s in subs:
        p = os.path.join(tree, s[0])
        t = open(p).read()
        if s[1] == "body":
            i = t.index("{", t.index(s[2]))
            d, j = 0, i
            while True:
                d += (t[j] == "{") - (t[j] == "}")
                j += 1
                if d == 0:
                    break
            t = t[:i] + s[3] + t[j:]
        elif hasattr(s[1], "sub"):
            t, n = s[1].subn(lambda m: s[2], t)
            assert n, s
        elif s[1]:
            assert s[1] in t, s
            if len(s) > 3:      # only the n-th occurrence
                parts = t.split(s[1])
                k = s[3]
                t = s[1].join(parts[:k]) + s[2] + s[1].join(parts[k:])
            else:
                t = t.replace(s[1], s[2])
        open(p, "w").write(t)


def one(name):
    props, subs = EDITS[name]
    d = tempfile.mkdtemp(prefix="refactor.", dir="/tmp")
    tree = d + "/repo"
    shutil.copytree("/repo", tree, ignore=shutil.ignore_patterns(".git", "_build"))
    bad = []
    try:
        apply(tree, subs)
        for p in props:
            t0 = time.time()
            r = subprocess.run(["python3-vt", VERIF + "/run_check.py", p], env=dict(os.environ, VERIF_REPO=tree), capture_output=True, text=True)
            ok = r.returncode == 0
            last = [l for l in r.stdout.strip().split("\n") if l][-4:] if not ok else [r.stdout.strip().split("\n")[-1]]
            print(name, p, "quiet" if ok else "ALARM rc=%d" % r.returncode, "%.0f s" % (time.time() - t0), "|", "\n    ".join(last)[:1500],
                  r.stderr[-800:] if r.returncode not in (0, 1) else "", flush=True)
            if not ok:
                bad.append((name, p))
    finally:
        shutil.rmtree(d)
    return bad


def main(names):
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        bad = [x for b in ex.map(one, names or EDITS) for x in b]
    print("not quiet:", bad)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
