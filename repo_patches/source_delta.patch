From 2b85d4e7364413fe8c1971fe4257559598c1b0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:00 +0000
Subject: [PATCH 1/7] fix: coefficient of the phase expansion in omGcase4
 (13178880, as in omGcase1)

---
 src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
index 146230e..ea4b8b2 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
@@ -149,7 +149,7 @@ void omGcase4(double ra, double y, double *p0, double *p1)
   g2 = -(x*(x*(x*(x*(x*(-1890.*x+7560.)-12240.)-13440.)+16128.)-9216.)+2048.)
        /92160.;
   g3 = -(x*(x*(x*(x*(x*(x*(x*(x*(x*(130977.*x
-       -  873180.)+2487240.)-3588480.)+13520640.)- 9225216.)+15178880.)
+       -  873180.)+2487240.)-3588480.)+13520640.)- 9225216.)+13178880.)
        -11714560.)+6389760.)-1966080.)+  262144.)/10321920.;
   g4 = 2.0*y*(x2/x+0.5*log((1.0-x2)/(1.0+x2)))+PI_4;
   fai = g4+std::sqrt(g0)*(g1+g0*(g2+g0*g3));
-- 
2.43.0


From 55821856657ad90030187220c69bbb0278bc28c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:00 +0000
Subject: [PATCH 2/7] fix: derivative of the amplitude in omGcase4 missed the
 factor x1*y1 on its correction terms

---
 src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
index ea4b8b2..7b89170 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
@@ -171,7 +171,7 @@ void omGcase4(double ra, double y, double *p0, double *p1)
   g2 =  3.0*(x*(x*(x*(39.*x-260.)+728.)-832.)+2560.)/4096.;
   g3 = -3.0*(x*(x*(x*(x*(x*(1899.*x-17724.)+73432.)-177280.)+308480.)
            +196608.)+860160.)/131072.;
-  b = x1*y1/4.0+g0*(g1+g0*(g2+g0*g3));
+  b = x1*y1*(0.25+g0*(g1+g0*(g2+g0*g3)));
 
   m = 1.0/std::sqrt(x2)*exp(psi);
 
-- 
2.43.0


From 7cc3a153df7ee7ca4bf87639ef82eb555a838ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:00 +0000
Subject: [PATCH 3/7] fix: signs in the sixth-order derivative term of omGcase1
 (derivative of the g6 term of the function value)

---
 src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
index 7b89170..d6839c8 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
@@ -58,7 +58,7 @@ void omGcase1(double ra, double y, double *p0, double *p1)
   g3=  3.0*(8.0*t*t-4.0*t+1.0)/(64.0*t*t*pow(t1,4.0));
   g4= -(t*(t*(1536.*t-704.)+336.)-63.)/(2048.*std::sqrt(pow(t,5.0)*pow(t1,11.0)));
   g5=  3.0*(t*(t*(t*(2560.*t-832.)+728.)-260.)+39.)/(4096.*t*t*t*pow(t1,7.0));
-  g6=  (t*(t*(t*(t*(-368640.*t-30720.)+114944.)-57792.)+16632.)-2079.)
+  g6= -(t*(t*(t*(t*(368640.*t-30720.)+114944.)-57792.)+16632.)-2079.)
       /(65536.*std::sqrt(pow(t,7.0)*pow(t1,17.0)));
   g7=  3.0*(t*(t*(t*(t*(t*(860160.*t
         +196608.)+308480.)-177280.)+73432.)-17724.)+1899.)
-- 
2.43.0


From 0d7728bfa0bf114e293be8fa9dfad157a5d7e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:16 +0000
Subject: [PATCH 4/7] fix: hard-sphere phase shift of a charged channel had the
 wrong sign of its sine where F < 0

---
 src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp b/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
index d827a06..cd4d738 100644
--- a/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
@@ -71,5 +71,5 @@ double calculatePhaseShift< ChargedParticle >( const unsigned int l,
   double G = gf.real();
   return ( F == 0. ) and ( G == 0. )
            ? 0.
-           : std::acos( G / std::sqrt( F * F + G * G ) );
+           : std::atan2( F, G );
 }
-- 
2.43.0


From a3d1745943c36bd9b945c57f6e846bc599acca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:29 +0000
Subject: [PATCH 5/7] fix: Coulomb functions read and wrote outside their
 arrays for l >= MAX_L-1, and leaked them when an error was thrown

---
 src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp | 8 +++-----
 src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp | 5 +++++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
index 9d87581..be87bf5 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
@@ -27,12 +27,10 @@ void coulombWaveFunctions( int l, double ratio, double eta,
                   -eta*(1.+(y2-48.)/(30.*y4)+(y2*y2-160.*y2+1280.)/(105.*y4*y4))
                   /(12.*y3);
 
-  std::complex<double> *Cou0 = new std::complex<double>[MAX_L]; // G + iF
-  std::complex<double> *Cou1 = new std::complex<double>[MAX_L]; // G'+ iF'
-  omExternalFunction(l ,ratio, eta, sigma0, Cou0, Cou1);
+  std::vector< std::complex<double> > Cou0( MAX_L ); // G + iF
+  std::vector< std::complex<double> > Cou1( MAX_L ); // G'+ iF'
+  omExternalFunction(l ,ratio, eta, sigma0, Cou0.data(), Cou1.data());
 
   gf  = Cou0[l];
   dgf = Cou1[l];
-  delete [] Cou0;
-  delete [] Cou1;
 }
diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
index 7411b67..05605ee 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
@@ -48,6 +48,11 @@ int omExternalFunction(int lmax, double rho_match, double coulomb, double coulom
   double g0,g1,p1,p2,p3;
   int    l;
 
+  if(lmax < 0 || lmax > MAX_L-2){
+    Log::error( "angular momentum too large {}", lmax );
+    throw std::exception();
+  }
+
   if(coulomb == 0.0){
     g0 = p1 = cos(rho_match);
     g1 = p2 = g0/rho_match+sin(rho_match);
-- 
2.43.0


From e92e4f3902293ff16f4e73ae6362dbd452fe586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:01 +0000
Subject: [PATCH 6/7] fix: Wronskian test of the Coulomb functions accepted
 NaN, which was then returned as a result

---
 src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
index 05605ee..3fd9e41 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
@@ -107,7 +107,7 @@ int omExternalFunction(int lmax, double rho_match, double coulomb, double coulom
       a = dfn[l].imag() * wfn[l].real()
          -dfn[l].real() * wfn[l].imag();
 
-      if( std::fabs(a-1.0) > CRIT_WRONSK ){
+      if( !( std::fabs(a-1.0) <= CRIT_WRONSK ) ){
         flag = true;
         l0 += 10;
         break;
-- 
2.43.0


From acd200588f4416d85ef69b250682e97c0b71074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:53 +0000
Subject: [PATCH 7/7] fix: initialise the penetrability of a legacy resolved
 resonance

---
 .../rmatrix/legacy/resolved/Resonance/src/ctor.hpp               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
index c85ad56..7723815 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
@@ -25,4 +25,5 @@ Resonance( const Energy& energy,
     competition_( competition ),
     elastic_to_penetrability_( elastic / P ),
     competition_to_penetrability_( competition / Q ),
+    penetrability_( P ),
     shiftfactor_( S ) {}
-- 
2.43.0

