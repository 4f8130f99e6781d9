"""writes properties.jsonl (kept as a script so that the lines stay readable)"""
import json, os
SRC = "src/resonanceReconstruction/"
RM = SRC + "rmatrix/src/"


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    return d


P = [
 p("C01", "Penetrability of a neutron channel is the hard-sphere penetrability",
   "For every orbital angular momentum l = 0..4 and every channel ratio rho, the penetrability of a neutron channel equals rho / (F_l^2 + G_l^2) of the hard-sphere (spherical Bessel) solution, that is rho^(2l+1) over the degree-l polynomial in rho^2 of the ENDF manual (e.g. rho^3/(1+rho^2) for l = 1), whatever the Sommerfeld parameter. For l above 4 it throws; it never returns a number.",
   ["inputs"], "every l (unsigned 32 bit), every real rho and eta",
   "the tests sample a few rho per l and compare to 6-12 digits; a coefficient change that is negligible at those points, or a wrong branch for untested l or rho, passes",
   [RM + "calculatePenetrability.hpp", RM + "horner.hpp"],
   [("neutron penetrability per l", RM + "calculatePenetrability.hpp: calculatePenetrability<Neutron>"), ("polynomial evaluation", RM + "horner.hpp")]),
 p("C02", "Shift factor of a neutron channel is the hard-sphere shift factor",
   "For every l = 0..4 and every channel ratio rho, the shift factor of a neutron channel equals rho (F_l F_l' + G_l G_l') / (F_l^2 + G_l^2) of the hard-sphere solution (0, -1/(1+rho^2), -(18+3rho^2)/(9+3rho^2+rho^4), ...), whatever the Sommerfeld parameter. For l above 4 it throws.",
   ["inputs"], "every l (unsigned 32 bit), every real rho and eta",
   "the tests sample a few rho per l; agreement at samples does not pin the rational functions",
   [RM + "calculateShiftFactor.hpp", RM + "horner.hpp"],
   [("neutron shift factor per l", RM + "calculateShiftFactor.hpp: calculateShiftFactor<Neutron>")]),
 p("C03", "Phase shift of a neutron channel is the hard-sphere phase shift",
   "For every l = 0..4 and every channel ratio rho, the phase shift of a neutron channel equals rho minus the arctangent of the ENDF rational function of rho (phi_0 = rho, phi_1 = rho - atan(rho), phi_2 = rho - atan(3rho/(3-rho^2)), ...), whatever the Sommerfeld parameter. For l above 4 it throws.",
   ["inputs"], "every l (unsigned 32 bit), every real rho (outside the poles of the argument) and eta",
   "the tests sample a few rho per l; branches of the arctangent and coefficients between samples stay untested",
   [RM + "calculatePhaseShift.hpp", RM + "horner.hpp"],
   [("neutron phase shift per l", RM + "calculatePhaseShift.hpp: calculatePhaseShift<Neutron>")]),
 p("C04", "Legacy penetration/shift and phase functions equal the hard-sphere functions",
   "The legacy penetration-shift function (called with l and rho, as a function object built from l, or built from a compile-time l) returns for every l = 0..4 and every rho the pair of hard-sphere penetrability and shift factor, with a penetrability of exactly zero for rho <= 0, and the legacy phase-shift function returns the hard-sphere phase shift. All of them agree with each other on every input and reject every l outside 0..4, negative values included, with an exception.",
   ["inputs"], "every l (signed 32 bit), every real rho, all three ways to obtain the function",
   "the tests sample few (l, rho) pairs and never compare the alternative entry points on all inputs",
   [SRC + "src/penetrationShift.hpp", SRC + "src/phaseShift.hpp"],
   [("penetrationShift / PenetrationShift", SRC + "src/penetrationShift.hpp"), ("phaseShift", SRC + "src/phaseShift.hpp")]),
 p("C05", "Photon and fission channels have no barrier; neutrons have no Coulomb phase",
   "For every l, rho and eta, photon and fission channels have penetrability 1, shift factor 0, hard-sphere phase shift 0 and Coulomb phase shift 0. The Coulomb phase shift of a neutron channel is 0 for every l and eta.",
   ["inputs"], "every l, rho and eta, for each channel type",
   "no test calls most of these specialisations; a single wrong specialisation is invisible to the tests",
   [RM + "calculatePenetrability.hpp", RM + "calculateShiftFactor.hpp", RM + "calculatePhaseShift.hpp", RM + "calculateCoulombPhaseShift.hpp"],
   [("Photon, Fission, Neutron specialisations", RM + "calculate*.hpp")]),
 p("C06", "Charged-channel P, S and phase are consistent with its Coulomb wave functions",
   "For every l, rho > 0 and eta >= 0, the penetrability, shift factor and phase shift of a charged-particle channel are rho/(F^2+G^2), rho (F F' + G G')/(F^2+G^2) and the angle of (G, F) for the Coulomb wave functions F, G that the library evaluates at the same l, rho, eta, with cosine G/sqrt(F^2+G^2) and sine F/sqrt(F^2+G^2). Where the wave functions are reported as zero (no penetration at all) the results are 0, and where they cannot be evaluated the call throws instead of returning a number.",
   ["inputs"], "every l, every rho > 0, every eta >= 0",
   "the charged-particle tests do not build or run here, and they sample a handful of energies; sign and branch errors show only where F changes sign",
   [RM + "calculatePenetrability.hpp", RM + "calculateShiftFactor.hpp", RM + "calculatePhaseShift.hpp", RM + "coh3-extwave.hpp"],
   [("ChargedParticle specialisations", RM + "calculate*.hpp"), ("wave functions", RM + "coh3-extwave.hpp: coulombWaveFunctions")]),
 p("C08", "Coulomb phase shift is a sum over 1..l of a function of eta/n only",
   "The Coulomb phase shift of a charged channel is 0 for l = 0 and for every l >= 1 is the sum over n = 1..l of one and the same term evaluated at eta/n: raising l by one adds exactly the term at eta/l, with eta/n the true quotient (known finding: the term used is 1/tan where omega_l needs arctan). Negative l gives no term.",
   ["inputs"], "every l (signed 32 bit) and every real eta for which the terms are finite",
   "the tests sample l <= 4 and two eta; an off-by-one or accumulation error above the sampled l passes",
   [RM + "calculateCoulombPhaseShift.hpp"],
   [("sum over n", RM + "calculateCoulombPhaseShift.hpp: calculateCoulombPhaseShift<ChargedParticle>")]),
 p("C09", "Channel spins are exactly |I-i| .. I+i in unit steps",
   "For all spins i and I that are non-negative multiples of 1/2, the possible channel spins are exactly |I-i|, |I-i|+1, ..., I+i, each once, in increasing order. The result is symmetric in i and I.",
   ["inputs"], "all non-negative half-integer spins i, I",
   "the tests list a dozen small pairs; they cannot rule out a missing, duplicated or extra value for other pairs",
   [RM + "possibleChannelSpinValues.hpp"], [("enumeration", RM + "possibleChannelSpinValues.hpp")]),
 p("C10", "Total angular momenta are exactly |l-s| .. l+s in unit steps",
   "For every l and every channel spin s that is a non-negative multiple of 1/2, the possible total angular momenta are exactly |l-s|, |l-s|+1, ..., l+s, each once, in increasing order. From l and the two particle spins, the values rise in unit steps up to l+i+I, each once (known finding: the lowest value is ||l-I|-i|, which misses values when |l-I| < i and i >= 1).",
   ["inputs"], "all l and all non-negative half-integer spins",
   "the tests list a dozen small combinations; they cannot rule out a missing, duplicated or extra value elsewhere",
   [RM + "possibleChannelTotalAngularMomentumValues.hpp"], [("enumeration", RM + "possibleChannelTotalAngularMomentumValues.hpp")]),
 p("C11", "Channel quantum numbers are returned and printed unaltered",
   "A set of channel quantum numbers returns for every input exactly the l, s, J and parity it was built from, and keeps doing so through copies and assignments. Its text is {l,s,J+} or {l,s,J-} with the sign following the sign of the parity, whole values printed as integers and half-integer ones as n/2 with n odd, so distinct quantum numbers never share a text.",
   ["inputs", "histories"], "every l, every non-negative half-integer s and J (any double for the accessors), both parities",
   "the tests build a handful of quantum numbers; they cannot show that no two distinct ones collide in text or that large values survive",
   [SRC + "rmatrix/ChannelQuantumNumbers.hpp", SRC + "rmatrix/ChannelQuantumNumbers/src/toString.hpp"],
   [("state", SRC + "rmatrix/ChannelQuantumNumbers.hpp"), ("text", SRC + "rmatrix/ChannelQuantumNumbers/src/toString.hpp")]),
 p("C12", "Horner evaluation equals the polynomial for every length",
   "Evaluating a range of n >= 1 coefficients, highest order first, at x gives the sum of c_k x^(n-1-k) for every n and every x, including zero. It reads exactly the coefficients of the range and nothing else.",
   ["inputs"], "every range length n >= 1, every coefficient sequence, every x",
   "only reached in the tests through degree <= 4 polynomials with all-positive x",
   [RM + "horner.hpp"], [("recurrence", RM + "horner.hpp: horner")]),
 p("C13", "Pack arithmetic is element-wise",
   "Adding or subtracting two packs, and multiplying a pack by a scalar, acts on each element separately and keeps its position, for packs of any number of elements of any arithmetic types.",
   ["inputs"], "every value of every element, pack sizes 1 to 3 and mixed element types",
   "packs have no test that runs here",
   [SRC + "pack.hpp"], [("operators", SRC + "pack.hpp")]),
 p("C07", "Coulomb wave functions approximate the true Coulomb functions",
   "For l <= 58, 0 < rho <= 50 and eta >= 0 the evaluated F, G and their derivatives agree with the true Coulomb wave functions, to better than 1e-6 of the local amplitude where an expansion applies at rho itself and within the accuracy of the 0.01 radial integration step (at worst a few percent) elsewhere. They are reported as zero only where the barrier puts them beyond reach, and an evaluation that cannot be completed throws (known finding: F is wrong for rho above about 55 at small l).",
   ["inputs"], "every l <= 58, 0 < rho <= 50, eta >= 0",
   "no test that runs here evaluates a Coulomb function; the expansions have dozens of long coefficients of which one wrong digit or sign matters only in part of the (rho, eta) plane",
   [RM + "coh3-asympt.hpp", RM + "coh3-extwave.hpp", RM + "coh3-coulomb.hpp"],
   [("asymptotic expansions", RM + "coh3-asympt.hpp: omAsymptotic, omGcase1, omGcase2, omGcase4"), ("recurrences", RM + "coh3-extwave.hpp: omExternalFunction")]),
 p("C14", "A Coulomb evaluation satisfies the Wronskian or throws, safely",
   "For every l, 0 < rho <= 1000 and eta >= 0, evaluating the Coulomb wave functions terminates and ends in one of three ways: finite values with |F'G - FG' - 1| <= 1e-6, all zeros (no penetration), or an exception; every l that the evaluation cannot reach (negative or above 58) gives the exception. It never touches memory outside its own buffers and releases all it allocated, also when it throws.",
   ["inputs"], "every l (signed 32 bit), 0 < rho <= 1000, every eta >= 0",
   "no test that runs here evaluates a Coulomb function; errors of bounds and ownership depend on l at the edges and on the error path",
   [RM + "coh3-extwave.hpp", RM + "coh3-asympt.hpp", RM + "coh3-coulomb.hpp"],
   [("evaluation and its buffers", RM + "coh3-extwave.hpp: coulombWaveFunctions, omExternalFunction"), ("radial integration", RM + "coh3-asympt.hpp: omAsymptotic")]),
 p("C15", "Single-level Breit-Wigner cross sections follow the ENDF formulas",
   "For any number of l values with any number of resonances each, the single-level Breit-Wigner object returns, at every energy E > 0, elastic, capture and fission cross sections (4 pi / k^2) times the sum over l of the ENDF-102 terms: (2l+1) sin^2 phi_l for the potential, plus per resonance g Gn(E)/G times the psi and chi line shapes with the penetrability-scaled neutron width and the shifted resonance energy; a competitive width scales with the penetrability at E + Q. An l outside 0..4 throws.",
   ["inputs"], "every E > 0 and A > 0, any number of l values and of resonances, any widths with p > 0 and a positive total width, any channel and scattering radius",
   "no test that runs here evaluates a cross section; the formula mixes a dozen parameters per resonance and must hold for any number of them, at any energy",
   [SRC + "breitWigner.hpp", SRC + "breitWigner/singleLevel.hpp"],
   [("one resonance", SRC + "breitWigner/singleLevel/Resonance/src/call.hpp"), ("one l value", SRC + "breitWigner/singleLevel/Lvalue/src/evaluate.hpp"),
    ("all l values", SRC + "breitWigner/singleLevel/Base/src/evaluate.hpp")]),
 p("C16", "Multi-level Breit-Wigner: interference only within one J, all spin groups",
   "For any number of l values and resonances the multi-level Breit-Wigner object returns (4 pi / k^2) times the sum over l of: sum over J of g_J |1 - U_J|^2 / 4 for elastic scattering, with U_J built from all resonances of that l and J (resonances of different J do not interfere), the J values without resonances and those that occur for both channel spins contributing their potential scattering; and the single-level capture and fission terms. The order in which the resonances are given does not matter; an l outside 0..4 throws.",
   ["inputs"], "every E > 0 and A > 0, target spin, number of l values, resonances with any J (given by their statistical factors), in any order; resonances of several J in one l value are explored up to three of them",
   "no test that runs here evaluates a cross section; the pairing of resonances by J depends on the whole list and its order",
   [SRC + "breitWigner/multiLevel.hpp", SRC + "breitWigner.hpp"],
   [("one resonance", SRC + "breitWigner/multiLevel/Resonance/src/call.hpp"), ("one l value", SRC + "breitWigner/multiLevel/Lvalue/src/evaluate.hpp"),
    ("ordering", SRC + "breitWigner/multiLevel/Base/src/order.hpp"), ("missing J values", SRC + "breitWigner/multiLevel/src/D.hpp")]),
 p("C17", "Reich-Moore: the collision matrix is 2 (1 + R)^-1 - 1, and unitary",
   "For any number of l values and resonances the Reich-Moore object builds, per l and signed J, the ENDF-102 R matrix (neutron and two fission channels, negative fission amplitudes keeping their sign, R = -(i/2) sqrt(Ga Gb) / (Er - E - i Gg/2)), solves U = exp(-2 i phi) (2 (1 + R)^-1 - 1), by the scalar formula when no resonance of the group fissions, and returns (pi / k^2) g_J times |1-Unn|^2, the fission and the capture (what is missing from unitarity) contributions, including the J values without resonances; fission-free capture is never negative. The radii used for penetrability and phase are those selected by the NAPS/NRO tag. An l outside 0..4 throws.",
   ["inputs"], "every E > 0, A > 0, number of l values and of resonances of one J; resonances of several J in one l value are explored up to three of them, in any order",
   "no test that runs here evaluates a cross section; the matrix inversion has a separate branch without fission and depends on the grouping of the list by J",
   [SRC + "reichMoore.hpp", SRC + "reichMoore/Lvalue.hpp"],
   [("one resonance", SRC + "reichMoore/Resonance/src/call.hpp"), ("collision matrix", SRC + "reichMoore/Lvalue/src/solveRmatrix.hpp, solveRfunction.hpp"),
    ("one l value", SRC + "reichMoore/Lvalue/src/call.hpp"), ("radii", SRC + "reichMoore/Inspector.hpp")]),
 p("C18", "Neutron wave number and channel radius follow ENDF-102",
   "The neutron wave number is 2.196771e-3 A/(A+1) sqrt|E| (1/sqrt(barn), E in eV) within 2e-5, from either constructor (mass ratio A or the fraction A/(A+1)), and scales exactly as that formula; channelRadius(A) is 0.123 (1.00866491582 A)^(1/3) + 0.08 at every energy, and a constant radius is that radius at every energy.",
   ["inputs"], "every A > 0 and every E",
   "no test that runs here evaluates them; every legacy cross section is divided by the square of this number",
   [SRC + "src/neutronWaveNumber.hpp", SRC + "src/channelRadius.hpp", SRC + "src/radius.hpp"],
   [("wave number", SRC + "src/neutronWaveNumber.hpp"), ("radius", SRC + "src/channelRadius.hpp")]),
p("C19", "A channel evaluates its own kinematics and its own radii",
   "For every particle pair, incident pair, Q value, quantum numbers and radii: with E the incident energy, ratio = M/(m+M) of the incident pair and mu the reduced mass of the channel's own pair, waveNumber^2 = 2 mu |E ratio + Q| / hbar^2; sommerfeldParameter = z Z mu e^2/(4 pi eps0 hbar^2 k), zero for a neutral pair; the channel is below threshold exactly when E ratio + Q < 0; the statistical factor is (2J+1)/((2i+1)(2I+1)) for the spins of the channel's pair; penetrability, shift factor, phase shift and Coulomb phase shift are calculate*<type>(l, k a, eta) with a the penetrability, shift factor and phase shift radius respectively; ChannelRadii built from 1, 2 or 3 radii assigns them in that order; a channel is incident exactly when its pair is the incident pair; negative masses or charges are refused.",
   ["inputs"], "every mass, charge, spin, Q value, energy, l, and radius, for neutron, photon, charged particle and fission channels",
   "the tests of this part do not build here, and sample three nuclides; mixed-up radii, pairs or signs of Q show only when the values differ",
   [SRC + "rmatrix/Channel.hpp", SRC + "rmatrix/Channel/src", SRC + "rmatrix/ChannelRadii.hpp", SRC + "rmatrix/ParticlePair.hpp", SRC + "rmatrix/Particle.hpp"],
   [("wave number", SRC + "rmatrix/Channel/src/waveNumber.hpp"), ("Sommerfeld parameter", SRC + "rmatrix/Channel/src/sommerfeldParameter.hpp"),
    ("channel functions", SRC + "rmatrix/Channel/src/penetrability.hpp"), ("radii", SRC + "rmatrix/ChannelRadii.hpp"), ("pair", SRC + "rmatrix/ParticlePair.hpp")]),
p("C20", "R matrix cross sections follow the resonance parameters through U",
   "For every resonance energy, reduced and eliminated widths, channel l, radius, boundary condition, Q value and energy above zero: a resonance contributes gamma_i gamma_j / (E_r - E - i Gamma/2) with Gamma/2 the square of the eliminated reduced width; L is S - B + iP (boundary Constant) or iP (ShiftFactor); R_L = (1 - R L)^-1 R, R the sum over the resonances with the rows and columns of channels below threshold left out; the T matrix elements are sqrt(P_c) R_L sqrt(P_c'); U = Omega (1 + 2i sqrt(P) R_L sqrt(P)) Omega with Omega = exp(i(w - phi)); a spin group adds pi/k^2 g |delta - U|^2 to the reaction of each channel and pi/k^2 g (1 - sum |U|^2) to capture for each incident channel and nothing else; a compound system adds its spin groups up and refuses two of one J and parity; l above 4 is refused.",
   ["inputs"], "every resonance parameter, radius, boundary, Q value and energy, for one to three channels (neutron and fission), one or two resonances and one or two spin groups",
   "the tests of this part do not build here, and sample a few nuclides; a sign, a conjugate, a transposed index, a channel left out below threshold shows only with several channels, both boundary options, or at energies around a threshold",
   [SRC + "rmatrix/SpinGroup/src/evaluate.hpp", SRC + "rmatrix/Resonance/src/rmatrix.hpp", SRC + "rmatrix/LMatrixCalculator", SRC + "rmatrix/RLMatrixCalculator", SRC + "rmatrix/CompoundSystem"],
   [("resonance", SRC + "rmatrix/Resonance/src/rmatrix.hpp"), ("L matrix", SRC + "rmatrix/LMatrixCalculator/Constant/src/call.hpp"),
    ("R_L matrix", SRC + "rmatrix/RLMatrixCalculator/ReichMoore/src/call.hpp"), ("cross sections", SRC + "rmatrix/SpinGroup/src/evaluate.hpp"),
    ("T matrix", SRC + "rmatrix/SpinGroup/src/evaluateTMatrix.hpp"), ("compound system", SRC + "rmatrix/CompoundSystem/src/evaluate.hpp")]),
p("C21", "Breit-Wigner spin groups in the R-matrix representation give ENDF's formulas",
   "For every resonance energy, width, penetrability and shift factor at the resonance, l, J, radius and energy above zero, with Gamma_n(E) = P_l(E) Gamma_n/P_l(E_r), Gamma = Gamma_n(E) + Gamma_gamma + Gamma_f, E' = E_r + Gamma_n (S_l(E_r) - S_l(E))/(2 P_l(E_r)): a spin group adds, each times pi/k^2 g_J summed over its resonances, Gamma_n(E)(Gamma_n(E) - 2 Gamma sin^2 phi + 2 (E-E') sin 2phi)/((E-E')^2 + Gamma^2/4) to elastic, Gamma_n(E) Gamma_gamma/(...) to capture and Gamma_n(E) Gamma_f/(...) to fission; multilevel spin groups add the interference of each pair of resonances to elastic; fission appears only when it is not zero; a compound system adds its spin groups up plus the potential scattering 4 pi/k^2 (2l+1) sin^2 phi_l of each l up to the highest; it refuses two spin groups of one l and J; l above 4 is refused.",
   ["inputs"], "every resonance parameter, quantum number, radius and energy, for one to three resonances and one or two spin groups",
   "the tests of this part do not build here, and sample a few nuclides; a shift factor, penetrability or interference term of the wrong resonance shows only with several resonances and l above zero",
   [SRC + "rmatrix/legacy/resolved", SRC + "rmatrix/legacy/CompoundSystemBase.hpp", SRC + "rmatrix/legacy/CompoundSystemBase", SRC + "rmatrix/legacy/Data.hpp"],
   [("spin groups", SRC + "rmatrix/legacy/resolved/SpinGroup"), ("resonance", SRC + "rmatrix/legacy/resolved/Resonance.hpp"), ("compound system", SRC + "rmatrix/legacy/CompoundSystemBase")]),
p("C22", "Fluctuation integrals are the chi squared averages of the width ratios",
   "For every elastic and capture width above zero, fission and competition width from zero, and degrees of freedom 1 to 4: calculateFluctuationIntegrals returns the averages of x^2/D, x/D, xy/D and xz/D, D = x Gamma_n + Gamma_gamma + y Gamma_f + z Gamma_x, over the product of the 10 point quadratures of the chi squared distributions of the degrees of freedom of the elastic (x), fission (y) and competition (z) width; an absent width takes no part in the average and its integral is zero; the elastic and capture integrals are within 1% of the averages over the distributions themselves.",
   ["inputs"], "every width, each of the 100 combinations of degrees of freedom, with and without fission and competition",
   "the tests of this part do not build here, and cover a few degrees of freedom; a swapped index or table entry shows only at other degrees of freedom or with all widths present",
   [SRC + "rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp", SRC + "rmatrix/legacy/Data.hpp"],
   [("integrals", SRC + "rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp")]),
p("C23", "Unresolved cross sections interpolate the table and average the widths",
   "For every table of unresolved parameters at increasing energies, l, J and radius: inside the table the level spacing D, reduced neutron width and widths are interpolated linearly in energy; with Gamma_n = Gamma_n^0 sqrt(E) mu P_l/rho a spin group adds 2 pi^2/k^2 g_J/D times Gamma_n (Gamma_n <x^2/D> - 2 sin^2 phi) to elastic, Gamma_n Gamma_gamma <x/D> to capture and Gamma_n Gamma_f <xy/D> to fission, with the fluctuation integrals of the degrees of freedom of the table; fission appears only when its width is not zero; outside the table it throws; a compound system adds its spin groups up plus the potential scattering of each l up to the highest and refuses two spin groups of one l and J; its energy grid is strictly increasing, has every table energy, no step above 25%, and other points only inside larger steps.",
   ["inputs"], "every table of two or three energies, degrees of freedom, quantum number, radius and energy, for one or two spin groups",
   "the tests of this part do not build here, and sample one nuclide; a factor of the penetrability, of the degrees of freedom, an interpolation interval or a missing l shows only for other l, degrees and energies",
   [SRC + "rmatrix/legacy/unresolved", SRC + "rmatrix/legacy/CompoundSystemBase.hpp", SRC + "rmatrix/legacy/CompoundSystemBase", SRC + "rmatrix/Table.hpp"],
   [("spin group", SRC + "rmatrix/legacy/unresolved/SpinGroup/src/evaluate.hpp"), ("table", SRC + "rmatrix/legacy/unresolved/ResonanceTable/src/call.hpp"), ("grid", SRC + "rmatrix/legacy/unresolved/CompoundSystem/src/grid.hpp")]),
p("C24", "Energy grids of resolved resonances cover each resonance and its width",
   "For every resonance energy and widths: the grid of a resolved spin group consists of E_r - Gamma/2, E_r and E_r + Gamma/2 of each of its resonances with E_r above zero, and the grid of a compound system of those of its spin groups, in increasing order without repetition and nothing else, where Gamma is the total width of the resonance at its energy: the sum of its widths for legacy resonances, twice the sum of P_c(E_r) gamma_c^2 over the channels plus twice the square of the eliminated reduced width for R matrix resonances (channels above threshold).",
   ["inputs"], "every resonance energy (negative and coinciding too), width, l, radius and Q value, for one or two resonances in one or two spin groups",
   "the tests of this part do not build here, and never have resonances that overlap, coincide or lie below zero in two spin groups at once",
   [SRC + "rmatrix/SpinGroup/src/grid.hpp", SRC + "rmatrix/CompoundSystem/src/grid.hpp", SRC + "rmatrix/legacy/resolved"],
   [("R matrix spin group", SRC + "rmatrix/SpinGroup/src/grid.hpp"), ("R matrix compound system", SRC + "rmatrix/CompoundSystem/src/grid.hpp"),
    ("legacy spin group", SRC + "rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/grid.hpp"), ("legacy compound system", SRC + "rmatrix/legacy/resolved/CompoundSystem/src/grid.hpp")]),
]

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
