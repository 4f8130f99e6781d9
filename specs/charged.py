"""Charged particle channels: barrier functions from the Coulomb wave functions."""
from .common import *

D, U, CI = ctypes.c_double, ctypes.c_uint, ctypes.c_int


def rho_eta(rng, tier, consts):
    """channel parameters at which the Coulomb functions are exercised"""
    n = 150 if tier == "quick" else 1500
    for eta in [0.0, 0.01, 0.3, 1.0, 2.5, 4.9, 5.0, 5.1, 7.0, 10.0, 14.9, 15.0, 15.1, 20.0, 35.0, 60.0, 100.0]:
        for rho in [0.05, 0.3, 1.0, 2.0, 5.0, 9.9, 12.0, 16.0, 16.1, 20.0, 25.0, 30.1, 33.0, 40.0, 49.0]:
            yield rho, eta
    for _ in range(n):
        yield math.exp(rng.uniform(math.log(0.02), math.log(50))), rng.choice([rng.uniform(0, 5), rng.uniform(5, 15), rng.uniform(15, 60), 0.0])
    for c in consts:
        if 0 < c < 50:
            for e in (0.0, 1.3, 6.0, 18.0):
                yield c, e
                yield c * 1.001, e
                yield c * 0.999, e
                yield 3.7, c * 1.001
                yield 3.7, c * 0.999


def charged(kind):
    name = {"pen": "calculatePenetrability", "shift": "calculateShiftFactor", "phase": "calculatePhaseShift"}[kind]

    def cases(v):
        l, rho, eta = v["l"], v["rho"], v["eta"]
        ok = app("coulomb_ok", l, rho, eta, sort="B")
        G, F, dG, dF = (app("coulomb_" + n, l, rho, eta) for n in ("G", "F", "dG", "dF"))
        z = land(eq(F, R(0)), eq(G, R(0)))
        val = {"pen": rho / (F * F + G * G), "shift": rho * (F * dF + G * dG) / (F * F + G * G), "phase": app("atan2", F, G)}[kind]
        return [("no Coulomb function available", lnot(ok), ("throw",)),
                ("no barrier penetration", land(ok, z), ("ret", [R(0)])),
                ("barrier", land(ok, lnot(z)), ("ret", [val]))]

    class E(Entry):
        def native(self, args):
            so = self.unit.so()
            l, rho, eta = args
            b, c = (D * 1)(float("nan")), (D * 4)(*[float("nan")] * 4)
            f = getattr(so, "n_" + self.fn[2:])
            r1 = f(U(l), D(rho), D(eta), b)
            r2 = so.n_coulomb(CI(l), D(rho), D(eta), c)
            if r1 or r2:
                return ("ret", [float(r1), float(r2), None]) if r1 != r2 else ("throw",)
            return ("ret", [b[0]] + list(c))

    def oracle2(args, got):
        l, rho, eta = args
        if got[0] == "throw":
            return ("any",)
        if got[1][-1] is None:
            return ("ret", ["threw" if got[1][1] else "returned"]) if False else ("throw",)
        G, F, dG, dF = (mpmath.mpf(x) for x in got[1][1:])
        if not all(mpmath.isfinite(x) for x in (G, F, dG, dF)):
            return None
        if F == 0 and G == 0:
            return ("ret", [0])
        n = F * F + G * G
        return ("ret", [{"pen": lambda: rho / n, "shift": lambda: rho * (F * dF + G * dG) / n, "phase": lambda: mpmath.atan2(F, G)}[kind]()])

    def tol(args, i, want):
        return 1e-10 * abs(want) + (1e-7 if kind == "shift" else 1e-14 if kind == "phase" else 1e-300)

    def samples(rng, tier, consts):
        for rho, eta in rho_eta(rng, tier, consts):
            for l in (0, 1, 2, 3, 5, 8, 13, 30):
                if l < 6 or (rho > 0.5 and rng.random() < .5):
                    yield [l, rho, eta]
        for l in list(range(50, 70)) + [100, 1000]:
            for rho, eta in ((5.0, 1.0), (20.0, 0.0), (30.0, 6.0), (20.0, 20.0)):
                yield [l, rho, eta]
    e = E("%s<ChargedParticle>" % name, "h_%s_charged" % kind, [("l", "u32"), ("rho", "f64"), ("eta", "f64")],
          pre=lambda v: [le(I(0), v["l"]), lt(R(0), v["rho"]), le(R(0), v["eta"])],
          cases=cases, tol=tol, samples=samples, unit=SLICE(), functions=["rmatrix::%s<ChargedParticle>" % name])
    e.oracle2 = oracle2
    return e


def C06():
    return Check("C06", [charged("pen"), charged("shift"), charged("phase")],
                 ["atan2 is an uninterpreted real function in the proof"])
