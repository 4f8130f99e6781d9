from .common import *


def pole(l, x):
    """distance from a pole of the argument of the arctangent, relative to the size of its terms"""
    return float(abs(poly(PHI[l][1], x * x)) / poly([abs(c) for c in PHI[l][1]], x * x))


def neutron(kind):
    f = {"pen": P_l, "shift": S_l}.get(kind)

    def term(l, rho):
        if kind == "phase":
            return lift(phi_l(l, rho, tm.atan), "R")
        return lift(f(l, rho), "R")

    def cases(v):
        l, rho = v["l"], v["rho"]
        cs = [("l=%d" % k, eq(l, I(k)), ("ret", [term(k, rho)])) for k in range(5)]
        cs.append(("l>4", lor(lt(l, I(0)), lt(I(4), l)), ("throw",)))
        return cs

    def oracle(l, rho, eta):
        if l < 0 or l > 4:
            return ("throw",)
        x = mpmath.mpf(rho)
        v = phi_l(l, x, mpmath.atan) if kind == "phase" else f(l, x)
        if kind == "phase" and l > 0:
            # at a pole of the argument both signs of pi/2 are the same phase modulo pi
            if pole(l, x) < 1e-9:
                return None
        return ("ret", [v])

    def tol(args, i, want):
        l, rho, eta = args
        if kind == "phase":
            if l > 0:
                x = mpmath.mpf(rho)
                d = pole(l, x)
                return 1e-13 * abs(rho) + 1e-14 / max(d, 1e-9) + 1e-300
            return 1e-13 * abs(rho)
        return 1e-13 * abs(want) + 1e-300

    def samples(rng, tier, consts):
        rh = rhos(rng, tier, consts)
        for l, r in grid(ls(consts), rh):
            yield [l, r, rng.choice([0.0, 1.0, -2.5, 7.0])]
        yield [2**32 - 1, 1.0, 0.0]
        yield [2**31, 1.0, 0.0]

    nm = {"pen": "calculatePenetrability", "shift": "calculateShiftFactor", "phase": "calculatePhaseShift"}[kind]
    return Entry("%s<Neutron>" % nm, "h_%s_neutron" % kind, [("l", "u32"), ("rho", "f64"), ("eta", "f64")],
                 cases=cases, oracle=oracle, tol=tol, samples=samples, unit=SLICE(),
                 functions=["rmatrix::%s<Neutron>" % nm, "rmatrix::horner"])


A = ["arctangent is an uninterpreted real function in the proof (the native evaluations use the real one)"]


def C01(): return Check("C01", [neutron("pen")])
def C02(): return Check("C02", [neutron("shift")])
def C03(): return Check("C03", [neutron("phase")], A)


# ------------------------------------------------------------------------------ legacy functions
def legacy_ps(fn, name, fixed=None):
    def pair(l, rho):
        return [ite(lt(R(0), rho), lift(P_l(l, rho), "R"), R(0)), lift(S_l(l, rho), "R")]

    def cases(v):
        rho = v["rho"]
        if fixed is not None:
            return [("l=%d" % fixed, TRUE, ("ret", pair(fixed, rho)) if fixed < 5 else ("throw",))]
        l = v["l"]
        return [("l=%d" % k, eq(l, I(k)), ("ret", pair(k, rho))) for k in range(5)] + \
            [("l outside 0..4", lor(lt(l, I(0)), lt(I(4), l)), ("throw",))]

    def oracle(*a):
        l, rho = (fixed, a[0]) if fixed is not None else a
        if not 0 <= l <= 4:
            return ("throw",)
        x = mpmath.mpf(rho)
        return ("ret", [P_l(l, x) if rho > 0 else 0, S_l(l, x)])

    def samples(rng, tier, consts):
        rh = rhos(rng, tier, consts)
        if fixed is not None:
            for r in rh:
                yield [r]
            return
        for l, r in grid(ls(consts), rh):
            yield [l, r]
        for l in (-1, -2, -3, -2**31):
            for r in rh[:20]:
                yield [l, r]
    ps = [("rho", "f64")] if fixed is not None else [("l", "i32"), ("rho", "f64")]
    return Entry(name, fn, ps, nout=2, cases=cases, oracle=oracle, tol=lambda a, i, w: 1e-13 * abs(w) + 1e-300,
                 samples=samples, unit=SLICE(), functions=["PenetrationShift::operator()", "penetrationShift"])


def legacy_phase():
    def cases(v):
        l, rho = v["l"], v["rho"]
        return [("l=%d" % k, eq(l, I(k)), ("ret", [lift(phi_l(k, rho, tm.atan), "R")])) for k in range(5)] + \
            [("l outside 0..4", lor(lt(l, I(0)), lt(I(4), l)), ("throw",))]
    n = neutron("phase")

    def samples(rng, tier, consts):
        rh = rhos(rng, tier, consts)
        for l, r in grid(ls(consts), rh):
            yield [l, r]
        for l in (-1, -2, -3, -2**31):
            for r in rh[:20]:
                yield [l, r]
    return Entry("phaseShift", "h_phase_free", [("l", "i32"), ("rho", "f64")], cases=cases,
                 oracle=lambda l, r: n.oracle(l, r, 0.), tol=lambda a, i, w: n.tol(list(a) + [0.], i, w), samples=samples,
                 unit=SLICE(), functions=["phaseShift"])


def C04():
    es = [legacy_ps("h_ps_free", "penetrationShift(l, rho)"), legacy_ps("h_ps_object", "PenetrationShift(l)(rho)")]
    es += [legacy_ps("h_ps_integer%d" % k, "penetrationShift(Integer<%d>)(rho)" % k, k) for k in range(6)]
    es.append(legacy_phase())
    return Check("C04", es, A)


# ------------------------------------------------------------------------------ no barrier
def C05():
    def e(t):
        def samples(rng, tier, consts):
            for l in ls(consts):
                for r in rhos(rng, "quick", consts)[:60 if tier == "quick" else 400]:
                    for eta in [0.0, 1.5, -3.0, rng.uniform(-50, 50)]:
                        yield [l, r, eta]
        return Entry(t, "h_" + t.lower(), [("l", "u32"), ("rho", "f64"), ("eta", "f64")], nout=4,
                     cases=lambda v: [("always", TRUE, ("ret", [R(1), R(0), R(0), R(0)]))],
                     oracle=lambda l, r, eta: ("ret", [1, 0, 0, 0]), tol=lambda a, i, w: 0.0, samples=samples, unit=SLICE(),
                     functions=["rmatrix::calculate{Penetrability,ShiftFactor,PhaseShift,CoulombPhaseShift}<%s>" % t])
    n = Entry("calculateCoulombPhaseShift<Neutron>", "h_neutron_coulomb_phase", [("l", "i32"), ("eta", "f64")],
              cases=lambda v: [("always", TRUE, ("ret", [R(0)]))], oracle=lambda l, eta: ("ret", [0]), tol=lambda a, i, w: 0.0,
              samples=lambda rng, tier, consts: [[l, eta] for l in range(0, 40) for eta in (0., .1, 1., -2., 30.)], unit=SLICE(),
              functions=["rmatrix::calculateCoulombPhaseShift<Neutron>"])
    return Check("C05", [e("Photon"), e("Fission"), n])


# ------------------------------------------------------------------------------ Coulomb phase shift
def C08():
    def hints(v):
        eta = v["eta"]
        return [sx.Rec("sum_atan", [eta], R(0), lambda a, k: a + app("atan", eta / (toreal(k) + 1))),
                sx.Rec("sum_cot", [eta], R(0), lambda a, k: a + R(1) / app("tan", eta / (toreal(k) + 1))),
                # the same sums from n = l downwards
                sx.Rec("sum_atan_down", [v["l"], eta], R(0), lambda a, k: a + app("atan", eta / toreal(sub(v["l"], k)))),
                sx.Rec("sum_cot_down", [v["l"], eta], R(0), lambda a, k: a + R(1) / app("tan", eta / toreal(sub(v["l"], k))))]

    def lemma(e, v):
        """down(k) = up(l) - up(l-k) by induction on k, hence down(l) = up(l): the order of the sum does not matter"""
        h = hints(v)
        l, m = v["l"], var("m", "I")
        out = []
        for up, down in ((h[0], h[2]), (h[1], h[3])):
            out.append(("base: %s(0) = %s(l) - %s(l)" % (down.name, up.name, up.name), sx.unfold(down(I(0))), up(l) - up(l)))
            # with k = l-m-1: down(k+1) = down(k) + term(l-k) = up(l) - up(m+1) + term(m+1) = up(l) - up(m)
            hyp = up(l) - up(add(m, I(1)))
            out.append(("step: %s" % down.name, sx.unfold(down.step(hyp, sub(sub(l, m), I(1)))), up(l) - up(m)))
        return [Obl(e.name, "lemma, " + n, "proved" if sx.prove_eq(a, b) is True else "unknown", backend="normal form") for n, a, b in out]

    def cases(v):
        h = hints(v)
        l = v["l"]
        return [("l=0", eq(l, I(0)), ("ret", [R(0)])),
                ("l>=1", lt(I(0), l), ("ret", [h[0](l)])),
                ("l>=1", lt(I(0), l), ("ret", [h[2](l)])),
                ("l>=1", lt(I(0), l), ("known", "C08-cot", [h[1](l)])),
                ("l>=1", lt(I(0), l), ("known", "C08-cot", [h[3](l)]))]

    def oracle(l, eta):
        if l == 0:
            return ("ret", [0])
        if l < 0:
            return None
        x = mpmath.mpf(eta)
        r = [("ret", [sum(mpmath.atan(x / n) for n in range(1, l + 1))])]
        if eta == 0:
            r += [("known", "C08-cot", [s * mpmath.inf]) for s in (1, -1)]
        else:
            r.append(("known", "C08-cot", [sum(1 / mpmath.tan(x / n) for n in range(1, l + 1))]))
        return r

    def tol(args, i, want):
        l, eta = args
        # conditioning of the cotangent sum near its poles
        c = sum(1 + abs(eta / n) * (1 + 1 / max(abs(math.sin(eta / n)), 1e-12) ** 2) for n in range(1, l + 1)) if l <= 4000 else 1e9
        return 1e-12 * (c + abs(want)) + 1e-300

    def samples(rng, tier, consts):
        for l in range(0, 30 if tier == "quick" else 120):
            for eta in [0.01, 0.3, 1.0, 2.0, 5.5, 12.3, -0.7, -4.0] + [rng.uniform(-20, 20) for _ in range(6)]:
                yield [l, eta]
        for c in consts:
            for l in (1, 2, 3, 7):
                yield [l, c * 1.0001 + 0.001]
            if c == int(c) and 0 <= c < 2000:
                for d in (-1, 0, 1):
                    if c + d >= 0:
                        yield [int(c + d), 0.77]
    e = Entry("calculateCoulombPhaseShift<ChargedParticle>", "h_coulomb_phase", [("l", "i32"), ("eta", "f64")],
              pre=lambda v: [le(I(0), v["l"]), lt(v["l"], I(2**31 - 1))], cases=cases, hints=hints, oracle=oracle, tol=tol,
              samples=samples, unit=SLICE(), functions=["rmatrix::calculateCoulombPhaseShift<ChargedParticle>"])
    e.lemmas = lemma
    return Check("C08", [e], ["tan and atan are uninterpreted real functions in the proof"])
