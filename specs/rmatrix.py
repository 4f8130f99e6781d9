"""Channels, resonances and reconstruction of the namespace rmatrix."""
import re
from fractions import Fraction
from .common import *
from irvc import frontend as Fr
from irvc import models, ir
from irvc.sx import Ptr, Outcome
from .legacy import D, LL, CI, FULL, re_search

CALC = r"rmatrix::calculate(Penetrability|ShiftFactor|PhaseShift|CoulombPhaseShift)<[\w:]*::(Neutron|ChargedParticle)>\("
TEXT = r"^SKEL:.*(makeChannelID|makeReactionID|ParticlePairID::symbol const)(\[abi:cxx11\])?$"
RMU = lambda: Unit.get("rmatrix.cpp", "full:rm", models.KEEP + "|" + CALC + "|" + TEXT)
TYPES = ["Neutron", "Photon", "ChargedParticle", "Fission"]
SHORT = {"Penetrability": "P", "ShiftFactor": "S", "PhaseShift": "F", "CoulombPhaseShift": "C"}


def calc(what, T_, *a): return app("calc%s_%s" % (what, T_), *a)
def calc_ok(what, T_, *a): return app("calc%s_%s_ok" % (what, T_), *a, sort="B")


def good(what, T_, l, *a):
    """where calculate* returns"""
    if T_ in ("Photon", "Fission") or T_ == "Neutron" and what == "C":
        return TRUE
    return le(l, I(4)) if T_ == "Neutron" else calc_ok(what, T_, l, *a)


def value(what, T_, *a):
    if T_ in ("Photon", "Fission") or T_ == "Neutron" and what == "C":
        return R(1 if what == "P" and T_ in ("Photon", "Fission") else 0)
    return calc(what, T_, *a)


def under_unsigned(ex, st, l):
    """l as the unsigned number it is, without the wrap where the path excludes it"""
    return l if solve.valid(st.pc, le(I(0), l)) is True else ex.uns(l, 32, st)


def m_calc(ex, st, a, x, d):
    m = re.search(CALC, d)
    what, T_ = SHORT[m.group(1)], m.group(2)
    ex.assumed.add("calculate%s<%s> at its call sites: a function of its arguments%s" % (m.group(1), T_, ", exception for l > 4" if T_ == "Neutron" else " or an exception")
                   + " (its values: C01-C03, C05, C06, C08)")
    l = ex.num(a[0])
    l = under_unsigned(ex, st, l) if what != "C" else l
    rest = [ex.num(q) for q in a[1:]]
    out = []
    for ok, s in ex.fork(st, good(what, T_, l, *rest)):
        out.append(Outcome("ret", value(what, T_, l, *rest), s) if ok else Outcome("throw", "std::exception", s))
    return out


def m_text(ex, st, a, x, d):
    ex.assumed.add("channel identifiers are texts nothing depends on")
    if "makeReactionID" in d:
        return [Outcome("ret", None, st)]
    st = st.copy()
    st.ghost[models.key(a[0])] = models.lit("")
    return [Outcome("ret", None, st)]


MODELS = [(CALC, m_calc), (r"makeChannelID|makeReactionID|ParticlePairID::symbol", m_text)]
CH = [(n, "f64") for n in "ma mb za zb ia ib Ma Mb q".split()] + [("l", "i32")] + [(n, "f64") for n in "s J rp rs rf b".split()]
CHE = CH + [("e", "f64")]


def own_term(u, fn, v, names):
    """the term the library itself computes (entry fn with one output), as a function of the variables"""
    mod, dem = u.ir()
    ex = sx.Exec(mod, dem, MODELS + models.MODELS)
    st = sx.State()
    for p in pre(v):
        st.assume(p)
    out = ex.param_array(st, "own", I(8), base=lambda o, t, s: sx.UNDEF)
    r = None
    for o in reversed(ex.call(fn, [v[n] for n in names] + [out], st)):
        if o.kind != "ret":
            raise ir.Unsupported("%s throws" % fn)
        t = ex.load(o.st, Ptr(out.r, I(0)), ("double",))
        r = t if r is None else ite(land(*o.st.pc), t, r)
    return r


def pre(v):
    return [le(R(0), v[n]) for n in ("ma", "za", "zb", "Ma")] + [lt(R(0), v[n]) for n in ("mb", "Mb")] + [le(I(0), v["l"])]


def flux(v): return v["e"] * (v["Mb"] / (v["Ma"] + v["Mb"])) + v["q"]
def mu(v): return v["ma"] * v["mb"] / (v["ma"] + v["mb"])


AMU_EV, HBARC, ALPHA = mpmath.mpf("931.4940954e6"), mpmath.mpf("197.3269788e5"), 1 / mpmath.mpf("137.035999139")       # eV, eV sqrt(barn) (CODATA 2014)


def mp_k(v):
    return mpmath.sqrt(2 * AMU_EV * mu(v) * abs(flux(v))) / HBARC


def mp_eta(v):
    return v["za"] * v["zb"] * ALPHA * AMU_EV * mu(v) / (HBARC * mp_k(v)) if v["za"] * v["zb"] != 0 else mpmath.mpf(0)


def square_close(rel):
    """got >= 0 and got^2 = contract^2 up to a constant factor within rel of 1"""
    def post(self, ex, o, out, terms, pc, v):
        g = ex.load(o.st, Ptr(out.r, I(0)), ("double",))
        w = terms[0]
        from irvc.nf import NF, TooBig, pmul
        rw = sx.exits(pc)
        g2, w = (resolve(sx.unfold(subst(x, rw) if rw else x), pc) for x in (g, w))
        if g2 is None or w is None:
            return ("unknown", "undecided condition in %s" % tm.show(g)[:300], "z3", None)
        if nf_zero_(w):
            return ("proved", "", "normal form") if sx.prove_eq(g, R(0), pc) is True else ("refuted", "computed %s, contract 0" % tm.show(g)[:300], "normal form", TRUE)
        q = NF()
        try:
            (n, d), (n2, d2) = q.rf(mul(g2, g2))[0:2], q.rf(w)[0:2]
            (x, dx), (y, dy) = q.reduce(pmul(n, d2)), q.reduce(pmul(n2, d))
            x, y = pmul(x, dy), pmul(y, dx)
        except TooBig as x_:
            return ("unknown", "no normal form: %s" % x_, "normal form", None)
        rs = {x[m] / y[m] for m in x} if set(x) == set(y) and x else set()
        if len(rs) == 1:
            r = rs.pop()
            if abs(r - 1) > 2 * rel:
                return ("refuted", "the square is %.9g times the contract's" % float(r), "normal form", TRUE)
            if nonneg(g, pc):
                return ("proved", "", "normal form + z3")
            return ("unknown", "sign of %s" % tm.show(g)[:300], "z3", lt(g, R(0)))
        return ("unknown", "computed %s" % tm.show(g)[:300], "normal form", TRUE)
    return post


def resolve(t, pc):
    """conditions inside a term that hold, or fail, on the path"""
    for _ in range(20):
        c = next((x.args[0] for x in subterms(t) if x.op == "ite"), None)
        if c is None:
            return t
        t = subst(t, {c: TRUE}) if solve.valid(pc, c) is True else subst(t, {c: FALSE}) if solve.valid(pc, lnot(c)) is True else None
        if t is None:
            return None
    return None


def nonneg(t, pc):
    """a term that is never negative: by its structure, the solver at the leaves"""
    if isc(t):
        return cv(t) >= 0
    if t.op in ("mul", "div", "add") and all(nonneg(a, pc) for a in t.args) or t.op == "app" and t.args[0] == "sqrt":
        return True
    return solve.valid(pc, le(R(0), t)) is True


def nf_zero_(t): return isc(t) and cv(t) == 0


def mass(rng): return rng.choice([rng.uniform(.5, 5), rng.uniform(1, 250), 1.00866491582])


def ch_samples(charged, rng, n):
    for _ in range(n):
        z = [float(rng.choice([1, 2, 6])), float(rng.choice([1, 8, 26, 92]))] if charged else [0., rng.choice([0., 26., 92.])]
        ma = rng.choice([0., mass(rng)]) if not charged else mass(rng)
        q = rng.choice([0., rng.uniform(-2e6, 2e6), rng.uniform(-10, 10)])
        l = rng.choice([0, 1, 2, 3, 4, 0, 1, 5, 9])
        s = rng.choice([.5, 1., 1.5, 2.])
        e = 10 ** rng.uniform(-3, 7)
        if rng.random() < .3 and q < 0:
            e = abs(q) * rng.uniform(.9, 1.1)
        yield [ma, mass(rng), *z, rng.choice([0., .5, 1., 1.5]), rng.choice([0., .5, 2.5, 4.]), mass(rng), mass(rng), q, l, s, rng.choice([0., .5, 1., 2., 3.5]),
               rng.uniform(.1, 1.2), rng.uniform(.1, 1.2), rng.uniform(.1, 1.2), rng.uniform(-3, 3), e]


def entry(name, fn, contract, oracle, T_, tol, post=None, params=CHE, cases=None, functions=()):
    def samples(rng, tier, consts):
        yield from ch_samples(T_ == "ChargedParticle", rng, 150 if tier == "quick" else 2000)

    def orc(*a):
        v = {n: (mpmath.mpf(x) if t == "f64" else x) for (n, t), x in zip(params, a)}
        return oracle(v)
    return Entry("Channel<%s>::%s" % (T_, name), "h_ch_%s_%s" % (fn, T_), params, nout=1, pre=pre, post=post,
                 cases=cases or (lambda v: [("always", TRUE, ("ret", [contract(v)]))]), oracle=orc, tol=tol, samples=samples, unit=RMU(), models=MODELS,
                 functions=list(functions) or ["rmatrix::Channel::" + name])


def kinematics(T_):
    r = lambda x: (lambda a, i, w: x * abs(w))
    def two(v):
        z, b = eq(v["za"] * v["zb"], R(0)), lt(flux(v), R(0))
        return [("neutral", z, ("ret", [R(0)])), ("charged, open", land(lnot(z), lnot(b)), ("ret", [eta2(v)])), ("charged, closed", land(lnot(z), b), ("ret", [eta2(v)]))]
    c2 = Fraction(str(2 * AMU_EV / HBARC ** 2))
    e2 = Fraction(str((ALPHA * AMU_EV / HBARC) ** 2))
    eta2 = lambda v: R(e2 / c2) * v["za"] * v["za"] * v["zb"] * v["zb"] * mu(v) / absr(flux(v))
    def signs(v):
        b = lt(flux(v), R(0))
        return [(nm, g, ("ret", [R(c2) * mu(v) * absr(flux(v))])) for nm, g in (("open", lnot(b)), ("closed", b))]
    out = [entry("waveNumber", "k", None, lambda v: ("ret", [mp_k(v)]), T_, r(2e-5), square_close(2e-5), cases=signs),
           entry("sommerfeldParameter", "eta", None, lambda v: ("ret", [mp_eta(v)]) if flux(v) != 0 else None, T_, r(2e-5), square_close(2e-5), cases=two),
           entry("belowThreshold", "below", lambda v: ite(lt(flux(v), R(0)), R(1), R(0)),
                 lambda v: ("ret", [1 if flux(v) < 0 else 0]) if abs(flux(v)) > 1e-12 * abs(v["q"]) or v["q"] == 0 else None, T_, r(1e-9)),
           entry("statisticalSpinFactor", "g", lambda v: (2 * v["J"] + 1) / ((2 * v["ia"] + 1) * (2 * v["ib"] + 1)),
                 lambda v: ("ret", [(2 * v["J"] + 1) / ((2 * v["ia"] + 1) * (2 * v["ib"] + 1))]), T_, r(1e-12)),
           entry("boundaryCondition", "b", lambda v: v["b"], lambda v: ("ret", [v["b"]]), T_, r(1e-15))]
    out[3].pre = lambda v: pre(v) + [le(R(0), v[n]) for n in ("J", "ia", "ib")]
    return out


def functions(T_):
    out = []
    u = RMU()
    for what, name, rad in (("P", "penetrability", "rp"), ("S", "shiftFactor", "rs"), ("F", "phaseShift", "rf"), ("C", "coulombPhaseShift", None)):
        def cases(v, what=what, rad=rad):
            names = [n for n, _ in CHE]
            k = own_term(u, "h_ch_k_" + T_, v, names)
            eta = own_term(u, "h_ch_eta_" + T_, v, names)
            z = eq(v["za"] * v["zb"], R(0))
            cs = []
            for nm, g, et in (("neutral", z, R(0)), ("charged", lnot(z), None)):
                et = et if et is not None else strip(eta)
                a = [v["l"]] + ([k * v[rad]] if rad else []) + [et]
                ok = good(what, T_, *a)
                cs += [(nm, land(g, ok), ("ret", [value(what, T_, *a)])), (nm + ", refused", land(g, lnot(ok)), ("throw",))]
            return [c for c in cs if c[1] is not FALSE]

        def oracle(v, what=what, rad=rad):
            so = u.so()
            a = [float(v[n]) if t == "f64" else v[n] for n, t in CHE]
            b = (D * 1)()
            ct = [D(x) if t == "f64" else ctypes.c_uint(x) for (n, t), x in zip(CHE, a)]
            getattr(so, "n_ch_k_" + T_)(*ct, b)
            k = b[0]
            getattr(so, "n_ch_eta_" + T_)(*ct, b)
            eta = b[0]
            if not (math.isfinite(k) and math.isfinite(eta)):
                return None
            r = getattr(so, "n_calc_" + T_)(["P", "S", "F", "C"].index(what), ctypes.c_uint(v["l"]), D(k * float(v[rad]) if rad else 0.), D(eta), b)
            return ("throw",) if r else ("ret", [mpmath.mpf(b[0])]) if math.isfinite(b[0]) else None
        out.append(entry(name, what, None, oracle, T_, lambda a, i, w: 1e-9 * abs(w), cases=cases, functions=["rmatrix::Channel::" + name, "rmatrix::ChannelRadii"]))
        out[-1].pre = lambda v: pre(v) + [lnot(eq(flux(v), R(0)))]
    return out


def strip(t):
    """the charged branch of ite(zZ == 0, 0, value)"""
    while t.op == "ite":
        t = t.args[1] if isc(t.args[2]) else t.args[2]
    return t


def incident():
    ps = [(n, "i32") for n in "abcd"]
    same = lambda v: land(eq(v["a"], v["c"]), eq(v["b"], v["d"]))

    def samples(rng, tier, consts):
        for _ in range(200):
            a, b = rng.choice([1, 1001, 2004]), rng.choice([92235, 17035])
            yield [a, b, rng.choice([a, 1001]), rng.choice([b, 17036])]
    return Entry("Channel::isIncidentChannel", "h_ch_incident", ps, nout=1, cases=lambda v: [("same pair", same(v), ("ret", [R(1)])), ("other pair", lnot(same(v)), ("ret", [R(0)]))],
                 pre=lambda v: [le(I(0), v[n]) for n in "abcd"], oracle=lambda a, b, c, d: ("ret", [1 if (a, b) == (c, d) else 0]), tol=lambda a, i, w: 0, samples=samples, unit=RMU(), models=MODELS,
                 functions=["rmatrix::Channel::isIncidentChannel"])


def pair():
    ps = [(n, "f64") for n in ("ma", "mb", "za", "zb")]
    neg_ = lambda v: lor(*[lt(v[n], R(0)) for n, _ in ps])

    def oracle(*a):
        ma, mb, za, zb = (mpmath.mpf(x) for x in a)
        if min(ma, mb, za, zb) < 0:
            return ("throw",)
        return ("ret", [ma * mb / (ma + mb), mb / (ma + mb)]) if ma + mb else None

    def samples(rng, tier, consts):
        for _ in range(300):
            yield [rng.choice([0., mass(rng), mass(rng), -1.]), rng.choice([mass(rng), mass(rng), mass(rng), -2.]), rng.choice([0., 1., -1.]), rng.choice([0., 92., 26., -3.])]
    return Entry("ParticlePair", "h_pair", ps, nout=2, pre=lambda v: [lnot(eq(v["ma"] + v["mb"], R(0)))],
                 cases=lambda v: [("valid", lnot(neg_(v)), ("ret", [mu(v), v["mb"] / (v["ma"] + v["mb"])])), ("negative mass or charge", neg_(v), ("throw",))],
                 oracle=oracle, tol=lambda a, i, w: 1e-13 * abs(w), samples=samples, unit=RMU(), models=MODELS,
                 functions=["rmatrix::Particle::Particle", "rmatrix::ParticlePair::ParticlePair"])


def radii(n):
    ps = [(x, "f64") for x in "abc"[:n]] + [("e", "f64")]
    pick = {1: (0, 0, 0), 2: (0, 0, 1), 3: (0, 1, 2)}[n]
    return Entry("ChannelRadii from %d" % n, "h_radii%d" % n, ps, nout=3, cases=lambda v: [("always", TRUE, ("ret", [v["abc"[i]] for i in pick]))],
                 oracle=lambda *a: ("ret", [mpmath.mpf(a[i]) for i in pick]), tol=lambda a, i, w: 1e-15 * abs(w),
                 samples=lambda rng, tier, consts: [[rng.uniform(-1, 2) for _ in ps] for _ in range(60)], unit=RMU(), models=MODELS, functions=["rmatrix::ChannelRadii"])


def C19():
    return Check("C19", [pair(), incident()] + [radii(n) for n in (1, 2, 3)] + [e for t in TYPES for e in kinematics(t) + functions(t)], FULL[:1])
