"""Legacy resolved (Breit-Wigner spin groups) and unresolved resonances of the namespace rmatrix."""
from .rgroup import *
from . import rgroup as G
from irvc.check import Obl, BoundedEntry

RLU = lambda: Unit.get("rlegacy.cpp", "full:rm", STRKEEP + "|" + CALC + "|" + TEXT2)
FIELDS = "er n c f P S".split()


def resonances(k): return " ".join("%s%d" % (f, i) for i in range(1, k + 1) for f in FIELDS)


def lentry(name, fn, s, nout, cases, oracle, tol, functions, samples, bound=None, pre=None, post=None):
    ps = params(s)
    e = Entry(name, fn, ps, nout=nout, pre=lambda v: (pre(v) if pre else []) + [le(I(0), v[n]) for n, t in ps if t != "f64"], cases=cases,
              oracle=judged(ps, oracle), tol=tol, samples=samples(ps), unit=RLU(), models=MALL, functions=functions, post=post)
    if bound:
        e.bound = bound
    return e


def wave(v): return own("h_k_el", v, ["e"], RLU)[0]


def one(v, i, k):
    """terms of one resonance: (elastic width, capture, fission, total, delta, denominator)"""
    l, rho = v["l"], k * v["r"]
    x = lambda f: v[f + str(i)]
    g = x("n") / x("P")
    gn = P(l, rho) * g
    t = gn + x("c") + x("f")
    d = v["e"] - (x("er") + (x("S") - S(l, rho)) / 2 * g)
    return gn, x("c"), x("f"), t, d, d * d + t * t / 4


def group_terms(v, n, multi, k, J, idx=None):
    """(elastic, capture, fission sum without its factor) of a spin group, multiplied by pi / k^2 g but for the last"""
    ph = F(v["l"], k * v["r"])
    s, s2 = app("sin", ph), app("sin", 2 * ph)
    rs = [one(v, i, k) for i in (idx or range(1, n + 1))]
    el, ca_, fi = R(0), R(0), R(0)
    for gn, c, f, t, d, den in rs:
        el, ca_, fi = el + gn * (gn - 2 * t * s * s + 2 * d * s2) / den, ca_ + c * gn / den, fi + f * gn / den
    if multi:
        for i in range(len(rs)):
            for j in range(i):
                (a, _, _, t, d, den), (b, _, _, t2, d2, den2) = rs[i], rs[j]
                el = el + 2 * a * b * (d * d2 + t * t2 / 4) / den / den2
    fac = factor(J, k)
    return fac * el, fac * ca_, fi, fac


def mp_group(v, n, multi, J, idx=None):
    k = mp_wave(v)
    l, rho = v["l"], k * v["r"]
    ph, p, s = mp_F(l, rho), mp_P(l, rho), mp_S(l, rho)
    rs = []
    for i in idx or range(1, n + 1):
        x = lambda f: v[f + str(i)]
        gn = p * x("n") / x("P")
        t = gn + x("c") + x("f")
        d = v["e"] - x("er") - (x("S") - s) / 2 * x("n") / x("P")
        rs.append((gn, x("c"), x("f"), t, d, d * d + t * t / 4))
    el = sum(gn * (gn - 2 * t * mpmath.sin(ph) ** 2 + 2 * d * mpmath.sin(2 * ph)) / den for gn, c, f, t, d, den in rs)
    if multi:
        el += sum(2 * a[0] * b[0] * (a[4] * b[4] + a[3] * b[3] / 4) / a[5] / b[5] for i, a in enumerate(rs) for b in rs[:i])
    fac = mpmath.pi / k ** 2 * (2 * J + 1) / 16
    return fac * el, fac * sum(r[1] * r[0] / r[5] for r in rs), fac * sum(r[2] * r[0] / r[5] for r in rs)


def lsamples(ps):
    def samples(rng, tier, consts):
        for _ in range(120 if tier == "quick" else 3000):
            e = 10 ** rng.uniform(-2, 5)
            fissile, near = rng.random() < .6, rng.random() < .7
            a = []
            for n, t in ps:
                f = n.rstrip("0123456789")
                a.append(rng.choice([0, 0, 1, 1, 2, 3, 4, 4, 5, 7]) if n == "l" else e if n == "e" else rng.uniform(.3, 1.2) if n == "r"
                         else rng.choice([0., 1., 2., 3., 4.]) if n in ("J", "K")
                         else e + rng.uniform(-1, 1) * .3 if f == "er" and near else 10 ** rng.uniform(-2, 5) if f == "er"
                         else 10 ** rng.uniform(-4, 0) if f in ("n", "c") else (10 ** rng.uniform(-3, 0) if fissile else 0.) if f == "f"
                         else 10 ** rng.uniform(-3, 0) if f == "P" else rng.uniform(-2, 0))
            yield a
    return samples


def positive(n): return lambda v: [lt(R(0), v["e"]), lt(R(0), v["r"])] + [lt(R(0), v["P%d" % i]) for i in range(1, n + 1)] + [lt(R(0), v["c%d" % i]) for i in range(1, n + 1)] + [le(R(0), v[f + str(i)]) for i in range(1, n + 1) for f in "nf"]


def ltol(s):
    def tol(a, i, w):
        if i == 3:
            return 0
        v = dict(zip(s.split(), a))
        fac = math.pi / float(mp_wave({"e": mpmath.mpf(v["e"])})) ** 2 * (v["J"] + v.get("K", 0) + 1) / 8
        return 1e-3 * abs(w) + (2e-3 * fac * 100 if i == 0 else 0)
    return tol


TYPES_ = {"SingleLevelBreitWigner": False, "MultiLevelBreitWigner": True}


def group(n, T_):
    multi = TYPES_[T_]
    s = "l J r e " + resonances(n)

    def cases(v):
        ok = le(v["l"], I(4))
        el, ca_, fi, fac = group_terms(v, n, multi, wave(v), v["J"])
        return [("l above 4", lnot(ok), ("throw",)), ("no fission", land(ok, eq(fi, R(0))), ("ret", [el, ca_, R(0), R(2)])),
                ("fission", land(ok, lnot(eq(fi, R(0)))), ("ret", [el, ca_, fac * fi, R(3)]))]

    def oracle(v):
        if v["l"] > 4:
            return ("throw",)
        el, ca_, fi = mp_group(v, n, multi, v["J"])
        return ("ret", [el, ca_, fi, 3 if fi else 2])
    return lentry("legacy SpinGroup<%s>, %d resonance%s" % (T_, n, "s" * (n > 1)), "h_lsg%d_%s" % (n, T_), s, 4, cases, oracle, ltol(s),
                  ["rmatrix::legacy::resolved::SpinGroup<%s>::%s" % (T_, f) for f in ("evaluate", "precompute")] + ["rmatrix::legacy::resolved::Resonance", "rmatrix::legacy::Data"],
                  lsamples, "%d resonances" % n, positive(n))


def system(A, B, T_):
    multi = TYPES_[T_]
    s = "J K r e " + resonances(2)
    lmax = max(A, B)

    def both(v): return [(dict(v, l=I(A)), v["J"], [1]), (dict(v, l=I(B)), v["K"], [2])]

    def cases(v):
        k = wave(v)
        pot = R(0)
        for l in range(lmax + 1):
            sn = app("sin", F(I(l), k * v["r"]))
            pot = pot + R(2 * l + 1) * sn * sn
        x = [group_terms(w, 1, multi, k, J, i) for w, J, i in both(v)]
        el = x[0][0] + x[1][0] + R(4 * PI) / (k * k) * pot
        out = []
        same = eq(v["J"], v["K"]) if A == B else FALSE
        ok = lnot(same)
        if A == B:
            out.append(("same l and J", same, ("throw",)))
        z = [eq(y[2], R(0)) for y in x]
        for nm, g, fi in (("no fission", land(*z), R(0)), ("first", land(lnot(z[0]), z[1]), x[0][3] * x[0][2]), ("second", land(z[0], lnot(z[1])), x[1][3] * x[1][2]),
                          ("both", land(lnot(z[0]), lnot(z[1])), x[0][3] * x[0][2] + x[1][3] * x[1][2])):
            out.append((nm, land(ok, g), ("ret", [el, x[0][1] + x[1][1], fi, R(2 if nm == "no fission" else 3)])))
        return out

    def oracle(v):
        if A == B and v["J"] == v["K"]:
            return ("throw",)
        k = mp_wave(v)
        x = [mp_group(dict(v, l=l), 1, multi, J, [i]) for l, J, i in ((A, v["J"], 1), (B, v["K"], 2))]
        pot = 4 * mpmath.pi / k ** 2 * sum((2 * l + 1) * mpmath.sin(mp_F(l, k * v["r"])) ** 2 for l in range(lmax + 1))
        return ("ret", [x[0][0] + x[1][0] + pot, x[0][1] + x[1][1], x[0][2] + x[1][2], 3 if x[0][2] or x[1][2] else 2])
    return lentry("legacy CompoundSystem<%s>, l = %d and %d" % (T_, A, B), "h_lcs%d%d_%s" % (A, B, T_), s, 4, cases, oracle, ltol(s),
                  ["rmatrix::legacy::CompoundSystemBase::" + f for f in ("evaluate", "getLMax", "verifySpinGroups")], lsamples, "2 spin groups of 1 resonance", positive(2))


def lresonance():
    def vals(v, h):
        g, x = v["n"] / v["P"], v["x"] / v["Q"]
        return [v["er"], v["n"], v["c"], v["f"], v["x"], v["n"] + v["c"] + v["f"] + v["x"], v["P"], v["S"], v["p"] * g, v["q"] * x,
                v["p"] * g + v["c"] + v["f"] + v["q"] * x, v["er"] + (v["S"] - v["s"]) / 2 * g]

    def samples(ps): return lambda rng, tier, consts: [[10 ** rng.uniform(-3, 2) for _ in ps] for _ in range(100)]
    return lentry("legacy resolved Resonance", "h_lres", "er n c f x P Q S p q s", 12, lambda v: [("always", TRUE, ("ret", vals(v, None)))],
                  lambda v: ("ret", vals(v, None)), lambda a, i, w: 1e-12 * abs(w) + 1e-12 * (abs(a[0]) + abs(a[1] / a[5])), ["rmatrix::legacy::resolved::Resonance"], samples,
                  pre=lambda v: [lnot(eq(v["P"], R(0))), lnot(eq(v["Q"], R(0)))])


def C21():
    return Check("C21", [lresonance()] + [group(n, T_) for n in (1, 2) for T_ in TYPES_] + [group(3, "MultiLevelBreitWigner")]
                 + [system(0, 1, "SingleLevelBreitWigner"), system(2, 0, "SingleLevelBreitWigner"), system(1, 1, "SingleLevelBreitWigner"), system(0, 1, "MultiLevelBreitWigner")],
                 FULL, level="other")


# ---------------------------------------------------------------- fluctuation integrals
W = [[1.1120413E-01, 3.3773418E-02, 3.3376214E-04, 1.7623788E-03], [2.3546798E-01, 7.9932171E-02, 1.8506108E-02, 2.1517749E-02],
     [2.8440987E-01, 1.2835937E-01, 1.2309946E-01, 8.0979849E-02], [2.2419127E-01, 1.7652616E-01, 2.9918923E-01, 1.8797998E-01],
     [1.0967668E-01, 2.1347043E-01, 3.3431475E-01, 3.0156335E-01], [3.0493789E-02, 2.1154965E-01, 1.7766657E-01, 2.9616091E-01],
     [4.2930874E-03, 1.3365186E-01, 4.2695894E-02, 1.0775649E-01], [2.5827047E-04, 2.2630659E-02, 4.0760575E-03, 2.5171914E-03],
     [4.9031965E-06, 1.6313638E-05, 1.1766115E-04, 8.9630388E-10], [1.4079206E-08, 2.7453830E-31, 5.0989546E-07, 0.0]]
Q1 = [3.0013465E-03, 7.8592886E-02, 4.3282415E-01, 1.3345267E+00, 3.0481846E+00, 5.8263198E+00, 9.9452656E+00, 1.5782128E+01, 2.3996824E+01, 3.6216208E+01]
Q2 = [1.3219203E-02, 7.2349624E-02, 1.9089473E-01, 3.9528842E-01, 7.4083443E-01, 1.3498293E+00, 2.5297983E+00, 5.2384894E+00, 1.3821772E+01, 7.5647525E+01]
Q3 = [1.0004488E-03, 2.6197629E-02, 1.4427472E-01, 4.4484223E-01, 1.0160615E+00, 1.9421066E+00, 3.3150885E+00, 5.2607092E+00, 7.9989414E+00, 1.2072069E+01]
QQ = [Q1, Q2, Q3, Q2]


def quadrature(v, mu, nu, la, fission, competition, num=False):
    """lists of summands of the four integrals: the averages of x^2/D, x/D, x y/D, x z/D over the quadratures"""
    c = (lambda x: mpmath.mpf(x)) if num else (lambda x: R(Fraction(x)))
    out = [[], [], [], []]
    for i in range(10):
        for j in range(10 if fission else 1):
            for k in range(10 if competition else 1):
                x = QQ[mu - 1][i]
                w, d = Fraction(W[i][mu - 1]), c(x) * v["n"] + v["c"]
                y = z = 0
                if fission:
                    y = QQ[nu - 1][j]
                    w, d = w * Fraction(W[j][nu - 1]), d + c(y) * v["f"]
                if competition:
                    z = QQ[la - 1][k]
                    w, d = w * Fraction(W[k][la - 1]), d + c(z) * v["x"]
                for o, t in zip(out, (x, 1., y, z)):
                    q = w * Fraction(x) * Fraction(t)
                    o.append((mpmath.mpf(q.numerator) / q.denominator if num else R(q)) / d)
    return out


def summed(ts): return sum_(ts)


def post_sums(self, ex, o, out, terms, pc, v):
    """the outputs as sums: summand by summand in order, or as a whole"""
    for i, ts in enumerate(terms):
        g = ex.load(o.st, Ptr(out.r, I(8 * i)), ("double",))
        if not isinstance(g, T):
            return ("refuted", "output %d is not written" % i, "path", TRUE)
        if ts is None:
            if sx.prove_eq(g, R(0), pc) is not True:
                return ("refuted", "output %d: %s instead of 0" % (i, tm.show(g)[:200]), "normal form", TRUE)
            continue
        r = sums_equal(g, ts)
        if r is not True:
            return ("unknown", "output %d: %s" % (i, r), "normal form", TRUE)
    return ("proved", "", "normal form")


def point(t, memo):
    """value of a rational term at a fixed point"""
    r = memo.get(t)
    if r is None:
        a = [point(x, memo) for x in t.args if isinstance(x, T)] if t.op not in ("const", "var") else []
        r = memo[t] = (float(cv(t)) if t.op == "const" else 1 + (hash(t.args[0]) % 1009) / 997 if t.op == "var" else a[0] + a[1] if t.op == "add" else -a[0] if t.op == "neg"
                       else a[0] * a[1] if t.op == "mul" else a[0] / a[1] if t.op == "div" else a[0] if t.op == "toreal" else math.nan)
    return r


def sums_equal(g, ts):
    from irvc.nf import summands, nf_equal
    xs = [x if s == 1 else tm.neg(x) for x, s in summands(sx.unfold(g))]
    small = lambda z: isc(z) and cv(z) == 0 or z.op == "div" and isc(z.args[0]) and abs(cv(z.args[0])) < Fraction(1, 10 ** 290)
    xs, ys = [x for x in xs if not small(x)], [y for y in ts if not small(y)]
    if len(xs) != len(ys):
        return "%d summands, the contract has %d" % (len(xs), len(ys))
    if not all(x is y or nf_equal(x, y) for x, y in zip(xs, ys)):
        m = {}
        xs, ys = [sorted(z, key=lambda t: point(t, m)) for z in (xs, ys)]
        for x, y in zip(xs, ys):
            if not (x is y or nf_equal(x, y)):
                return "computed summand %s, contract %s" % (tm.show(x)[:150], tm.show(y)[:150])
    return True


def chi2(nu, f):
    """average of f over the chi squared distribution of nu degrees of freedom with mean 1"""
    c = (mpmath.mpf(nu) / 2) ** (mpmath.mpf(nu) / 2) / mpmath.gamma(mpmath.mpf(nu) / 2)
    return mpmath.quad(lambda u: c * u ** (nu - 1) * mpmath.exp(-nu * u * u / 2) * 2 * f(u * u), [0, .1, .3, 1, 2, 4, 9])


def fluct(name, mu, nu, la):
    """a width without degrees of freedom is zero"""
    def cases(v):
        out = []
        for fis in (False, True)[:1 + (nu > 0)]:
            for com in (False, True)[:1 + (la > 0)]:
                g = land(*[lnot(eq(v[x], R(0))) if y else eq(v[x], R(0)) for x, y in (("f", fis), ("x", com))])
                ts = quadrature(v, mu, nu, la, fis, com)
                out.append(("%s fission, %s competition" % ("with" if fis else "no", "with" if com else "no"), g,
                            ("ret", [ts[0], ts[1], ts[2] if fis else None, ts[3] if com else None])))
        return out

    def oracle(v):
        ts = quadrature(v, mu, nu, la, v["f"] != 0, v["x"] != 0, True)
        return ("ret", [mpmath.fsum(t) for t in ts])

    def samples(ps):
        def s(rng, tier, consts):
            for _ in range(20 if tier == "quick" else 100):
                g = lambda: 10 ** rng.uniform(-5, 1)
                yield [g(), g(), g() if nu and rng.random() < .8 else 0., g() if la and rng.random() < .7 else 0.]
        return s
    return lentry("fluctuation integrals, degrees %d %d %d" % (mu, nu, la), "h_fluct_" + name, "n c f x", 4, cases, oracle, lambda a, i, w: 1e-9 * abs(w),
                  ["rmatrix::legacy::unresolved::calculateFluctuationIntegrals"], samples, pre=lambda v: [lt(R(0), v["n"]), lt(R(0), v["c"]), le(R(0), v["f"]) if nu else eq(v["f"], R(0)), le(R(0), v["x"]) if la else eq(v["x"], R(0))], post=post_sums)


class Average(BoundedEntry):
    pass


def fluct_average(name, mu):
    """against the integral itself: bounded"""
    def oracle(n, c, f, x):
        n, c = mpmath.mpf(n), mpmath.mpf(c)
        return ("ret", [chi2(mu, lambda t: t * t / (t * n + c)), chi2(mu, lambda t: t / (t * n + c)), 0, 0])

    def samples(rng, tier, consts):
        for _ in range(12 if tier == "quick" else 200):
            c = 10 ** rng.uniform(-3, 1)
            yield [c * 10 ** rng.uniform(-4, 2), c, 0., 0.]
    with mpmath.workdps(15):
        return Average("average over the chi squared distribution of %d" % mu, "h_fluct_" + name, [(n, "f64") for n in "ncfx"], nout=4, oracle=oracle, tol=lambda a, i, w: 1e-2 * abs(w),
                       samples=samples, unit=RLU(), functions=["rmatrix::legacy::unresolved::calculateFluctuationIntegrals"])


DEGREES = {"%d0%d%d" % d: d for d in [(m, n, l) for m in (1, 2, 3, 4) for n in range(5) for l in range(5)]}


def C22():
    return Check("C22", [fluct(k, *d) for k, d in DEGREES.items()] + [fluct_average("%d000" % m, m) for m in (1, 2, 3, 4)], FULL[:1])


# ---------------------------------------------------------------- unresolved spin groups
ULETTERS = "abc"
UF = "e d n c f x".split()


def points(n): return " ".join(f + q for q in ULETTERS[:n] for f in UF)


def interpolated(v, i):
    """the parameters between the points i and i + 1 of the table"""
    a, b = ULETTERS[i:i + 2]
    return {f: v[f + a] + (v[f + b] - v[f + a]) * ((v["e"] - v["e" + a]) / (v["e" + b] - v["e" + a])) for f in UF[1:]}


def uwidths(y, e, mu, p, rho, root):
    return {"n": y["n"] * root(e) * (mu * p / rho), "c": y["c"], "f": y["f"], "x": y["x"]}


def uterms(v, i, k, J, degrees, fis, com):
    """-> (function of the fluctuation integrals giving elastic, capture, fission, the summands of the integrals)"""
    mu, nu, la = degrees
    y = interpolated(v, i)
    rho = k * v["r"]
    w = uwidths(y, v["e"], mu, P(v["l"], rho), rho, lambda e: app("sqrt", e))
    s = app("sin", F(v["l"], rho))
    fac = 2 * R(PI) * R(PI) / (k * k) * ((2 * J + 1) / R(16)) / y["d"]
    ts = quadrature(w, mu, nu, la, fis, com)
    return lambda I_: [fac * w["n"] * (w["n"] * I_[0] - 2 * s * s), fac * w["n"] * w["c"] * I_[1], fac * w["n"] * w["f"] * I_[2] if fis else R(0)], ts, y


def mp_usg(v, i, J, degrees):
    mu, nu, la = degrees
    y = interpolated(v, i)
    k = mp_wave(v)
    rho = k * v["r"]
    w = uwidths(y, v["e"], mu, mp_P(v["l"], rho), rho, mpmath.sqrt)
    I_ = [mpmath.fsum(t) for t in quadrature(w, mu, nu, la, y["f"] != 0, y["x"] != 0, True)]
    fac = 2 * mpmath.pi ** 2 / k ** 2 * (2 * J + 1) / 16 / y["d"]
    s = mpmath.sin(mp_F(v["l"], rho))
    return [fac * w["n"] * (w["n"] * I_[0] - 2 * s * s), fac * w["n"] * w["c"] * I_[1], fac * w["n"] * w["f"] * I_[2] if y["f"] else 0]


def abstract(g, integrals, memo):
    """g with the sums that equal an integral (name, summands) replaced by a variable"""
    r = memo.get(g)
    if r is not None:
        return r
    if g.op == "add":
        for nm, ts in integrals:
            if sums_equal(g, ts) is True:
                memo[g] = var(nm, "R")
                return memo[g]
    r = memo[g] = tm.rebuild(g, [abstract(x, integrals, memo) if isinstance(x, T) else x for x in g.args]) if g.op not in ("const", "var") else g
    return r


class Parts(list):
    integrals = ()


def post_parts(self, ex, o, out, terms, pc, v):
    got, memo = [], {}
    for i in range(len(terms)):
        g = ex.load(o.st, Ptr(out.r, I(8 * i)), ("double",))
        if not isinstance(g, T):
            return ("refuted", "output %d is not written" % i, "path", TRUE)
        got.append(abstract(g, terms.integrals, memo))
    return self.match_values(got, terms, pc)


def nonneg(n):
    def pre(v):
        p = [lt(R(0), v["r"]), lt(R(0), v["ea"])] + [lt(v["e" + a], v["e" + b]) for a, b in zip(ULETTERS[:n], ULETTERS[1:n])]
        for q in ULETTERS[:n]:
            p += [lt(R(0), v["d" + q]), lt(R(0), v["n" + q]), lt(R(0), v["c" + q]), le(R(0), v["f" + q]), le(R(0), v["x" + q])]
        return p
    return pre


def ranges_of(v, n):
    """(name, guard, interval)"""
    return [("interval %d" % (i + 1), land(le(v["e" + a], v["e"]) if i == 0 else lt(v["e" + a], v["e"]), le(v["e"], v["e" + b])), i)
            for i, (a, b) in enumerate(zip(ULETTERS[:n], ULETTERS[1:n]))]


def none(v, n, names, degrees):
    """a width without degrees of freedom is zero"""
    return [eq(v[f + q], R(0)) for f, d in zip("fx", degrees[1:]) if not d for q in ULETTERS[:n]]


def usamples(n, degrees):
    def samples(ps):
        def s(rng, tier, consts):
            for _ in range(60 if tier == "quick" else 1000):
                a = {}
                es = sorted(10 ** rng.uniform(2, 5) for _ in range(n))
                z = {"f": degrees[1] == 0 or rng.random() < .3, "x": degrees[2] == 0 or rng.random() < .3}
                for q, e in zip(ULETTERS, es):
                    a.update({"e" + q: e, "d" + q: 10 ** rng.uniform(-1, 2), "n" + q: 10 ** rng.uniform(-4, -1), "c" + q: 10 ** rng.uniform(-3, -1)})
                    for f in "fx":
                        a[f + q] = 0. if z[f] else 10 ** rng.uniform(-3, 0)
                e = rng.choice(es) if rng.random() < .2 else rng.uniform(es[0], es[-1]) if rng.random() < .9 else es[0] * .5 if rng.random() < .5 else es[-1] * 1.5
                a.update({"l": rng.choice([0, 0, 1, 1, 2, 3, 4, 5]), "e": e, "r": rng.uniform(.3, 1.2), "J": rng.choice([0., 1., 2., 3.]), "K": rng.choice([0., 1., 2., 3.])})
                yield [a[nm] for nm, t in ps]
        return s
    return samples


def where(v, n):
    return next((i for i in range(n - 1) if (v["e" + ULETTERS[i]] <= v["e"]) and v["e"] <= v["e" + ULETTERS[i + 1]]), None)


UFUNS = ["rmatrix::legacy::unresolved::" + f for f in ("SpinGroup::evaluate", "ResonanceTable", "Resonance", "calculateFluctuationIntegrals")] + ["rmatrix::Table"]


def flags(v, i, n, degrees):
    """(fission, competition, guard): which widths the table gives at the energy"""
    y = interpolated(v, i)
    for fis in (False, True)[:1 + (degrees[1] > 0)]:
        for com in (False, True)[:1 + (degrees[2] > 0)]:
            yield fis, com, land(*[lnot(eq(y[x], R(0))) if b else eq(y[x], R(0)) for x, b, d in (("f", fis, degrees[1]), ("x", com, degrees[2])) if d])


def usg(n, degrees, fn):
    s = "l J r e " + points(n)

    def cases(v):
        ok = le(v["l"], I(4))
        inside = land(le(v["ea"], v["e"]), le(v["e"], v["e" + ULETTERS[n - 1]]))
        out = [("l above 4", lnot(ok), ("throw",)), ("outside the table", land(ok, lnot(inside)), ("throw",))]
        k = wave(v)
        for nm, g, i in ranges_of(v, n):
            for fis, com, h in flags(v, i, n, degrees):
                f, ts, y = uterms(v, i, k, v["J"], degrees, fis, com)
                iv = [var("integral%d" % j, "R") for j in range(3)]
                w = Parts(f(iv) + [R(3 if fis else 2)])
                w.integrals = [("integral%d" % j, ts[j]) for j in range(3 if fis else 2)]
                out.append((nm + (", fission" if fis else "") + (", competition" if com else ""), land(ok, g, h), ("ret", w)))
        return out

    def oracle(v):
        i = where(v, n)
        if v["l"] > 4 or i is None:
            return ("throw",)
        x = mp_usg(v, i, v["J"], degrees)
        return ("ret", x + [3 if x[2] else 2])
    return lentry("unresolved SpinGroup, %d energies, degrees %d %d %d" % ((n,) + degrees), fn, s, 4, cases, oracle, utol(s), UFUNS, usamples(n, degrees), "%d energies" % n,
                  lambda v: nonneg(n)(v) + none(v, n, None, degrees), post_parts)


def utol(s): return lambda a, i, w: 0 if i == 3 else 1e-6 * abs(w) + (1e-3 * abs(w) + 1e-6 if i == 0 else 0)


def usystem(A, B):
    s = "J K r e " + points(2)
    D = [(1, 2, 0), (2, 3, 0)]
    lmax = max(A, B)

    def cases(v):
        k = wave(v)
        pot = R(0)
        for l in range(lmax + 1):
            sn = app("sin", F(I(l), k * v["r"]))
            pot = pot + R(2 * l + 1) * sn * sn
        pot = R(4 * PI) / (k * k) * pot
        same = eq(v["J"], v["K"]) if A == B else FALSE
        inside = land(le(v["ea"], v["e"]), le(v["e"], v["eb"]))
        out = [("same l and J", same, ("throw",))] if A == B else []
        out.append(("outside the table", land(lnot(same), lnot(inside)), ("throw",)))
        for fis in (False, True):
            w = Parts([pot, R(0), R(0), R(3 if fis else 2)])
            w.integrals = []
            for g, l, J, d in ((0, A, v["J"], D[0]), (1, B, v["K"], D[1])):
                f, ts, y = uterms(dict(v, l=I(l)), 0, k, J, d, fis, False)
                nm = ["integral%d%d" % (g, j) for j in range(3)]
                for j, x in enumerate(f([var(z, "R") for z in nm])):
                    w[j] = w[j] + x
                w.integrals += [(nm[j], ts[j]) for j in range(3 if fis else 2)]
            h = eq(y["f"], R(0))
            out.append(("fission" if fis else "no fission", land(lnot(same), inside, lnot(h) if fis else h), ("ret", w)))
        return out

    def oracle(v):
        if A == B and v["J"] == v["K"] or where(v, 2) is None:
            return ("throw",)
        k = mp_wave(v)
        x, z = [mp_usg(dict(v, l=l), 0, J, d) for l, J, d in ((A, v["J"], D[0]), (B, v["K"], D[1]))]
        pot = 4 * mpmath.pi / k ** 2 * sum((2 * l + 1) * mpmath.sin(mp_F(l, k * v["r"])) ** 2 for l in range(lmax + 1))
        return ("ret", [x[0] + z[0] + pot, x[1] + z[1], x[2] + z[2], 3 if x[2] else 2])
    return lentry("unresolved CompoundSystem, l = %d and %d" % (A, B), "h_ucs%d%d" % (A, B), s, 4, cases, oracle, utol(s),
                  UFUNS + ["rmatrix::legacy::CompoundSystemBase::" + f for f in ("evaluate", "getLMax", "verifySpinGroups")], usamples(2, (1, 1, 0)), "2 spin groups of 2 energies",
                  lambda v: nonneg(2)(v) + none(v, 2, None, (1, 1, 0)), post_parts)


SCHEME = [1.0, 1.25, 1.5, 1.7, 2.0, 2.5, 3.0, 3.5, 4.0, 5.0, 6.0, 7.2, 8.5]


class Grid(BoundedEntry):
    """the grid: every table energy, strictly increasing, steps of at most 25 percent, other points only of the scheme and inside a step above 25 percent"""
    def disagree(self, args, got=None):
        got = got or self.native(args)
        if got[0] == "error":
            return None
        if got[0] != "ret":
            return "no grid: %s" % got[1] if got[0] == "crash" else "throws"
        n = int(got[1][0])
        if not 0 < n < 127:
            return "%d points" % n
        g, own = list(got[1][1:n + 1]), sorted(set(args))
        if any(x >= y for x, y in zip(g, g[1:])):
            return "not strictly increasing: %r" % g
        if not set(own) <= set(g):
            return "the energy %r is missing" % sorted(set(own) - set(g))[0]
        if g[0] != own[0] or g[-1] != own[-1]:
            return "points outside the tables: %r" % g
        for x, y in zip(g, g[1:]):
            if y > 1.25 * x * (1 + 1e-12):
                return "step from %r to %r above 25 percent" % (x, y)
        for x in g:
            if x not in own:
                p = x / 10 ** math.floor(math.log10(x) + 1e-12)
                if min(abs(p - q) for q in SCHEME) > 1e-9:
                    return "%r is neither a table energy nor a point of the scheme" % x
                y, z = max(e for e in own if e < x), min(e for e in own if e > x)
                if z <= 1.25 * y * (1 - 1e-12):
                    return "%r inserted into a step below 25 percent" % x
        return None


def grid():
    def samples(rng, tier, consts):
        for _ in range(200 if tier == "quick" else 10000):
            base = 10 ** rng.uniform(-1, 5)
            pick = lambda: rng.choice([base * 10 ** rng.uniform(0, 4), base * rng.uniform(1, 1.3), rng.choice(SCHEME) * 10. ** math.floor(math.log10(base) + rng.randrange(4))])
            x = [pick() for _ in range(4)]
            if rng.random() < .3:
                x[2:] = x[:2]
            a, b = sorted(x[:2]), sorted(x[2:])
            if a[0] < a[1] and b[0] < b[1]:
                yield a + b
    return Grid("unresolved energy grid, 2 spin groups of 2 energies", "h_ugrid", [(n, "f64") for n in "abcd"], nout=128, oracle=lambda *a: ("any",), samples=samples, unit=RLU(),
                functions=["rmatrix::legacy::unresolved::CompoundSystem::grid"])


def C23():
    return Check("C23", [usg(2, d, "h_usg2_%d%d%d" % d) for d in ((1, 2, 0), (2, 0, 0), (3, 0, 4), (1, 3, 2))] + [usg(3, (2, 1, 0), "h_usg3")]
                 + [usystem(0, 1), usystem(2, 0), usystem(1, 1)] + [grid()], FULL, level="other")
