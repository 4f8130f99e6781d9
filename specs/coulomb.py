"""The Coulomb wave functions themselves: termination, memory safety, Wronskian, accuracy."""
import re
from .common import *
from irvc import models as M, native
from irvc.check import BoundedEntry
from .charged import rho_eta
from irvc.sx import Ptr

LMAX = 58
EPS = R(tm.from_float(1e-6))
HAVOC = r"om\w+\(|h_|coulombWave"
FULL = lambda: Unit.get("coulomb_full.cpp", "slice", M.KEEP_BODY)
INTERNAL = lambda: Unit.get("coulomb.cpp", "slice", M.KEEP_BODY)


def m_asymptotic(ex, st, a, x, d):
    """contract of omAsymptotic at its call sites (its own entry proves it): terminates, writes its two results"""
    ps = M.split_params(d[d.index("(") + 1:d.rindex(")")])
    if ps != ["double", "double", "double", "double*", "double*"]:
        raise M.Unsupported("signature of omAsymptotic")
    st = st.copy()
    ex.store(st, a[3], app("asymptotic_G", *a[:3]), ("double",))
    ex.store(st, a[4], app("asymptotic_dG", *a[:3]), ("double",))
    return M.ret(st)


MODELS = [(r"njoy::.*::omAsymptotic\(", m_asymptotic)]


def arrays(s, stride=16):
    """regions that may hold a table of complex numbers"""
    return [r for r, g in s.mem.items() if g.alive and g.name != "out" and (g.kind in ("vecdata", "heap", "param")
            or g.kind == "alloca" and g.size is not None and isc(g.size) and cv(g.size) >= 320)]


def wronskian(ex, s, w, d, j):
    rd = lambda r, o: ex.load(s, Ptr(r, add(mul(I(16), j), I(o))), ("double",))
    vals = [rd(w, 0), rd(w, 8), rd(d, 0), rd(d, 8)]
    if not all(isinstance(v, T) and v.sort == "R" for v in vals):
        return None
    G, F, dG, dF = vals
    return le(absr(dF * G - dG * F - 1), EPS)


def ghost_invariants(e, ex, phis, s, s0, v):
    """for the requested l: once a loop index has passed it, the stored values have Wronskian 1"""
    out = []
    n0 = len(ex.safety)
    ar = arrays(s)
    for n, x in phis.items():
        if not (isinstance(x, T) and x.sort == "I"):
            continue
        for w in ar:
            for d in ar:
                if w != d:
                    try:
                        g = wronskian(ex, s, w, d, v["l"])
                    except Exception:
                        g = None
                    if g is not None:
                        out.append(("%s > l => wronskian of %s, %s at l is 1" % (n, w, d), implies(lt(v["l"], x), g)))
    del ex.safety[n0:]
    return out


def whole():
    def cases(v):
        inside = land(le(I(0), v["l"]), le(v["l"], I(LMAX)))
        return [("l outside 0..58", lnot(inside), ("throw",)),
                ("zero or Wronskian 1", inside, ("ret", None)), ("or an exception", inside, ("throw",))]

    def post(e, ex, o, out, terms, pc, v):
        G, F, dG, dF = (ex.load(o.st, Ptr(out.r, I(8 * i)), ("double",)) for i in range(4))
        if not all(isinstance(x, T) for x in (G, F, dG, dF)):
            return ("unknown", "results are not written", "path")
        if all(isc(x) and cv(x) == 0 for x in (G, F, dG, dF)):
            return ("proved", "", "path")
        r = solve.valid(pc, le(absr(dF * G - dG * F - 1), EPS))
        return ("proved", "", "z3 over monomials") if r is True else ("unknown", "Wronskian of %s" % tm.show(G)[:200], "z3")

    class E(Entry):
        def line(self, a):
            return "%d %.17g %.17g" % tuple(a)

        def parse(self, f):
            return ("ret", [float(x) for x in f])

    def oracle2(args, got):
        l, rho, eta = args
        if got[0] != "ret":
            return None
        thrown, bal, G, F, dG, dF = got[1]
        if bal != 0:
            return ("ret", [thrown, 0] + [None] * 4)
        if not 0 <= l <= LMAX:
            return ("ret", [1, 0] + [None] * 4)
        if thrown or (G == 0 and F == 0 and dG == 0 and dF == 0):
            return ("any",)
        W = dF * G - dG * F
        if all(map(math.isfinite, (G, F, dG, dF))) and abs(W - 1) <= 1e-6 + 1e-9:
            return ("any",)
        return ("ret", [0, 0, G, F, dG, (1 + dG * F) / G if G else float("nan")])

    def samples(rng, tier, consts):
        for rho, eta in rho_eta(rng, tier, consts):
            for l in (0, 1, 2, 4, 9, 17, 30, 45, 57, 58):
                if l < 3 or rng.random() < .3:
                    yield [l, rho, eta]
        for l in list(range(-3, 75)) + [99, 100, 101, 128, 200, 255, 256, 1000, 2**31 - 1, -2**31, -100]:
            for rho, eta in ((5.0, 1.0), (20.0, 0.0), (30.0, 6.0), (20.0, 20.0), (0.3, 2.0), (1e-3, 0.0), (200.0, 3.0), (700., 40.)):
                yield [l, rho, eta]
        for _ in range(300 if tier == "quick" else 5000):
            yield [rng.randrange(0, 59), math.exp(rng.uniform(math.log(1e-7), math.log(1000))),
                   rng.choice([0.0, math.exp(rng.uniform(math.log(1e-3), math.log(1e6)))])]

    e = E("coulombWaveFunctions", "h_coulomb", [("l", "i32"), ("rho", "f64"), ("eta", "f64")], nout=4,
          pre=lambda v: [lt(R(0), v["rho"]), le(v["rho"], R(1000)), le(R(0), v["eta"])],
          cases=cases, post=post, tol=lambda a, i, w: 1e-9 * abs(w), samples=samples, unit=FULL(), models=MODELS,
          havoc=HAVOC, invariants=ghost_invariants,
          functions=["rmatrix::coulombWaveFunctions", "rmatrix::omExternalFunction", "rmatrix::omGfunction", "rmatrix::omFfunction", "rmatrix::omDfunction"])
    e.oracle2 = oracle2
    e.leakcheck = True
    e.runner = lambda en, args: native.sanitized("coulomb_full.cpp")(en, args)
    return e


def writes(fn, name, params, pre, nout=2):
    """memory safety, termination and both results written, of an internal function"""
    def post(e, ex, o, out, terms, pc, v):
        vs = [ex.load(o.st, Ptr(out.r, I(8 * i)), ("double",)) for i in range(nout)]
        return ("proved", "", "path") if all(isinstance(x, T) for x in vs) else ("unknown", "a result is not written", "path")
    e = Entry(name, fn, params, nout=nout, pre=pre, cases=lambda v: [("returns", TRUE, ("ret", None))], post=post,
              oracle=lambda *a: None, samples=lambda *a: [], unit=INTERNAL(), havoc=HAVOC, functions=["rmatrix::" + name], optional=True)
    return e


def C14():
    f = lambda *ns: [(n, "f64") for n in ns]
    return Check("C14", [whole(),
                         writes("h_asymptotic", "omAsymptotic", f("rho", "eta", "sigma"),
                                lambda v: [lt(R(0), v["rho"]), le(v["rho"], R(1000)), lt(R(0), v["eta"])])],
                 ["the Coulomb amplitude at the asymptotic radius is a function of its arguments at the call site in coulombWaveFunctions"])


# ------------------------------------------------------------------------------------------- accuracy
def deviation(got, ref):
    """errors of G, F, G', F', each relative to the local amplitude"""
    g, f, dg, df = got
    G, F, dG, dF = ref
    A, B = mpmath.sqrt(G * G + F * F), mpmath.sqrt(dG * dG + dF * dF)
    return [float(abs(g - G) / A), float(abs(f - F) / max(abs(F), 1 / A)), float(abs(dg - dG) / B), float(abs(df - dF) / max(abs(dF), 1 / A))]


def start_radius(eta, rho):
    """where the expansions are evaluated before the radial integration"""
    if eta == 0:
        return rho
    if eta >= 15:
        return 16.0 if rho <= 16 else rho if rho <= 5 * eta / 3 - 5 else 2 * eta
    if eta >= 5:
        return 2 * eta if rho <= 2 * eta else max(rho, 2.5 * eta + 7.5)
    return max(rho, 2 * eta + 10)


def step_error(eta, rho):
    """size of the error of the radial integration with step 0.01"""
    lo, hi = sorted((rho, start_radius(eta, rho)))
    if lo == hi:
        return 0.0
    n, u0, u1 = 400, math.log(lo), math.log(hi)
    s = 0.0
    for i in range(n):
        r = math.exp(u0 + (i + .5) * (u1 - u0) / n)
        s += abs(2 * eta / r - 1) ** 1.5 * r
    return 1e-4 * s * (u1 - u0) / n


def bessel(l, rho):
    """eta = 0: Riccati-Bessel functions"""
    x = mpmath.mpf(rho)
    f = lambda k: x * mpmath.sqrt(mpmath.pi / (2 * x)) * mpmath.besselj(k + mpmath.mpf(1) / 2, x)
    g = lambda k: -x * mpmath.sqrt(mpmath.pi / (2 * x)) * mpmath.bessely(k + mpmath.mpf(1) / 2, x)
    k = l + 1
    return [g(l), f(l), k / x * g(l) - g(k), k / x * f(l) - f(k)]


class Accuracy(BoundedEntry):
    REF = {}

    def native(self, args):
        so = self.unit.so()
        b = (ctypes.c_double * 4)(*[float("nan")] * 4)
        so.n_coulomb.restype = ctypes.c_int
        if so.n_coulomb(ctypes.c_int(args[0]), ctypes.c_double(args[1]), ctypes.c_double(args[2]), b):
            return ("throw",)
        return ("ret", list(b))

    def reference(self, l, rho, eta):
        """-> (values, tolerance) or None"""
        r = self.REF.get((l, rho, eta))
        if r is not None:
            return [mpmath.mpf(x) for x in r[3:7]], 2 * r[7] + 1e-6
        if eta == 0 and rho <= 50:
            return bessel(l, rho), 1e-6
        if rho > 50:
            return None
        from tools.coulomb_table import ref
        v = ref(l, rho, eta)
        if not all(mpmath.isfinite(x) for x in v):
            return None
        return v, 1.5e-4 + 2 * step_error(eta, rho)


def accuracy():
    import json, os
    from irvc import frontend as F

    def samples(rng, tier, consts):
        for r in json.load(open(os.path.join(F.VERIF, "data", "coulomb_ref.json"))):
            Accuracy.REF[tuple(r[:3])] = r
            yield r[:3]
        for _ in range(400 if tier == "quick" else 4000):
            yield [rng.choice([0, 1, 2, 3, 4, 6, 9, 14]), math.exp(rng.uniform(math.log(0.01), math.log(50))), 0.0]
        for l in range(0, 59, 3):
            yield [l, rng.uniform(1, 50), 0.0]
        for _ in range(40 if tier == "quick" else 400):
            yield [rng.choice([0, 1, 2, 5]), rng.uniform(0.3, 50), rng.choice([rng.uniform(0, 5), rng.uniform(5, 15), rng.uniform(15, 40)])]
        yield [0, 80.0, 0.0]
        yield [0, 0.05, 40.0]
        yield [0, 2.0, 300.0]

    def oracle2(args, got):
        l, rho, eta = args
        if tuple(args) == (0, 80.0, 0.0):
            return [("known", "C07-large-rho", list(got[1]))] if got[0] == "ret" and max(deviation(got[1], bessel(0, 80.0))) > 1e-3 else ("any",)
        if got[0] == "throw":
            return ("ret", [None] * 4)
        if got[1][:2] == [0.0, 0.0]:
            # only where the irregular function exceeds exp(~100): no penetration at all
            wkb = 2 * eta * (math.pi / 2 - math.asin(math.sqrt(min(1, rho / (2 * eta)))) - math.sqrt(max(0, rho / (2 * eta) * (1 - rho / (2 * eta))))) if eta else 0
            return ("any",) if wkb > 60 else ("ret", [1.0, 1.0, 1.0, 1.0])
        q = self_ref(l, rho, eta)
        if q is None:
            return None
        v, tol = q
        d = deviation(got[1], v)
        if max(d) <= tol:
            return ("any",)
        return ("ret", [float(x) for x in v])

    e = Accuracy("coulombWaveFunctions", "h_coulomb", [("l", "i32"), ("rho", "f64"), ("eta", "f64")], nout=4,
                 tol=lambda a, i, w: 0.0, samples=samples, unit=SLICE(), functions=["rmatrix::coulombWaveFunctions"])
    self_ref = e.reference
    e.oracle2 = oracle2
    return e


# ---------------------------------------------------------- contracts of the expansions and recurrences
# Exact functional contracts of the internal functions, from the literature (Abramowitz & Stegun 14.5-14.6, DLMF 33.4).
# They are proved, never used to raise an alarm by themselves: an internal function may be reshaped as long as the
# wave functions stay what they are.
FL = lambda x: R(tm.from_float(x))
SQ, LOG, EXP, COS, SIN, ASIN = (lambda n: (lambda x: app(n, x)))("sqrt"), *[(lambda n: (lambda x: app(n, x)))(n) for n in ("log", "exp", "cos", "sin", "asin")]
POW = lambda a, e: app("pow", a, FL(e))


def hp(cs, x):
    """polynomial, highest power first"""
    r = R(cs[0])
    for c in cs[1:]:
        r = r * x + c
    return r


def nest(gs, y1):
    """g2 - y1 (g3 - y1 (g4 - ...))"""
    r = gs[-1]
    for g in reversed(gs[:-1]):
        r = g - y1 * r
    return r


def expansion_below(rho, eta):
    """Riccati expansion for rho < 2 eta (A&S 14.6.7 with t = rho / 2 eta): exponent and its derivative"""
    y1 = 1 / (2 * eta)
    t = rho * y1
    u = 1 - t
    t2 = t * u * u * u
    t3 = SQ(t2)
    q = [SQ(t * u) + ASIN(SQ(t)) - FL(math.pi / 2), LOG(t / u) / 4,
         -(8 * t * t - 12 * t + 9) / (48 * t3),
         (8 * t - 3) / (64 * t2),
         hp([2048, -9216, 16128, -13440, -12240, 7560, -1890], t) / (92160 * t2 * t3),
         3 * hp([1024, -448, 208, -39], t) / (8192 * t2 * t2),
         -hp([262144, -1966080, 6389760, -11714560, 13178880, -9225216, 13520640, -3588480, 2487240, -873180, 130977], t) / (10321920 * t2 * t2 * t3),
         hp([1105920, -55296, 314624, -159552, 45576, -5697], t) / (393216 * t2 * t2 * t2)]
    pw = lambda x, n: app("pow", x, R(n))
    d = [SQ(u / t), 1 / (4 * t * u),
         -(8 * t - 3) / (32 * SQ(pw(t, 3) * pw(u, 5))),
         3 * (8 * t * t - 4 * t + 1) / (64 * t * t * pw(u, 4)),
         -hp([1536, -704, 336, -63], t) / (2048 * SQ(pw(t, 5) * pw(u, 11))),
         3 * hp([2560, -832, 728, -260, 39], t) / (4096 * t * t * t * pw(u, 7)),
         -hp([368640, -30720, 114944, -57792, 16632, -2079], t) / (65536 * SQ(pw(t, 7) * pw(u, 17))),
         3 * hp([860160, 196608, 308480, -177280, 73432, -17724, 1899], t) / (131072 * pw(t, 4) * pw(u, 10))]
    ex = lambda g: -2 * eta * g[0] + g[1] - y1 * nest(g[2:], y1)
    return ex(q), y1 * ex(d)


def expansion_above(rho, eta):
    """Riccati expansion for rho > 2 eta (A&S 14.6.8 ff with x = 2 eta / rho): G and G'"""
    x = 2 * eta / rho
    x1, x2, y1 = 1 / (1 - x), SQ(1 - x), 1 / (2 * eta)
    g0 = y1 * y1 * x1 * x1 * x1
    h = g0 * x * x
    three = lambda a, b, c, g: g * (a + g * (b + g * c))
    phi = 2 * eta * (x2 / x + LOG((1 - x2) / (1 + x2)) / 2) + FL(math.pi / 4) + SQ(g0) * (
        -hp([9, -12, 8], x) / 48 + g0 * (-hp([-1890, 7560, -12240, -13440, 16128, -9216, 2048], x) / 92160 + g0 * (
            -hp([130977, -873180, 2487240, -3588480, 13520640, -9225216, 13178880, -11714560, 6389760, -1966080, 262144], x) / 10321920)))
    psi = x * three(-(8 - 3 * x) / 64, 3 * hp([-39, 208, -448, 1024], x) / 8192,
                    -hp([-5697, 45576, -159552, 314624, -55296, 1105920], x) / 393216, h)
    a = x2 / x * (1 / x + three((8 - 3 * x) / 32, -hp([-63, 336, -704, 1536], x) / 2048,
                                hp([-2079, 16632, -57792, 114944, -30720, 368640], x) / 65536, h))
    b = x1 * y1 * (R(1) / 4 + three(-3 * hp([1, -4, 8], x) / 64, 3 * hp([39, -260, 728, -832, 2560], x) / 4096,
                                    -3 * hp([1899, -17724, 73432, -177280, 308480, 196608, 860160], x) / 131072, h))
    m = 1 / SQ(x2) * EXP(psi)
    return m * COS(phi), -x * x * (a * m * SIN(phi) + b * m * COS(phi))


def internal(fn, name, params, f, pre=None, cases=None):
    e = Entry(name, fn, params, nout=2 if cases is None and len(f({n: var(n, "R" if t == "f64" else "I") for n, t in params})) == 2 else 2 if cases else 1,
                 pre=pre, cases=cases or (lambda v: [("always", TRUE, ("ret", list(f(v))))]),
                 oracle=lambda *a: None, samples=lambda *a: [], unit=INTERNAL(), functions=["rmatrix::" + name], optional=True)
    e.advisory = True       # the accuracy itself is decided by the reference table
    return e


def recurrences():
    ps = [("l", "i32")] + [(n, "f64") for n in ("eta", "rho", "a", "b")]

    def parts(v):
        j = toreal(v["l"])
        return j, j + 1, v["eta"], v["rho"], v["a"], v["b"]

    def G(v):       # DLMF 33.4.3 for G_(l+1) from G_(l-1) = a, G_l = b
        j, k, eta, rho, a, b = parts(v)
        return [((2 * j + 1) * (eta + j * k / rho) * b - k * SQ(j * j + eta * eta) * a) / (j * SQ(k * k + eta * eta))]

    def F(v):       # DLMF 33.4.3 for F_(l-1) from F_(l+1) = a, F_l = b
        j, k, eta, rho, a, b = parts(v)
        return [((2 * j + 1) * (eta + j * k / rho) * b - j * SQ(k * k + eta * eta) * a) / (k * SQ(j * j + eta * eta))]

    def D(v):       # DLMF 33.4.4: u_l' from u_l = a, u_(l+1) = b
        j, k, eta, rho, a, b = parts(v)
        return [((eta + k * k / rho) * a - SQ(k * k + eta * eta) * b) / k]
    pre = lambda v: [le(I(0 if False else 1), v["l"]), le(v["l"], I(1000)), lt(R(0), v["rho"])]
    pre0 = lambda v: [le(I(0), v["l"]), le(v["l"], I(1000)), lt(R(0), v["rho"])]
    return [internal("h_omG", "omGfunction", ps, G, pre), internal("h_omF", "omFfunction", ps, F, pre), internal("h_omD", "omDfunction", ps, D, pre0)]


def expansions():
    re_ = [("rho", "f64"), ("eta", "f64")]

    def c1(v):
        q, d = expansion_below(v["rho"], v["eta"])
        big = lt(R(100), q)
        return [("no penetration", big, ("ret", [R(0), R(0)])), ("expansion", lnot(big), ("ret", [EXP(q), EXP(q) * d]))]

    def c2(v):      # A&S 14.5.? at the turning point rho = 2 eta
        y = v["eta"]
        p = lambda e: POW(y, e)
        return [FL(1.223404016) * p(1 / 6) * (1 + FL(0.04959570165) * p(-4 / 3) - FL(0.008888888889) * p(-2.) + FL(0.002455199181) * p(-10 / 3)
                                              - FL(0.0009108958061) * p(-4.) + FL(0.0002534684115) * p(-16 / 3)),
                -FL(0.7078817734) * p(-1 / 6) * (1 - FL(0.1728260369) * p(-2 / 3) + FL(0.0003174603174) * p(-2.) - FL(0.003581214850) * p(-8 / 3)
                                                 + FL(0.0003117824680) * p(-4.) - FL(0.0009073966427) * p(-14 / 3))]
    below = lambda v: [lt(R(0), v["eta"]), lt(R(0), v["rho"]), lt(v["rho"], 2 * v["eta"])]
    above = lambda v: [lt(R(0), v["eta"]), lt(2 * v["eta"], v["rho"])]
    return [internal("h_case1", "omGcase1", re_, None, below, c1), internal("h_case2", "omGcase2", re_[1:], c2, lambda v: [lt(R(0), v["eta"])]),
            internal("h_case4", "omGcase4", re_, lambda v: expansion_above(v["rho"], v["eta"]), above)]


def C07():
    return Check("C07", [accuracy()] + recurrences() + expansions(),
                 ["end-to-end accuracy is a bounded check against reference values (4528 stored points and sampled ones), not a proof",
                  "the error terms of the asymptotic expansions and of the radial integration are not bounded by proof"], level="other")
