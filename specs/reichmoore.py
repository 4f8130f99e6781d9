"""Reich-Moore evaluation (namespace reichMoore)."""
from .common import *
from .legacy import *
from .legacy import m_order, wave_constant, lib_k, ENDF_K, partitions, energies, D, LL, CI, FULL, re_search, Layout, Many, P, S, PHI_, PS, PH, range04, m_ps, m_ph, m_ext, mpP
from irvc import frontend as Fr, models, ir, check
from irvc.sx import Ptr, Outcome
from fractions import Fraction
import itertools

LV = r"^SKEL:.*reichMoore::Lvalue::operator@call const$"
KEEP = PS + "|" + PH + r"|^SKEL:.*reichMoore::(Lvalue::(operator@call const|solve\w+)|Resonance::operator@call const|Base::order)$"
RMU = lambda: Unit.get("reichmoore.cpp", "full:bw", KEEP)
MODELS = [(PS, m_ps), (PH, m_ph), (r"^ext_\w+$", m_ext)]
RES = ["er", "gn", "gg", "fa", "fb", "p", "g"]
IJ = [(i, j) for i in range(3) for j in range(i, 3)]


def kvars():
    return [var("k%d" % i, "R") for i in range(12)]


def with_k(params):
    """entries with the upper triangle of the matrix as twelve parameters"""
    ks = [("k%d" % i, "f64") for i in range(12)]

    def setup(e, ex, st, v):
        k = ex.param_array(st, "k", I(96), base=lambda o, t, s: v["k%d" % (cv(o) // 8)] if isc(o) else sx.UNDEF)
        out = ex.param_array(st, "out", I(8 * e.nout), base=lambda o, t, s: sx.UNDEF)
        return [v[n] for n, _ in params if n in e.first] + [k] + [v[n] for n, _ in params if n not in e.first] + [out], out

    def nconv(e):
        def f(a):
            d = dict(zip([n for n, _ in e.params], a))
            return [D(d[n]) for n, _ in params if n in e.first] + [(D * 12)(*[d["k%d" % i] for i in range(12)])] + [D(d[n]) for n, _ in params if n not in e.first]
        return f
    return params + ks, setup, nconv


# ---------------------------------------------------------------- one resonance
def increments(r, rp, e, sq, sign):
    """R = - (i/2) sqrt(G_a) sqrt(G_b) / (Er - E - i Gg/2), neutron width at E and the two (signed) fission widths"""
    g = [sq(r["gn"]) / sq(r["p"]) * rp, sign(r["fa"]), sign(r["fb"])]
    d = 4 * (r["er"] - e) * (r["er"] - e) + r["gg"] * r["gg"]
    out = []
    for i, j in IJ:
        out += [g[i] * g[j] * r["gg"] / d, -2 * g[i] * g[j] * (r["er"] - e) / d]
    return out


def tsign(x):
    s = app("sqrt", absr(x))
    return ite(lt(x, R(0)), -s, s)


def resonance():
    params, setup, nconv = with_k([(n, "f64") for n in RES + ["e", "rp"]])

    def cases(v):
        inc = increments(v, v["rp"], v["e"], lambda x: app("sqrt", x), tsign)
        ks = [v["k%d" % i] for i in range(12)]
        nf = land(eq(v["fa"], R(0)), eq(v["fb"], R(0)))
        return [("no fission", nf, ("ret", [k + i if n < 2 else k for n, (k, i) in enumerate(zip(ks, inc))] + [R(0)])),
                ("fission", lnot(nf), ("ret", [k + i for k, i in zip(ks, inc)] + [R(1)]))]

    def oracle(*a):
        d = {n: mpmath.mpf(x) for (n, _), x in zip(params, a)}
        if d["gn"] < 0 or d["p"] <= 0 or 4 * (d["er"] - d["e"]) ** 2 + d["gg"] ** 2 == 0:
            return None
        inc = increments(d, d["rp"], d["e"], mpmath.sqrt, lambda x: mpmath.sign(x) * mpmath.sqrt(abs(x)))
        f = d["fa"] != 0 or d["fb"] != 0
        return ("ret", [d["k%d" % n] + (x if f or n < 2 else 0) for n, x in enumerate(inc)] + [mpmath.mpf(1 if f else 0)])

    def samples(rng, tier, consts):
        for _ in range(300 if tier == "quick" else 5000):
            w = rm_widths(rng)
            yield w + [energies(rng, w[0]), rng.uniform(0, 2)] + [rng.choice([0., rng.uniform(-2, 2)]) for _ in range(12)]
    e = Entry("reichMoore::Resonance", "h_rm_resonance", params, nout=13, setup=setup,
              pre=lambda v: [le(R(0), v["gn"]), lt(R(0), v["p"]), lt(R(0), v["gg"])], cases=cases, oracle=oracle,
              tol=lambda a, i, w: 1e-10 * abs(w) + 1e-10, samples=samples, unit=RMU(), models=MODELS,
              functions=["reichMoore::Resonance::Resonance", "reichMoore::Resonance::operator()"])
    e.first = RES + ["e", "rp"]
    e.nconv = nconv(e)
    return e


def rm_widths(rng):
    er = rng.choice([rng.uniform(-50, 500), rng.uniform(0.1, 10), rng.uniform(0, 1e5)])
    f = lambda: rng.choice([0.0, 0.0, rng.uniform(0, 2), rng.uniform(-2, 0)])
    return [er, rng.choice([0., rng.uniform(1e-4, 5)]), rng.uniform(1e-3, 2), f(), f(), rng.uniform(1e-3, 3), rng.choice([.25, -.25, .5, .75, -.75, 1., 7 / 12, -5 / 12])]


# ---------------------------------------------------------------- the collision matrix
def cmul(a, b): return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
def cadd(a, b): return (a[0] + b[0], a[1] + b[1])
def csub(a, b): return (a[0] - b[0], a[1] - b[1])


def cdiv(a, b):
    d = b[0] * b[0] + b[1] * b[1]
    return ((a[0] * b[0] + a[1] * b[1]) / d, (a[1] * b[0] - a[0] * b[1]) / d)


def function():
    """one channel: U = exp(-2 i phi) (2 / (1 + R) - 1)"""
    params, setup, nconv = with_k([(n, "f64") for n in ["c", "s", "g", "phi"]])

    def f(v):
        one = R(1) if isinstance(v["g"], T) else mpmath.mpf(1)
        w = cdiv((one, one - one), (v["k0"] + 1, v["k1"]))
        U = cmul((v["c"], -v["s"]), (2 * w[0] - 1, 2 * w[1]))
        return [2 * v["g"] * (1 - U[0]), v["g"] * ((1 - U[0]) * (1 - U[0]) + U[1] * U[1]), 0 * one, v["g"]]

    def oracle(*a):
        d = {n: mpmath.mpf(x) for (n, _), x in zip(params, a)}
        return ("ret", f(d)) if d["k0"] >= 0 else None

    def samples(rng, tier, consts):
        for _ in range(300 if tier == "quick" else 5000):
            phi = rng.choice([rng.uniform(-3, 3), rng.uniform(-1e-4, 1e-4)])
            r = 10 ** rng.uniform(-8, 3)
            yield [math.cos(2 * phi), math.sin(2 * phi), rng.uniform(.1, 1), phi] + [r * rng.uniform(0, 1), r * rng.uniform(-1, 1)] + [rng.uniform(-1, 1) for _ in range(10)]
    e = Entry("reichMoore::Lvalue::solveRfunction", "h_rm_function", params, nout=4, setup=setup, pre=lambda v: [le(R(0), v["k0"])],
              cases=lambda v: [("Re R >= 0", TRUE, ("ret", f(v)))], oracle=oracle, tol=lambda a, i, w: 1e-10 * abs(w) + 1e-11, samples=samples,
              unit=RMU(), models=MODELS, functions=["reichMoore::Lvalue::solveRfunction"])
    e.lemmas = unitarity
    e.first = []
    e.nconv = nconv(e)
    return e


def matrix():
    """three channels: U = exp(-2 i phi) (2 (1 + R)^-1 - 1)"""
    params, setup, nconv = with_k([(n, "f64") for n in ["c", "s", "g"]])

    def inverse_row(v):
        """first row of (1 + R)^-1: cofactors over the determinant"""
        one = R(1) if isinstance(v["g"], T) else mpmath.mpf(1)
        M = {}
        for n, (i, j) in enumerate(IJ):
            z = (v["k%d" % (2 * n)] + (one if i == j else 0), v["k%d" % (2 * n + 1)])
            M[i, j] = M[j, i] = z
        cof = lambda i, j: csub(cmul(M[(i + 1) % 3, (j + 1) % 3], M[(i + 2) % 3, (j + 2) % 3]), cmul(M[(i + 1) % 3, (j + 2) % 3], M[(i + 2) % 3, (j + 1) % 3]))
        det = (one - one, one - one)
        for j in range(3):
            det = cadd(det, cmul(M[0, j], cof(0, j)))
        return [cof(j, 0) for j in range(3)], det

    def f(v):
        cs, det = inverse_row(v)
        X = [cdiv(c, det) for c in cs]
        p = (v["c"], -v["s"])
        U = [cmul(p, (2 * X[0][0] - 1, 2 * X[0][1]))] + [cmul(p, (2 * x[0], 2 * x[1])) for x in X[1:]]
        sq = lambda z: z[0] * z[0] + z[1] * z[1]
        return [2 * v["g"] * (1 - U[0][0]), v["g"] * sq((1 - U[0][0], -U[0][1])), v["g"] * (sq(U[1]) + sq(U[2])), v["g"]]

    def pre(v):
        det = inverse_row(v)[1]
        return [lt(R(0), det[0] * det[0] + det[1] * det[1])]

    def oracle(*a):
        d = {n: mpmath.mpf(x) for (n, _), x in zip(params, a)}
        det = inverse_row(d)[1]
        if det[0] ** 2 + det[1] ** 2 < 1e-12:
            return None
        return ("ret", f(d))

    def samples(rng, tier, consts):
        for _ in range(300 if tier == "quick" else 5000):
            phi = rng.uniform(-3, 3)
            k = [0.] * 12
            for _ in range(rng.choice([1, 2, 3])):          # a sum over levels, so that Re R is positive semidefinite
                g = [rng.uniform(-1, 1) for _ in range(3)]
                z = complex(rng.uniform(0, 2), rng.uniform(-2, 2))
                for n, (i, j) in enumerate(IJ):
                    k[2 * n] += g[i] * g[j] * z.real
                    k[2 * n + 1] += g[i] * g[j] * z.imag
            yield [math.cos(2 * phi), math.sin(2 * phi), rng.uniform(.1, 1)] + k
    e = Entry("reichMoore::Lvalue::solveRmatrix", "h_rm_matrix", params, nout=4, setup=setup, pre=pre,
              cases=lambda v: [("always", TRUE, ("ret", f(v)))], oracle=oracle, tol=lambda a, i, w: 1e-9 * abs(w) + 1e-10, samples=samples,
              unit=RMU(), models=MODELS, functions=["reichMoore::Lvalue::solveRmatrix"], limit=400)
    e.first = []
    e.nconv = nconv(e)
    return e


# ---------------------------------------------------------------- one l value
KOFF = [16 * (i + 3 * j) for i, j in IJ]         # column major


def inc(i, fs, e, rp): return app("rm_inc_%d" % i, *fs, e, rp)
def fis(fs): return app("rm_fissions", *fs, sort="B")


class Opaque:
    """resonances of which only the statistical factor is looked at: the other members are whatever the constructor stored"""

    def __init__(self, ex):
        lay = Layout(ex, "h_rm_resonance_make", "h_rm_resonance_size", RES)
        self.size = lay.size
        self.g = [o for o, (sz, x) in lay.cells.items() if x is lay.args[-1]]
        if len(self.g) != 1:
            raise ir.Unsupported("layout of a resonance")
        self.cells = {o: sz for o, (sz, x) in lay.cells.items()}

    def field(self, o, k, fixed):
        if o == self.g[0]:
            return fixed["g"] if "g" in fixed else app("r_g", k)
        return app("rm_member_%d" % o, k, sort="R" if self.cells[o] == 8 else "I")

    def array(self, ex, st, name, n, fixed):
        def base(off, ty, size):
            for o, sz in self.cells.items():
                k = sx.floordiv_exact(add(off, I(-o)), self.size)
                if k is not None and sz == size:
                    return self.field(o, k, fixed)
            return sx.UNDEF
        return ex.param_array(st, name, mul(I(self.size), n), base=base)


def fields(lay, k, fixed={}):
    return [lay.field(o, k, fixed) for o in sorted(lay.cells)]


def m_resonance(lay):
    """contract of Resonance::operator(): adds its increments to the upper triangle, the fission channels only if it has fission widths"""
    def model(ex, st, a, x, d):
        ex.assumed.add("reichMoore::Resonance::operator() at its call sites: the contract proved for it in the same property")
        this, e, rp, K = a
        k = [ex.load(st, Ptr(this.r, add(this.off, I(o))), ("double",) if lay.cells[o] == 8 else ("i", 8)) for o in sorted(lay.cells)]
        k = [q if isinstance(q, T) else ex.num(q) for q in k]
        st = st.copy()
        for n, o in enumerate(KOFF):
            for h in (0, 1):
                i = 2 * n + h
                p = Ptr(K.r, add(K.off, I(o + 8 * h)))
                d_ = inc(i, k, ex.num(e), ex.num(rp))
                ex.store(st, p, ex.load(st, p, ("double",)) + (d_ if n == 0 else ite(fis(k), d_, R(0))), ("double",))
        return [Outcome("ret", fis(k), st)]
    return model


def m_solve(kind, n):
    """contracts of solveRfunction / solveRmatrix: functions of the upper triangle, the phase and the statistical factor"""
    def model(ex, st, a, x, d):
        ex.assumed.add("reichMoore::Lvalue::%s at its call sites: the contract proved for it in the same property" % kind)
        out, K = a[:2]
        ks = [ex.load(st, Ptr(K.r, add(K.off, I(o + 8 * h))), ("double",)) for o in KOFF[:n] for h in (0, 1)]
        ar = ks + [ex.num(q) for q in a[2:]]
        if kind == "solveRfunction":
            known = [le(R(0), t) for t in tm.subterms(ks[0]) if t.op == "app" and t.args[0] in ("rm_inc_0", "rmK_0")]       # lemmas below
            ex.safety.append(("precondition of solveRfunction: Re R >= 0", tuple(st.pc) + tuple(known), le(R(0), ks[0]), d))
        st = st.copy()
        for i in range(4):
            v = R(0) if (kind, i) == ("solveRfunction", 2) else ar[-1 if n == 6 else -2] if i == 3 else app("rm_%s_%d" % (kind, i), *ar)
            ex.store(st, Ptr(out.r, add(out.off, I(8 * (3 - i)))), v, ("double",))
        return [Outcome("ret", None, st)]
    return model


def rm_lvalue(one, n=None, ordered=False):
    """any number of resonances of one J (n None), or n resonances of any J values"""
    params = [("n", "i64"), ("l", "i32"), ("e", "f64"), ("rc", "f64"), ("rs", "f64")] + ([("g", "f64")] if one else [])

    held = {}

    def F(k, v):
        return fields(held["lay"], k, {"g": v["g"]} if one else {})

    def recs(v):
        l = v["l"]
        rp = app("sqrt", P(l, v["rc"]))
        ps = [l, v["e"], v["rc"]]
        h = [sx.Rec("rmK_%d" % i, ps, R(0), lambda a, k, i=i: a + (inc(i, F(k, v), v["e"], rp) if i < 2 else ite(fis(F(k, v)), inc(i, F(k, v), v["e"], rp), R(0)))) for i in range(12)]
        return h + [sx.Rec("rm_any", [], FALSE, lambda a, k: lor(a, fis(F(k, v))))]

    def setup(e, ex, st, v):
        lay = Opaque(ex)
        held["lay"] = lay
        fixed = {"g": v["g"]} if one else {}
        arr = lay.array(ex, st, "resonances", v["n"] if one else I(n), fixed)
        ex.models[:0] = [(re_search("reichMoore::Resonance::operator@call const"), m_resonance(lay)),
                         (re_search("reichMoore::Lvalue::solveRfunction"), m_solve("solveRfunction", 1)),
                         (re_search("reichMoore::Lvalue::solveRmatrix"), m_solve("solveRmatrix", 6))]
        out = ex.param_array(st, "out", I(24), base=lambda o, t, s: sx.UNDEF)
        return [arr, v["n"] if one else I(n)] + [v[x] for x, _ in params[1:] if x != "g"] + [out], out

    def group(v, K, fission, g):
        """contribution of one J: total, elastic, fission, g"""
        ph = PHI_(v["l"], v["rs"])
        c, s = app("cos", 2 * ph), app("sin", 2 * ph)
        ag = absr(g)
        if fission:
            ar = K + [c, s, ag]
            return [app("rm_solveRmatrix_%d" % i, *ar) for i in range(3)] + [ag]
        ar = K[:2] + [c, s, ag, ph]
        return [app("rm_solveRfunction_%d" % i, *ar) for i in range(2)] + [R(0), ag]

    def total(v, groups):
        ph = PHI_(v["l"], v["rs"])
        s = app("sin", ph)
        t = [R(0)] * 4
        for q in groups:
            t = [x + y for x, y in zip(t, q)]
        return [t[1] + (2 * toreal(v["l"]) + 1 - t[3]) * 4 * s * s, t[0] - t[1] - t[2], t[2]]

    def cases(v):
        thr = ("l outside 0..4", lnot(range04(v["l"])), ("throw",))
        if one:
            h = recs(v)
            K = [x(v["n"]) for x in h[:12]]
            some = lt(I(0), v["n"])
            f = h[12](v["n"])
            ok = range04(v["l"])
            return [("no resonances", land(ok, lnot(some)), ("ret", total(v, []))),
                    ("fission", land(ok, some, f), ("ret", total(v, [group(v, K, True, v["g"])]))),
                    ("no fission", land(ok, some, lnot(f)), ("ret", total(v, [group(v, K, False, v["g"])]))), thr]
        rp = app("sqrt", P(v["l"], v["rc"]))
        g = [app("r_g", I(k)) for k in range(n)]
        out = [thr]
        for part in partitions(n):
            gd = range04(v["l"])
            for i in range(n):
                for j in range(i):
                    c = eq(g[i], g[j])
                    gd = land(gd, c if part[i] == part[j] else lnot(c))
            for bits in itertools.product((False, True), repeat=n):
                gb = gd
                for i in range(n):
                    gb = land(gb, fis(F(I(i), v)) if bits[i] else lnot(fis(F(I(i), v))))
                gr = []
                for c in range(max(part) + 1):
                    mem = [i for i in range(n) if part[i] == c]
                    K = []
                    for q in range(12):
                        t = R(0)
                        for i in mem:
                            if q < 2 or bits[i]:
                                t = t + inc(q, F(I(i), v), v["e"], rp)
                        K.append(t)
                    gr.append(group(v, K, any(bits[i] for i in mem), g[mem[0]]))
                out.append(("J pattern %s, fission %s" % ("".join(map(str, part)), "".join("01"[b] for b in bits)), gb, ("ret", total(v, gr))))
        return out

    def oracle(rs, a, lin):
        l, e, rc, rsc = a
        if not 0 <= l <= 4:
            return ("throw",)
        return ("ret", rm_oracle(l, rs, mpmath.mpf(e), mpmath.mpf(rc), mpmath.mpf(rsc)))

    def pre(v):
        g = [app("r_g", I(k)) for k in range(n or 0)]
        return [le(I(0), v["n"]), le(v["n"], I(2**40))] + ([] if ordered else [le(g[k], g[k + 1]) for k in range(len(g) - 1)])

    def samples(rng, tier, consts):
        for _ in range(250 if tier == "quick" else 4000):
            rs = [rm_widths(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]))]
            g0 = rng.choice([.25, -.25, .75])
            for r in rs:
                r[6] = rng.choice([.25, -.25, .75]) if not one else g0
            if not ordered:
                rs.sort(key=lambda r: r[6])
            yield (rs, [rng.choice([0, 1, 2, 3, 4, 0, 1, 5, -1]), energies(rng, rs[0][0] if rs else 10.), rng.uniform(0.01, 4), rng.uniform(0.01, 4)], (0, 0))

    e = RMany("reichMoore::Lvalue, %s" % ("one J" if one else "%d resonances%s" % (n, " in any order" if ordered else "")), "h_rm_sorted" if ordered else "h_rm_lvalue", params, nout=3, pre=pre, setup=setup,
              hints=recs if one else None, cases=cases, oracle=oracle, tol=lambda a, i, w: 1e-8 * abs(w) + 1e-8, samples=samples if one or n == 2 else None,
              unit=RMU(), models=MODELS, limit=400,
              functions=["reichMoore::Lvalue::Lvalue", "reichMoore::Lvalue::operator()", "reichMoore::Lvalue::penetrationShift", "reichMoore::Lvalue::phaseShift"] + (["reichMoore::Base::order"] if ordered else []))
    if not one:
        e.bound = "%d resonances" % n
    e.lemmas = nonnegative
    e.complete = lambda a, rng: None
    return e


def unitarity(e, v):
    """lemma: with Re R >= 0 the collision function of one channel stays inside the unit circle, so capture is not negative"""
    x, y = var("x", "R"), var("y", "R")
    d = (1 + x) * (1 + x) + y * y
    re, im = 2 * (1 + x) - d, -2 * y
    ok = solve.valid([le(R(0), x)], land(lt(R(0), d), le(re * re + im * im, d * d)))
    return [check.Obl(e.name, "lemma: |2 / (1 + R) - 1| <= 1 for Re R >= 0", "proved" if ok is True else "unknown", backend="z3")]


def nonnegative(e, v):
    """lemmas: every resonance adds a non-negative real part to R_nn, hence any number of them does"""
    r = {n: var(n, "R") for n in RES}
    rp, en, a, t = var("rp", "R"), var("e", "R"), var("a", "R"), var("t", "R")
    sn, sp = var("sn", "R"), var("sp", "R")
    first = increments(r, rp, en, lambda x: sn if x is r["gn"] else sp, tsign)[0]
    out = [("a resonance adds a non-negative real part", solve.valid([lt(R(0), r["gg"]), lt(R(0), sp)], le(R(0), first))),
           ("an empty sum is non-negative", solve.valid([], le(R(0), R(0)))),
           ("adding a non-negative term keeps a sum non-negative", solve.valid([le(R(0), a), le(R(0), t)], le(R(0), a + t)))]
    return [check.Obl(e.name, "lemma: " + n, "proved" if x is True else "unknown", backend="z3") for n, x in out]


class RMany(Many):
    def native(self, args):
        so = self.unit.so()
        rs, rest, lin = args
        flat = [x for r in rs for x in r]
        b = (D * 3)(*[float("nan")] * 3)
        l, e, rc, rsc = rest
        return ("throw",) if getattr(so, "n_" + self.fn[2:])((D * max(1, len(flat)))(*flat), LL(len(rs)), CI(int(l)), D(e), D(rc), D(rsc), b) else ("ret", list(b))


def rm_oracle(l, rs, e, rc, rsc):
    """the collision matrix of each J: U = exp(-2 i phi) (2 (1 + R)^-1 - 1), with its channels; the J values without resonances scatter as hard spheres"""
    ph = phi_l(l, rsc, mpmath.atan)
    rp = mpmath.sqrt(mpP(l, rc))
    G = {}
    for r in rs:
        G.setdefault(r[6], []).append({n: mpmath.mpf(x) for n, x in zip(RES, r)})
    left = mpmath.mpf(2 * l + 1)
    el = ca = fi = mpmath.mpf(0)
    for g, ds in G.items():
        left -= abs(g)
        M = mpmath.eye(3) * mpmath.mpc(1)
        for d in ds:
            w = [mpmath.sqrt(d["gn"] / d["p"]) * rp] + [mpmath.sign(d[x]) * mpmath.sqrt(abs(d[x])) for x in ("fa", "fb")]
            z = mpmath.mpc(0, -1) / 2 / (d["er"] - e - mpmath.mpc(0, 1) * d["gg"] / 2)
            for i in range(3):
                for j in range(3):
                    M[i, j] += z * w[i] * w[j]
        W = M ** -1
        p = mpmath.expj(-2 * ph)
        U = [p * (2 * W[0, j] - (1 if j == 0 else 0)) for j in range(3)]
        tot = 2 * abs(g) * (1 - U[0].real)
        e1 = abs(g) * abs(1 - U[0]) ** 2
        f1 = abs(g) * (abs(U[1]) ** 2 + abs(U[2]) ** 2)
        el, fi, ca = el + e1, fi + f1, ca + tot - e1 - f1
    return [el + left * 4 * mpmath.sin(ph) ** 2, ca, fi]


# ---------------------------------------------------------------- the object: any number of l values
def has_ap(k): return app("l_has_ap", k, sort="B")
def ap(k): return app("l_ap", k)
def rlv(i, k, e, rc, rs): return app("rm_lv_%d" % i, k, e, rc, rs)


def m_rlvalue(size):
    def model(ex, st, a, x, d):
        ex.assumed.add("reichMoore::Lvalue::operator() at its call sites: the contract proved for it in the same property")
        out, this, e, rc, rs = a
        k = sx.floordiv_exact(this.off, size)
        if k is None:
            raise ir.Unsupported("l value outside the array")
        st = st.copy()
        for i in range(3):
            ex.store(st, Ptr(out.r, add(out.off, I(8 * (2 - i)))), rlv(i, k, *[ex.num(q) for q in (e, rc, rs)]), ("double",))
        return [Outcome("ret", None, st)]
    return model


def ap_layout(ex):
    """where an l value holds its optional radius: from the two real constructors"""
    size = cv(ex.call("h_rm_lvalue_size", [], sx.State())[0].val)
    cells = []
    for fn, args in (("h_rm_lvalue_ap", [var("ctor_ap", "R")]), ("h_rm_lvalue_noap", [])):
        st = sx.State()
        obj = ex.param_array(st, "obj", I(size), base=lambda o, t, s: sx.UNDEF)
        o = ex.call(fn, [obj] + args, st)
        if len(o) != 1 or o[0].kind != "ret":
            raise ir.Unsupported("l value constructor")
        cells.append(dict(o[0].st.mem[obj.r].cells))
    val = [o for o, (sz, x) in cells[0].items() if x is var("ctor_ap", "R")]
    flag = [o for o, (sz, x) in cells[0].items() if sz == 1 and isinstance(x, T) and isc(x) and o in cells[1] and isc(cells[1][o][1])
            and (int(cv(x)), int(cv(cells[1][o][1]))) == (1, 0)]
    if len(val) != 1 or len(flag) != 1:
        raise ir.Unsupported("layout of the radius of an l value")
    return size, val[0], flag[0]


TAGS = {"Both": lambda r, rc, rs: (r, r), "Neither": lambda r, rc, rs: (rc, rs), "Channel": lambda r, rc, rs: (r, rs), "Scattering": lambda r, rc, rs: (rc, r)}


def rm_evaluate(tag, two):
    params = [("n", "i64"), ("awr", "f64"), ("e", "f64")]
    u = RMU()
    holder = {}

    def kk(v):
        if "c" not in holder:
            holder["c"] = wave_constant(*u.ir())
        return R(holder["c"]) * (v["awr"] / (v["awr"] + 1)) * app("sqrt", absr(v["e"]))

    def hints(v):
        e, k = v["e"], kk(v)
        rc = app("ext_a", e) * k
        rs = (app("ext_as", e) if two else app("ext_a", e)) * k

        def term(j, i):
            return ite(has_ap(j), rlv(i, j, e, *TAGS[tag](k * ap(j), rc, rs)), rlv(i, j, e, rc, rs))
        return [sx.Rec("rm%s%d_sum_%d" % (tag, two, i), [e, v["awr"]], R(0), lambda a, j, i=i: a + term(j, i)) for i in range(3)]

    def setup(en, ex, st, v):
        size, val, flag = ap_layout(ex)
        ex.models[:0] = [(re_search("reichMoore::Lvalue::operator@call const"), m_rlvalue(size)), (re_search("reichMoore::Base::order"), m_order)]

        def base(off, ty, sz):
            for o in (val, flag):
                k = sx.floordiv_exact(add(off, I(-o)), size)
                if k is not None and sz == (8 if o == val else 1):
                    return ap(k) if o == val else ite(has_ap(k), I(1), I(0))
            return sx.UNDEF
        arr = ex.param_array(st, "lvalues", mul(I(size), v["n"]), base=base)
        out = ex.param_array(st, "out", I(24), base=lambda o, t, s: sx.UNDEF)
        return [arr] + [v[n] for n, _ in params] + [out], out

    def cases(v):
        h, k = hints(v), kk(v)
        return [("always", TRUE, ("ret", [x(v["n"]) * (R(Fraction(math.pi)) / (k * k)) for x in h]))]

    def oracle(ls, a, lin):
        awr, e = map(mpmath.mpf, a)
        k = mpmath.mpf(lib_k(u)) * awr / (awr + 1) * mpmath.sqrt(abs(e))
        rc = k * (lin[0][0] + lin[0][1] * e)
        rs = k * (lin[1][0] + lin[1][1] * e) if two else rc
        tot = [mpmath.mpf(0)] * 3
        for l, r, res in ls:
            if not 0 <= l <= 4:
                return ("throw",)
            c, s = (rc, rs) if r is None else TAGS[tag](k * mpmath.mpf(r), rc, rs)
            tot = [x + y for x, y in zip(tot, rm_oracle(l, res, e, c, s))]
        return ("ret", [x * mpmath.pi / k ** 2 for x in tot])

    class E(Entry):
        def native(self, args):
            ls, a, lin = args
            so = self.unit.so()
            so.n_set_a(*map(D, lin[0]))
            so.n_set_as(*map(D, lin[1]))
            flat = []
            for l, r, rs in ls:
                flat += [l, 0. if r is None else 1., r or 0., len(rs)] + [x for q in rs for x in q]
            b = (D * 3)(*[float("nan")] * 3)
            f = getattr(so, "n_" + self.fn[2:])
            return ("throw",) if f((D * max(1, len(flat)))(*flat), LL(len(ls)), *map(D, a), b) else ("ret", list(b))

        def admissible(self, args):
            return True

    def scale(a):
        ls, p, lin = a
        k = ENDF_K * p[0] / (p[0] + 1) * math.sqrt(abs(p[1]))
        return 4 * math.pi / k ** 2 * (1 + sum(2 * abs(l) + 1 for l, q, rs in ls)) * 1e-1

    def samples(rng, tier, consts):
        for _ in range(80 if tier == "quick" else 1500):
            ls = []
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                l = rng.choice([0, 1, 2, 3, 4, 0, 1]) if rng.random() > .02 else rng.choice([5, -1])
                rs = [rm_widths(rng) for _ in range(rng.choice([0, 1, 2, 4]))]
                for r in rs:
                    r[6] = rng.choice([.25, -.25, .75])
                ls.append((l, rng.choice([None, rng.uniform(.3, 1.)]), rs))
            yield (ls, [rng.uniform(1, 250), energies(rng, ls[0][2][0][0] if ls[0][2] else 10.)], ((rng.uniform(.3, 1), 0.), (rng.uniform(.3, 1), rng.uniform(0, 1e-4))))
    en = E("reichMoore::Type<%s>, %s" % ("ChannelRadius, ScatteringRadius" if two else "Radius", tag), "h_rm_evaluate%d_%s" % (2 if two else 1, tag), params, nout=3,
           pre=lambda v: [le(I(0), v["n"]), le(v["n"], I(2**40)), lt(R(0), v["awr"]), lt(R(0), v["e"])], setup=setup, hints=hints, cases=cases,
           oracle=oracle, tol=lambda a, i, w: 1e-8 * abs(w) + 1e-9 * scale(a), samples=samples, unit=u, models=MODELS, limit=400,
           functions=["reichMoore::Type::Type", "reichMoore::Base::Base", "reichMoore::Base::evaluate", "reichMoore::Type::evaluate", "reichMoore::Inspector<%s>::operator()" % tag,
                      "reichMoore::Base::neutronWaveNumber", "NeutronWaveNumber"])
    en.complete = lambda a, rng: None
    return en


def C17():
    return Check("C17", [resonance(), function(), matrix(), rm_lvalue(True)] + [rm_lvalue(False, n) for n in (2, 3)] + [rm_lvalue(False, n, True) for n in (2, 3)]
                 + [rm_evaluate(t, two) for t in TAGS for two in (False, True)], FULL)
