"""R matrix reconstruction: resonances, L matrix, R_L matrix, spin groups."""
from .rmatrix import *
STRKEEP = "|".join(p for p in ["^([^<(]* )?(std::__cxx11::basic_string<char|std::operator(\\+|==|!=)<char|std::__cxx11::to_string)"])
INV = r"Eigen::internal::compute_inverse<Eigen::Matrix<std::complex<double>, -1, -1.*::run\("
TEXT2 = TEXT.replace("makeReactionID|", "")
RGU = lambda: Unit.get("rgroup.cpp", "full:rm", STRKEEP + "|" + CALC + "|" + TEXT2 + "|" + INV)


def complex_matrix(ex, st, p):
    """(data, rows, columns, elements as (re, im) by row and column) of a dense dynamic matrix of complex numbers"""
    data = ex.load(st, p, ("ptr",))
    r, c = (ex.load(st, Ptr(p.r, add(p.off, I(o))), ("i", 64)) for o in (8, 16))
    if not (isc(r) and isc(c)):
        raise ir.Unsupported("matrix of unknown size")
    r, c = cv(r), cv(c)
    at = lambda i, j, k: Ptr(data.r, add(data.off, I(16 * (j * r + i) + 8 * k)))
    return data, r, c, at, [[tuple(ex.num(ex.load(st, at(i, j, k), ("double",))) for k in (0, 1)) for j in range(c)] for i in range(r)]


def inverse(m):
    """the inverse, as unknown functions of all elements"""
    n = len(m)
    flat = [x for row in m for e in row for x in e]
    return [[tuple(app("inv%d_%d%d%s" % (n, i, j, k), *flat) for k in ("re", "im")) for j in range(n)] for i in range(n)]


def m_inverse(ex, st, a, x, d):
    ex.assumed.add("Eigen: inverse() of a square complex matrix is a function of its elements (and the inverse, by Eigen's contract)")
    st = st.copy()
    _, r, c, _, m = complex_matrix(ex, st, a[0])
    _, r2, c2, at, _ = complex_matrix(ex, st, a[1])
    if not r == c == r2 == c2:
        raise ir.Unsupported("inverse of a %dx%d matrix in a %dx%d one" % (r, c, r2, c2))
    for i, row in enumerate(inverse(m)):
        for j, e in enumerate(row):
            for k in (0, 1):
                ex.store(st, at(i, j, k), e[k], ("double",))
    return [Outcome("ret", None, st)]


def m_names(ex, st, a, x, d):
    """a channel identifier: a text of its own"""
    if "makeChannelID" not in d:
        return m_text(ex, st, a, x, d)
    ex.assumed.add("makeChannelID gives different texts for different channels")
    st = st.copy()
    n = st.ghost.get(("#channels", 0), 0) + 1
    st.ghost[("#channels", 0)] = n
    st.ghost[models.key(a[0])] = models.lit("channel %d" % n)
    return [Outcome("ret", None, st)]


def m_streq(ex, st, a, x, d):
    ps = models.split_params(re.search(r"\((.*)\)$", d[d.index("std::operator"):]).group(1))
    g = [models.gstr(ex, st, p, k == "char const*") for p, k in zip(a, ps)]
    if not all(isinstance(q, str) for h in g for q in h[1]):
        raise ir.Unsupported("comparison of texts with numbers")
    same = g[0] == g[1]
    return [Outcome("ret", const(same if "operator==" in d else not same, "B"), st)]


MODELS2 = [(INV, m_inverse), (r"^(.* )?std::operator[!=]=<char", m_streq), (r"makeChannelID", m_names)]
MALL = MODELS2 + MODELS


# ---------------------------------------------------------------- complex numbers as pairs of terms
def cm(a, b): return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
def ca(*xs): return (sum_([x[0] for x in xs]), sum_([x[1] for x in xs]))
def cs(a, b): return (a[0] - b[0], a[1] - b[1])
def cexpi(x): return (app("cos", x), app("sin", x))
def norm(a): return a[0] * a[0] + a[1] * a[1]


def sum_(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


ZERO, ONE = (R(0), R(0)), (R(1), R(0))


def pole(er, c, e):
    """1 / (E_r - E - i Gamma/2), the eliminated reduced width c: Gamma/2 = c^2"""
    d, g = er - e, c * c
    n = d * d + g * g
    return (d / n, g / n)


def rmatrix(widths, er, c, e):
    p = pole(er, c, e)
    return [[(a * b * p[0], a * b * p[1]) for b in widths] for a in widths]


def rl(rm, L, closed, transposed=False):
    """(1 - R L)^-1 R with the channels below threshold left out of R"""
    n = len(L)
    r = [[ZERO if i in closed or j in closed else ca(*[m[i][j] for m in rm]) for j in range(n)] for i in range(n)]
    m = inverse([[cs(ONE if i == j else ZERO, cm(r[i][j], L[j])) for j in range(n)] for i in range(n)])
    out = [[ca(*[cm(m[i][k], r[k][j]) for k in range(n)]) for j in range(n)] for i in range(n)]
    return [[out[j][i] for j in range(n)] for i in range(n)] if transposed else out


_own = {}


def own(fn, v, names, unit=RGU):
    """wave number and threshold condition the library itself computes for a channel (their contracts: C19)"""
    if (fn, unit) not in _own:
        u = unit()
        mod, dem = u.ir()
        ex = sx.Exec(mod, dem, MALL + models.MODELS)
        ps = [var(n, "R") for n in names]
        st = sx.State()
        out = ex.param_array(st, "own", I(16), base=lambda o, t, s: sx.UNDEF)
        rs = []
        for o in ex.call(fn, ps + [out], st):
            if o.kind != "ret":
                raise ir.Unsupported("%s throws" % fn)
            rs.append([land(*o.st.pc)] + [ex.load(o.st, Ptr(out.r, I(k)), ("double",)) for k in (0, 8)])
        k, b = rs[0][1:]
        for c, k2, b2 in rs[1:]:
            k, b = ite(c, k2, k), ite(c, b2, b)
        _own[fn, unit] = (ps, k, b)
    ps, k, b = _own[fn, unit]
    m = {p: v[n] for p, n in zip(ps, names)}
    return subst(k, m), subst(b, m)


# the harness gives channels the radii r, 5/4 r and 3/2 r for P, S and the phase; rho is k r
def P(l, rho): return value("P", "Neutron", l, rho, R(0))
def S(l, rho): return value("S", "Neutron", l, scaled(rho, Fraction(5, 4)), R(0))
def F(l, rho): return value("F", "Neutron", l, scaled(rho, Fraction(3, 2)), R(0))
def scaled(rho, f): return rho.args[0] * (rho.args[1] * R(f)) if rho.op == "mul" and rho.args[1].op == "var" else rho * R(f)


def u_row(c, T_, p, om):
    n = len(p)
    sq = [app("sqrt", x) if not isc(x) else x for x in p]
    out = []
    for j in range(n):
        t = T_[c][j]
        w = (-2 * sq[c] * sq[j] * t[1], 2 * sq[c] * sq[j] * t[0])
        out.append(cm(cm(om[c], ca(ONE if j == c else ZERO, w)), om[j]))
    return out


def below(fn, v, names):
    b = own(fn, v, names)[1]
    if isc(b):
        return const(cv(b) != 0, "B")
    return b.args[0] if cv(b.args[1]) else lnot(b.args[0])


def factor(J, k): return R(PI) / (k * k) * ((2 * J + 1) / R(16))


# ---------------------------------------------------------------- numbers
def mp_flux(v, q=0): return v["e"] * mpmath.mpf(235) / (mpmath.mpf("1.00866491582") + 235) + q


def mp_wave(v, q=0):
    m = mpmath.mpf("1.00866491582")
    return mp_k({"e": v["e"], "q": q, "ma": m, "mb": mpmath.mpf(235), "Ma": m, "Mb": mpmath.mpf(235)})


def mp_pole(er, c, e): return 1 / mpmath.mpc(er - e, -c * c)


def mp_P(l, rho): return P_l(l, rho)
PI = Fraction(math.pi)
def mp_S(l, rho): return mpmath.mpf(S_l(l, rho * 5 / 4))
def mp_F(l, rho): return phi_l(l, rho * 3 / 2, mpmath.atan)


def mp_rl(rs, L, closed, e):
    n = len(L)
    r = mpmath.matrix(n, n)
    for er, w, c in rs:
        for i in range(n):
            for j in range(n):
                if i not in closed and j not in closed:
                    r[i, j] += w[i] * w[j] * mp_pole(er, c, e)
    return (mpmath.eye(n) - r * mpmath.diag(L)) ** -1 * r


def mp_row(c, T_, p, om):
    return [om[c] * ((1 if j == c else 0) + 2j * mpmath.sqrt(p[c]) * T_[c, j] * mpmath.sqrt(p[j])) * om[j] for j in range(len(p))]


# ---------------------------------------------------------------- entries
def params(s): return [(n, "i32" if n in ("l", "k") else "f64") for n in s.split()]


def rsamples(ps, charges=()):
    def samples(rng, tier, consts):
        for _ in range(120 if tier == "quick" else 3000):
            e = 10 ** rng.uniform(-2, 5)
            a = []
            near = rng.random() < .6
            for n, t in ps:
                if n in ("l", "k"):
                    a.append(rng.choice([0, 0, 1, 1, 2, 3, 4, 4, 5, 7]))
                elif n == "q":
                    a.append(rng.choice([0., rng.uniform(-2, 2) * e, -.5 * e, -2 * e]))
                elif n in ("r", "t"):
                    a.append(rng.uniform(.3, 1.2))
                elif n in ("J", "K"):
                    a.append(rng.choice([0., 1., 2., 3., 4., 5.]))
                elif n in ("b", "d"):
                    a.append(rng.choice([0., rng.uniform(-3, 1)]))
                elif n in ("p1", "p2", "p3"):
                    a.append(10 ** rng.uniform(-4, 1))
                elif n in ("er", "e1", "e2"):
                    a.append(e * rng.uniform(.9, 1.1) if near else 10 ** rng.uniform(-2, 5))
                elif n == "e":
                    a.append(e)
                elif n.startswith("c"):
                    a.append(rng.choice([.1, .3, 1]) * rng.uniform(.2, 1.5))
                else:
                    a.append(rng.choice([-1, 1]) * math.sqrt(e) * 10 ** rng.uniform(-3, 0))
            yield a
    return samples


def mpv(ps, a): return {n: (mpmath.mpf(x) if t == "f64" else x) for (n, t), x in zip(ps, a)}


def plausible(ps, a):
    """inputs a replay can judge: outside, rounding decides (the proofs cover them)"""
    for (n, t), x in zip(ps, a):
        f = n.rstrip("0123456789")
        if t != "f64":
            if not 0 <= x <= 10:
                return False
        elif not (1e-4 <= x <= 1e7 if n == "e" else .05 <= x <= 5 if n in ("r", "t") else abs(x) <= 1e8 and (x == 0 or abs(x) >= 1e-8)):
            return False
    return True


def judged(ps, oracle): return lambda *a: oracle(mpv(ps, a)) if plausible(ps, a) else None


def rentry(name, fn, s, nout, cases, oracle, tol, functions, bound=None, positive=True):
    ps = params(s)
    pre = lambda v: ([lt(R(0), v[x]) for x in ("e", "r", "t") if x in v] if positive else []) + [le(I(0), v[n]) for n, t in ps if t != "f64"]
    e = Entry(name, fn, ps, nout=nout, pre=pre, cases=cases, oracle=judged(ps, oracle), tol=tol, samples=rsamples(ps), unit=RGU(), models=MALL,
              functions=["rmatrix::" + f for f in functions])
    if bound:
        e.bound = bound
    return e


def flat(m): return [x for row in m for e in row for x in e]
def mflat(m, n): return [x for i in range(n) for j in range(n) for x in (m[i, j].real, m[i, j].imag)]
def rel_all(x): return lambda a, i, w: x * abs(w) + 1e-13


def resonance(n):
    w = "a b g".split()[:n]

    def oracle(v):
        if v["er"] == v["e"] and v["c"] == 0:
            return None
        p = mp_pole(v["er"], v["c"], v["e"])
        return ("ret", [x for i in w for j in w for x in ((v[i] * v[j] * p).real, (v[i] * v[j] * p).imag)])
    return rentry("Resonance::rmatrix, %d channel%s" % (n, "s" * (n > 1)), "h_rm%d" % n, "er %s c e" % " ".join(w), 2 * n * n,
                  lambda v: [("always", TRUE, ("ret", flat(rmatrix([v[x] for x in w], v["er"], v["c"], v["e"]))))], oracle, rel_all(1e-11),
                  ["Resonance::rmatrix"], "%d channels" % n, positive=False)


def lmatrix(B):
    def cases(v):
        k1, k2 = own("h_k_el", v, ["e"])[0], own("h_k_in", v, ["q", "e"])[0]
        p = [v["p1"], v["p2"], v["p3"]]
        if B == "ShiftFactor":
            return [("always", TRUE, ("ret", flat([[(R(0), x) for x in p]])))]
        ok = land(le(v["l"], I(4)), le(v["k"], I(4)))
        s = [S(v["l"], k1 * v["r"]) - v["b"], S(v["k"], k2 * v["t"]) - v["d"], R(0)]
        return [("l up to 4", ok, ("ret", flat([list(zip(s, p))]))), ("l above 4", lnot(ok), ("throw",))]

    def oracle(v):
        if B == "Constant" and max(v["l"], v["k"]) > 4:
            return ("throw",)
        s = [0, 0, 0]
        if B == "Constant":
            if abs(mp_flux(v, v["q"])) < 1e-6 * abs(v["q"]):
                return None
            s = [mp_S(v["l"], mp_wave(v) * v["r"]) - v["b"], mp_S(v["k"], mp_wave(v, v["q"]) * v["t"]) - v["d"], 0]
        return ("ret", [y for x in zip(s, [v["p1"], v["p2"], v["p3"]]) for y in x])
    return rentry("LMatrixCalculator<%s>" % B, "h_l_" + B, "l k q r t b d p1 p2 p3 e", 6, cases, oracle, lambda a, i, w: 1e-4 * abs(w) + 1e-4,
                  ["LMatrixCalculator<%s>::operator()" % B], "3 channels")


def closed_cases(v, ok, names=["q", "e"]):
    c = below("h_k_in", v, names)
    return [("open", land(ok, lnot(c)), ()), ("closed", land(ok, c), (1,))]


def rlmatrix(B):
    def cases(v):
        k1, k2 = own("h_k_el", v, ["e"])[0], own("h_k_in", v, ["q", "e"])[0]
        rm = [rmatrix([v["a" + i], v["b" + i]], v["e" + i], v["c" + i], v["e"]) for i in "12"]
        L, ok = [(R(0), v["p1"]), (R(0), v["p2"])], TRUE
        if B == "Constant":
            ok = land(le(v["l"], I(4)), le(v["k"], I(4)))
            L = [(S(v["l"], k1 * v["r"]) - v["b"], v["p1"]), (S(v["k"], k2 * v["t"]) - v["d"], v["p2"])]
        out = [] if ok is TRUE else [("l above 4", lnot(ok), ("throw",))]
        for nm, g, cl in closed_cases(v, ok):
            for tr in (False, True):
                out.append((nm, g, ("ret", flat(rl(rm, L, cl, tr)))))
        return out

    def oracle(v):
        if B == "Constant" and max(v["l"], v["k"]) > 4:
            return ("throw",)
        if abs(mp_flux(v, v["q"])) < 1e-6 * abs(v["q"]):
            return None
        s = [0, 0]
        if B == "Constant":
            s = [mp_S(v["l"], mp_wave(v) * v["r"]) - v["b"], mp_S(v["k"], mp_wave(v, v["q"]) * v["t"]) - v["d"]]
        rs = [(v["e" + i], [v["a" + i], v["b" + i]], v["c" + i]) for i in "12"]
        return ("ret", mflat(mp_rl(rs, [mpmath.mpc(s[0], v["p1"]), mpmath.mpc(s[1], v["p2"])], () if mp_flux(v, v["q"]) >= 0 else (1,), v["e"]), 2))
    return rentry("RLMatrixCalculator<ReichMoore, %s>" % B, "h_rl_" + B, "l k q r t b d p1 p2 e1 a1 b1 c1 e2 a2 b2 c2 e", 8, cases, oracle, rl_tol(B),
                  ["RLMatrixCalculator<ReichMoore, %s>::operator()" % B, "Resonance::rmatrix", "ResonanceTable"], "2 channels, 2 resonances")


def rl_tol(B): return lambda a, i, w: 1e-3 * abs(w) + 1e-4


def group(kind, B):
    """spin group: channels (l, radius, boundary, Q, incident?, fission?), resonances"""
    s = {1: "l J r b e1 a1 c1 e2 a2 c2 e", 2: "l k J r t b d e1 a1 b1 c1 e", 3: "l k J q r t b d e1 a1 b1 f1 c1 e"}[kind]
    n = kind
    res = [("1", "a1"), ("2", "a2")] if kind == 1 else [("1", "a1 b1"[:5] + (" f1" if kind == 3 else ""))]
    inc = {1: [0], 2: [0, 1], 3: [0]}[kind]

    def cases(v):
        ls = [v["l"]] + ([v["k"]] if n > 1 else [])
        ok = land(*[le(x, I(4)) for x in ls])
        rho = [own("h_k_el", v, ["e"])[0] * v["r"]]
        if n > 1:
            rho.append((own("h_k_el", v, ["e"]) if kind == 2 else own("h_k_in", v, ["q", "e"]))[0] * v["t"])
        p, sf, ph = [[f(l, x) for l, x in zip(ls, rho)] for f in (P, S, F)]
        if B == "ShiftFactor":
            sf = [R(0)] * len(p)
        else:
            sf = [x - v[b] for x, b in zip(sf, "bd")]
        if kind == 3:
            p, sf, ph = p + [R(1)], sf + [R(0)], ph + [R(0)]
        L = list(zip(sf, p))
        om = [cexpi(neg(x)) if not isc(x) else ONE for x in ph]
        rm = [rmatrix([v[x] for x in w.split()], v["e" + i], v["c" + i], v["e"]) for i, w in res]
        fac = factor(v["J"], own("h_k_el", v, ["e"])[0])
        out = [("l above 4", lnot(ok), ("throw",))]
        for nm, g, cl in closed_cases(v, ok) if kind == 3 else [("open", ok, ())]:
            for tr in (False, True):
                T_ = rl(rm, L, cl, tr)
                rows = {c: u_row(c, T_, p, om) for c in inc}
                sig = {c: [norm(cs(ONE if c == j else ZERO, u)) for j, u in enumerate(rows[c])] for c in inc}
                cap = [fac * (R(1) - sum_([norm(u) for u in rows[c]])) for c in inc]
                if kind == 3:
                    vals = [fac * x for x in sig[0]] + [sum_(cap), R(4)]
                else:
                    vals = [sum_([fac * x for c in inc for x in sig[c]]), sum_(cap), R(2)]
                out.append((nm, g, ("ret", vals)))
        return out

    def oracle(v):
        if max(v["l"], v.get("k", 0)) > 4:
            return ("throw",)
        q = v.get("q", 0)
        if abs(mp_flux(v, q)) < 1e-6 * abs(q):
            return None
        ls = [v["l"]] + ([v["k"]] if n > 1 else [])
        rho = [mp_wave(v) * v["r"]] + ([mp_wave(v, q) * v["t"]] if n > 1 else [])
        p, sf, ph = [[f(l, x) for l, x in zip(ls, rho)] for f in (mp_P, mp_S, mp_F)]
        sf = [0] * len(p) if B == "ShiftFactor" else [x - v[b] for x, b in zip(sf, "bd")]
        if kind == 3:
            p, sf, ph = p + [mpmath.mpf(1)], sf + [0], ph + [0]
        om = [mpmath.expj(-x) for x in ph]
        rs = [(v["e" + i], [v[x] for x in w.split()], v["c" + i]) for i, w in res]
        T_ = mp_rl(rs, [mpmath.mpc(a, b) for a, b in zip(sf, p)], (1,) if kind == 3 and mp_flux(v, q) < 0 else (), v["e"])
        fac = mpmath.pi / mp_wave(v) ** 2 * (2 * v["J"] + 1) / 16
        rows = {c: mp_row(c, T_, p, om) for c in inc}
        sig = {c: [abs((c == j) - u) ** 2 for j, u in enumerate(rows[c])] for c in inc}
        cap = sum(fac * (1 - sum(abs(u) ** 2 for u in rows[c])) for c in inc)
        if kind == 3:
            return ("ret", [fac * x for x in sig[0]] + [cap, 4])
        return ("ret", [sum(fac * x for c in inc for x in sig[c]), cap, 2])

    def tol(a, i, w):
        v = dict(zip(s.split(), a))
        fac = math.pi / float(mp_wave({"e": mpmath.mpf(v["e"])})) ** 2 * (2 * v["J"] + 1) / 16
        return 1e-3 * abs(w) + 2e-3 * fac if i < (4 if kind == 3 else 2) else 0
    return rentry("SpinGroup<ReichMoore, %s>, %s" % (B, {1: "one incident channel", 2: "two incident channels", 3: "elastic, inelastic and fission"}[kind]),
                  "h_sg%d_%s" % (kind, B), s, 5 if kind == 3 else 3, cases, oracle, tol,
                  ["SpinGroup::" + f for f in "evaluate penetrabilities coulombShifts sqrtPenetrabilities omegas phaseShifts reactionIDs determineIncidentChannels makeReactionIdentifiers".split()]
                  + ["RLMatrixCalculator", "LMatrixCalculator"],
                  "%d channel%s, %d resonance%s" % (n, "s" * (n > 1), len(res), "s" * (len(res) > 1)))


def tmatrix(B):
    """sqrt(P_c) R_L sqrt(P_c') of two incident channels (the element is stored under the row's identifier first)"""
    def cases(v):
        ok = land(le(v["l"], I(4)), le(v["k"], I(4)))
        ls, ks = [v["l"], v["k"]], own("h_k_el", v, ["e"])[0]
        rho = [ks * v["r"], ks * v["t"]]
        p = [P(l, x) for l, x in zip(ls, rho)]
        s = [S(l, x) - v[b] for l, x, b in zip(ls, rho, "bd")] if B == "Constant" else [R(0)] * 2
        rm, sq = [rmatrix([v["a1"], v["b1"]], v["e1"], v["c1"], v["e"])], [app("sqrt", x) for x in p]
        out = [("l above 4", lnot(ok), ("throw",))]
        for tr in (False, True):
            T_ = rl(rm, list(zip(s, p)), (), tr)
            out.append(("open", ok, ("ret", flat([[tuple(sq[i] * sq[j] * x for x in T_[i][j]) for j in (0, 1)] for i in (0, 1)]) + [R(4)])))
        return out

    def oracle(v):
        if max(v["l"], v["k"]) > 4:
            return ("throw",)
        ls, rho = [v["l"], v["k"]], [mp_wave(v) * v[x] for x in "rt"]
        p = [mp_P(l, x) for l, x in zip(ls, rho)]
        s = [mp_S(l, x) - v[b] for l, x, b in zip(ls, rho, "bd")] if B == "Constant" else [0, 0]
        T_ = mp_rl([(v["e1"], [v["a1"], v["b1"]], v["c1"])], [mpmath.mpc(a, b) for a, b in zip(s, p)], (), v["e"])
        return ("ret", [y for i in (0, 1) for j in (0, 1) for y in ((mpmath.sqrt(p[i] * p[j]) * T_[i, j]).real, (mpmath.sqrt(p[i] * p[j]) * T_[i, j]).imag)] + [4])
    return rentry("SpinGroup<ReichMoore, %s>::evaluateTMatrix, two channels" % B, "h_t_" + B, "l k J r t b d e1 a1 b1 c1 e", 9, cases, oracle, lambda a, i, w: 1e-3 * abs(w) + 2e-3,
                  ["SpinGroup::evaluateTMatrix", "SpinGroup::channelIDs"], "2 channels, 1 resonance")


def compound(B):
    """the cross sections of two spin groups of one channel add up; groups of one J and parity are refused"""
    s = "l k J K r t b d e1 a1 c1 e2 a2 c2 e"
    each = [dict(l="l", J="J", r="r", b="b", e1="e1", a1="a1", c1="c1"), dict(l="k", J="K", r="t", b="d", e1="e2", a1="a2", c1="c2")]

    def cases(v):
        ok = land(le(v["l"], I(4)), le(v["k"], I(4)), lnot(eq(v["J"], v["K"])))
        vals = [R(0), R(0)]
        for m in each:
            k = own("h_k_el", v, ["e"])[0]
            l, rho = v[m["l"]], k * v[m["r"]]
            p, om = P(l, rho), cexpi(neg(F(l, rho)))
            sf = S(l, rho) - v[m["b"]] if B == "Constant" else R(0)
            u = u_row(0, rl([rmatrix([v[m["a1"]]], v[m["e1"]], v[m["c1"]], v["e"])], [(sf, p)], ()), [p], [om])[0]
            fac = factor(v[m["J"]], k)
            vals = [vals[0] + fac * norm(cs(ONE, u)), vals[1] + fac * (R(1) - norm(u))]
        return [("refused", lnot(ok), ("throw",)), ("open", ok, ("ret", vals + [R(2)]))]

    def oracle(v):
        if max(v["l"], v["k"]) > 4 or v["J"] == v["K"]:
            return ("throw",)
        el = ca_ = 0
        for m in each:
            l, rho = v[m["l"]], mp_wave(v) * v[m["r"]]
            p = mp_P(l, rho)
            T_ = mp_rl([(v[m["e1"]], [v[m["a1"]]], v[m["c1"]])], [mpmath.mpc(mp_S(l, rho) - v[m["b"]] if B == "Constant" else 0, p)], (), v["e"])
            u = mp_row(0, T_, [p], [mpmath.expj(-mp_F(l, rho))])[0]
            fac = mpmath.pi / mp_wave(v) ** 2 * (2 * v[m["J"]] + 1) / 16
            el, ca_ = el + fac * abs(1 - u) ** 2, ca_ + fac * (1 - abs(u) ** 2)
        return ("ret", [el, ca_, 2])

    def tol(a, i, w):
        v = dict(zip(s.split(), a))
        return 1e-3 * abs(w) + 2e-3 * math.pi / float(mp_wave({"e": mpmath.mpf(v["e"])})) ** 2 * (v["J"] + v["K"] + 1) / 8 if i < 2 else 0
    return rentry("CompoundSystem<ReichMoore, %s>, two spin groups" % B, "h_cs_" + B, s, 3, cases, oracle, tol,
                  ["CompoundSystem::evaluate", "CompoundSystem::verifySpinGroups", "SpinGroup::evaluate"], "2 spin groups of 1 channel and 1 resonance")


def C20():
    return Check("C20", [resonance(n) for n in (1, 2, 3)] + [lmatrix(B) for B in OPTIONS] + [rlmatrix(B) for B in OPTIONS]
                 + [group(k, B) for k in (1, 2, 3) for B in OPTIONS] + [f(B) for f in (tmatrix, compound) for B in OPTIONS], FULL, level="other")


OPTIONS = ("Constant", "ShiftFactor")
