"""Single and multi level Breit-Wigner evaluation, Reich-Moore (the namespaces breitWigner and reichMoore)."""
import re
from fractions import Fraction
from .common import *
from irvc import frontend as Fr
from irvc import models, ir
from irvc.sx import Ptr, Outcome
D, LL, CI = ctypes.c_double, ctypes.c_longlong, ctypes.c_int

PS = r"^(std::array<double, 2ul> )?njoy::resonanceReconstruction::penetrationShift\(int, double\)"
PH = r"^(double )?njoy::resonanceReconstruction::phaseShift\(int, double\)"
LV = r"^SKEL:.*(single|multi)Level::Lvalue::operator@call const$"
DD = r"breitWigner::multiLevel::D\(double, int\)$"
ORDER = r"^SKEL:.*multiLevel::Base::order$"
RHO = r"^SKEL:.*Level::Base::evaluate const::'lambda\d*'::operator@call const$"
KEEP = PS + "|" + PH + "|" + LV + "|" + RHO + "|" + DD + "|" + ORDER
MLRES_KEEP = "|^SKEL:.*multiLevel::Resonance::operator@call const$"
BWR = lambda: Unit.get("bw.cpp", "full:bw", KEEP + MLRES_KEEP)
BW = lambda: Unit.get("bw.cpp", "full:bw", KEEP)


def range04(l):
    return land(le(I(0), l), le(l, I(4)))


def P(l, rho): return app("hs_P", l, rho)
def S(l, rho): return app("hs_S", l, rho)
def PHI_(l, rho): return app("hs_phi", l, rho)


def m_ps(ex, st, a, x, d):
    ex.assumed.add("penetrationShift(l, rho) at its call sites: functions P and S of (l, rho), exception outside l = 0..4 (proved as C04)")
    return split04(ex, st, a, lambda l, rho: [P(l, rho), S(l, rho)], x)


def m_ph(ex, st, a, x, d):
    ex.assumed.add("phaseShift(l, rho) at its call sites: a function of (l, rho), exception outside l = 0..4 (proved as C04)")
    return split04(ex, st, a, lambda l, rho: PHI_(l, rho), x)


def split04(ex, st, a, f, x):
    l, rho = (ex.num(q) for q in a[-2:])
    out = []
    for ok, s in ex.fork(st, range04(l)):
        if not ok:
            out.append(Outcome("throw", "std::exception", s))
            continue
        out.append(Outcome("ret", f(l, rho), s))
    return out


def m_ext(ex, st, a, x, d):
    return [Outcome("ret", app(d, *[ex.num(q) for q in a]), st)]


MODELS = [(PS, m_ps), (PH, m_ph), (r"^ext_\w+$", m_ext)]


class Layout:
    """where a constructor puts what: the real constructor is executed symbolically on one object; an array of such
    objects, of any length, has at element k what the constructor stores for the arguments arg_j(k)"""

    def __init__(self, ex, make, size, names):
        st = sx.State()
        self.size = cv(ex.call(size, [], st)[0].val)
        obj = ex.param_array(st, "obj", I(self.size), base=lambda o, t, s: sx.UNDEF)
        args = [var("ctor_" + n, "R") for n in names]
        outs = ex.call(make, [obj] + args, st)
        if any(o.kind != "ret" for o in outs):
            raise ir.Unsupported("constructor that may throw")
        self.cells = None
        for o in reversed(outs):
            reg = o.st.mem[obj.r]
            if reg.log:
                raise ir.Unsupported("constructor writes")
            if self.cells is None:
                self.cells = dict(reg.cells)
                continue
            if set(self.cells) != set(reg.cells):
                raise ir.Unsupported("constructor with outcomes of different shape")
            pc = land(*o.st.pc)
            for off, (sz, val) in reg.cells.items():
                old = self.cells[off]
                if old[0] != sz or not (val is old[1] or (isinstance(val, T) and isinstance(old[1], T) and val.sort == old[1].sort)):
                    raise ir.Unsupported("constructor with outcomes of different shape")
                if val is not old[1]:
                    self.cells[off] = (sz, ite(pc, val, old[1]))
        self.args, self.names = args, names

    def array(self, ex, st, name, n, prefix, fixed={}):
        def base(off, ty, size):
            for o, (sz, v) in self.cells.items():
                k = sx.floordiv_exact(add(off, I(-o)), self.size)
                if k is not None and sz == size:
                    return subst(v, {a: fixed[nm] if nm in fixed else app(prefix + nm, k) for a, nm in zip(self.args, self.names)}) if isinstance(v, T) else v
            return sx.UNDEF
        return ex.param_array(st, name, mul(I(self.size), n), base=base)


RES = ["er", "gn", "gg", "gf", "gx", "p", "s", "g"]


def res(k):
    return {n: app("r_" + n, k) for n in RES}


def one(r, Pc, Sc, cw, e):
    """widths, psi and chi of one resonance"""
    gn = r["gn"] / r["p"] * Pc
    tot = gn + r["gg"] + r["gf"] + cw
    ep = r["er"] + r["gn"] / r["p"] * (r["s"] - Sc) / 2
    x = 2 * (e - ep) / tot
    psi = 1 / (1 + x * x)
    return gn, tot, psi, x * psi


def slbw(r, Pc, Sc, s2, sin2phi, cw, e):
    gn, tot, psi, chi = one(r, Pc, Sc, cw, e)
    w = r["g"] * gn / tot
    return [w * ((gn / tot - 2 * s2) * psi + sin2phi * chi), w * psi * r["gg"] / tot, w * psi * r["gf"] / tot]


# ---------------------------------------------------------------- one resonance
def widths(rng):
    er = rng.choice([rng.uniform(-50, 500), rng.uniform(0.1, 10), rng.uniform(0, 1e5)])
    return [er, rng.uniform(1e-4, 5), rng.uniform(1e-4, 2), rng.choice([0.0, rng.uniform(0, 2)]), rng.choice([0.0, rng.uniform(0, 2)]),
            rng.uniform(1e-3, 3), rng.uniform(-4, 0), rng.choice([.25, .5, .75, 1., 7 / 12, 5 / 12])]


def energies(rng, er):
    return rng.choice([abs(er) * rng.uniform(.5, 1.5) + 1e-3, abs(er) + rng.uniform(0, 3), rng.uniform(1e-3, 1e3), abs(er) + 1e-9])


def resonance(kind):
    ps = RES + (["P", "S", "s2", "sin2phi", "cw", "e"] if kind == "slbw" else ["P", "S", "cw", "e"])
    params = [(n, "f64") for n in ps]

    def f(v):
        r = {n: v[n] for n in RES}
        if kind == "slbw":
            return slbw(r, v["P"], v["S"], v["s2"], v["sin2phi"], v["cw"], v["e"])
        gn, tot, psi, chi = one(r, v["P"], v["S"], v["cw"], v["e"])
        w = gn / tot
        return [psi * w, chi * w, psi * w * r["gg"] / tot, psi * w * r["gf"] / tot]

    def samples(rng, tier, consts):
        for _ in range(400 if tier == "quick" else 6000):
            a = widths(rng)
            t = [rng.uniform(0, 3), rng.uniform(-4, 0)]
            if kind == "slbw":
                phi = rng.uniform(-3, 3)
                t += [math.sin(phi) ** 2, math.sin(2 * phi)]
            yield a + t + [rng.choice([0.0, rng.uniform(0, 3)]), energies(rng, a[0])]

    def tol(a, i, w):
        return 1e-9 * abs(w) + 1e-11

    def oracle(*a):
        v = {n: mpmath.mpf(x) for (n, _), x in zip(params, a)}
        if v["p"] <= 0 or v["gn"] * v["P"] / v["p"] + v["gg"] + v["gf"] + v["cw"] <= 0:
            return None
        return ("ret", f(v))

    return Entry("%s::Resonance" % {"slbw": "singleLevel", "mlbw": "multiLevel"}[kind], "h_%s_resonance" % kind, params, nout=3 if kind == "slbw" else 4,
                 pre=lambda v: [lt(R(0), v["p"]), lt(R(0), v["gn"] / v["p"] * v["P"] + v["gg"] + v["gf"] + v["cw"])],
                 cases=lambda v: [("always", TRUE, ("ret", f(v)))], oracle=oracle, tol=tol, samples=samples, unit=BW(), models=MODELS,
                 functions=["breitWigner::resonance::Type::Type", "breitWigner::psiChi",
                            "breitWigner::%s::Resonance::operator()" % {"slbw": "singleLevel", "mlbw": "multiLevel"}[kind]])


# ---------------------------------------------------------------- one l value, any number of resonances
def mpP(l, rho): return P_l(l, rho) if rho > 0 else mpmath.mpf(0)


class Many(Entry):
    """native side: flat arrays of resonances"""
    def native(self, args):
        so = self.unit.so()
        rs, rest, lin = args[0], args[1], args[2]
        so.n_set_rho(D(lin[0]), D(lin[1]))
        flat = [x for r in rs for x in r]
        a = (D * max(1, len(flat)))(*flat)
        b = (D * self.nout)(*[float("nan")] * self.nout)
        cs = [CI(int(x)) if t == "i32" else D(x) for (n, t), x in zip(getattr(self, "params_native", self.params)[1:], rest)]
        f = getattr(so, "n_" + self.fn[2:])
        return ("throw",) if f(a, LL(len(rs)), *cs, b) else ("ret", list(b))

    def admissible(self, args):
        return True


def slbw_lvalue(compete):
    params = [("n", "i64"), ("l", "i32"), ("I", "f64")] + ([("q", "f64")] if compete else []) + [("e", "f64"), ("rc", "f64"), ("rs", "f64")]

    def pieces(v):
        l = v["l"]
        Pc, Sc, ph = P(l, v["rc"]), S(l, v["rc"]), PHI_(l, v["rs"])
        s = app("sin", ph)
        ps = [l, v["e"], v["rc"], v["rs"]] + ([v["q"]] if compete else [])
        Px = P(l, app("ext_rho", v["e"] + v["q"])) if compete else None

        def term(k, i):
            r = res(k)
            return slbw(r, Pc, Sc, s * s, app("sin", 2 * ph), r["gx"] * Px if compete else R(0), v["e"])[i]
        init = [s * s * (2 * toreal(l) + 1), R(0), R(0)]
        nm = "slbwx_%d" if compete else "slbw_%d"
        return [sx.Rec(nm % i, ps, init[i], lambda a, k, i=i: a + term(k, i)) for i in range(3)]

    def setup(e, ex, st, v):
        lay = Layout(ex, "h_bw_resonance_make", "h_bw_resonance_size", RES)
        arr = lay.array(ex, st, "resonances", v["n"], "r_")
        out = ex.param_array(st, "out", I(24), base=lambda o, t, s: sx.UNDEF)
        return [arr] + [v[n] for n, _ in params] + [out], out

    def cases(v):
        h = pieces(v)
        return [("l=0..4", range04(v["l"]), ("ret", [x(v["n"]) for x in h])), ("l outside 0..4", lnot(range04(v["l"])), ("throw",))]

    def oracle(rs, a, lin):
        d = {n: x for (n, _), x in zip(params[1:], a)}
        if not 0 <= d["l"] <= 4:
            return ("throw",)
        return ("ret", slbw_oracle(d["l"], d.get("q"), rs, mpmath.mpf(d["e"]), mpmath.mpf(d["rc"]), mpmath.mpf(d["rs"]),
                                   lambda x: mpmath.mpf(lin[0]) + mpmath.mpf(lin[1]) * x))

    def samples(rng, tier, consts):
        for _ in range(300 if tier == "quick" else 4000):
            rs = [widths(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]))]
            l = rng.choice([0, 1, 2, 3, 4, 0, 1, 5, -1])
            e = energies(rng, rs[0][0] if rs else 10.)
            q = [rng.uniform(-20, 50)] if compete else []
            yield (rs, [l, rng.choice([0, .5, 1, 2.5, 4])] + q + [e, rng.uniform(0.01, 4), rng.uniform(0.01, 4)], (rng.uniform(0, 1), rng.uniform(0, 1e-2)))
    e = Many("singleLevel::Lvalue%s" % (" with competitive width" if compete else ""), "h_slbw_lvalue" + ("_x" if compete else ""), params, nout=3,
             pre=lambda v: [le(I(0), v["n"]), le(v["n"], I(2**40))], setup=setup, hints=pieces, cases=cases, oracle=oracle,
             tol=lambda a, i, w: 1e-9 * abs(w) + 1e-10, samples=samples, unit=BW(), models=MODELS, limit=400,
             functions=["breitWigner::lvalue::Type::Type", "breitWigner::lvalue::Type::competitiveWidth", "breitWigner::lvalue::Type::penetrationShift",
                        "breitWigner::lvalue::Type::phaseShift", "breitWigner::singleLevel::Lvalue::operator()", "breitWigner::singleLevel::Lvalue::evaluate"])
    e.complete = lambda a, rng: None
    return e


# ---------------------------------------------------------------- the object: any number of l values
ENDF_K = 2.196771e-3      # k = 2.196771e-3 A/(A+1) sqrt(E), ENDF-102 appendix D


def wave_constant(mod, dem):
    """the constant of the library, from its own wave number at A -> 1, E = 1"""
    ex = sx.Exec(mod, dem, MODELS)
    st = sx.State()
    out = ex.param_array(st, "out", I(8), base=lambda o, t, s: sx.UNDEF)
    o = ex.call("h_wavenumber", [R(1), R(1), out], st)
    c = simplify(ex.load(o[0].st, Ptr(out.r, I(0)), ("double",)))
    if not isc(c):
        raise ir.Unsupported("wave number constant")
    return 2 * cv(c)


def simplify(t):
    return sx.simplify_const(t)


def functor(ex, callee, ptr):
    """the functor type among the template arguments of the callee -> its call operator"""
    for n in ex.mod.funcs:
        d = ex.dem.get(n, n)
        if Fr.skeleton(d).endswith("'::operator@call const") and "::operator()(" in d:
            t = d[:d.rindex("::operator()(")]
            if any(p in callee for p in (t, t.split(" ", 1)[-1])) and len(ex.mod.func(n).params) == 2:
                return n
    return None


def m_lvalue(size, nm, nargs):
    """contract of Lvalue::operator(): the proved dependence of one l value on its arguments"""
    def model(ex, st, a, x, d):
        ex.assumed.add("%s::Lvalue::operator() at its call sites: the contract proved for it in the same property" % nm)
        out, this, e, kernel, rc, rs = a[:6]
        rho = a[-1]
        extra = [ex.num(q) for q in a[6:-1]]
        k = sx.floordiv_exact(this.off, size)
        if k is None or this.r not in st.mem:
            raise ir.Unsupported("l value outside the array")
        ke = ex.load(st, kernel, ("double",))
        fn = functor(ex, d, rho)
        if fn is None:
            raise ir.Unsupported("competitive channel radius")
        st = st.copy()
        o = ex.call(fn, [rho, ex.num(e) + app("l_q", k)], st)
        if len(o) != 1 or o[0].kind != "ret":
            raise ir.Unsupported("competitive channel radius")
        st, rx = o[0].st.copy(), o[0].val
        for i in range(3):
            ex.store(st, Ptr(out.r, add(out.off, I(8 * (2 - i)))), lv(nm, i, k, e, ke, rc, rs, rx, extra), ("double",))
        return [Outcome("ret", None, st)]
    return model


def lv(nm, i, k, e, ke, rc, rs, rx, extra=()):
    return app("%s_lv_%d" % (nm, i), k, e, ke, rc, rs, rx, *extra)


def evaluate(nm, two):
    fn = "h_%s_evaluate%d" % ({"singleLevel": "slbw", "multiLevel": "mlbw"}[nm], 2 if two else 1)
    multi = nm == "multiLevel"
    params = [("n", "i64")] + ([("I", "f64")] if multi else []) + [("awr", "f64"), ("e", "f64")]
    u = BW()
    holder = {}

    def kk(v, e):
        if "c" not in holder:
            holder["c"] = wave_constant(*u.ir())
        return R(holder["c"]) * (v["awr"] / (v["awr"] + 1)) * app("sqrt", absr(e))

    def hints(v):
        e = v["e"]
        k = kk(v, e)
        rc = app("ext_a", e) * k
        rs = (app("ext_as", e) if two else app("ext_a", e)) * k

        def term(j, i):
            ex_ = e + app("l_q", j)
            return lv(nm, i, j, e, e, rc, rs, kk(v, ex_) * app("ext_a", ex_), [v["I"]] if multi else [])
        return [sx.Rec("%s%d_sum_%d" % (nm, two, i), [e, v["awr"]], R(0), lambda a, j, i=i: a + term(j, i)) for i in range(3)]

    def setup(en, ex, st, v):
        size = cv(ex.call("h_bw_lvalue_size", [], sx.State())[0].val)
        ex.models.insert(0, (re_search("%s::Lvalue::operator@call const" % nm), m_lvalue(size, nm, 3)))
        ex.models.insert(0, (re_search("multiLevel::Base::order"), m_order))
        arr = ex.param_array(st, "lvalues", mul(I(size), v["n"]), base=lambda o, t, s: sx.UNDEF)
        out = ex.param_array(st, "out", I(24), base=lambda o, t, s: sx.UNDEF)
        return [arr] + [v[n] for n, _ in params] + [out], out

    def cases(v):
        h = hints(v)
        k = kk(v, v["e"])
        return [("always", TRUE, ("ret", [x(v["n"]) * (R(4 * Fraction(math.pi)) / (k * k)) for x in h]))]

    def oracle(ls, a, lin):
        d = {n: x for (n, _), x in zip([("I", 0), ("awr", 0), ("e", 0)], a)}
        kf = lambda e: mpmath.mpf(lib_k(u)) * d["awr"] / (d["awr"] + 1) * mpmath.sqrt(abs(mpmath.mpf(e)))
        A = lambda e: lin[0][0] + lin[0][1] * mpmath.mpf(e)
        AS = (lambda e: lin[1][0] + lin[1][1] * mpmath.mpf(e)) if two else A
        e = mpmath.mpf(d["e"])
        k = kf(e)
        tot = [mpmath.mpf(0)] * 3
        for l, q, rs in ls:
            if not 0 <= l <= 4:
                return ("throw",)
            t = (mlbw_oracle if multi else slbw_oracle)(l, q, rs, e, A(e) * k, AS(e) * k, lambda x: kf(x) * A(x), d["I"])
            tot = [x + y for x, y in zip(tot, t)]
        return ("ret", [x * 4 * mpmath.pi / k ** 2 for x in tot])

    class E(Entry):
        def native(self, args):
            ls, a, lin = args
            so = self.unit.so()
            so.n_set_a(*map(D, lin[0]))
            so.n_set_as(*map(D, lin[1]))
            flat = []
            for l, q, rs in ls:
                flat += [l, 0. if q is None else 1., q or 0., len(rs)] + [x for r in rs for x in r]
            b = (D * 3)(*[float("nan")] * 3)
            f = getattr(so, "n_" + self.fn[2:])
            return ("throw",) if f((D * max(1, len(flat)))(*flat), LL(len(ls)), *map(D, a), b) else ("ret", list(b))

        def admissible(self, args):
            return True

    def samples(rng, tier, consts):
        for _ in range(200 if tier == "quick" else 3000):
            ls = []
            I_ = rng.choice([0., .5, 1., 1.5, 2., 2.5, 3., 3.5, 4., 4.5])
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                l = rng.choice([0, 1, 2, 3, 4, 0, 1]) if rng.random() > .02 else rng.choice([5, -1])
                rs = [widths(rng) for _ in range(rng.choice([0, 1, 2, 4]))]
                for r in rs:
                    r[7] = rng.choice([.25, .75, .5])
                ls.append((l, rng.choice([None, rng.uniform(-50, 50)]), rs))
            e = energies(rng, ls[0][2][0][0] if ls[0][2] else 10.)
            yield (ls, [I_, rng.uniform(1, 250), e], ((rng.uniform(.3, 1), 0.), (rng.uniform(.3, 1), rng.uniform(0, 1e-4))))
    en = E("%s::Type<%s>" % (nm, "ChannelRadius, ScatteringRadius" if two else "Radius"), fn, params, nout=3,
           pre=lambda v: [le(I(0), v["n"]), le(v["n"], I(2**40)), lt(R(0), v["awr"]), lt(R(0), v["e"])], setup=setup, hints=hints, cases=cases,
           oracle=oracle, tol=lambda a, i, w: 1e-9 * abs(w) + 1e-10 * scale(a), samples=samples, unit=u, models=MODELS, limit=400,
           functions=["breitWigner::Type::Type", "breitWigner::Type::neutronWaveNumber", "breitWigner::%s::Base::evaluate" % nm, "breitWigner::%s::Base::lvalues" % nm,
                      "breitWigner::%s::Type::evaluate" % nm, "NeutronWaveNumber"])
    en.complete = lambda a, rng: None
    return en


def lib_k(u):
    """the constant of the library in k = c A/(A+1) sqrt(E), as the compiled code has it; C18 compares it with ENDF-102"""
    if not hasattr(u, "_k"):
        b = (D * 1)()
        u.so().n_wavenumber(D(1), D(1), b)
        u._k = 2 * b[0]
    return u._k


def scale(a):
    ls, p, lin = a
    k = ENDF_K * p[1] / (p[1] + 1) * math.sqrt(abs(p[2]))
    return 4 * math.pi / k ** 2 * (1 + sum(2 * abs(l) + 1 for l, q, rs in ls)) * 1e-1


def re_search(nm):
    pat = re.compile(r"^SKEL:.*%s$" % nm)
    return lambda d: pat.search("SKEL:" + Fr.skeleton(d))


def slbw_oracle(l, q, rs, e, rc, rsc, rho, I_=None):
    ph = phi_l(l, rsc, mpmath.atan)
    Pc, Sc, s2, s2p = mpP(l, rc), S_l(l, rc), mpmath.sin(ph) ** 2, mpmath.sin(2 * ph)
    Px = mpP(l, rho(e + mpmath.mpf(q))) if q is not None else 0
    out = [s2 * (2 * l + 1), mpmath.mpf(0), mpmath.mpf(0)]
    for r in rs:
        d = {n: mpmath.mpf(x) for n, x in zip(RES, r)}
        out = [x + y for x, y in zip(out, slbw(d, Pc, Sc, s2, s2p, d["gx"] * Px, e))]
    return out


# ---------------------------------------------------------------- multi level
def gsum(I_, l):
    """sum of (2J+1)/(4I+2) over the distinct J = ||I-l|-1/2| .. I+l+1/2"""
    lr = toreal(l) if isinstance(l, T) else l
    ab = (lambda x: absr(x)) if isinstance(I_, T) else abs
    half = R(Fraction(1, 2)) if isinstance(I_, T) else mpmath.mpf(1) / 2
    lo, hi = ab(ab(I_ - lr) - half), I_ + lr + half
    return (hi - lo + 1) * (hi + lo + 1) / (4 * I_ + 2)


def gsum_direct(I_, l):
    """the same, by enumeration"""
    tI = int(round(2 * I_))
    js = {j for s2 in {tI - 1, tI + 1} if s2 >= 0 for j in range(abs(2 * l - s2), 2 * l + s2 + 1, 2)}
    return sum(mpmath.mpf(j + 1) for j in js) / (2 * tI + 2)


def d_table():
    """D(I, l): the potential scattering of the J values that occur in both channel spins"""
    def want(v):
        t = toreal(v["t"]) / 2
        return 2 * toreal(v["l"]) + 1 - gsum(t, v["l"])

    def post(en, ex, o, out, terms, pc, v):
        g = ex.load(o.st, Ptr(out.r, I(0)), ("double",))
        goal = land(le(g - terms[0], R(Fraction(1, 10**14))), le(terms[0] - g, R(Fraction(1, 10**14))))
        r = solve.valid(pc, goal)
        return ("proved", "", "z3") if r is True else ("refuted" if r is False else "unknown", "computed %s" % tm.show(g)[:300], "z3", lnot(goal))
    pr = [("t", "i32"), ("l", "i32")]

    def cases(v):
        c = [("2I=%d l=%d" % (t, l), land(eq(v["t"], I(t)), eq(v["l"], I(l))), ("ret", [want({"t": I(t), "l": I(l)})])) for t in range(8) for l in range(5)]
        # I > 7/2: I >= l, so that the lowest J is I - l - 1/2 (or its absolute value): D = l
        return c + [("2I>7 l=%d" % l, land(lt(I(7), v["t"]), eq(v["l"], I(l))), ("ret", [R(l)])) for l in range(5)]

    def samples(rng, tier, consts):
        for t in list(range(0, 60)) + [1000]:
            for l in range(5):
                yield (t, l)
    return Entry("multiLevel::D", "h_mlbw_D", pr, nout=1, pre=lambda v: [le(I(0), v["t"]), le(v["t"], I(10**6)), range04(v["l"])],
                 conv=lambda v: [toreal(v["t"]) / 2, v["l"]], nconv=lambda a: [D(a[0] / 2), CI(int(a[1]))],
                 cases=cases, post=post, oracle=lambda t, l: ("ret", [2 * l + 1 - gsum_direct(t / 2, l)]), tol=lambda a, i, w: 1e-13,
                 samples=samples, unit=BW(), models=MODELS, functions=["breitWigner::multiLevel::D"])


def m_D(ex, st, a, x, d):
    ex.assumed.add("multiLevel::D at its call sites: a function of (I, l) (its values are proved in the same property)")
    return [Outcome("ret", app("mlbw_D", ex.num(a[0]), ex.num(a[1])), st)]


def m_order(ex, st, a, x, d):
    """order(lvalues): the l values, the resonances of each sorted by statistical factor"""
    ex.assumed.add("multiLevel::Base::order: returns the l values it is given, with the resonances of each sorted by statistical factor "
                   "(std::sort; its use is covered by the bounded entry of the same property)")
    out, arg = a[0], a[-1]
    st = st.copy()
    for i in range(3):
        w = ex.load(st, Ptr(arg.r, add(arg.off, I(8 * i))), ("ptr",))
        ex.store(st, Ptr(out.r, add(out.off, I(8 * i))), w, ("ptr",))
        ex.store(st, Ptr(arg.r, add(arg.off, I(8 * i))), sx.NULL, ("ptr",))
    return [Outcome("ret", None, st)]


MLMODELS = [(DD, m_D)] + MODELS


def mlres(r, Pc, Sc, cw, e):
    gn, tot, psi, chi = one(r, Pc, Sc, cw, e)
    w = gn / tot
    return psi * w, chi * w, psi * w * r["gg"] / tot, psi * w * r["gf"] / tot


MLRES = r"^SKEL:.*multiLevel::Resonance::operator@call const$"


def m_mlres(lay):
    """multiLevel::Resonance::operator() at its call sites: functions of what the resonance holds and of the arguments (their values: the
    first entry of the property)"""
    offs = sorted(lay.cells)

    def model(ex, st, a, x, d):
        ex.assumed.add("multiLevel::Resonance::operator() at its call sites: the contract proved for it in the same property")
        out, this, Pc, Sc, cw, kernel = a
        f = [ex.load(st, Ptr(this.r, add(this.off, I(o))), ("double",)) for o in offs]
        e = ex.load(st, kernel, ("double",))
        ar = f + [ex.num(Pc), ex.num(Sc), ex.num(cw), e]
        st = st.copy()
        for i, o in enumerate((24, 16, 8, 0)):
            ex.store(st, Ptr(out.r, add(out.off, I(o))), app("mlres_%d" % i, *ar), ("double",))
        return [Outcome("ret", None, st)]
    return model


def ml_setup(params, fixed, n=None):
    def setup(e, ex, st, v):
        lay = Layout(ex, "h_bw_resonance_make", "h_bw_resonance_size", RES)
        arr = lay.array(ex, st, "resonances", v["n"] if n is None else I(n), "r_", fixed(v))
        out = ex.param_array(st, "out", I(24), base=lambda o, t, s: sx.UNDEF)
        return [arr] + [v[x] for x, _ in params if x not in ("g",)] + [out], out
    return setup


def ml_common(v, compete):
    l = v["l"]
    Pc, Sc, ph = P(l, v["rc"]), S(l, v["rc"]), PHI_(l, v["rs"])
    s = app("sin", ph)
    s2, s2p = s * s, app("sin", 2 * ph)
    Px = P(l, app("ext_rho", v["e"] + v["q"])) if compete else None
    pot = app("mlbw_D", v["I"], l) * s2 + gsum(v["I"], l) * (s2 * s2 + s2p * s2p / 4)
    return Pc, Sc, s2, s2p, Px, pot


def mlbw_lvalue_one(compete):
    """any number of resonances of one J"""
    params = [("n", "i64"), ("l", "i32"), ("I", "f64")] + ([("q", "f64")] if compete else []) + [("e", "f64"), ("rc", "f64"), ("rs", "f64"), ("g", "f64")]

    def pieces(v):
        Pc, Sc, s2, s2p, Px, pot = ml_common(v, compete)
        ps = [v["l"], v["e"], v["rc"], v["rs"]] + ([v["q"]] if compete else [])

        def term(k, i):
            r = res(k)
            return mlres(r, Pc, Sc, r["gx"] * Px if compete else R(0), v["e"])[i]
        nm = "mlbwx_%d" if compete else "mlbw_%d"
        return [sx.Rec(nm % i, ps, R(0), lambda a, k, i=i: a + term(k, i)) for i in range(4)]

    def cases(v):
        Pc, Sc, s2, s2p, Px, pot = ml_common(v, compete)
        a, b, c, f = [x(v["n"]) for x in pieces(v)]
        g = v["g"]
        return [("l=0..4", range04(v["l"]), ("ret", [pot + g * (a * (a - 2 * s2) + b * (b + s2p)), g * c, g * f])),
                ("l outside 0..4", lnot(range04(v["l"])), ("throw",))]
    e = Many("multiLevel::Lvalue, one J%s" % (", with competitive width" if compete else ""), "h_mlbw_lvalue" + ("_x" if compete else ""), params, nout=3,
             pre=lambda v: [le(I(0), v["n"]), le(v["n"], I(2**40)), le(R(0), v["I"])], setup=ml_setup(params, lambda v: {"g": v["g"]}), hints=pieces, cases=cases,
             oracle=ml_oracle_entry(compete), tol=ml_tol, samples=ml_samples(compete, False), unit=BW(), models=MLMODELS, limit=400,
             functions=ML_FUNCTIONS)
    e.params_native = params[:-1]
    e.complete = lambda a, rng: None
    return e


ML_FUNCTIONS = ["breitWigner::lvalue::Type::statisticalFactorSummation", "breitWigner::multiLevel::Lvalue::operator()", "breitWigner::multiLevel::Lvalue::evaluate",
                "breitWigner::multiLevel::Resonance::operator()"]


def ml_tol(a, i, w):
    return 1e-9 * abs(w) + 1e-9


def ml_oracle_entry(compete):
    names = ["l", "I"] + (["q"] if compete else []) + ["e", "rc", "rs"]

    def oracle(rs, a, lin):
        d = dict(zip(names, a))
        if not 0 <= d["l"] <= 4:
            return ("throw",)
        return ("ret", mlbw_oracle(d["l"], d.get("q"), rs, mpmath.mpf(d["e"]), mpmath.mpf(d["rc"]), mpmath.mpf(d["rs"]),
                                   lambda x: mpmath.mpf(lin[0]) + mpmath.mpf(lin[1]) * x, d["I"]))
    return oracle


def mlbw_oracle(l, q, rs, e, rc, rsc, rho, I_):
    """collision matrix: elastic = sum over J of g |1 - U|^2 / 4, the J values without resonances, and those that occur twice, included"""
    ph = phi_l(l, rsc, mpmath.atan)
    Pc, Sc = mpP(l, rc), S_l(l, rc)
    Px = mpP(l, rho(e + mpmath.mpf(q))) if q is not None else 0
    out = [mpmath.mpf(0)] * 3
    G = {}
    for r in rs:
        G.setdefault(r[7], []).append({n: mpmath.mpf(x) for n, x in zip(RES, r)})
    rest = mpmath.mpf(2 * l + 1)
    for g, ds in G.items():
        rest -= g
        U = mpmath.mpc(1)
        for d in ds:
            gn, tot, psi, chi = one(d, Pc, Sc, d["gx"] * Px, e)
            U += mpmath.mpc(0, 1) * gn / (d["er"] + d["gn"] / d["p"] * (d["s"] - Sc) / 2 - e - mpmath.mpc(0, 1) * tot / 2)
            out[1] += g * gn * d["gg"] / tot ** 2 * psi
            out[2] += g * gn * d["gf"] / tot ** 2 * psi
        out[0] += g * abs(1 - mpmath.expj(-2 * ph) * U) ** 2 / 4
    out[0] += rest * mpmath.sin(ph) ** 2
    return out


def ml_samples(compete, mixed):
    def samples(rng, tier, consts):
        for _ in range(250 if tier == "quick" else 4000):
            I_ = rng.choice([0, .5, 1, 1.5, 2, 2.5, 3, 3.5, 4, 4.5])
            l = rng.choice([0, 1, 2, 3, 4, 0, 1, 5, -1])
            g = [(2 * (j / 2) + 1) / (4 * I_ + 2) for j in range(int(2 * I_ + 1) % 2, 12, 2)]
            rs = [widths(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]))]
            g0 = rng.choice(g)
            for r in rs:
                r[7] = rng.choice(g) if mixed else g0
            rs.sort(key=lambda r: r[7])
            e = energies(rng, rs[0][0] if rs else 10.)
            q = [rng.uniform(-20, 50)] if compete else []
            yield (rs, [l, I_] + q + [e, rng.uniform(0.01, 4), rng.uniform(0.01, 4)], (rng.uniform(0, 1), rng.uniform(0, 1e-2)))
    return samples


def mlbw_lvalue_few(n, ordered):
    """n resonances of any J values (bounded in n): interference only between resonances of one J"""
    params = [("l", "i32"), ("I", "f64"), ("e", "f64"), ("rc", "f64"), ("rs", "f64")]
    fn = "h_mlbw_sorted" if ordered else "h_mlbw_lvalue"
    held = {}

    def setup(e, ex, st, v):
        lay = Layout(ex, "h_bw_resonance_make", "h_bw_resonance_size", RES)
        arr = lay.array(ex, st, "resonances", I(n), "r_")
        ex.models.insert(0, (re_search("multiLevel::Resonance::operator@call const"), m_mlres(lay)))
        held["lay"] = lay
        out = ex.param_array(st, "out", I(24), base=lambda o, t, s: sx.UNDEF)
        return [arr, I(n)] + [v[x] for x, _ in params] + [out], out

    def pre(v):
        g = [app("r_g", I(k)) for k in range(n)]
        return [le(R(0), v["I"])] + [lt(R(0), app("r_p", I(k))) for k in range(n)] + ([] if ordered else [le(g[k], g[k + 1]) for k in range(n - 1)])

    def cases(v):
        Pc, Sc, s2, s2p, Px, pot = ml_common(v, False)
        g = [app("r_g", I(k)) for k in range(n)]

        def fields(k):
            lay = held["lay"]
            return [subst(lay.cells[o][1], {a: app("r_" + nm, I(k)) for a, nm in zip(lay.args, lay.names)}) for o in sorted(lay.cells)]
        t = [[app("mlres_%d" % i, *fields(k), Pc, Sc, R(0), v["e"]) for i in range(4)] for k in range(n)]
        out = [("l outside 0..4", lnot(range04(v["l"])), ("throw",))]
        for part in partitions(n):
            gd = range04(v["l"])
            for i in range(n):
                for j in range(i):
                    c = eq(g[i], g[j])
                    gd = land(gd, c if part[i] == part[j] else lnot(c))
            el, ca, fi = pot, R(0), R(0)
            for i in range(n):
                el = el - 2 * s2 * g[i] * t[i][0] + s2p * g[i] * t[i][1]
                ca, fi = ca + g[i] * t[i][2], fi + g[i] * t[i][3]
                for j in range(n):
                    if part[i] == part[j]:
                        el = el + g[min(i, j)] * (t[i][0] * t[j][0] + t[i][1] * t[j][1])
            out.append(("J pattern %s" % "".join(map(str, part)), gd, ("ret", [el, ca, fi])))
        return out
    e = Many("multiLevel::Lvalue, %d resonances%s" % (n, " in any order" if ordered else ""), fn, [("n", "i64")] + params, nout=3, pre=pre, setup=setup, cases=cases,
             oracle=ml_oracle_entry(False), tol=ml_tol, samples=ml_samples(False, True) if n == 2 else None, unit=BWR(), models=MLMODELS, limit=400,
             functions=ML_FUNCTIONS + (["breitWigner::multiLevel::Base::order"] if ordered else []))
    e.bound = "%d resonances" % n
    e.complete = lambda a, rng: None
    return e


def partitions(n):
    out = [[]]
    for _ in range(n):
        out = [p + [c] for p in out for c in range(max(p, default=-1) + 2)]
    return out


# ---------------------------------------------------------------- wave number and radii
def close_constants(rel):
    """equal to the contract with constants within a relative distance: value/contract is a constant in [1-rel, 1+rel]"""
    def post(en, ex, o, out, terms, pc, v):
        g = ex.load(o.st, Ptr(out.r, I(0)), ("double",))
        f = R(Fraction(rel))
        lo, hi = terms[0] * (1 - f), terms[0] * (1 + f)
        # both sides are the same non-negative factor times a constant
        q = sx.simplify_const(g / terms[0])
        if isc(q):
            ok = abs(cv(q) - 1) <= Fraction(rel)
            return ("proved", "", "normal form") if ok else ("refuted", "computed / contract = %.12g" % float(cv(q)), "normal form", TRUE)
        return ("unknown", "computed %s" % tm.show(g)[:300], "normal form", TRUE)
    return post


def wave_number(frac):
    """k = 2.196771e-3 A/(A+1) sqrt|E| (ENDF-102, appendix D; the constants of CODATA differ in the fifth digit)"""
    ps = [("f" if frac else "awr", "f64"), ("e", "f64")]

    def ratio(v):
        return v["f"] if frac else v["awr"] / (v["awr"] + 1)

    def samples(rng, tier, consts):
        for _ in range(200 if tier == "quick" else 4000):
            yield (rng.uniform(.4, 1) if frac else rng.uniform(.9, 260), rng.choice([-1, 1]) * 10 ** rng.uniform(-5, 8))

    def oracle(a, e):
        a, e = mpmath.mpf(a), mpmath.mpf(e)
        return ("ret", [mpmath.mpf(ENDF_K) * (a if frac else a / (a + 1)) * mpmath.sqrt(abs(e))])
    return Entry("neutron wave number from %s" % ("the weight fraction" if frac else "the atomic weight ratio"), "h_wavefraction" if frac else "h_wavenumber", ps, nout=1,
                 pre=lambda v: [lt(R(0), x) for x in [v[ps[0][0]]]], post=close_constants(2e-5),
                 cases=lambda v: [("always", TRUE, ("ret", [R(Fraction("2.196771e-3")) * ratio(v) * app("sqrt", absr(v["e"]))]))],
                 oracle=oracle, tol=lambda a, i, w: 2e-5 * abs(w), samples=samples, unit=BW(), models=MODELS, functions=["NeutronWaveNumber", "neutronWaveNumber"])


def channel_radius():
    def samples(rng, tier, consts):
        for _ in range(200 if tier == "quick" else 4000):
            yield (rng.uniform(.9, 260), 10 ** rng.uniform(-5, 8))
    f = lambda x: R(Fraction(x))
    return Entry("channelRadius", "h_channelradius", [("awr", "f64"), ("e", "f64")], nout=1, pre=lambda v: [lt(R(0), v["awr"])],
                 cases=lambda v: [("always", TRUE, ("ret", [f(0.123) * app("pow", f(1.00866491582) * v["awr"], f(1. / 3.)) + f(0.08)]))],
                 oracle=lambda a, e: ("ret", [mpmath.mpf("0.123") * mpmath.cbrt(mpmath.mpf("1.00866491582") * a) + mpmath.mpf("0.08")]),
                 tol=lambda a, i, w: 1e-13 * abs(w), samples=samples, unit=BW(), models=MODELS, functions=["channelRadius", "radius"])


def constant_radius():
    return Entry("radius", "h_radius", [("r", "f64"), ("e", "f64")], nout=1, cases=lambda v: [("always", TRUE, ("ret", [v["r"]]))],
                 oracle=lambda r, e: ("ret", [mpmath.mpf(r)]), tol=lambda a, i, w: 1e-14 * abs(w),
                 samples=lambda rng, tier, consts: [(rng.uniform(-2, 2), 10 ** rng.uniform(-5, 8)) for _ in range(100)],
                 unit=BW(), models=MODELS, functions=["radius"])


def C18():
    return Check("C18", [wave_number(False), wave_number(True), channel_radius(), constant_radius()], FULL)


def C16():
    return Check("C16", [resonance("mlbw"), d_table(), mlbw_lvalue_one(False), mlbw_lvalue_one(True)]
                 + [mlbw_lvalue_few(n, False) for n in (2, 3)] + [mlbw_lvalue_few(n, True) for n in (2, 3)]
                 + [evaluate("multiLevel", False), evaluate("multiLevel", True)], FULL)


def C15():
    return Check("C15", [resonance("slbw"), slbw_lvalue(False), slbw_lvalue(True),
                         evaluate("singleLevel", False), evaluate("singleLevel", True)], FULL)


FULL = ["compiled against stand-ins for dimwits, elementary, interpolation and ENDFtk (/verif/shim, DESIGN section 4)",
        "sin is an uninterpreted real function in the proof"]
