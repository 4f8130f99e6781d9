"""Minimal energy grids of the resolved resonances of the namespace rmatrix."""
from .rlegacy import *
from .rlegacy import RLU, lentry, grid as unresolved_grid
from .rgroup import RGU, below
from irvc import solve
from irvc.nf import nf_equal


class Points(list):
    """energies the grid has to consist of"""


def post_grid(self, ex, o, out, want, pc, v):
    n = ex.load(o.st, Ptr(out.r, I(0)), ("double",))
    n = tm.simplify(n) if hasattr(tm, "simplify") else n
    while isinstance(n, T) and n.op == "toreal":
        n = n.args[0]
    if not (isinstance(n, T) and isc(n)):
        return ("unknown", "number of points: %s" % (tm.show(n) if isinstance(n, T) else n), "path", TRUE)
    n = int(cv(n))
    g = [ex.load(o.st, Ptr(out.r, I(8 * (i + 1))), ("double",)) for i in range(n)]
    if not all(isinstance(x, T) for x in g):
        return ("refuted", "a point is not written", "path", TRUE)
    if n > len(want):
        return ("refuted", "%d points, the contract has at most %d" % (n, len(want)), "path", TRUE)
    for i in range(n - 1):
        if solve.valid(pc, lt(g[i], g[i + 1])) is not True:
            return ("unknown", "the points %s, %s are not in order" % (tm.show(g[i])[:100], tm.show(g[i + 1])[:100]), "z3", lnot(lt(g[i], g[i + 1])))
    same = {(i, j) for i, w in enumerate(want) for j, x in enumerate(g) if w is x or nf_equal(w, x)}
    for i, w in enumerate(want):
        if not any((i, j) in same for j in range(n)):
            goal = lor(*[eq(w, x) for x in g]) if g else FALSE
            if solve.valid(pc, goal) is not True:
                return ("unknown", "the energy %s is missing" % tm.show(w)[:150], "z3", lnot(goal))
    for j, x in enumerate(g):
        if not any((i, j) in same for i in range(len(want))):
            goal = lor(*[eq(w, x) for w in want]) if want else FALSE
            if solve.valid(pc, goal) is not True:
                return ("unknown", "the point %s is none of a resonance" % tm.show(x)[:150], "z3", lnot(goal))
    return ("proved", "", "path + normal form + z3")


def around(e, w): return [e - w / 2, e, e + w / 2]


def gentry(name, fn, s, nres, energy, width, mpwidth, pre, functions, unit, samples, throws=None, bound=None, closed=None, mpclosed=None):
    """width(v, i): the total width of resonance i at its energy"""
    def cases(v):
        out = [("l above 4", throws(v), ("throw",))] if throws else []
        ok = lnot(throws(v)) if throws else TRUE
        if closed:
            out.append(("a channel below threshold", land(ok, closed(v)), ("any",)))
            ok = land(ok, lnot(closed(v)))
        for k in range(1 << nres):
            pos = [lt(R(0), v[energy(i)]) if k >> i & 1 else le(v[energy(i)], R(0)) for i in range(nres)]
            w = Points(x for i in range(nres) if k >> i & 1 for x in around(v[energy(i)], width(v, i)))
            out.append(("positive: " + (", ".join(str(i + 1) for i in range(nres) if k >> i & 1) or "none"), land(ok, *pos), ("ret", w)))
        return out
    ps = params(s)

    def disagree(got, want):
        if abs(got[0] - len(got[1:int(got[0]) + 1])) > 0 or got[0] > len(want):
            return "%d points" % got[0]
        g = got[1:int(got[0]) + 1]
        tol = lambda x: 1e-6 * max([abs(x)] + [abs(y) for y in want])
        if any(x >= y for x, y in zip(g, g[1:])):
            return "not strictly increasing: %r" % (g,)
        for x in want:
            if not any(abs(x - y) <= tol(x) for y in g):
                return "the energy %r is missing" % float(x)
        for y in g:
            if not any(abs(x - y) <= tol(x) for x in want):
                return "the point %r is none of a resonance" % y
        return None

    class GridEntry(Entry):
        def disagree(self, args, got=None):
            got = got or self.native(args)
            if got[0] == "error":
                return None
            if got[0] == "crash":
                return got[1]
            v = mpv(ps, args)
            if not plausible(ps, args):
                return None
            if mpclosed and mpclosed(v):
                return None
            if throws and any(v.get(x, 0) > 4 for x in "lk") and any(v[energy(i)] > 0 for i in range(nres)):
                return None if got[0] == "throw" else "returned instead of throwing"
            if got[0] != "ret":
                return "threw instead of returning a grid"
            return disagree(list(got[1]), [float(x) for i in range(nres) if v[energy(i)] > 0 for x in around(v[energy(i)], mpwidth(v, i))])
    e = GridEntry(name, fn, ps, nout=1 + 3 * nres + 4, pre=lambda v: pre(v) + [le(I(0), v[n]) for n, t in ps if t != "f64"], cases=cases, oracle=lambda *a: ("any",),
                  samples=samples(ps), unit=unit, models=MALL, functions=functions, post=post_grid)
    e.bound = bound
    return e


def gsamples(ps):
    def samples(rng, tier, consts):
        for _ in range(150 if tier == "quick" else 5000):
            a, base = [], 10 ** rng.uniform(-1, 4)
            for n, t in ps:
                f = n.rstrip("0123456789")
                a.append(rng.choice([0, 0, 1, 2, 3, 4, 5]) if t != "f64" else rng.choice([base * rng.uniform(.9, 1.1), base, 10 ** rng.uniform(-1, 4), -10 ** rng.uniform(-1, 3)]) if f in ("e", "er")
                         else rng.uniform(.3, 1.2) if f in ("r", "t") else rng.choice([-1, 1]) * 10 ** rng.uniform(0, 5) if f == "q"
                         else rng.uniform(-2, 0) if f == "S" else (rng.random() < .5) * 10 ** rng.uniform(-3, 0) if f == "f" else 10 ** rng.uniform(-4, .5))
            yield a
    return samples


def lgrid(fn, nres, what, bound):
    w = lambda v, i: v["n%d" % (i + 1)] + v["c%d" % (i + 1)] + v["f%d" % (i + 1)]
    return gentry("legacy grid, " + what, fn, resonances(nres), nres, lambda i: "er%d" % (i + 1), w, w,
                  lambda v: [lt(R(0), v["P%d" % i]) for i in range(1, nres + 1)] + [lt(R(0), v["n%d" % i]) for i in range(1, nres + 1)]
                  + [le(R(0), v[f + str(i)]) for i in range(1, nres + 1) for f in "cf"],
                  ["rmatrix::legacy::resolved::SpinGroup<SingleLevelBreitWigner>::grid"] + ["rmatrix::legacy::resolved::CompoundSystem::grid"] * ("groups" in what), RLU(), gsamples, bound=bound)


def at(fn, v, e, names):
    """v with the incident energy e"""
    return own(fn, dict(v, e=e), names)


def width1(v, i):
    k1, k2 = at("h_k_el", v, v["er"], ["e"])[0], at("h_k_in", v, v["er"], ["q", "e"])[0]
    return 2 * v["c1"] * v["c1"] + 2 * P(v["l"], k1 * v["r"]) * v["a1"] * v["a1"] + 2 * P(v["k"], k2 * v["t"]) * v["b1"] * v["b1"] + 2 * v["f1"] * v["f1"]


def mp_width1(v, i):
    w = dict(v, e=v["er"])
    return 2 * (v["c1"] ** 2 + mp_P(v["l"], mp_wave(w) * v["r"]) * v["a1"] ** 2 + mp_P(v["k"], mp_wave(w, v["q"]) * v["t"]) * v["b1"] ** 2 + v["f1"] ** 2)


def width2(v, i):
    e, a, c = (v[x + str(i + 1)] for x in "eac")
    return 2 * c * c + 2 * P(v["l"], at("h_k_el", v, e, ["e"])[0] * v["r"]) * a * a


def mp_width2(v, i):
    e, a, c = (v[x + str(i + 1)] for x in "eac")
    return 2 * c * c + 2 * mp_P(v["l"], mp_wave({"e": e}) * v["r"]) * a * a


def positive_width(fs): return lambda v: [lt(R(0), v[x]) for x in ["r"] + ["t"] * ("t" in v) + fs]


def rgrids():
    G_ = ["rmatrix::SpinGroup::grid"]
    e1 = gentry("grid of a spin group, elastic, inelastic and fission", "h_grid1", "l k r t q er a1 b1 f1 c1", 1, lambda i: "er", width1, mp_width1, positive_width(["c1"]), G_, RGU(), gsamples,
                lambda v: land(lt(R(0), v["er"]), lor(lt(I(4), v["l"]), lt(I(4), v["k"]))), "3 channels, 1 resonance",
                lambda v: land(lt(R(0), v["er"]), below("h_k_in", dict(v, e=v["er"]), ["q", "e"])), lambda v: v["er"] > 0 and mp_flux(dict(v, e=v["er"]), v["q"]) < 1e-6 * abs(v["q"]))
    e2 = gentry("grid of a compound system", "h_grid2", "l r e1 a1 c1 e2 a2 c2", 2, lambda i: "e%d" % (i + 1), width2, mp_width2, positive_width(["c1", "c2"]), G_ + ["rmatrix::CompoundSystem::grid"], RGU(), gsamples,
                lambda v: land(lt(I(4), v["l"]), lor(lt(R(0), v["e1"]), lt(R(0), v["e2"]))), "2 spin groups of 1 resonance")
    return [e1, e2]


def C24():
    return Check("C24", [lgrid("h_lgrid1", 1, "1 resonance", "1 resonance"), lgrid("h_lgrid2", 2, "2 resonances", "2 resonances"), lgrid("h_lgrid3", 2, "2 spin groups", "2 spin groups of 1 resonance")] + rgrids(), FULL, level="other")
