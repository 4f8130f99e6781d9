"""Angular momentum coupling and channel quantum numbers."""
from .common import *

D = ctypes.c_double
U = ctypes.c_uint
half = lambda t: toreal(t) / 2
tabs = lambda t: ite(lt(t, I(0)), neg(t), t)
tmin = lambda a, b: ite(lt(a, b), a, b)
tmax = lambda a, b: ite(lt(a, b), b, a)


def post_vector(e, ex, o, out, terms, pc, v):
    """terms = [twice the first value, number of values] : values[j] = first + j, and nothing else"""
    g = o.st.ghost.get((out.r, 0))
    if g is None or g[0] != "vec":
        return ("unknown", "no vector handed out", "path", None)
    first, n = terms
    r = sx.prove_eq(g[2], n, pc)
    if r is not True:
        return ("refuted" if r is False else "unknown", "number of values: computed %s, contract %s" % (tm.show(g[2])[:300], tm.show(n)), "z3", lnot(eq(g[2], n)))
    j = fresh("j", "I")
    st = o.st.copy()
    for p in list(pc) + [le(I(0), j), lt(j, n)]:
        st.assume(p)
    val = ex.load(st, sx.Ptr(g[1], mul(I(8), j)), ("double",))
    w = add(half(first), toreal(j))
    if not isinstance(val, T):
        return ("unknown", "element not readable", "path", None)
    r = sx.prove_eq(val, w, st.pc)
    if r is not True:
        return ("refuted" if r is False else "unknown", "value j: computed %s, contract %s" % (tm.show(val)[:300], tm.show(w)), "z3",
                lnot(eq(val, w)))
    return ("proved", "", "normal form + z3")


def vec_entry(name, fn, params, conv, nconv, spec, pyspec, samples, functions):
    def oracle(*a):
        r = []
        for kind, first, n in pyspec(*a):
            w = [n] + [first / 2 + j for j in range(n)]
            w = (w + [None] * 256)[:256]
            r.append(("ret", w) if kind is None else ("known", kind, w))
        return r
    return Entry(name, fn, params, nout=256, pre=lambda v: [le(I(0), x) for x in v.values()] + [le(x, I(2**30)) for x in v.values()],
                 setup=lambda e, ex, st, v: ((lambda p: (conv(v) + [p], p))(ex.param_array(st, "out", I(24)))),
                 nconv=nconv, cases=lambda v: [(k or "all", TRUE, ("ret", [f, n]) if k is None else ("known", k, [f, n])) for k, f, n in spec(v)],
                 post=post_vector, oracle=oracle, tol=lambda a, i, w: 0.0, samples=samples, unit=SLICE(), functions=functions)


def C09():
    e = vec_entry("possibleChannelSpinValues", "h_spins", [("i2", "i32"), ("I2", "i32")],
                  lambda v: [half(v["i2"]), half(v["I2"])], lambda a: [D(a[0] / 2), D(a[1] / 2)],
                  lambda v: [(None, tabs(sub(v["i2"], v["I2"])), add(tmin(v["i2"], v["I2"]), I(1)))],
                  lambda a, b: [(None, abs(a - b), min(a, b) + 1)],
                  lambda rng, tier, consts: spins2(rng, tier, consts, 2),
                  ["rmatrix::possibleChannelSpinValues"])
    return Check("C09", [e])


def spins2(rng, tier, consts, n):
    m = 24 if tier == "quick" else 60
    cs = [int(2 * c) + d for c in consts if 0 <= 2 * c < 250 for d in (-1, 0, 1) if 2 * c + d >= 0]
    import itertools
    if n == 2:
        for a, b in itertools.product(range(m), repeat=2):
            yield [a, b]
        for a in cs:
            for b in list(range(0, 40)) + cs:
                yield [a, b]
                yield [b, a]
        for _ in range(200):
            yield [rng.randrange(0, 2000), rng.randrange(0, 240)]
            yield [rng.randrange(0, 240), rng.randrange(0, 2000)]
    else:
        m = 12 if tier == "quick" else 24
        for l, a, b in itertools.product(range(m), range(m), range(m)):
            yield [l, a, b]
        for _ in range(500):
            yield [rng.randrange(0, 60), rng.randrange(0, 60), rng.randrange(0, 60)]
        for c in cs:
            for l in range(0, 30, 3):
                yield [c, l, l + 1]
                yield [l, c, l + 1]
                yield [l, l + 1, c]


def C10():
    two = vec_entry("possibleChannelTotalAngularMomentumValues(l, s)", "h_J2", [("l", "u32"), ("s2", "i32")],
                    lambda v: [v["l"], half(v["s2"])], lambda a: [U(a[0]), D(a[1] / 2)],
                    lambda v: [(None, tabs(sub(mul(I(2), v["l"]), v["s2"])), add(tmin(mul(I(2), v["l"]), v["s2"]), I(1)))],
                    lambda l, s: [(None, abs(2 * l - s), min(2 * l, s) + 1)],
                    lambda rng, tier, consts: spins2(rng, tier, consts, 2),
                    ["rmatrix::possibleChannelTotalAngularMomentumValues(l, s)"])

    def right(L, a, b, abs_, min_, max_, ite_, odd):
        # smallest |l - s| over s = |i-I| .. i+I (all in units of 1/2)
        lo, hi = abs_(a - b), a + b
        return ite_(L < lo, lo - L, ite_(hi < L, L - hi, odd(a + b)))

    def spec(v):
        L, a, b = mul(I(2), v["l"]), v["i2"], v["I2"]
        r = right(L, a, b, tabs, tmin, tmax, ite, lambda x: tm.mod(x, I(2)))
        k = tabs(sub(tabs(sub(L, b)), a))
        n = lambda f: add(tm.floordiv(sub(L + a + b, f), I(2)), I(1))
        return [(None, r, n(r)), ("C10-three", k, n(k))]

    def pyspec(l, a, b):
        L = 2 * l
        r = right(L, a, b, abs, min, max, lambda c, x, y: x if c else y, lambda x: x % 2)
        k = abs(abs(L - b) - a)
        n = lambda f: (L + a + b - f) // 2 + 1
        return [(None, r, n(r))] + ([("C10-three", k, n(k))] if k != r else [])
    three = vec_entry("possibleChannelTotalAngularMomentumValues(l, i, I)", "h_J3", [("l", "u32"), ("i2", "i32"), ("I2", "i32")],
                      lambda v: [v["l"], half(v["i2"]), half(v["I2"])], lambda a: [U(a[0]), D(a[1] / 2), D(a[2] / 2)],
                      spec, pyspec, lambda rng, tier, consts: spins2(rng, tier, consts, 3),
                      ["rmatrix::possibleChannelTotalAngularMomentumValues(l, i, I)"])
    return Check("C10", [two, three])


# ------------------------------------------------------------------ quantum number sets
def C11():
    P = [("l", "u32"), ("s2", "i32"), ("J2", "i32"), ("pi", "i16")]
    conv = lambda v: [v["l"], half(v["s2"]), half(v["J2"]), v["pi"]]
    nconv = lambda a: [U(a[0]), D(a[1] / 2), D(a[2] / 2), ctypes.c_short(a[3])]
    pre = lambda v: [le(I(0), v["l"])] + [x for n in ("s2", "J2") for x in (le(I(0), v[n]), le(v[n], I(2**30)))] + \
        [lor(eq(v["pi"], I(1)), eq(v["pi"], I(-1)))]

    def samples(rng, tier, consts):
        vals = list(range(0, 30)) + [99, 100, 101, 199, 200, 201, 1001]
        for l in [0, 1, 2, 3, 4, 9, 10, 11, 100, 12345]:
            for s in vals:
                for J in vals[::1 if tier == "thorough" else 3] + [s]:
                    for p in (1, -1):
                        yield [l, s, J, p]
        for c in consts:
            if c == int(c) and 0 <= c < 10000:
                c = int(c)
                for q in (c, 2 * c, 2 * c + 1):
                    yield [q, 1, 2, 1]
                    yield [1, q, 2, -1]
                    yield [1, 2, q, 1]

    def post(e, ex, o, out, terms, pc, v):
        g = o.st.ghost.get((out.r, 0))
        if g is None or g[0] != "str":
            return ("unknown", "no string handed out", "path", None)
        # literal parts and numbers have to match one by one
        want = []
        for p in terms:
            if isinstance(p, str) and want and isinstance(want[-1], str):
                want[-1] += p
            else:
                want.append(p)
        got = list(g[1])
        if len(got) != len(want):
            return ("refuted", "string is %s" % (got,), "path", None)
        for a, b in zip(got, want):
            if isinstance(a, str) or isinstance(b, str):
                if a != b:
                    return ("refuted", "string part %r, contract %r" % (a, b), "path", None)
            elif sx.prove_eq(a, b, pc) is not True:
                return ("refuted", "number %s, contract %s" % (tm.show(a), tm.show(b)), "z3", lnot(eq(a, b)))
        return ("proved", "", "normal form + z3")

    def cases(v):
        cs = []
        for so in (0, 1):
            for Jo in (0, 1):
                for p in (1, -1):
                    g = land(eq(tm.mod(v["s2"], I(2)), I(so)), eq(tm.mod(v["J2"], I(2)), I(Jo)), eq(v["pi"], I(p)))
                    n = lambda t, odd: [t, "/2"] if odd else [tm.floordiv(t, I(2))]
                    cs.append(("s %s, J %s, parity %+d" % ("integer half"[8 * so:][:7], "integer half"[8 * Jo:][:7], p), g,
                               ("ret", ["{", v["l"], ","] + n(v["s2"], so) + [","] + n(v["J2"], Jo) + ["+" if p > 0 else "-", "}"])))
        return cs

    def text(l, s, J, p):
        h = lambda t: "%d/2" % t if t % 2 else "%d" % (t // 2)
        r = "{%d,%s,%s%s}" % (l, h(s), h(J), "+" if p > 0 else "-")
        return ("ret", ([len(r)] + [ord(c) for c in r] + [None] * 256)[:256])
    string = Entry("ChannelQuantumNumbers::toString", "h_qn_string", P, nout=256, pre=pre,
                   setup=lambda e, ex, st, v: ((lambda p: (conv(v) + [p], p))(ex.param_array(st, "out", I(32)))),
                   nconv=nconv, cases=cases, post=post, oracle=text, tol=lambda a, i, w: 0.0, samples=samples, unit=SLICE(),
                   functions=["rmatrix::ChannelQuantumNumbers::toString", "rmatrix::ChannelQuantumNumbers::ChannelQuantumNumbers"])

    def getters(fn, name):
        return Entry(name, fn, [("l", "u32"), ("s", "f64"), ("J", "f64"), ("pi", "i16")], nout=4,
                     pre=lambda v: [le(I(0), v["l"])],
                     cases=lambda v: [("always", TRUE, ("ret", [toreal(v["l"]), v["s"], v["J"], toreal(v["pi"])]))],
                     oracle=lambda *a: ("ret", list(a)), tol=lambda a, i, w: 0.0,
                     samples=lambda rng, tier, consts: ([a[0], a[1] / 2, a[2] / 2, a[3]] for a in samples(rng, "quick", consts)),
                     unit=SLICE(), functions=["rmatrix::ChannelQuantumNumbers::{orbitalAngularMomentum,spin,totalAngularMomentum,parity}"])
    return Check("C11", [string, getters("h_qn_getters", "ChannelQuantumNumbers accessors"),
                         getters("h_qn_copy", "ChannelQuantumNumbers copies")],
                 ["the decimal text of an integer is a function of the integer (std::to_string)"])
