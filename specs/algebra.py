"""Polynomial evaluation and element-wise pack arithmetic."""
from .common import *
D = ctypes.c_double


# ------------------------------------------------------------------ Horner
def C12():
    coeff = lambda k: app("coef", k)

    def hints(v):
        x = v["x"]
        # H(0) = c_0, H(k+1) = H(k) x + c_(k+1): the polynomial with c_0 the highest order coefficient
        return [sx.Rec("poly", [x], coeff(I(0)), lambda a, k: a * x + coeff(add(k, I(1)))),
                sx.Rec("xpow", [x], R(1), lambda a, k: a * x)]

    def setup(e, ex, st, v):
        def base(off, ty, s):
            k = tm.floordiv(off, I(8))
            return coeff(k)
        c = ex.param_array(st, "coefficients", mul(I(8), v["n"]), base=base)
        out = ex.param_array(st, "out", I(8), base=lambda o, t, s: sx.UNDEF)
        return [c, v["n"], v["x"], out], out

    def cases(v):
        h = hints(v)
        return [("n>=1", TRUE, ("ret", [h[0](add(v["n"], I(-1)))]))]

    class E(Entry):
        def native(self, args):
            n, x, cs = args
            so = self.unit.so()
            a = (D * n)(*cs)
            b = (D * 1)(float("nan"))
            so.n_horner.restype = ctypes.c_int
            so.n_horner(a, ctypes.c_longlong(n), D(x), b)
            return ("ret", [b[0]])

    def oracle(n, x, cs=None):
        if cs is None:
            return None
        y = mpmath.mpf(0)
        for k, c in enumerate(cs):
            y += mpmath.mpf(c) * mpmath.mpf(x) ** (n - 1 - k)
        return ("ret", [y])

    def tol(a, i, want):
        n, x, cs = a
        return 1e-14 * (n + 1) * sum(abs(c) * abs(x) ** (n - 1 - k) for k, c in enumerate(cs)) + 1e-300

    def samples(rng, tier, consts):
        for n in list(range(1, 40)) + [64, 65, 100]:
            for x in [0.0, 1.0, -1.0, 2.0, 0.5, rng.uniform(-3, 3), rng.uniform(-100, 100) if n < 30 else .7]:
                for _ in range(1 if tier == "quick" else 5):
                    yield (n, x, tuple(rng.uniform(-10, 10) for _ in range(n)))
                    yield (n, x, tuple(float(rng.randrange(-3, 4)) for _ in range(n)))
    e = E("horner", "h_horner", [("n", "i64"), ("x", "f64")], pre=lambda v: [le(I(1), v["n"]), le(v["n"], I(2**40))],
          setup=setup, hints=hints, cases=cases, oracle=oracle, tol=tol, samples=samples, unit=SLICE(),
          functions=["rmatrix::horner"])
    e.complete = lambda a, rng: (a[0], a[1], tuple(rng.uniform(-10, 10) for _ in range(a[0]))) if 1 <= a[0] <= 5000 else None
    return Check("C12", [e], ["an input range has at least one coefficient (documented by the first dereference)"])


# ------------------------------------------------------------------ packs
def C13():
    def fs(rng, n, k, ints=()):
        for _ in range(k):
            a = [rng.choice([0.0, 1.0, -1.0, 0.5, rng.uniform(-100, 100), rng.uniform(-1e6, 1e6)]) for _ in range(n)]
            for i in ints:
                a[i] = rng.randrange(-1000, 1000)
            yield a

    def mk(fn, name, params, f, ints=()):
        return Entry(name, "h_" + fn, params, nout=len(f(*[R(0) if t == "f64" else I(0) for _, t in params])),
                     pre=lambda v: [x for n, t in params if t != "f64" for x in (le(I(-2**20), v[n]), le(v[n], I(2**20)))],
                     cases=lambda v: [("always", TRUE, ("ret", f(*[v[n] if t == "f64" else toreal(v[n]) for n, t in params])))],
                     oracle=lambda *a: ("ret", f(*[mpmath.mpf(x) for x in a])),
                     tol=lambda a, i, w: 1e-14 * (abs(w) + sum(abs(x) for x in a)) + 1e-300,
                     samples=lambda rng, tier, consts: fs(rng, len(params), 300 if tier == "quick" else 4000, ints), unit=SLICE(),
                     functions=["Pack::operator+", "Pack::operator-", "Pack::operator*", "Pack::Pack", "pack"])
    six = [(n, "f64") for n in "abcxyz"]
    return Check("C13", [
        mk("pack_add", "sum of packs of three", six, lambda a, b, c, x, y, z: [a + x, b + y, c + z]),
        mk("pack_sub", "difference of packs of three", six, lambda a, b, c, x, y, z: [a - x, b - y, c - z]),
        mk("pack_mul", "pack of three times scalar", six[:4], lambda a, b, c, x: [a * x, b * x, c * x]),
        mk("pack_mixed", "packs of mixed types", [("a", "i32"), ("b", "f64"), ("x", "f64"), ("y", "i32")],
           lambda a, b, x, y: [a + x, b + y, a - x, b - y, a * x, b * x], (0, 3)),
        mk("pack_single", "packs of one", [("a", "f64"), ("x", "f64")], lambda a, x: [a + x, a - x, a * x])])
