import math, ctypes
import mpmath
from irvc.terms import *
from irvc import terms as tm, sx, solve
from irvc.check import Entry, Check, Unit, Obl
mp = mpmath.mp
mp.dps = 34

SLICE = lambda: Unit.get("slice.cpp", "slice")

# ---------------------------------------------------------------- hard-sphere functions
# denominators D_l(rho^2), lowest power first (l = 0..4), of the neutron hard-sphere functions
DEN = {0: [1], 1: [1, 1], 2: [9, 3, 1], 3: [225, 45, 6, 1], 4: [11025, 1575, 135, 10, 1]}
SNUM = {0: [0], 1: [1], 2: [18, 3], 3: [675, 90, 6], 4: [44100, 4725, 270, 10]}
PHI = {1: ([1], [1]), 2: ([3], [3, -1]), 3: ([15, -1], [15, -6]), 4: ([105, -10], [105, -45, 1])}


def poly(cs, x):
    r = 0
    for c in reversed(cs):
        r = r * x + c
    return r


def P_l(l, rho):
    return rho ** (2 * l + 1) / poly(DEN[l], rho * rho)


def S_l(l, rho):
    return -(poly(SNUM[l], rho * rho) / poly(DEN[l], rho * rho))


def phi_l(l, rho, at):
    if l == 0:
        return rho
    n, d = PHI[l]
    return rho - at(rho * poly(n, rho * rho) / poly(d, rho * rho))


def lterm(f, l, rho):
    """term version (constants lifted)"""
    v = f(l, rho)
    return v if isinstance(v, T) else R(v)


def rhos(rng, tier, consts, lo=1e-6, hi=1e6, negative=True):
    n = 300 if tier == "quick" else 3000
    base = [0.0, 1e-8, 1e-4, 0.01, 0.1, 0.5, 1.0, math.sqrt(3), math.sqrt(2.5), 2.0, 3.0, 5.0, 10.0, 30.0, 100.0, 1e3, 1e4]
    for c in consts:
        for f in (lambda c: c, lambda c: math.sqrt(abs(c)), lambda c: abs(c) ** 0.25):
            v = f(c)
            base += [v, v * (1 + 1e-9), v * (1 - 1e-9), v + 1e-3, v - 1e-3, v * 1.5, v * 0.5]
    base += [math.exp(rng.uniform(math.log(lo), math.log(hi))) for _ in range(n)]
    base += [rng.uniform(0, 20) for _ in range(n)]
    if negative:
        base += [-b for b in base[::3]]
    return [b for b in base if abs(b) <= 1e30]


def ls(consts, good=range(5)):
    xs = list(good) + [5, 6, 7, 8, 10, 100, 1000, 65536, 2**31 - 1]
    for c in consts:
        if c == int(c) and 0 <= c < 2**31:
            xs += [int(c), int(c) + 1]
    return list(dict.fromkeys(xs))


def grid(lsv, rh):
    for l in lsv:
        for r in rh if l < 5 else rh[:40]:
            yield l, r
