"""Reference values of the Coulomb wave functions (mpmath, 30 digits), independent of /repo.
usage: python3-vt coulomb_table.py > data/coulomb_ref.json"""
import json, math, random, sys
import mpmath
from multiprocessing import Pool


def ref(l, rho, eta):
    """G, F, G', F' of order l"""
    with mpmath.workdps(30):
        r, e = mpmath.mpf(rho), mpmath.mpf(eta)
        f = [mpmath.coulombf(k, e, r) for k in (l, l + 1)]
        g = [mpmath.coulombg(k, e, r) for k in (l, l + 1)]
        k = l + 1
        d = lambda u: ((k * k / r + e) * u[0] - mpmath.sqrt(k * k + e * e) * u[1]) / k
        return [g[0], f[0], d(g), d(f)]


def job(a):
    try:
        v = ref(*a)
        if not all(mpmath.isfinite(x) for x in v):
            return None
        return list(a) + [mpmath.nstr(x, 20) for x in v]
    except Exception:
        return None


def points():
    rng = random.Random(20240229)
    for eta in (0.0, 0.2, 1.0, 3.0, 4.99, 5.0, 8.0, 14.99, 15.0, 24.0, 45.0):
        for rho in (0.1, 1.0, 4.0, 9.0, 15.0, 17.0, 22.0, 28.0, 34.0, 48.0):
            for l in (0, 1, 2, 3, 5, 12):
                yield l, rho, eta
    for l in range(59):
        for rho, eta in ((2.0, 0.0), (7.0, 1.5), (30.0, 0.5), (20.0, 9.0), (25.0, 7.0), (18.0, 20.0), (45.0, 16.0)):
            yield l, rho, eta
    for _ in range(2600):
        eta = rng.choice([0.0, rng.uniform(0, 1), rng.uniform(0, 5), rng.uniform(0, 5), rng.uniform(5, 15), rng.uniform(5, 15), rng.uniform(15, 50)])
        rho = math.exp(rng.uniform(math.log(0.05), math.log(50)))
        l = rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 20, 30])
        yield l, round(rho, 6), round(eta, 6)


    # both sides of every boundary between expansions
    for eta in (0.5, 2.0, 4.999, 5.0, 5.001, 6.5, 11.0, 14.999, 15.0, 15.001, 19.0, 26.0, 30.0, 40.0):
        for b in (2 * eta + 10, 2 * eta, 2.5 * eta + 7.5, 16.0, 5 * eta / 3 - 5):
            for f in (0.97, 0.9999, 1.0, 1.0001, 1.03):
                if 0.05 < b * f <= 50:
                    for l in (0, 1, 4):
                        yield l, b * f, eta


if __name__ == "__main__":
    with Pool(8) as p:
        rows = [r for r in p.map(job, list(points()), chunksize=8) if r]
    print("[" + ",\n".join(json.dumps(r) for r in rows) + "]")
