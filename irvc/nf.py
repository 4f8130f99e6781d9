"""Rational-function normal form over uninterpreted atoms: decides identities of terms built with
+ - * / (and sqrt(a)^2 = a) exactly."""
from fractions import Fraction
from .terms import *

ODD = {"atan", "sin", "tan", "asin", "atanh", "sinh", "tanh", "cbrt"}
EVEN = {"cos", "cosh"}
LIMIT = 60000


class TooBig(Exception):
    pass


_snap = {}


def snap(q):
    """a double that is within one ulp of a small rational stands for that rational"""
    r = _snap.get(q)
    if r is None:
        r = q
        if q.denominator > 1 and abs(q) < 10**6:
            c = q.limit_denominator(20000)
            if c != 0 and abs(c - q) <= abs(q) * Fraction(1, 2**51):
                r = c
        _snap[q] = r
    return r


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > LIMIT * 4:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


ONE = {(): Fraction(1)}


def peq(a, b, tol=0):
    if a == b:
        return True
    if not tol:
        return False
    scale = max([abs(c) for c in a.values()] + [abs(c) for c in b.values()] + [0])
    for m in set(a) | set(b):
        x, y = a.get(m, 0), b.get(m, 0)
        if abs(x - y) > tol * max(abs(x), abs(y)):
            return False
    return True


class NF:
    def __init__(self, rewrite=None):
        self.atoms = []       # (kind, data)
        self.vars = {}
        self.apps = {}
        self.memo = {}
        self.rewrite = rewrite or {}

    def atom(self, d):
        self.atoms.append(d)
        return len(self.atoms) - 1

    def rf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._rf(t)
            self.memo[t] = r
        return r

    def _rf(self, t):
        o = t.op
        if t in self.rewrite:
            return self.rf(self.rewrite[t])
        if o == "const":
            c = snap(Fraction(cv(t)))
            return ({(): c} if c else {}, ONE)
        if o == "toreal":
            return self.rf(t.args[0])
        if o == "add":
            return self.add(self.rf(t.args[0]), self.rf(t.args[1]))
        if o == "neg":
            n, d = self.rf(t.args[0])
            return ({m: -c for m, c in n.items()}, d)
        if o == "mul":
            return self.mul(self.rf(t.args[0]), self.rf(t.args[1]))
        if o == "div":
            (a, b), (c, d) = self.rf(t.args[0]), self.rf(t.args[1])
            return self.mul((a, b), (d, c))
        if o == "app":
            return self.app(t)
        # everything else is an opaque atom
        i = self.vars.get(t)
        if i is None:
            i = self.vars[t] = self.atom(("t", t))
        return ({((i, 1),): Fraction(1)}, ONE)

    def app(self, t):
        f, args = t.args[0], t.args[1:]
        if any(not isinstance(a, T) or a.sort == "B" for a in args):
            i = self.vars.get(t)
            if i is None:
                i = self.vars[t] = self.atom(("t", t))
            return ({((i, 1),): Fraction(1)}, ONE)
        if f == "pow" and isc(args[1]):
            e = snap(Fraction(cv(args[1])))
            if e.denominator == 1 and abs(e) <= 64:
                r = (ONE, ONE)
                for _ in range(abs(int(e))):
                    r = self.mul(r, self.rf(args[0]))
                return r if e >= 0 else (r[1], r[0])
        ra = [self.rf(a) for a in args]
        if f == "sqrt" and not ra[0][0]:
            return ({}, ONE)
        for idx, old in self.apps.get((f, len(args)), []):
            if all(self.eqrf(x, y) for x, y in zip(ra, old)):
                return ({((idx, 1),): Fraction(1)}, ONE)
            if len(args) == 1 and (f in ODD or f in EVEN):
                x = ({m: -c for m, c in ra[0][0].items()}, ra[0][1])
                if self.eqrf(x, old[0]):
                    return ({((idx, 1),): Fraction(-1 if f in ODD else 1)}, ONE)
        idx = self.atom(("app", f, ra, t))
        self.apps.setdefault((f, len(args)), []).append((idx, ra))
        return ({((idx, 1),): Fraction(1)}, ONE)

    def reduce(self, p):
        """sqrt(a)^2 -> a, cos(a)^2 -> 1 - sin(a)^2"""
        again = True
        den = ONE
        while again:
            again = False
            for m in p:
                for a, e in m:
                    if e >= 2 and self.atoms[a][0] == "app" and self.atoms[a][1] in ("sqrt", "cos"):
                        again = True
                        break
                if again:
                    break
            if again:
                n, d = self.atoms[a][2][0]
                if self.atoms[a][1] == "cos":
                    x, sg = self.app(app("sin", self.atoms[a][3].args[1]))[0], None
                    n, d = padd(ONE, pmul(x, x), -1), ONE
                keep, out = {}, {}
                for m, c in p.items():
                    e = dict(m).get(a, 0)
                    if e >= 2:
                        dm = dict(m)
                        dm[a] = e - 2
                        if not dm[a]:
                            del dm[a]
                        out[tuple(sorted(dm.items()))] = c
                    else:
                        keep[m] = c
                p = padd(pmul(keep, d), pmul(out, n))
                den = pmul(den, d)
        return p, den

    def norm(self, n, d):
        n, k = self.reduce(n)
        if k != ONE:
            d = pmul(d, k)
        d, k = self.reduce(d)
        if k != ONE:
            n = pmul(n, k)
        if not n:
            return ({}, ONE)
        # common monomial factor and leading coefficient
        common = None
        for m in list(n) + list(d):
            dm = dict(m)
            common = dm if common is None else {a: min(e, dm[a]) for a, e in common.items() if a in dm}
            if not common:
                break
        if common:
            inv = tuple((a, -e) for a, e in sorted(common.items()))

            def strip(p):
                r = {}
                for m, c in p.items():
                    dm = dict(m)
                    for a, e in inv:
                        dm[a] += e
                        if not dm[a]:
                            del dm[a]
                    r[tuple(sorted(dm.items()))] = c
                return r
            n, d = strip(n), strip(d)
        lead = d[max(d)] if d else Fraction(1)
        if lead != 1:
            n = {m: c / lead for m, c in n.items()}
            d = {m: c / lead for m, c in d.items()}
        return (n, d)

    def add(self, x, y):
        if not x[0]:
            return y
        if not y[0]:
            return x
        if x[1] == y[1]:
            return self.norm(padd(x[0], y[0]), x[1])
        if y[1] == ONE:
            return self.norm(padd(x[0], pmul(y[0], x[1])), x[1])
        if x[1] == ONE:
            return self.norm(padd(pmul(x[0], y[1]), y[0]), y[1])
        return self.norm(padd(pmul(x[0], y[1]), pmul(y[0], x[1])), pmul(x[1], y[1]))

    def mul(self, x, y):
        if not x[0] or not y[0]:
            return ({}, ONE)
        a, b, c, d = x[0], x[1], y[0], y[1]
        if a == d:
            a = d = ONE
        if c == b:
            c = b = ONE
        return self.norm(pmul(a, c), pmul(b, d))

    def eqrf(self, x, y, tol=0):
        if x[1] == y[1]:
            return peq(x[0], y[0], tol)
        l, _ = self.reduce(pmul(x[0], y[1]))
        r, _ = self.reduce(pmul(y[0], x[1]))
        if _ != ONE:
            x2, y2 = self.norm(pmul(x[0], y[1]), ONE), self.norm(pmul(y[0], x[1]), ONE)
            return peq(pmul(x2[0], y2[1]), pmul(y2[0], x2[1]), tol)
        return peq(l, r, tol)

    def equal(self, a, b):
        if a is b:
            return True
        x, y = self.rf(a), self.rf(b)
        return self.eqrf(x, y) or self.eqrf(x, y, Fraction(1, 10**12))


def summands(t, sign=1, out=None):
    if out is None:
        out = []
    if t.op == "add":
        summands(t.args[0], sign, out)
        summands(t.args[1], sign, out)
    elif t.op == "neg":
        summands(t.args[0], -sign, out)
    else:
        out.append((t, sign))
    return out


def nf_equal(a, b, rewrite=None):
    if a is b:
        return True
    if a.op in ("add", "neg") and b.op in ("add", "neg") and a.sort == b.sort == "R":
        # summands that both sides share
        xs, ys = summands(a), summands(b)
        if len(xs) <= 40 and len(ys) <= 40:
            q = NF(rewrite)
            left = []
            for x, s in xs:
                for i, (y, r) in enumerate(ys):
                    try:
                        same = x is y and s == r or q.equal(x if s == r else neg(x), y)
                    except (TooBig, ZeroDivisionError, RecursionError):
                        same = False
                    if same:
                        del ys[i]
                        break
                else:
                    left.append((x, s))
            if not left and not ys:
                return True
            sums = []
            for zs in (left, ys):
                r = R(0)
                for x, s in zs:
                    r = add(r, x if s == 1 else neg(x))
                sums.append(r)
            a, b = sums
    try:
        return NF(rewrite).equal(a, b)
    except (TooBig, ZeroDivisionError, RecursionError):
        return None


def nf_zero(a, rewrite=None):
    return nf_equal(a, const(0, a.sort), rewrite)


# ---------------------------------------------------------------- large terms
PRIME = (1 << 127) - 1


def fingerprints(ts, salt):
    """values of all subterms at a random point modulo a prime (equal terms have equal values; the converse is only a guess)"""
    import hashlib
    val = {}

    def h(*xs):
        return int.from_bytes(hashlib.sha256(repr((salt,) + xs).encode()).digest(), "big") % PRIME

    def order(t):
        stack = [(t, False)]
        while stack:
            x, done = stack.pop()
            if x in val:
                continue
            kids = [y for y in x.args if isinstance(y, T)] if x.op not in ("const", "var") else []
            if not done:
                stack.append((x, True))
                stack.extend((y, False) for y in kids if y not in val)
                continue
            v = [val[y] for y in kids]
            o = x.op
            if o == "const":
                c = cv(x)
                if isinstance(c, bool):
                    val[x] = int(c)
                else:
                    c = snap(Fraction(c))
                    val[x] = c.numerator * pow(c.denominator, -1, PRIME) % PRIME
            elif o == "var":
                val[x] = h("var", x.args[0])
            elif o == "add":
                val[x] = sum(v) % PRIME
            elif o == "neg":
                val[x] = -v[0] % PRIME
            elif o == "mul":
                r = 1
                for y in v:
                    r = r * y % PRIME
                val[x] = r
            elif o == "div":
                val[x] = v[0] * pow(v[1], -1, PRIME) % PRIME if v[1] else h("div0", v[0])
            elif o == "toreal":
                val[x] = v[0]
            elif o == "app" and x.args[0] == "sqrt":
                val[x] = h("sqrt", v[0])
            elif o == "app" and len(v) == 1 and (x.args[0] in ODD or x.args[0] in EVEN):
                w = h(x.args[0], min(v[0], PRIME - v[0])) if v[0] else int(x.args[0] in EVEN)
                val[x] = w if x.args[0] in EVEN or v[0] <= PRIME - v[0] else PRIME - w
            else:
                val[x] = h(o, tuple(y for y in x.args if not isinstance(y, T)), tuple(v))
    for t in ts:
        order(t)
    return val


def square_roots(t, memo):
    """sqrt(x) sqrt(x) = x"""
    r = memo.get(t)
    if r is None:
        if t.op in ("const", "var"):
            r = t
        else:
            kids = [square_roots(x, memo) if isinstance(x, T) else x for x in t.args]
            r = rebuild(t, kids)
            if r.op == "app" and r.args[0] == "sqrt":
                r = modulus_of_square(r.args[1]) or r
            if r.op == "mul":
                x, y = r.args
                if x.op == "mul" and isc(x.args[0]) and x.args[1] is y:
                    r = mul(x.args[0], mul(y, y))
                    x, y = y, y
                if x is y and x.op == "app" and x.args[0] == "sqrt":
                    r = x.args[1] if r.op == "mul" and r.args[0] is x else mul(r.args[0], x.args[1])
                elif y.op == "mul" and y.args[0] is x and x.op == "app" and x.args[0] == "sqrt":
                    r = mul(x.args[1], y.args[1])
                elif x.op == "mul" and x.args[1] is y and y.op == "app" and y.args[0] == "sqrt":
                    r = mul(x.args[0], y.args[1])
        memo[t] = r
    return r


def modulus_of_square(t):
    """t = (p^2 - q^2)^2 + (2 p q)^2 -> p^2 + q^2, its square root"""
    sq = lambda z: z.args[0] if z.op == "mul" and z.args[0] is z.args[1] else None
    if t.op != "add":
        return None
    x, y = sq(t.args[0]), sq(t.args[1])
    for x, y in ((x, y), (y, x)):
        if x is None or y is None or x.op != "add" or x.args[1].op != "neg":
            continue
        p, q = sq(x.args[0]), sq(x.args[1].args[0])
        if p is None or q is None:
            continue
        same = lambda z: z.op == "mul" and set(z.args) == {p, q}
        if y.op == "add" and same(y.args[0]) and same(y.args[1]) or y.op == "mul" and isc(y.args[0]) and cv(y.args[0]) == 2 and same(y.args[1]):
            return add(mul(p, p), mul(q, q))
    return None


def sweep_equal(a, b):
    """two large terms: subterms of one and the other that look equal at a random point are proved equal by normal form, smallest first,
    and replaced by one variable; what remains is compared by normal form"""
    import sys
    lim = sys.getrecursionlimit()
    sys.setrecursionlimit(max(lim, 20000))
    try:
        m = {}
        a, b = square_roots(a, m), square_roots(b, m)
        if a is b:
            return True
        val = fingerprints([a, b], "p")
        if val[a] != val[b]:
            return None
        inb = {}
        for t in subterms(b):
            if t.sort == "R" and t.op not in ("const", "var"):
                v = val[t]
                inb.setdefault(min(v, PRIME - v), t)
        post, seen = [], set()
        stack = [(a, False)]
        while stack:
            x, done = stack.pop()
            if done:
                post.append(x)
                continue
            if x in seen:
                continue
            seen.add(x)
            stack.append((x, True))
            if x.op not in ("const", "var"):
                stack.extend((y, False) for y in x.args if isinstance(y, T))
        rep = {}
        done = {}       # value -> (term after the cuts so far, its variable, value)
        for x in post:
            if x is a or x.sort != "R" or x.op in ("const", "var"):
                continue
            v = val[x]
            key = min(v, PRIME - v)
            y = inb.get(key)
            if y is None or y is b or v == 0:
                continue
            if key in done:
                w, f, _ = done[key]
                if x in rep or w == "no":
                    continue
                x2 = subst(x, rep)
                same = v == done[key][2]
                if x2 is f or nf_equal(x2, w if same else neg(w)):
                    rep[x] = f if same else neg(f)
                continue
            x2, y2 = subst(x, rep), subst(y, rep)
            same = val[y] == v
            if x2 is y2 or nf_equal(x2, y2 if same else neg(y2)):
                if x2.op in ("var", "const"):
                    continue
                f = fresh("cut", "R")
                done[key] = (x2, f, v)
                rep[x] = f
                rep[y] = f if same else neg(f)
                for t in subterms(b):
                    if t.sort == "R" and t not in rep and t.op not in ("const", "var") and val[t] in (v, PRIME - v) and t is not b:
                        t2 = subst(t, rep)
                        if t2 is x2 or nf_equal(t2, x2 if val[t] == v else neg(x2)):
                            rep[t] = f if val[t] == v else neg(f)
            else:
                done[key] = ("no", None, v)
        return nf_equal(subst(a, rep), subst(b, rep))
    except (TooBig, ZeroDivisionError, RecursionError):
        return None
    finally:
        sys.setrecursionlimit(lim)
