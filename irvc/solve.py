"""SMT back end (z3)."""
import time
import z3
from .terms import *
from .terms import rebuild
from .nf import snap

SCALE = 1       # time limits are multiplied by this (raised before a failed proof is reported)
STATS = {"queries": 0, "time": 0.0, "unknown": 0}


class Conv:
    def __init__(self):
        self.memo, self.ax, self.vars = {}, [], {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._c(t)
            self.memo[t] = r
        return r

    def _c(self, t):
        o, a = t.op, t.args
        if o == "const":
            v = a[0]
            if t.sort == "R":
                v = snap(v)
                return z3.RealVal(str(v.numerator)) / z3.RealVal(str(v.denominator)) if v.denominator != 1 else z3.RealVal(str(v.numerator))
            return z3.IntVal(v) if t.sort == "I" else z3.BoolVal(v)
        if o == "var":
            r = {"R": z3.Real, "I": z3.Int, "B": z3.Bool}[t.sort](a[0])
            self.vars[t] = r
            return r
        if o == "app":
            f = a[0]
            xs = [self(x) for x in a[1:] if isinstance(x, T)]
            if f == "pow" and isc(a[2]) and cv(a[2]).denominator == 1 and 0 <= cv(a[2]) <= 20:
                r = z3.RealVal(1)
                for _ in range(int(cv(a[2]))):
                    r = r * xs[0]
                return r
            srt = [x.sort() for x in xs]
            rs = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[t.sort]
            fn = z3.Function(f + "".join("_" + str(s)[0] for s in srt), *(srt + [rs]))
            r = fn(*xs)
            if f == "sqrt":
                self.ax.append(z3.Implies(xs[0] >= 0, z3.And(r >= 0, r * r == xs[0])))
            elif f == "exp":
                self.ax.append(r > 0)
            elif f in ("sin", "cos"):
                self.ax.append(z3.And(r <= 1, r >= -1))
            elif f == "atan":
                self.ax.append(z3.And(r < 2, r > -2))
            self.vars[t] = r
            return r
        if o == "add": return self(a[0]) + self(a[1])
        if o == "neg": return -self(a[0])
        if o == "mul": return self(a[0]) * self(a[1])
        if o == "div": return self(a[0]) / self(a[1])
        if o == "toreal": return z3.ToReal(self(a[0]))
        if o == "trunc":
            x = self(a[0])
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        if o == "idiv": return self(a[0]) / self(a[1])
        if o == "mod": return self(a[0]) % self(a[1])
        if o == "lt": return self(a[0]) < self(a[1])
        if o == "eq": return self(a[0]) == self(a[1])
        if o == "iff": return self(a[0]) == self(a[1])
        if o == "not": return z3.Not(self(a[0]))
        if o == "and": return z3.And(*[self(x) for x in a])
        if o == "ite": return z3.If(self(a[0]), self(a[1]), self(a[2]))
        raise ValueError(o)


_cache = {}


def check(fs, timeout=2000, model=False):
    """-> ('sat'|'unsat'|'unknown', model or None)"""
    if FAST:            # only the integer literals: 'unsat' stays sound, 'sat' is only a possibility
        fs = integral(fs)
        model = False
    fs = [f for f in fs if not (isc(f) and cv(f))]
    if any(isc(f) for f in fs):
        return "unsat", None
    if not fs:
        return ("sat", {}) if model else ("sat", None)
    key = (frozenset(f.id for f in fs), timeout * SCALE)
    if key in _cache and not (model and _cache[key] == "sat"):
        return _cache[key], None
    t0 = time.time()
    c = Conv()
    s = z3.Solver()
    s.set("timeout", timeout * SCALE)
    try:
        for f in fs:
            s.add(c(f))
        s.add(*c.ax)
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    r = str(r)
    if r == "unknown":
        STATS["unknown"] += 1
    _cache[key] = r
    m = None
    if model and r == "sat":
        zm = s.model()
        m = {}
        for t, v in c.vars.items():
            try:
                x = zm.eval(v, model_completion=True)
                if t.sort == "B":
                    m[t] = z3.is_true(x)
                elif t.sort == "I":
                    m[t] = x.as_long()
                elif z3.is_rational_value(x):
                    m[t] = Fraction(x.numerator_as_long(), x.denominator_as_long())
                elif z3.is_algebraic_value(x):
                    y = x.approx(30)
                    m[t] = Fraction(y.numerator_as_long(), y.denominator_as_long())
            except Exception:
                pass
    return r, m


FAST = False       # integer goals are only tried against the integer part of the path condition
_hasreal = {}


def hasreal(t):
    r = _hasreal.get(t)
    if r is None:
        r = t.sort == "R" or any(isinstance(x, T) and hasreal(x) for x in t.args)
        _hasreal[t] = r
    return r


def integral(fs):
    """the literals without real-valued terms (the others are dropped: sound for proofs)"""
    return [f for f in fs if not hasreal(f)]


class Purify(Conv):
    """real comparisons over monomials as variables: enough to recognise a fact up to algebra, and decidable"""
    def __init__(self):
        Conv.__init__(self)
        from .nf import NF
        self.nf, self.mono = NF(), {}

    def _c(self, t):
        if t.sort == "R" and t.op in ("mul", "div", "app", "var"):
            n, d = self.nf.rf(t)
            if len(d) == 1 and () in d:
                r = z3.RealVal(0)
                for m, c in n.items():
                    c = c / d[()]
                    k = z3.RealVal(str(c.numerator)) / z3.RealVal(str(c.denominator))
                    r = r + (k * self.var(m) if m else k)
                return r
            return self.var((tuple(sorted(n.items())), tuple(sorted(d.items()))))
        return Conv._c(self, t)

    def var(self, m):
        if m not in self.mono:
            self.mono[m] = z3.Real("p!%d" % len(self.mono))
        return self.mono[m]


def atoms(t):
    return {x for x in subterms(t) if x.sort == "R" and (x.op == "app" or x.op == "var")}


def _int_ite(t):
    for x in subterms(t):
        if x.op == "ite" and not hasreal(x.args[0]):
            return x.args[0]
    return None


def _pick(t, c, val, memo):
    r = memo.get(t)
    if r is None:
        if t.op in ("const", "var"):
            r = t
        elif t.op == "ite" and t.args[0] is c:
            r = _pick(t.args[1] if val else t.args[2], c, val, memo)
        else:
            r = rebuild(t, [_pick(x, c, val, memo) if isinstance(x, T) else x for x in t.args])
        memo[t] = r
    return r


def valid_pure(pc, goal, timeout=4000, depth=8):
    """True or None: goal follows from the integer literals and the real ones that share its atoms"""
    c = _int_ite(goal) if depth else None
    if c is not None:
        for val in (True, False):
            cc = c if val else lnot(c)
            p2 = tuple(pc) + (cc,)
            if check(integral(p2), 1500)[0] == "unsat":
                continue
            g = _pick(goal, c, val, {})
            if val and c.op == "eq":
                vs = sorted(variables(c), key=lambda v: v.id)
                for i, a in enumerate(vs):
                    for b in vs[:i]:
                        if a.sort == b.sort == "I" and valid(integral(p2), eq(a, b), 1500) is True:
                            g = subst(g, {a: b})
                            p2 = tuple(subst(f, {a: b}) for f in p2)
            if valid_pure(p2, g, timeout, depth - 1) is not True:
                return None
        return True
    ga = atoms(goal)
    fs = [f for f in pc if not hasreal(f) or (atoms(f) & ga)]
    t0 = time.time()
    c = Purify()
    s = z3.Solver()
    s.set("timeout", timeout * SCALE)
    r = None
    try:
        for f in fs + [lnot(goal)]:
            s.add(c(f))
        r = str(s.check())
    except Exception:
        pass
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    return True if r == "unsat" else None


def valid(pc, goal, timeout=4000):
    """True / False (with the query satisfiable) / None"""
    if FAST and hasreal(goal):
        return valid_pure(pc, goal, timeout)
    if not hasreal(goal):
        q = integral(pc)
        if len(q) < len(pc):
            if check(q + [lnot(goal)], timeout)[0] == "unsat":
                return True
            if FAST:
                return None
    r, _ = check(list(pc) + [lnot(goal)], timeout)
    return {"unsat": True, "sat": False}.get(r)
