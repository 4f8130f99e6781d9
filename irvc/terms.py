"""Hash-consed terms over mathematical reals, integers and booleans."""
from fractions import Fraction
import struct

_tab = {}


class T:
    __slots__ = ("op", "args", "sort", "id", "__weakref__")

    def __repr__(self):
        return show(self)

    # operators (for writing specifications)
    def __add__(a, b): return add(a, lift(b, a.sort))
    def __radd__(a, b): return add(lift(b, a.sort), a)
    def __sub__(a, b): return sub(a, lift(b, a.sort))
    def __rsub__(a, b): return sub(lift(b, a.sort), a)
    def __mul__(a, b): return mul(a, lift(b, a.sort))
    def __rmul__(a, b): return mul(lift(b, a.sort), a)
    def __truediv__(a, b): return div(a, lift(b, "R"))
    def __rtruediv__(a, b): return div(lift(b, "R"), a)
    def __neg__(a): return neg(a)
    def __lt__(a, b): return lt(a, lift(b, a.sort))
    def __le__(a, b): return le(a, lift(b, a.sort))
    def __gt__(a, b): return lt(lift(b, a.sort), a)
    def __ge__(a, b): return le(lift(b, a.sort), a)

    def __pow__(a, n):
        r = const(1, a.sort)
        for _ in range(n):
            r = mul(r, a)
        return r


def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = object.__new__(T)
        t.op, t.args, t.sort, t.id = op, args, sort, len(_tab)
        _tab[key] = t
    return t


def const(v, sort):
    if sort == "R":
        v = Fraction(v)
    elif sort == "I":
        v = int(v)
    else:
        v = bool(v)
    return mk("const", (v,), sort)


def R(v): return const(v, "R")
def I(v): return const(v, "I")


TRUE = const(True, "B")
FALSE = const(False, "B")


def lift(v, sort):
    if isinstance(v, T):
        if v.sort == "I" and sort == "R":
            return toreal(v)
        return v
    return const(v, sort)


def var(name, sort): return mk("var", (name,), sort)


_fresh = [0]


def fresh(name, sort):
    _fresh[0] += 1
    return var("%s!%d" % (name, _fresh[0]), sort)


def isc(t): return t.op == "const"
def cv(t): return t.args[0]


def _num(a, b):
    if a.sort != b.sort:
        a, b = lift(a, "R"), lift(b, "R")
    return a, b


def add(a, b):
    a, b = _num(a, b)
    if isc(a) and isc(b):
        return const(cv(a) + cv(b), a.sort)
    if isc(a):
        a, b = b, a
    if isc(b):
        if cv(b) == 0:
            return a
        if a.op == "add" and isc(a.args[1]):      # (x + c) + d
            return add(a.args[0], const(cv(a.args[1]) + cv(b), a.sort))
    return mk("add", (a, b), a.sort)


def neg(a):
    if isc(a):
        return const(-cv(a), a.sort)
    if a.op == "neg":
        return a.args[0]
    return mk("neg", (a,), a.sort)


def sub(a, b):
    a, b = _num(a, b)
    if a is b:
        return const(0, a.sort)
    if isc(b):
        return add(a, const(-cv(b), b.sort))
    if a.sort == "I":
        if a.op == "add" and a.args[0] is b and isc(a.args[1]):
            return a.args[1]
        if b.op == "add" and b.args[0] is a and isc(b.args[1]):
            return const(-cv(b.args[1]), "I")
        if a.op == "add" and b.op == "add" and isc(a.args[1]) and isc(b.args[1]) and a.args[0] is b.args[0]:
            return const(cv(a.args[1]) - cv(b.args[1]), "I")
    return add(a, neg(b))


def mul(a, b):
    a, b = _num(a, b)
    if isc(a) and isc(b):
        return const(cv(a) * cv(b), a.sort)
    if isc(b):
        a, b = b, a
    if isc(a):
        if cv(a) == 0:
            return a
        if cv(a) == 1:
            return b
        if cv(a) == -1:
            return neg(b)
    return mk("mul", (a, b), a.sort)


def div(a, b):
    a, b = lift(a, "R"), lift(b, "R")
    if isc(b) and cv(b) != 0:
        if isc(a):
            return R(cv(a) / cv(b))
        return mul(R(1 / cv(b)), a)
    return mk("div", (a, b), "R")


def toreal(a):
    if a.sort == "R":
        return a
    if isc(a):
        return R(cv(a))
    if a.op == "add":
        return add(toreal(a.args[0]), toreal(a.args[1]))
    if a.op == "neg":
        return neg(toreal(a.args[0]))
    if a.op == "mul":
        return mul(toreal(a.args[0]), toreal(a.args[1]))
    if a.op == "ite":
        return ite(a.args[0], toreal(a.args[1]), toreal(a.args[2]))
    return mk("toreal", (a,), "R")


def trunc(a):
    """truncation of a real towards zero, as an integer"""
    if isc(a):
        return I(int(cv(a)))
    if a.op == "toreal":
        return a.args[0]
    return mk("trunc", (a,), "I")


def floordiv(a, b):
    if isc(a) and isc(b) and cv(b) != 0:
        return I(cv(a) // cv(b))
    return mk("idiv", (a, b), "I")


def mod(a, b):
    if isc(a) and isc(b) and cv(b) != 0:
        return I(cv(a) % cv(b))
    return mk("mod", (a, b), "I")


def lt(a, b):
    a, b = _num(a, b)
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return const(cv(a) < cv(b), "B")
    d = sub(a, b)
    if isc(d):
        return const(cv(d) < 0, "B")
    return mk("lt", (a, b), "B")


def le(a, b):
    return lnot(lt(b, a))


def eq(a, b):
    if a.sort == "B":
        if isc(a):
            return b if cv(a) else lnot(b)
        if isc(b):
            return a if cv(b) else lnot(a)
        return TRUE if a is b else mk("iff", (a, b), "B")
    a, b = _num(a, b)
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return const(cv(a) == cv(b), "B")
    d = sub(a, b)
    if isc(d):
        return const(cv(d) == 0, "B")
    if isc(a):
        a, b = b, a
    if isc(b) and a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
        p, q = cv(a.args[1]) == cv(b), cv(a.args[2]) == cv(b)
        return TRUE if p and q else a.args[0] if p else lnot(a.args[0]) if q else FALSE
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


def lnot(a):
    if isc(a):
        return const(not cv(a), "B")
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def land(*xs):
    out = []
    for x in xs:
        if isc(x):
            if not cv(x):
                return FALSE
            continue
        if x not in out:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "B")


def lor(*xs):
    return lnot(land(*[lnot(x) for x in xs]))


def implies(a, b): return lor(lnot(a), b)


def ite(c, a, b):
    if isc(c):
        return a if cv(c) else b
    if a is b:
        return a
    if a.sort != b.sort:
        a, b = lift(a, "R"), lift(b, "R")
    if a.sort == "B":
        return lor(land(c, a), land(lnot(c), b))
    return mk("ite", (c, a, b), a.sort)


def app(f, *args, sort="R"):
    if f in ("sin", "cos") and len(args) == 1 and isinstance(args[0], T):
        if args[0].op == "const" and cv(args[0]) == 0:
            return const(int(f == "cos"), "R")
        y = half(args[0])
        if y is not None:       # double angles in terms of the single ones
            s = app("sin", y)
            return mul(mul(const(2, "R"), s), app("cos", y)) if f == "sin" else sub(const(1, "R"), mul(const(2, "R"), mul(s, s)))
    return mk("app", (f,) + args, sort)


def half(t):
    """t = 2 y (or -2 y) -> y"""
    if t.op == "neg":
        y = half(t.args[0])
        return None if y is None else neg(y)
    if t.op == "mul":
        for x, y in (t.args, t.args[::-1]):
            if isc(x) and abs(cv(x)) == 2:
                return y if cv(x) == 2 else neg(y)
    if t.op == "add" and t.args[0] is t.args[1]:
        return t.args[0]
    return None


def absr(a):
    if isc(a):
        return const(abs(cv(a)), a.sort)
    return ite(lt(a, const(0, a.sort)), neg(a), a)


def sqrt(a): return app("sqrt", a)
def atan(a): return app("atan", a)


def subst(t, m, memo=None):
    """simultaneous substitution of terms (usually variables)"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("const", "var"):
        r = t
    else:
        args = [subst(x, m, memo) if isinstance(x, T) else x for x in t.args]
        r = rebuild(t, args)
    memo[t] = r
    return r


def rebuild(t, args):
    o = t.op
    if o == "add": return add(*args)
    if o == "neg": return neg(*args)
    if o == "mul": return mul(*args)
    if o == "div": return div(*args)
    if o == "toreal": return toreal(*args)
    if o == "trunc": return trunc(*args)
    if o == "idiv": return floordiv(*args)
    if o == "mod": return mod(*args)
    if o == "lt": return lt(*args)
    if o == "eq": return eq(*args)
    if o == "iff": return eq(*args)
    if o == "not": return lnot(*args)
    if o == "and": return land(*args)
    if o == "ite": return ite(*args)
    if o == "app": return app(*args, sort=t.sort)
    raise ValueError(o)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(a for a in x.args if isinstance(a, T))
    return seen


def variables(t):
    return {x for x in subterms(t) if x.op == "var"}


def show(t, depth=0):
    if depth > 12:
        return "..."
    s = lambda x: show(x, depth + 1) if isinstance(x, T) else str(x)
    o = t.op
    if o == "const":
        v = cv(t)
        if isinstance(v, Fraction) and v.denominator > 10**6:
            return repr(float(v))
        return str(v)
    if o == "var":
        return t.args[0]
    bin = {"add": "+", "mul": "*", "div": "/", "lt": "<", "eq": "==", "and": "&&", "iff": "<->"}
    if o in bin:
        return "(" + (" %s " % bin[o]).join(s(x) for x in t.args) + ")"
    if o == "neg":
        return "-" + s(t.args[0])
    if o == "not":
        return "!" + s(t.args[0])
    if o == "app":
        return "%s(%s)" % (t.args[0], ", ".join(s(x) for x in t.args[1:]))
    return "%s(%s)" % (o, ", ".join(s(x) for x in t.args))


def double_bits(h):
    """exact rational of an IEEE-754 double given as the 0x... text of LLVM; None for inf/nan"""
    v = struct.unpack(">d", bytes.fromhex(h[2:].rjust(16, "0")))[0]
    return from_float(v)


def from_float(v):
    if v != v or v in (float("inf"), float("-inf")):
        return None
    return Fraction(v)
