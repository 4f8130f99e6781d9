"""Symbolic execution of LLVM IR over all paths, with contracts at call sites and inductive loop
summaries.  Doubles are mathematical reals; integers are mathematical integers with explicit
wrap-around where overflow is defined."""
import math, re, struct
from .terms import *
from . import terms as tm
from .ir import Unsupported
from .nf import nf_equal
from . import nf
from . import solve

MAXPATH = 4000


class Ptr:
    __slots__ = ("r", "off")

    def __init__(self, r, off):
        self.r, self.off = r, off

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.r, self.off)


class Undef:
    def __repr__(self): return "undef"


class Bits:
    """a double (or pointer) seen as an integer of the same width"""
    def __init__(self, v): self.v = v


class Piece:
    """bits lo .. lo + bits of a double or pointer"""
    def __init__(self, v, lo, bits): self.v, self.lo, self.bits = v, lo, bits


class Fn:
    def __init__(self, name): self.name = name


UNDEF = Undef()
NULL = Ptr(None, I(0))


class Region:
    __slots__ = ("name", "size", "cells", "log", "base", "alive", "kind", "const")

    def __init__(self, name, size, kind, base=None, const=False):
        self.name, self.size, self.kind, self.base, self.const = name, size, kind, base, const
        self.cells, self.log, self.alive = {}, (), True

    def copy(self):
        r = object.__new__(Region)
        for s in Region.__slots__:
            setattr(r, s, getattr(self, s))
        r.cells = dict(self.cells)
        return r


class Rng:
    """writes at off + stride*j for 0 <= j < n of value val[j] (J is the bound variable)"""
    def __init__(self, off, stride, n, J, val, size):
        self.off, self.stride, self.n, self.J, self.val, self.size = off, stride, n, J, val, size


class State:
    __slots__ = ("mem", "pc", "ghost", "owned")

    def __init__(self):
        self.mem, self.pc, self.ghost, self.owned = {}, (), {}, set()

    def copy(self):
        s = State()
        s.mem, s.pc, s.ghost = dict(self.mem), self.pc, dict(self.ghost)
        self.owned = set()
        return s

    def w(self, rid):
        """region for writing"""
        if rid not in self.owned:
            self.mem[rid] = self.mem[rid].copy()
            self.owned.add(rid)
        return self.mem[rid]

    def assume(self, c):
        if isc(c):
            if cv(c):
                return
        if c.op == "and":
            for x in c.args:
                self.assume(x)
            return
        if c not in self.pc:
            self.pc = self.pc + (c,)


class Part:
    """the low bits of a word of which the rest is padding"""
    __slots__ = ("v", "bits")

    def __init__(self, v, bits):
        self.v, self.bits = v, bits


class Rec:
    """a function defined by primitive recursion: f(0, *ps) = init, f(k+1) = step(f(k), k)"""
    table = {}

    def __init__(self, name, params, init, step):
        self.name, self.params, self.init, self.step = name, tuple(params), init, step
        Rec.table[name] = self

    def __call__(self, k):
        return app(self.name, lift(k, "I"), *self.params, sort=self.init.sort)


def unfold(t, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("const", "var"):
        return t
    if t.op == "app" and t.args[0] in Rec.table:
        rec = Rec.table[t.args[0]]
        k = t.args[1]
        if isc(k):
            r = rec.init
            for j in range(cv(k)):
                r = rec.step(r, I(j))
        elif k.op == "add" and isc(k.args[1]) and cv(k.args[1]) > 0 and cv(k.args[1]) < 50:
            k1 = add(k, I(-1))
            r = rec.step(unfold(app(rec.name, k1, *rec.params, sort=rec.init.sort), memo), k1)
        else:
            r = t
    else:
        r = tm.rebuild(t, [unfold(x, memo) if isinstance(x, T) else x for x in t.args])
    memo[t] = r
    return r


def prove_eq(a, b, pc=(), timeout=4000):
    """True / False (refuted under pc, as far as the solver's reals go) / None"""
    if a is b:
        return True
    if isinstance(a, Bits) and isinstance(b, Bits):
        a, b = a.v, b.v
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r != b.r:
                return False
            return prove_eq(a.off, b.off, pc)
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        rs = [prove_eq(x, y, pc) for x, y in zip(a, b)]
        return False if False in rs else None if None in rs else True
    if not isinstance(a, T) or not isinstance(b, T):
        return None
    rw = exits(pc)
    if rw:
        a2, b2 = subst(a, rw), subst(b, rw)
        if a2 is b2 or (a.sort != "B" and nf_equal(a2, b2)):
            return True
    a, b = unfold(a), unfold(b)
    if a is b:
        return True
    if a.sort != "B":
        if a.sort == "R" and len(subterms(a)) > 60:
            if nf.sweep_equal(a, b):
                return True
        if nf_equal(a, b):
            return True
        if _ite_cond([a, b]) is not None:
            rs = [prove_eq(x, y, p, timeout) for p, (x, y) in split_ites([a, b], tuple(pc))
                  if _ite_cond([x, y]) is None] if len(split_ites([a, b], tuple(pc))) <= 64 else [None]
            if rs and all(r is True for r in rs):
                return True
        rw = equalities(pc)
        if rw:
            a2, b2 = unfold(subst(a, rw)), unfold(subst(b, rw))
            if a2 is b2 or nf_equal(a2, b2):
                return True
        rw = forced(a, b, pc)
        if rw:
            return prove_eq(subst(a, rw), subst(b, rw), pc, timeout)
    return solve.valid(pc, eq(a, b), timeout)


def forced(a, b, pc):
    """arguments of recursive functions that the path condition determines, or makes equal"""
    rw = {}
    ks = []
    for t in (a, b):
        for x in subterms(t):
            if x.op == "app" and x.args[0] in Rec.table and not isc(x.args[1]) and x.args[1] not in ks:
                ks.append(x.args[1])
    if not ks:
        return rw
    vs = [v for k in ks for v in variables(k)]
    m = solve.check(list(pc), 2000, model=True)[1]
    if m is None:
        return rw
    for k in ks:
        try:
            val = subst(k, {v: const(m.get(v, 0), v.sort) for v in variables(k)})
        except Exception:
            continue
        if isc(val) and solve.valid(pc, eq(k, val), 1500) is True:
            rw[k] = val
    for i, k in enumerate(ks):
        for k2 in ks[:i]:
            if k not in rw and k2 not in rw and solve.valid(pc, eq(k, k2), 1500) is True:
                rw[k] = k2
                break
    return rw


def _ite_cond(ts):
    """an ite condition (innermost) occurring in the terms"""
    for t in ts:
        for x in subterms(t):
            if x.op == "ite" and not any(y.op == "ite" for y in subterms(x.args[0])):
                return x.args[0]
    return None


def _ite_pick(t, c, val, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("const", "var"):
        r = t
    elif t.op == "ite" and t.args[0] is c:
        r = _ite_pick(t.args[1] if val else t.args[2], c, val, memo)
    else:
        r = tm.rebuild(t, [_ite_pick(x, c, val, memo) if isinstance(x, T) else x for x in t.args])
    memo[t] = r
    return r


def split_ites(ts, pc, limit=10):
    """[(pc', terms without ite)] over the feasible combinations of ite conditions"""
    c = _ite_cond(ts)
    if c is None or limit == 0:
        return [(pc, ts)]
    out = []
    for val in (True, False):
        cc = c if val else lnot(c)
        if isc(cc) and not cv(cc):
            continue
        p2 = pc + (cc,) if cc not in pc else pc
        if solve.check(list(p2), 1500)[0] == "unsat":
            continue
        memo = {}
        out.extend(split_ites([_ite_pick(t, c, val, memo) for t in ts], p2, limit - 1))
    return out


def linear(t):
    """integer linear term -> {var: coefficient, None: constant}, or None"""
    if isc(t):
        return {None: cv(t)}
    if t.op == "var":
        return {t: 1}
    if t.op == "neg":
        a = linear(t.args[0])
        return a and {k: -c for k, c in a.items()}
    if t.op == "add":
        out = {}
        for x in t.args:
            a = linear(x)
            if a is None:
                return None
            for k, c in a.items():
                out[k] = out.get(k, 0) + c
        return out
    if t.op == "mul" and isc(t.args[0]):
        a = linear(t.args[1])
        return a and {k: c * cv(t.args[0]) for k, c in a.items()}
    return None


def exits(pc):
    """loop counters that an exit condition determines"""
    rw = {}
    for c in pc:
        if c.op != "eq" or c.args[0].sort != "I":
            continue
        a, b = linear(c.args[0]), linear(c.args[1])
        if a is None or b is None:
            continue
        d = dict(a)
        for k, x in b.items():
            d[k] = d.get(k, 0) - x
        for v in d:
            if v is not None and v.args[0].startswith("k!") and d[v] and v not in rw:
                if all(x % d[v] == 0 for x in d.values()):
                    rest = I(0)
                    for k, x in d.items():
                        if k is not v and x:
                            rest = add(rest, I(-(x // d[v])) if k is None else mul(I(-(x // d[v])), k))
                    if not any(k in variables(rest) for k in rw) and v not in set().union(*[variables(r) for r in rw.values()] or [set()]):
                        rw[v] = rest
                    break
    return rw


def equalities(pc):
    rw = {}
    for c in pc:
        if c.op == "eq":
            x, y = c.args
            if isc(y) and x.op == "var":
                rw[x] = y
            elif isc(x) and y.op == "var":
                rw[y] = x
            elif x.op == "var" and x not in variables(y) and x not in rw:
                rw[x] = y
            elif y.op == "var" and y not in variables(x) and y not in rw:
                rw[y] = x
    return rw


class Outcome:
    __slots__ = ("kind", "val", "st")

    def __init__(self, kind, val, st):
        self.kind, self.val, self.st = kind, val, st


class Loops:
    def __init__(self, f):
        succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1]
            if t.op == "br":
                succ[b] = [x for x in t.a[1:] if x]
            elif t.op == "switch":
                succ[b] = [t.a[2]] + [x for _, x in t.a[3]]
            elif t.op == "invoke":
                succ[b] = [t.a[3], t.a[4]]
            else:
                succ[b] = []
        pred = {b: [] for b in f.blocks}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        order, seen = [], set()
        stack = [(f.entry, iter(succ[f.entry]))]
        seen.add(f.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {f.entry: f.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = n, p
                    while x != y:
                        while num[x] > num[y]:
                            x = idom[x]
                        while num[y] > num[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == f.entry:
                    return False
                b = idom[b]
        self.body = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = self.body.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in pred[x] if p in num)


class Exec:
    def __init__(self, mod, dem, models=(), hints=(), safety=True, keep_contract=None):
        self.mod, self.dem = mod, dem
        self.models = [(re.compile(p).search if isinstance(p, str) else p, h) for p, h in models]
        self.hints = list(hints)
        self.havoc = None         # functions (regex over demangled names) whose loops are cut by invariants
        self.invariants = ()      # (ex, phis, state, entry state) -> [(name, B term)]: candidate invariants
        self.safety = []          # (name, pc, goal, where)
        self.loopobl = []         # (where, what, result)
        self.term = []
        self.assumed = set()      # library contracts used
        self.nreg = 0
        self.loops = {}
        self.paths = 0
        self.depth = 0
        self.globs = {}
        self.calls = []
        self.where = []
        self.max_unroll = 400

    # ------------------------------------------------------------ memory
    def alloc(self, st, name, size, kind, base=None, const=False):
        self.nreg += 1
        rid = "%s#%d" % (name, self.nreg)
        st.mem[rid] = Region(name, size, kind, base, const)
        st.owned.add(rid)
        return rid

    def param_array(self, st, name, size=None, base=None):
        b = base or (lambda off, ty, sz: app("mem_" + name, off))
        return Ptr(self.alloc(st, name, size, "param", b), I(0))

    def region(self, st, p, what):
        if not isinstance(p, Ptr):
            raise Unsupported("%s through %r" % (what, p))
        if p.r is None:
            self.safety.append(("null dereference", st.pc, FALSE, "/".join(self.where[-2:])))
            raise Unsupported("null dereference")
        if p.r not in st.mem:
            raise Unsupported("unknown region %s" % p.r)
        r = st.mem[p.r]
        return r

    def bounds(self, st, r, p, size, what):
        if not r.alive:
            self.safety.append((what + " of freed memory " + r.name, st.pc, FALSE, (self.where or ["contract"])[-1]))
            return
        if r.size is None:
            return
        goal = land(le(I(0), p.off), le(add(p.off, I(size)), r.size))
        if goal is TRUE:
            return
        self.safety.append((what + " within " + r.name, st.pc, goal, (self.where or ["contract"])[-1]))

    def bytes(self, ty):
        """bytes that a load or store of the type touches"""
        u = self.mod.resolve(ty)
        return (u[1] + 7) // 8 if u[0] == "i" else self.mod.size(ty)

    def store(self, st, p, val, ty):
        size = self.bytes(ty)
        r = self.region(st, p, "store")
        self.bounds(st, r, p, size, "store")
        if isinstance(val, list):
            u = self.mod.resolve(ty)
            for i, v in enumerate(val):
                off, ft = self.mod.field(ty, i)
                self.store(st, Ptr(p.r, add(p.off, I(off))), v, ft)
            return
        r = st.w(p.r)
        if isc(p.off):
            o = cv(p.off)
            for k in [k for k, (sz, _) in r.cells.items() if k != o and k < o + size and o < k + sz]:
                sz, v = r.cells[k]
                del r.cells[k]           # partially overwritten
                if o <= k and k + sz <= o + size:
                    continue
                r.log = r.log + ((I(k), sz, UNDEF),)
            r.cells[o] = (size, val)
        else:
            r.log = r.log + tuple((I(k), s, v) for k, (s, v) in r.cells.items()) + ((p.off, size, val),)
            r.cells = {}

    def load(self, st, p, ty):
        u = self.mod.resolve(ty)
        size = self.bytes(ty)
        r = self.region(st, p, "load")
        self.bounds(st, r, p, size, "load")
        if u[0] in ("struct", "arr"):
            n = len(u[1]) if u[0] == "struct" else u[1]
            out = []
            for i in range(n):
                off, ft = self.mod.field(ty, i)
                out.append(self.load(st, Ptr(p.r, add(p.off, I(off))), ft))
            return out
        v = self.read(st, r, p.off, size, u)
        if v is UNDEF and u == ("i", 64):
            # a member and the padding after it: only the member may be taken out again
            q = self.read(st, r, p.off, 1, ("i", 8))
            if isinstance(q, T):
                return Part(q, 8)
        return self.conv(v, u)

    def conv(self, v, u):
        if isinstance(v, Bits) and u[0] in ("double", "ptr"):
            v = v.v
        if u[0] == "i" and isinstance(v, (Ptr, Fn)):
            return Bits(v)
        if isinstance(v, T):
            if u[0] == "i" and v.sort == "R":
                return Bits(v)
            if u[0] == "i" and u[1] == 1 and v.sort == "I":
                return lnot(eq(v, I(0)))
            if u[0] == "i" and u[1] > 1 and v.sort == "B":
                return ite(v, I(1), I(0))
            if u[0] == "double" and v.sort == "I":
                if isc(v) and cv(v) == 0:
                    return R(0)
                if isc(v):
                    x = struct.unpack("<d", struct.pack("<Q", cv(v) % (1 << 64)))[0]
                    if math.isfinite(x):
                        return R(x)
                raise Unsupported("integer bits read as double")
            if u[0] == "ptr":
                if isc(v) and cv(v) == 0:
                    return NULL
                raise Unsupported("integer read as pointer")
        return v

    def read(self, st, r, off, size, u):
        if isc(off) and cv(off) in r.cells:
            sz, v = r.cells[cv(off)]
            if sz == size:
                return v
            if sz > size and isinstance(v, T) and v.sort == "I" and isc(v):
                return self.within(v, sz, 0, size)
            if isinstance(v, Piece) and sz < size:
                return self.pieces(r, cv(off), size)
            if sz < size:
                return self.joined(r, cv(off), size)
            return UNDEF
        if isc(off):
            o = cv(off)
            for k, (sz, v) in r.cells.items():
                if k < o + size and o < k + sz:
                    if isinstance(v, T) and isc(v) and cv(v) == 0 and k <= o and o + size <= k + sz:
                        return I(0)
                    if isinstance(v, T) and v.sort == "I" and isc(v) and k <= o and o + size <= k + sz:
                        return self.within(v, sz, o - k, size)
                    if isinstance(v, Piece):
                        return self.pieces(r, o, size)
                    return UNDEF
        else:
            # symbolic read over constant cells
            alts = []
            for k in sorted(r.cells):
                sz, v = r.cells[k]
                c = self.decide(eq(off, I(k)), st.pc)
                if c is True:
                    return v
                if c is None:
                    alts.append((eq(off, I(k)), v))
            npc = st.pc + tuple(lnot(c) for c, _ in alts)
            rest = self.readlog(st, r, off, size, u, len(r.log), npc) if solve.check(list(npc), 1500)[0] != "unsat" else alts.pop()[1]
            for c, v in alts:
                rest = self.merge(c, v, rest)
            return rest
        return self.readlog(st, r, off, size, u, len(r.log))

    def within(self, v, sz, d, size):
        """some bytes of a constant integer"""
        x = (cv(v) % (1 << (8 * sz)) >> (8 * d)) % (1 << (8 * size))
        return I(x - (1 << (8 * size)) if x >= 1 << (8 * size - 1) else x)

    def joined(self, r, o, size):
        """neighbouring constant integers read as one"""
        k, v = o, 0
        while k < o + size:
            if k not in r.cells:
                return UNDEF
            sz, p = r.cells[k]
            if not (isinstance(p, T) and p.sort == "I" and isc(p)):
                return UNDEF
            v += (cv(p) % (1 << (8 * sz))) << (8 * (k - o))
            k += sz
        if k != o + size:
            return UNDEF
        return I(v - (1 << (8 * size)) if v >= 1 << (8 * size - 1) else v)

    def pieces(self, r, o, size):
        """a double or pointer that was written in pieces"""
        k, v = o, None
        while k < o + size:
            if k not in r.cells:
                return UNDEF
            sz, p = r.cells[k]
            if not isinstance(p, Piece) or p.bits != 8 * sz or p.lo != 8 * (k - o) or v is not None and p.v is not v:
                return UNDEF
            v, k = p.v, k + sz
        return v if k == o + size and size == 8 else UNDEF

    def merge(self, c, a, b):
        if b is UNDEF or a is UNDEF:
            # an undefined alternative is only taken if the read is of uninitialised memory
            return UNDEF if (a is UNDEF and b is UNDEF) else (a if b is UNDEF and self._lenient else b if self._lenient else UNDEF)
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
            return Ptr(a.r, ite(c, a.off, b.off))
        return UNDEF

    _lenient = False

    def readlog(self, st, r, off, size, u, n, pc=None):
        if pc is None:
            pc = st.pc
        while n > 0:
            e = r.log[n - 1]
            n -= 1
            if isinstance(e, Rng):
                d = sub(off, e.off)
                j = floordiv_exact(d, e.stride)
                if j is None:
                    raise Unsupported("read of a range write at an unaligned offset")
                inr = land(le(I(0), j), lt(j, e.n))
                c = self.decide(inr, pc)
                v = subst(e.val, {e.J: j}) if isinstance(e.val, T) else e.val
                if c is True:
                    return v
                if c is None:
                    return self.merge(inr, v, self.readlog(st, r, off, size, u, n, pc + (lnot(inr),)))
                continue
            eo, es, ev = e
            c = self.decide(eq(off, eo), pc)
            if c is True:
                return ev if es == size else UNDEF
            if c is None:
                return self.merge(eq(off, eo), ev, self.readlog(st, r, off, size, u, n, pc + (lnot(eq(off, eo)),)))
            if es != size and self.decide(land(lt(off, add(eo, I(es))), lt(eo, add(off, I(size)))), pc) is not False:
                raise Unsupported("read that may overlap a write of another size")
        if r.base is not None:
            return r.base(off, u, size)
        return UNDEF

    # ------------------------------------------------------------ values
    def glob(self, st, name):
        key = "@" + name
        if key in st.mem:
            return Ptr(key, I(0))
        if name in self.mod.funcs or name in self.mod.decls:
            return Fn(name)
        g = self.mod.glob(name)
        if g is None:
            g = (None, None, False)
        t, init, const = g
        if t is None or init is None:
            reg = Region(key, None, "global", lambda off, ty, sz: app("glob_" + name, off))
        else:
            reg = Region(key, I(self.mod.size(t)), "global", None if const else
                         (lambda off, ty, sz: app("glob_" + name, off)), const)
            if const:
                self.fill(st, reg, 0, t, init)
        st.mem[key] = reg
        return Ptr(key, I(0))

    def fill(self, st, reg, off, t, v):
        u = self.mod.resolve(t)
        if v[0] == "zero":
            s = self.mod.size(t)
            reg.base = lambda o, ty, sz: R(0) if ty[0] == "double" else NULL if ty[0] == "ptr" else I(0)
            return
        if v[0] == "undef":
            return
        if v[0] == "agg":
            for i, (ft, fv) in enumerate(v[1]):
                o, _ = self.mod.field(t, i)
                self.fill(st, reg, off + o, ft, fv)
            return
        if v[0] == "str":
            raw = bytes.fromhex("")
            s = v[1][2:-1]
            out, i = [], 0
            while i < len(s):
                if s[i] == "\\":
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(s[i]))
                    i += 1
            for i, c in enumerate(out):
                reg.cells[off + i] = (1, I(c))
            return
        reg.cells[off] = (self.mod.size(t), self.value(st, {}, t, v))

    def value(self, st, regs, t, v):
        k = v[0]
        if k == "reg":
            if v[1] not in regs:
                raise Unsupported("undefined register " + v[1])
            return regs[v[1]]
        if k == "int":
            if t[0] == "i" and t[1] == 1:
                return const(v[1] != 0, "B")
            return I(v[1])
        if k == "fp":
            if v[1] is None:
                return app("nonfinite")
            return R(v[1])
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "zero":
            return self.zero(t)
        if k == "glob":
            return self.glob(st, v[1])
        if k == "agg":
            return [self.value(st, regs, ft, fv) for ft, fv in v[1]]
        if k == "cgep":
            return self.gep(st, regs, v[1], v[2][0], v[2][1:])
        raise Unsupported("value " + k)

    def zero(self, t):
        u = self.mod.resolve(t)
        if u[0] == "i":
            return FALSE if u[1] == 1 else I(0)
        if u[0] == "double":
            return R(0)
        if u[0] == "ptr":
            return NULL
        if u[0] == "struct":
            return [self.zero(x) for x in u[1]]
        if u[0] == "arr":
            return [self.zero(u[2]) for _ in range(u[1])]
        raise Unsupported("zero of %s" % (u,))

    def gep(self, st, regs, ety, base, idx):
        b = self.value(st, regs, base[0], base[1])
        if isinstance(b, Fn):
            return b
        if not isinstance(b, Ptr):
            raise Unsupported("gep on %r" % (b,))
        off = b.off
        t = ety
        for n, (it, iv) in enumerate(idx):
            i = self.value(st, regs, it, iv)
            if not isinstance(i, T):
                raise Unsupported("gep index")
            if n == 0:
                off = add(off, mul(I(self.mod.size(t)), i))
                continue
            u = self.mod.resolve(t)
            if u[0] == "struct":
                o, t = self.mod.field(t, cv(i))
                off = add(off, I(o))
            else:
                t = u[2]
                off = add(off, mul(I(self.mod.size(t)), i))
        return Ptr(b.r, off)

    def decide(self, c, pc):
        if isc(c):
            return cv(c)
        if c in pc:
            return True
        if lnot(c) in pc:
            return False
        rel = pc
        if solve.FAST:
            if not solve.hasreal(c):
                rel = solve.integral(pc)
            else:
                return None
        if solve.check(list(rel) + [c], 1500)[0] == "unsat":
            return False
        if solve.check(list(rel) + [lnot(c)], 1500)[0] == "unsat":
            return True
        return None

    # ------------------------------------------------------------ integer arithmetic
    def wrap(self, x, n, st):
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        if isc(x):
            v = cv(x) & ((1 << n) - 1)
            return I(v - (1 << n) if v > hi else v)
        b = bound(x)
        if b and b[0] >= lo and b[1] <= hi:
            return x
        ok = land(le(I(lo), x), le(x, I(hi)))
        if self.decide(ok, st.pc) is True:
            return x
        return add(mod(sub(x, I(lo)), I(1 << n)), I(lo))

    def uns(self, x, n, st):
        if isc(x):
            return I(cv(x) & ((1 << n) - 1))
        neg_ = lt(x, I(0))
        d = self.decide(neg_, st.pc)
        if d is False:
            return x
        if d is True:
            return add(x, I(1 << n))
        return ite(neg_, add(x, I(1 << n)), x)

    # ------------------------------------------------------------ execution
    def call(self, name, args, st):
        f = self.mod.func(name)
        if f is None:
            raise Unsupported("no body for " + name)
        if self.depth > 24:
            raise Unsupported("call depth")
        regs = {p[1]: a for p, a in zip(f.params, args)}
        self.depth += 1
        self.where.append(self.dem.get(name, name)[:100])
        self.calls.append(self.dem.get(name, name))
        try:
            outs = self.region_run(f, f.entry, regs, st, None)
        finally:
            self.depth -= 1
            self.where.pop()
        res = []
        for o in outs:
            if o[0] == "ret":
                res.append(Outcome("ret", o[1], o[2]))
            elif o[0] == "throw":
                res.append(Outcome("throw", o[1], o[2]))
            else:
                raise Unsupported("stray " + o[0])
        return res

    def region_run(self, f, start, regs, st, header):
        """run from block `start` (phis already evaluated); stop at the loop header or outside it"""
        if f.name not in self.loops:
            self.loops[f.name] = Loops(f)
        L = self.loops[f.name]
        body = L.body[header] if header else None
        work = [(start, regs, st)]
        outs = []
        first = True
        while work:
            blk, regs, st = work.pop()
            if blk in L.body and not (first and blk == header):
                # inner loop entry
                first = False
                for r in self.loop_run(f, blk, regs, st):
                    if r[0] == "exit":
                        _, to, frm, rg, s = r
                        self.transit(f, frm, to, rg, s, header, body, work, outs)
                    else:
                        outs.append(r)
                continue
            first = False
            for r in self.block(f, blk, regs, st):
                if r[0] == "goto":
                    _, to, rg, s = r
                    self.transit(f, blk, to, rg, s, header, body, work, outs)
                else:
                    outs.append(r)
            if len(outs) + len(work) > MAXPATH:
                raise Unsupported("too many paths")
        return outs

    def transit(self, f, frm, to, regs, st, header, body, work, outs):
        if header is not None and to == header:
            rg = self.phis(f, frm, to, regs, st)
            outs.append(("back", rg, st))
        elif header is not None and to not in body:
            outs.append(("exit", to, frm, regs, st))
        else:
            rg = self.phis(f, frm, to, regs, st)
            work.append((to, rg, st))

    def phis(self, f, frm, to, regs, st):
        rg = dict(regs)
        for ins in f.blocks[to]:
            if ins.op != "phi":
                if ins.op == "unsupported" and " phi " in ins.text:
                    raise Unsupported(ins.a)
                break
            t, inc = ins.a
            for v, b in inc:
                if b == frm:
                    rg[ins.res] = self.value(st, regs, t, v)
                    break
            else:
                raise Unsupported("phi")
        return rg

    def fork(self, st, c):
        """[(truth, state)] of the feasible sides"""
        d = self.decide(c, st.pc)
        if d is not None:
            return [(d, st)]
        s2 = st.copy()
        st = st.copy()
        st.assume(c)
        s2.assume(lnot(c))
        self.paths += 1
        return [(True, st), (False, s2)]

    def block(self, f, blk, regs, st):
        todo = [(0, regs, st)]
        res = []
        ins = f.blocks[blk]
        while todo:
            i, regs, st = todo.pop()
            regs = dict(regs)
            while True:
                x = ins[i]
                i += 1
                op = x.op
                if op == "phi":
                    continue
                if op == "unsupported":
                    raise Unsupported(x.a + " | " + x.text[:80])
                if op == "br":
                    c, a, b = x.a
                    if c is None:
                        res.append(("goto", a, regs, st))
                        break
                    cvv = self.value(st, regs, ("i", 1), c)
                    if not isinstance(cvv, T):
                        raise Unsupported("branch on %r" % (cvv,))
                    for d, s in self.fork(st, cvv):
                        res.append(("goto", a if d else b, dict(regs), s))
                    break
                if op == "switch":
                    t, v, dflt, cases = x.a
                    vv = self.value(st, regs, t, v)
                    if not isinstance(vv, T):
                        raise Unsupported("switch")
                    cur = st
                    done = False
                    for c, lab in cases:
                        cc = self.value(st, regs, t, c)
                        sides = self.fork(cur, eq(vv, cc))
                        nxt = None
                        for d, s in sides:
                            if d:
                                res.append(("goto", lab, dict(regs), s))
                            else:
                                nxt = s
                        if nxt is None:
                            done = True
                            break
                        cur = nxt
                    if not done:
                        res.append(("goto", dflt, dict(regs), cur))
                    break
                if op == "ret":
                    res.append(("ret", None if x.a is None else self.value(st, regs, *x.a), st))
                    break
                if op == "unreachable":
                    if self.decide(TRUE, st.pc):
                        if solve.check(list(st.pc), 3000)[0] == "unsat":
                            break
                        self.safety.append(("unreachable", st.pc, FALSE, (self.where or ["contract"])[-1]))
                    break
                if op == "resume":
                    res.append(("throw", "rethrown", st))
                    break
                if op == "select":
                    ct, c, t, a, b = x.a
                    cc = self.value(st, regs, ct, c)
                    va, vb = self.value(st, regs, t, a), self.value(st, regs, t, b)
                    if t == ("i", 1) and isinstance(va, T) and isinstance(vb, T):
                        regs[x.res] = ite(cc, va, vb)
                        continue
                    if not isinstance(cc, T):
                        raise Unsupported("select")
                    sides = self.fork(st, cc)
                    for d, s in sides[1:]:
                        rg = dict(regs)
                        rg[x.res] = va if d else vb
                        todo.append((i, rg, s))
                    d, st = sides[0]
                    regs[x.res] = va if d else vb
                    continue
                if op in ("call", "invoke"):
                    rt, callee, args, norm, unw = x.a
                    outs = self.docall(x, regs, st)
                    if len(outs) == 1 and outs[0].kind == "ret" and op == "call":
                        st = outs[0].st
                        if x.res:
                            regs[x.res] = outs[0].val
                        continue
                    for o in outs:
                        if o.kind == "ret":
                            rg = dict(regs)
                            if x.res:
                                rg[x.res] = o.val
                            if op == "invoke":
                                res.append(("goto", norm, rg, o.st))
                            else:
                                todo.append((i, rg, o.st))
                        elif o.kind == "throw":
                            if op == "invoke":
                                res.append(("goto", unw, dict(regs), o.st))
                            else:
                                res.append(("throw", o.val, o.st))
                    break
                v = self.simple(x, regs, st)
                if x.res:
                    regs[x.res] = v
        return res

    def num(self, v, what=""):
        if isinstance(v, T):
            return v
        if v is UNDEF:
            raise Unsupported("use of an uninitialised or unknown value " + what)
        raise Unsupported("numeric use of %r" % (v,))

    def simple(self, x, regs, st):
        op, a = x.op, x.a
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            t, l, r, fl = a
            if t[0] != "double":
                raise Unsupported("fp type %s" % (t,))
            l, r = self.num(self.value(st, regs, t, l)), self.num(self.value(st, regs, t, r))
            return {"fadd": add, "fsub": sub, "fmul": mul, "fdiv": div}[op](l, r)
        if op == "fneg":
            return neg(self.num(self.value(st, regs, *a)))
        if op == "frem":
            t, l, r, fl = a
            return app("fmod", self.num(self.value(st, regs, t, l)), self.num(self.value(st, regs, t, r)))
        if op == "fcmp":
            pr, t, l, r = a
            if t[0] != "double":
                raise Unsupported("fp type")
            l, r = self.num(self.value(st, regs, t, l)), self.num(self.value(st, regs, t, r))
            if pr in ("uno", "false"):
                return FALSE
            if pr in ("ord", "true"):
                return TRUE
            k = pr[1:]
            return {"eq": lambda: eq(l, r), "ne": lambda: lnot(eq(l, r)), "lt": lambda: lt(l, r),
                    "le": lambda: le(l, r), "gt": lambda: lt(r, l), "ge": lambda: le(r, l)}[k]()
        if op == "icmp":
            pr, t, l, r = a
            l, r = self.value(st, regs, t, l), self.value(st, regs, t, r)
            return self.icmp(pr, t, l, r, st)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            return self.iop(op, a, regs, st)
        if op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast",
                  "ptrtoint", "inttoptr", "freeze"):
            t, v, t2 = a
            v = self.value(st, regs, t, v)
            if op == "freeze":
                return v
            if op == "bitcast":
                return self.conv(v, t2)
            if op == "ptrtoint":
                return Bits(v)
            if op == "inttoptr":
                if isinstance(v, Bits):
                    return v.v
                raise Unsupported("inttoptr")
            if isinstance(v, (Bits, Piece)) and op == "trunc" and t2[1] >= 8:
                return Piece(v.v, getattr(v, "lo", 0), t2[1])
            if isinstance(v, Part) and op == "trunc" and t2 == ("i", v.bits):
                return self.conv(v.v, t2)
            v = self.num(v)
            if op in ("zext", "sext"):
                if v.sort == "B":
                    return ite(v, I(1 if op == "zext" else -1), I(0))
                return self.uns(v, t[1], st) if op == "zext" else v
            if op == "trunc":
                if t2[1] == 1:
                    return eq(mod(v, I(2)), I(1))
                return self.wrap(v, t2[1], st)
            if op == "sitofp":
                if t2[0] != "double":
                    raise Unsupported("float")
                return toreal(v) if v.sort == "I" else ite(v, R(-1), R(0))
            if op == "uitofp":
                if t2[0] != "double":
                    raise Unsupported("float")
                return toreal(self.uns(v, t[1], st)) if v.sort == "I" else ite(v, R(1), R(0))
            if op in ("fptosi", "fptoui"):
                n = t2[1]
                r = tm.trunc(v)
                self.assumed.add("conversions from double to integer are in range")
                return r
            if op == "fpext":
                return v
            if op == "fptrunc":
                raise Unsupported("single precision")
        if op == "alloca":
            t, n = a
            n = self.value(st, regs, ("i", 64), n)
            return Ptr(self.alloc(st, x.res, mul(I(self.mod.size(t)), n), "alloca"), I(0))
        if op == "load":
            t, p = a
            return self.load(st, self.value(st, regs, ("ptr",), p), t)
        if op == "store":
            t, v, p = a
            self.store(st, self.value(st, regs, ("ptr",), p), self.value(st, regs, t, v), t)
            return None
        if op == "getelementptr":
            return self.gep(st, regs, a[0], a[1], a[2])
        if op == "extractvalue":
            t, v, ix = a
            v = self.value(st, regs, t, v)
            for i in ix:
                if v is UNDEF:
                    return UNDEF
                v = v[i]
            return v
        if op == "insertvalue":
            t, v, t2, v2, ix = a
            v = self.value(st, regs, t, v)
            v2 = self.value(st, regs, t2, v2)
            return self.insert(t, v, v2, ix)
        if op == "landingpad":
            return [Ptr("exc", I(0)), app("selector", sort="I")]
        raise Unsupported("instruction " + op)

    def insert(self, t, v, v2, ix):
        if not ix:
            return v2
        u = self.mod.resolve(t)
        n = len(u[1]) if u[0] == "struct" else u[1]
        if v is UNDEF:
            v = [UNDEF] * n
        v = list(v)
        _, ft = self.mod.field(t, ix[0])
        v[ix[0]] = self.insert(ft, v[ix[0]], v2, ix[1:])
        return v

    def icmp(self, pr, t, l, r, st):
        if isinstance(l, Bits) and isinstance(r, T) and isc(r) and cv(r) == 0 and isinstance(l.v, Ptr):
            r = Bits(NULL)
        if isinstance(l, Bits) and isinstance(r, Bits):
            l, r = l.v, r.v
        if isinstance(l, (Ptr, Fn)) or isinstance(r, (Ptr, Fn)):
            if isinstance(l, Fn) or isinstance(r, Fn):
                same = isinstance(l, Fn) and isinstance(r, Fn) and l.name == r.name
                return const(same if pr == "eq" else not same, "B")
            if not (isinstance(l, Ptr) and isinstance(r, Ptr)):
                raise Unsupported("pointer comparison")
            if l.r == r.r:
                e = (l.off, r.off)
                return {"eq": lambda: eq(*e), "ne": lambda: lnot(eq(*e)), "ult": lambda: lt(*e), "ugt": lambda: lt(e[1], e[0]),
                        "ule": lambda: le(*e), "uge": lambda: le(e[1], e[0])}[pr]()
            if pr in ("eq", "ne"):
                return const(pr == "ne", "B")
            raise Unsupported("comparison of unrelated pointers")
        l, r = self.num(l), self.num(r)
        if l.sort == "B":
            if pr in ("eq", "ne"):
                c = eq(l, r)
                return c if pr == "eq" else lnot(c)
            l, r = ite(l, I(1), I(0)), ite(r, I(1), I(0))
        if pr == "eq":
            return eq(l, r)
        if pr == "ne":
            return lnot(eq(l, r))
        if pr[0] == "u":
            l, r = self.uns(l, t[1], st), self.uns(r, t[1], st)
        k = pr[1:]
        return {"lt": lambda: lt(l, r), "le": lambda: le(l, r), "gt": lambda: lt(r, l), "ge": lambda: le(r, l)}[k]()

    def iop(self, op, a, regs, st):
        t, l, r, fl = a
        l, r = self.value(st, regs, t, l), self.value(st, regs, t, r)
        if t[0] != "i":
            raise Unsupported("vector integer op")
        n = t[1]
        if isinstance(l, Bits) and isinstance(r, Bits) and op == "sub":
            p, q = l.v, r.v
            if isinstance(p, Ptr) and isinstance(q, Ptr) and p.r == q.r:
                return sub(p.off, q.off)
            raise Unsupported("difference of unrelated pointers")
        if isinstance(l, Bits) and op == "lshr" and isinstance(r, T) and isc(r) and 0 < cv(r) < n and cv(r) % 8 == 0:
            return Piece(l.v, cv(r), n - cv(r))
        if isinstance(l, Bits) and isinstance(l.v, T) and l.v.sort == "R" and op == "xor" and isinstance(r, T) and isc(r) \
                and cv(r) in (-(1 << 63), 1 << 63):
            return Bits(neg(l.v))
        l, r = self.num(l), self.num(r)
        if n == 1:
            if op == "and":
                return land(l, r)
            if op == "or":
                return lor(l, r)
            if op in ("xor", "add", "sub"):
                return lnot(eq(l, r))
            raise Unsupported("i1 " + op)
        if op in ("add", "sub", "mul"):
            v = {"add": add, "sub": sub, "mul": mul}[op](l, r)
            if "nsw" in fl or ("nuw" in fl and False):
                return v
            return self.wrap(v, n, st)
        if op == "shl" and isc(r):
            v = mul(I(1 << cv(r)), l)
            return v if "nsw" in fl else self.wrap(v, n, st)
        if op == "lshr" and isc(r):
            return floordiv(self.uns(l, n, st), I(1 << cv(r)))
        if op == "ashr" and isc(r):
            if "exact" in fl:
                e = floordiv_exact(l, 1 << cv(r))
                if e is not None:
                    return e
            return floordiv(l, I(1 << cv(r)))
        if op == "udiv":
            return floordiv(self.uns(l, n, st), self.uns(r, n, st))
        if op == "urem":
            return mod(self.uns(l, n, st), self.uns(r, n, st))
        if op in ("sdiv", "srem"):
            if isc(r) and cv(r) > 0:
                if op == "sdiv":
                    e = floordiv_exact(l, cv(r))
                    if e is not None:
                        return e
                q = ite(lt(l, I(0)), neg(floordiv(neg(l), r)), floordiv(l, r))
                return q if op == "sdiv" else sub(l, mul(r, q))
            raise Unsupported(op)
        if op == "and" and isc(r):
            m = cv(r)
            if m >= 0 and (m & (m + 1)) == 0:
                return mod(l, I(m + 1))
            if isc(l):
                return I(cv(l) & m)
        if op == "or" and ("disjoint" in fl):
            return add(l, r)
        if op in ("and", "or", "xor") and isc(l) and isc(r):
            return I({"and": cv(l) & cv(r), "or": cv(l) | cv(r), "xor": cv(l) ^ cv(r)}[op])
        if op == "xor" and isc(r) and cv(r) == -1:
            return sub(I(-1), l)
        if op == "or" and isc(r) and cv(r) == 0:
            return l
        raise Unsupported("integer %s %s %s" % (op, l, r))

    # ------------------------------------------------------------ calls
    LIBM1 = {"sin", "cos", "tan", "atan", "acos", "asin", "exp", "log", "sqrt", "cbrt", "erf", "sinh", "cosh", "tanh",
             "atanh", "log10", "log2", "exp2", "expm1", "log1p", "floor", "ceil", "round", "trunc", "rint", "nearbyint"}
    LIBM2 = {"pow", "atan2", "hypot", "fmod"}

    def libm(self, n, args, st):
        a = [self.num(x, n) for x in args]
        if n == "fabs":
            return absr(a[0])
        if n in ("fmax", "maxnum", "maximum"):
            return ite(lt(a[0], a[1]), a[1], a[0])
        if n in ("fmin", "minnum", "minimum"):
            return ite(lt(a[1], a[0]), a[1], a[0])
        if n in ("fmuladd", "fma"):
            return add(mul(a[0], a[1]), a[2])
        if n == "trunc":
            return toreal(tm.trunc(a[0]))
        if n == "round":
            return toreal(tm.trunc(self.half_away(a[0])))
        if n == "floor":
            return toreal(tm.floor(a[0])) if hasattr(tm, "floor") else None
        if n == "copysign":
            return ite(lt(a[1], R(0)), neg(absr(a[0])), absr(a[0]))
        if n == "hypot":
            return app("sqrt", add(mul(a[0], a[0]), mul(a[1], a[1])))
        if n == "cbrt" and solve.valid(st.pc, le(R(0), a[0]), 2000) is True:
            return app("pow", a[0], R(Fraction(1 / 3)))         # the double nearest to 1/3 stands for 1/3
        if n == "atan2" and solve.valid(st.pc, lt(R(0), a[1]), 2000) is True:
            return app("atan", a[0] / a[1])
        if n == "log1p":
            return app("log", R(1) + a[0])
        if n == "expm1":
            return app("exp", a[0]) - R(1)
        if n == "powi":
            return app("pow", a[0], toreal(a[1]))
        if n == "sqrt" and isc(a[0]):
            import math
            q = cv(a[0])
            if q >= 0:
                nn, dd = math.isqrt(q.numerator), math.isqrt(q.denominator)
                if nn * nn == q.numerator and dd * dd == q.denominator:
                    return R(Fraction(nn, dd))
        if n in self.LIBM1 or n in self.LIBM2:
            return app(n, *a)
        return None

    def half_away(self, x):
        """its truncation is x rounded to the nearest integer, halves away from zero"""
        return ite(lt(x, R(0)), sub(x, R(Fraction(1, 2))), add(x, R(Fraction(1, 2))))

    def docall(self, x, regs, st):
        rt, callee, args, norm, unw = x.a
        if callee[0] == "reg":
            fp = regs.get(callee[1])
            if not isinstance(fp, Fn):
                raise Unsupported("indirect call")
            name = fp.name
        else:
            name = callee[1]
        if name.startswith("llvm."):
            b = name.split(".")[1]
            if b in ("lifetime", "dbg", "experimental", "invariant", "donothing", "stacksave", "stackrestore"):
                return [Outcome("ret", UNDEF, st)]
        vals = [self.value(st, regs, t, v) for t, v, _ in args]
        ret = lambda v=None, s=st: [Outcome("ret", v, s)]
        if name.startswith("llvm."):
            b = name.split(".")[1]
            if b == "assume":
                st = st.copy()
                if isinstance(vals[0], T):
                    st.assume(vals[0])
                return ret(None, st)
            if b in ("memcpy", "memmove"):
                self.memcpy(st, vals[0], vals[1], vals[2])
                return ret()
            if b == "memset":
                self.memset(st, vals[0], vals[1], vals[2])
                return ret()
            if b in ("smax", "smin", "umax", "umin"):
                l, r = self.num(vals[0]), self.num(vals[1])
                n = args[0][0][1]
                c = lt(l, r) if b[0] == "s" else lt(self.uns(l, n, st), self.uns(r, n, st))
                out = []
                for d, s in self.fork(st, c):
                    out.append(Outcome("ret", (r if d else l) if b.endswith("max") else (l if d else r), s))
                return out
            if b == "abs":
                return ret(absr(self.num(vals[0])))
            if b == "expect":
                return ret(vals[0])
            if b in ("ctlz", "cttz") and isc(self.num(vals[0])):
                n = args[0][0][1]
                w = cv(self.num(vals[0])) % (1 << n)
                return ret(I((n - w.bit_length()) if b == "ctlz" else (w & -w).bit_length() - 1 if w else n))
            if b == "objectsize":
                return ret(I(-1))
            if b == "trap":
                self.safety.append(("trap", st.pc, FALSE, (self.where or ["contract"])[-1]))
                return []
            if b == "eh":
                return ret(app("typeid_" + str(len(name)), sort="I"))
            if b in ("is",):
                raise Unsupported(name)
            if b in ("uadd", "umul", "sadd", "smul", "usub", "ssub"):
                n = args[0][0][1]
                o = {"add": add, "mul": mul, "sub": sub}[b[1:]]
                l, r = vals
                if b[0] == "u":
                    l, r = self.uns(l, n, st), self.uns(r, n, st)
                    v = o(l, r)
                    ov = lor(lt(v, I(0)), le(I(1 << n), v))
                else:
                    v = o(l, r)
                    ov = lor(lt(v, I(-(1 << (n - 1)))), le(I(1 << (n - 1)), v))
                if ".sat." in name:
                    if b == "usub":
                        return ret(self.wrap(ite(ov, I(0), v), n, st))
                    raise Unsupported(name)
                return ret([self.wrap(v, n, st), ov])
            if b in ("lround", "llround"):
                return ret(tm.trunc(self.half_away(self.num(vals[0]))))
            v = self.libm(b, vals, st)
            if v is not None:
                return ret(v)
            raise Unsupported(name)
        d = self.dem.get(name, name)
        for pat, h in self.models:
            if pat(d):
                r = h(self, st, vals, x, d)
                if r is not None:       # else: the body is executed
                    return r
                break
        if name in ("lround", "llround"):
            return ret(tm.trunc(self.half_away(self.num(vals[0]))))
        if name in ("__divdc3", "__muldc3") and len(vals) == 4 and all(isinstance(q, T) for q in vals):
            a, b, c, d_ = vals
            self.assumed.add("%s: complex %s over the reals" % (name, "quotient" if name[2] == "d" else "product"))
            if name == "__muldc3":
                return ret([sub(mul(a, c), mul(b, d_)), add(mul(a, d_), mul(b, c))])
            n = add(mul(c, c), mul(d_, d_))
            return ret([tm.div(add(mul(a, c), mul(b, d_)), n), tm.div(sub(mul(b, c), mul(a, d_)), n)])
        if name in ("carg", "cabs") and len(vals) == 2 and all(isinstance(q, T) for q in vals):
            re_, im_ = vals
            return ret(app("atan2", im_, re_) if name == "carg" else app("sqrt", add(mul(re_, re_), mul(im_, im_))))
        if name == "cexp" and len(vals) == 2 and all(isinstance(q, T) for q in vals):
            m = R(1) if isc(vals[0]) and cv(vals[0]) == 0 else app("exp", vals[0])
            return ret([mul(m, app("cos", vals[1])), mul(m, app("sin", vals[1]))])
        if name == "modf":
            x_ = self.num(vals[0])
            w = toreal(tm.trunc(x_))
            self.store(st, vals[1], w, ("double",))
            return ret(sub(x_, w))
        v = self.libm(name, vals, st) if rt[0] == "double" and all(isinstance(q, T) for q in vals) else None
        if v is not None:
            return ret(v)
        if name in ("_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"):
            return ret(Ptr(self.alloc(st, "heap", self.num(vals[0]), "heap"), I(0)))
        if name == "calloc":
            return ret(Ptr(self.alloc(st, "heap", mul(vals[0], vals[1]), "heap",
                                      lambda o, ty, sz: R(0) if ty[0] == "double" else NULL if ty[0] == "ptr" else I(0)), I(0)))
        if name in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvRKSt9nothrow_t", "free"):
            p = vals[0]
            if isinstance(p, Ptr):
                if p.r is None:
                    return ret()
                r = st.mem.get(p.r)
                if r is not None:
                    if not r.alive or r.kind != "heap" or p.off is not I(0):
                        self.safety.append(("free of " + r.name, st.pc, FALSE, (self.where or ["contract"])[-1]))
                    st.w(p.r).alive = False
            return ret()
        if name == "__cxa_allocate_exception":
            return ret(Ptr(self.alloc(st, "exception", None, "exception"), I(0)))
        if name == "__cxa_free_exception":
            return ret()
        if name == "__cxa_throw":
            ti = vals[1]
            return [Outcome("throw", ti.r if isinstance(ti, Ptr) else "?", st)]
        if name == "__cxa_rethrow":
            return [Outcome("throw", "rethrown", st)]
        if name == "__cxa_begin_catch":
            return ret(Ptr("exc", I(0)))
        if name == "__cxa_end_catch":
            return ret()
        if name in ("memcpy", "memmove"):
            self.memcpy(st, *vals[:3])
            return ret(vals[0])
        if name == "memset":
            self.memset(st, *vals[:3])
            return ret(vals[0])
        if name == "strlen":
            return ret(I(len(self.cstr(st, vals[0]))))
        if name in ("__clang_call_terminate", "_ZSt9terminatev", "abort"):
            self.safety.append(("terminate", st.pc, FALSE, (self.where or ["contract"])[-1]))
            return []
        if re.match(r"std::__throw_", d):
            return [Outcome("throw", d, st)]
        if re.match(r"std::\w*(error|exception|argument|range)\w*::", d) or re.match(r"std::(exception|logic_error)", d):
            return ret()
        if name in self.mod.funcs:
            return self.call(name, vals, st)
        raise Unsupported("external function " + d)

    def memcpy(self, st, d, s, n):
        n = self.num(n)
        if not isc(n):
            raise Unsupported("memcpy of symbolic length")
        if cv(n) == 0:
            return
        rs = self.region(st, s, "memcpy")
        rd = self.region(st, d, "memcpy")
        self.bounds(st, rs, s, cv(n), "memcpy read")
        self.bounds(st, rd, d, cv(n), "memcpy write")
        n = cv(n)
        if not isc(s.off) or not isc(d.off):
            raise Unsupported("memcpy at symbolic offset")
        so, do = cv(s.off), cv(d.off)
        if rs.log:
            raise Unsupported("memcpy from symbolic array")
        items = [(k, c) for k, c in rs.cells.items() if so <= k and k + c[0] <= so + n]
        covered = sum(c[0] for _, c in items)
        rd = st.w(d.r)
        self.clobber(rd, do, n)
        for k, c in items:
            rd.cells[k - so + do] = c
        gh = {(d.r, o - so + do): v for (r, o), v in st.ghost.items() if r == s.r and so <= o < so + n}
        st.ghost.update(gh)
        if covered < n:
            # what the source has not been written with comes from its base; bytes of unknown value hide what was there before
            k = so
            while k < so + n:
                c = next((c for q, c in items if q == k), None)
                if c is not None:
                    k += c[0]
                    continue
                if rs.base is not None and not any(q < k + 1 and k < q + c2[0] for q, c2 in rs.cells.items()):
                    for sz in (8, 4, 2, 1):
                        if k + sz <= so + n and not any(q < k + sz and k < q + c2[0] for q, c2 in rs.cells.items()):
                            v = rs.base(I(k), ("double",) if sz == 8 else ("i", 8 * sz), sz)
                            if v is not UNDEF:
                                rd.cells[k - so + do] = (sz, v)
                                k += sz - 1
                                break
                    else:
                        rd.cells[k - so + do] = (1, UNDEF)
                elif rd.base is not None or rd.log:
                    rd.cells[k - so + do] = (1, UNDEF)
                k += 1

    def clobber(self, rd, do, n):
        """forget the cells in [do, do + n); what remains of cells at its ends is undefined"""
        for k in [k for k, c in rd.cells.items() if k < do + n and do < k + c[0]]:
            sz = rd.cells.pop(k)[0]
            for q in list(range(k, do)) + list(range(do + n, k + sz)):
                rd.cells[q] = (1, UNDEF)

    def memset(self, st, d, c, n):
        n = self.num(n)
        if not (isc(n) and isinstance(c, T) and isc(c) and cv(c) == 0 and isc(d.off)):
            raise Unsupported("memset")
        rd = self.region(st, d, "memset")
        self.bounds(st, rd, d, cv(n), "memset")
        do, n = cv(d.off), cv(n)
        rd = st.w(d.r)
        self.clobber(rd, do, n)
        k = do
        while k < do + n:
            s = 8 if do + n - k >= 8 else 4 if do + n - k >= 4 else 1
            rd.cells[k] = (s, I(0))
            k += s

    def cstr(self, st, p):
        r = self.region(st, p, "string")
        if not isc(p.off):
            raise Unsupported("symbolic string")
        o, out = cv(p.off), []
        while True:
            c = self.read(st, r, I(o), 1, ("i", 8))
            if not (isinstance(c, T) and isc(c)):
                raise Unsupported("string contents")
            if cv(c) == 0:
                return "".join(out)
            out.append(chr(cv(c) & 255))
            o += 1

    # ------------------------------------------------------------ loops
    def loop_run(self, f, header, regs, st):
        """entry state at the header (phis evaluated) -> exits and outcomes"""
        if self.havoc and re.search(self.havoc, self.where[-1]):
            r = self.straight(f, header, regs, st)
            return r if r is not None else self.cut(f, header, regs, st)
        work = [(regs, st, 0)]
        out = []
        tried = False
        while work:
            regs, st, n = work.pop()
            rs = self.region_run(f, header, regs, st, header)
            backs = [r for r in rs if r[0] == "back"]
            others = [r for r in rs if r[0] != "back"]
            if backs and others and not tried:
                tried = True
                save = (len(self.safety), len(self.loopobl), len(self.term))
                try:
                    self.lossy = False
                    sm = self.summarise(f, header, regs, st)
                    if self.lossy:
                        # some value has no closed form: the loop itself, if it ends after a few iterations
                        keep = (self.safety[save[0]:], self.loopobl[save[1]:], self.term[save[2]:])
                        del self.safety[save[0]:], self.loopobl[save[1]:], self.term[save[2]:]
                        u = self.unrolled(f, header, regs, st, 24)
                        if u is not None:
                            out.extend(u)
                            continue
                        del self.safety[save[0]:], self.loopobl[save[1]:], self.term[save[2]:]
                        self.safety += keep[0]
                        self.loopobl += keep[1]
                        self.term += keep[2]
                    out.extend(sm)
                    continue
                except Unsupported as e:
                    self.loop_reason = str(e)
                    del self.safety[save[0]:], self.loopobl[save[1]:], self.term[save[2]:]
            out.extend(others)
            for b in backs:
                if n > (20000 if not others else self.max_unroll):
                    raise Unsupported("loop in %s is not bounded by a constant and has no inductive summary (%s)"
                                      % (self.where[-1], getattr(self, "loop_reason", "")))
                work.append((b[1], b[2], n + 1))
            if len(work) + len(out) > MAXPATH:
                raise Unsupported("too many paths in a loop")
        return out

    def unrolled(self, f, header, regs, st, limit):
        """every iteration in turn, or None when some path goes on after `limit` of them"""
        work, out = [(regs, st, 0)], []
        while work:
            regs, st, n = work.pop()
            for r in self.region_run(f, header, regs, st, header):
                if r[0] != "back":
                    out.append(r)
                elif n >= limit:
                    return None
                elif solve.check(list(r[2].pc), 2000)[0] != "unsat":
                    work.append((r[1], r[2], n + 1))
            if len(work) + len(out) > 4 * limit:
                return None
        self.loopobl.append((self.where[-1], "the loop ends after at most %d iterations" % limit, True))
        return out

    def straight(self, f, header, regs, st):
        """a loop that only moves values (no calls, no floating-point arithmetic) and whose every test is decided, or None"""
        L = self.loops[f.name]
        if any(i.op in ("call", "invoke", "fadd", "fsub", "fmul", "fdiv", "fcmp", "fneg") for b in L.body[header] for i in f.blocks[b]
               if not (i.op == "call" and "lifetime" in i.text)):
            return None
        if any(h != header and h in L.body[header] for h in L.body):
            return None
        save = (len(self.safety), len(self.loopobl), len(self.term))
        try:
            for n in range(300):
                rs = self.region_run(f, header, regs, st, header)
                if not any(r[0] == "back" for r in rs):
                    if n > 8:
                        for r in rs:
                            self.compress(r[4] if r[0] == "exit" else r[2])
                    return rs
                if len(rs) != 1:
                    break
                regs, st = rs[0][1], rs[0][2]
        except Unsupported:
            pass
        del self.safety[save[0]:], self.loopobl[save[1]:], self.term[save[2]:]
        return None

    def compress(self, st):
        """equal values stored at evenly spaced constant offsets become one range"""
        for rid, g in list(st.mem.items()):
            if len(g.cells) <= 16:
                continue
            ks = sorted(g.cells)
            sz, v = g.cells[ks[0]]
            step = ks[1] - ks[0]
            if step >= sz and all(b - a == step for a, b in zip(ks, ks[1:])) and all(c[0] == sz and c[1] is v for c in g.cells.values()):
                r = st.w(rid)
                r.log = r.log + (Rng(I(ks[0]), step, I(len(ks)), fresh("j", "I"), v, sz),)
                r.cells = {}

    # -------- loops cut by inductive invariants (Houdini over candidates; everything modified is havocked)
    def cut(self, f, header, regs, st):
        names = self.phinames(f, header)
        body = self.loops[f.name].body[header]
        consts = int_consts(f, body)
        tag = fresh("h", "I").args[0]
        mark = (len(self.safety), len(self.loopobl), len(self.term))
        cells, whole = {}, {}

        def value(nme, ty, k0):
            u = self.mod.resolve(ty)
            v0 = k0
            nm = "%s_%s" % (nme, tag)
            if u[0] == "double":
                return var(nm, "R")
            if u[0] == "i":
                return var(nm, "B" if u[1] == 1 else "I")
            if u[0] == "ptr" and isinstance(v0, Ptr):
                return Ptr(v0.r, var(nm + "_off", "I"))
            raise Unsupported("loop variable of type %r" % (u,))
        ints = [n for n, ty in names if self.mod.resolve(ty)[0] == "i" and self.mod.resolve(ty)[1] > 1]
        widths = {n: self.mod.resolve(ty)[1] for n, ty in names if self.mod.resolve(ty)[0] == "i"}

        def cands(rg, s):
            out = []
            for n in ints:
                x = rg[n]
                if not isinstance(x, T):
                    continue
                for c in consts:
                    out.append(("%s >= %d" % (n, c), le(I(c), x)))
                    out.append(("%s <= %d" % (n, c), le(x, I(c))))
                x0 = regs[n]
                if isinstance(x0, T):
                    out.append(("%s >= its initial value" % n, le(x0, x)))
                    out.append(("%s <= its initial value" % n, le(x, x0)))
            if self.invariants:
                ph = {n: rg[n] for n, _ in names}
                out.extend(self.invariants(self, ph, s, st))
            return out
        alive = {}
        for n, c in cands(regs, st):
            if c is TRUE or solve.valid(st.pc, c, 3000) is True:
                alive[n] = True
        for attempt in range(60):
            rg = dict(regs)
            s = st.copy()
            for n, ty in names:
                rg[n] = value(n, ty, regs[n])
                if n in widths and widths[n] > 1:
                    w = widths[n] - 1
                    s.assume(land(le(I(-2**w), rg[n]), le(rg[n], I(2**w - 1))))
            for (r, o), (sz, sort) in cells.items():
                reg = s.w(r)
                reg.cells[o] = (sz, var("m%s_%d_%s" % (r, o, tag), sort))
            for r in whole:
                reg = s.w(r)
                reg.cells, reg.log = {}, ()
                nm = "mem%s_%s" % (r, tag)
                reg.base = (lambda off, ty, size, nm=nm: app(nm + ("" if ty[0] == "double" else "i"), off,
                                                             sort="R" if ty[0] == "double" else "I"))
            cs = [c for n, c in cands(rg, s) if n in alive]
            for c in cs:
                s.assume(c)
            del self.safety[mark[0]:], self.loopobl[mark[1]:], self.term[mark[2]:]
            rs = self.region_run(f, header, rg, s, header)
            again = False
            for r0 in rs:
                s2 = r0[2] if r0[0] in ("back", "ret", "throw") else r0[4]
                if r0[0] != "back":
                    continue
                for g in st.ghost:
                    if s2.ghost.get(g) != st.ghost.get(g):
                        raise Unsupported("ghost state changes in a loop")
                for r in st.mem:
                    a, b = s.mem[r], s2.mem[r]
                    if a is b or r in whole:
                        continue
                    if a.alive != b.alive:
                        raise Unsupported("allocation state changes in a loop")
                    if a.log != b.log:
                        whole[r] = True
                        again = True
                        continue
                    for o in set(a.cells) | set(b.cells):
                        if a.cells.get(o) != b.cells.get(o) and (r, o) not in cells:
                            q = b.cells.get(o) or a.cells.get(o)
                            if isinstance(q[1], T):
                                cells[(r, o)] = (q[0], q[1].sort)
                            else:
                                whole[r] = True
                            again = True
            if again:
                continue
            for r0 in rs:
                if r0[0] != "back":
                    continue
                _, rg2, s2 = r0
                for n, c in cands(rg2, s2):
                    if n in alive and c is not TRUE and solve.valid(s2.pc, c, 3000) is not True:
                        del alive[n]
                        again = True
            if not again:
                break
        else:
            raise Unsupported("invariants did not stabilise")
        w = self.where[-1]
        for n in alive:
            if " its initial" in n or not re.search(r" [<>]= -?\d+$", n):
                self.loopobl.append((w, "invariant '%s' holds initially and is preserved" % n, True))
        # a ranking function: an integer variable that strictly moves towards a bound on every repeating path
        backs = [(r[1], r[2]) for r in rs if r[0] == "back"]
        ok = not backs
        for n in ints:
            if ok:
                break
            x = rg[n]
            for sg in (1, -1):
                if all(solve.valid(s2.pc, le(I(1), mul(I(sg), sub(rg2[n], x))), 2000) is True for rg2, s2 in backs):
                    bnds = [I(sg * c) for c in consts] + [mul(I(sg), v) for v in list(regs.values()) if isinstance(v, T) and v.sort == "I"]
                    for b in bnds[:60]:
                        if all(solve.valid(s2.pc, le(mul(I(sg), x), b), 1500) is True for rg2, s2 in backs):
                            ok = True
                            break
                if ok:
                    break
        self.term.append((w, True if ok else None))
        return [r for r in rs if r[0] != "back"]

    def phinames(self, f, header):
        return [(i.res, i.a[0]) for i in f.blocks[header] if i.op == "phi"]

    def summarise(self, f, header, regs, st):
        names = self.phinames(f, header)
        # --- sample iterations
        samples = [(regs, st)]
        for j in range(3):
            rg, s = samples[-1]
            backs = [r for r in self.region_run(f, header, rg, s, header) if r[0] == "back"]
            if not backs:
                break
            samples.append((backs[0][1], backs[0][2]))
        if len(samples) < 3:
            raise Unsupported("loop runs less than twice")
        K = fresh("k", "I")
        quant = []      # [kind, key, guess(k)->value]
        havoc_n = [0]

        def hv(key, sort):
            nm = "havoc_%s_%s" % (re.sub(r"\W", "_", str(key)), K.args[0])
            return lambda k: app(nm, k, sort=sort)

        entries = {}
        for nme, ty in names:
            vs = [s[0][nme] for s in samples]
            entries[("phi", nme)] = vs
        # memory
        rids = [r for r in st.mem if any(s[1].mem[r] is not st.mem[r] for s in samples[1:])]
        ranges = []
        for r in rids:
            regsR = [s[1].mem[r] for s in samples]
            if any(x.alive != regsR[0].alive for x in regsR):
                raise Unsupported("allocation state changes in a loop")
            if any(x.log != regsR[0].log for x in regsR):
                # symbolic appends: compare the new log entries
                new = [x.log[len(regsR[i].log) + len(regsR[i].cells) if False else len(regsR[i].log):]
                       for i, x in enumerate(regsR[1:])]
                ok = all(y.log[:len(x.log)] == x.log for x, y in zip(regsR, regsR[1:]))
                if not ok or len({len(n) for n in new[1:]}) != 1:
                    raise Unsupported("array writes of a loop")
                m = len(new[-1])
                last = [n[-m:] for n in new]
                for i in range(m):
                    ents = [n[i] for n in last]
                    ranges.append((r, [e[0] for e in ents], [e[2] for e in ents], ents[0][1], True))
                continue
            keys = [set(x.cells) for x in regsR]
            newk = [sorted(b - a) for a, b in zip(keys, keys[1:])]
            if newk[0] and all(len(n) == len(newk[0]) for n in newk):
                for i in range(len(newk[0])):
                    offs = [I(n[i]) for n in newk]
                    vals = [regsR[j + 1].cells[n[i]][1] for j, n in enumerate(newk)]
                    ranges.append((r, offs, vals, regsR[1].cells[newk[0][i]][0], False))
            elif any(newk[1:]):
                raise Unsupported("memory writes of a loop")
            else:
                for k in newk[0]:
                    entries[("cell", r, k)] = [UNDEF] + [x.cells[k][1] for x in regsR[1:]]
            for k in keys[0]:
                vs = [x.cells.get(k, (0, UNDEF))[1] for x in regsR]
                if any(v is not vs[0] for v in vs):
                    entries[("cell", r, k)] = vs
        for g in st.ghost:
            vs = [s[1].ghost.get(g) for s in samples]
            if any(v != vs[0] for v in vs):
                if all(isinstance(v, tuple) and v[0] == "vec" for v in vs) and len({v[1] for v in vs}) == 1:
                    entries[("vec", g)] = [v[2] for v in vs]
                else:
                    raise Unsupported("ghost state changes in a loop")
        guess = {}
        for key, vs in entries.items():
            guess[key] = self.extrapolate(vs, key, hv, [q[1].pc for q in samples])
        rguess = []
        for r, offs, vals, size, symbolic in ranges:
            go = self.extrapolate(offs, ("roff", r), None)
            gv = self.extrapolate(vals, ("rval", r), None)
            if go is None or gv is None:
                raise Unsupported("array writes of a loop have no closed form")
            J = fresh("j", "I")
            stride = sub(go(I(1)), go(I(0)))
            if not isc(stride) or cv(stride) == 0:
                raise Unsupported("array stride")
            rguess.append((r, go(I(0)), cv(stride), J, gv(J) , size))

        for attempt in range(12):
            def at(k, base):
                rg = dict(regs)
                s = base.copy()
                for key, g in guess.items():
                    v = g(k)
                    if key[0] == "phi":
                        rg[key[1]] = v
                    elif key[0] == "cell":
                        reg = s.w(key[1])
                        sz = next(x.cells[key[2]][0] for x in [q[1].mem[key[1]] for q in samples] if key[2] in x.cells)
                        reg.cells[key[2]] = (sz, v)
                    else:
                        s.ghost[key[1]] = ("vec", s.ghost[key[1]][1], v)
                for r, o0, stride, J, val, size in rguess:
                    reg = s.w(r)
                    reg.log = reg.log + tuple((I(kk), ss, vv) for kk, (ss, vv) in reg.cells.items()) + \
                        (Rng(o0, stride, k, J, val, size),)
                    reg.cells = {}
                return rg, s
            rg, s = at(K, st)
            s.assume(le(I(0), K))
            base_pc = s.pc
            self.paths += 1
            mark = (len(self.safety), len(self.loopobl), len(self.term))
            rs = self.region_run(f, header, rg, s, header)
            backs = [r for r in rs if r[0] == "back"]
            bad = []
            for _, rg2, s2 in backs:
                for key, g in guess.items():
                    want = g(add(K, I(1)))
                    if key[0] == "phi":
                        got = rg2[key[1]]
                    elif key[0] == "cell":
                        reg = s2.mem[key[1]]
                        got = reg.cells[key[2]][1] if key[2] in reg.cells else UNDEF
                    else:
                        got = s2.ghost[key[1]][2]
                    if want is UNDEF or getattr(g, "havoc", False):
                        continue
                    okk = prove_eq(got, want, s2.pc) if got is not UNDEF else None
                    if okk is not True:
                        bad.append(key)
                for r, o0, stride, J, val, size in rguess:
                    reg = s2.mem[r]
                    e = None
                    if reg.log and not isinstance(reg.log[-1], Rng):
                        e = reg.log[-1]
                    if e is None or reg.cells:
                        raise Unsupported("array writes of a loop")
                    # the appended entries must be the next elements of their ranges
                    cands = [x for x in reg.log if not isinstance(x, Rng)][-len([q for q in rguess if q[0] == r]):]
                    if not any(prove_eq(x[0], add(o0, mul(I(stride), K)), s2.pc) is True
                               and prove_eq(x[2], subst(val, {J: K}) if isinstance(val, T) else val, s2.pc) is True
                               for x in cands):
                        raise Unsupported("array writes of a loop: closed form not inductive")
            # memory changed outside the guessed quantities?
            for _, rg2, s2 in backs:
                for r in s2.mem:
                    if r in s.mem and s2.mem[r] is not s.mem[r]:
                        kn = {k[2] for k in guess if k[0] == "cell" and k[1] == r}
                        if any(q[0] == r for q in rguess):
                            continue
                        a, b = s.mem[r], s2.mem[r]
                        for kk in set(a.cells) | set(b.cells):
                            if kk not in kn and a.cells.get(kk) != b.cells.get(kk):
                                if kk in a.cells and kk in b.cells and prove_eq(a.cells[kk][1], b.cells[kk][1], s2.pc):
                                    continue
                                guess[("cell", r, kk)] = self.havoc_undef()
                                bad.append(("new",))
                        if a.log != b.log:
                            raise Unsupported("array writes of a loop")
            bad = [b for b in dict.fromkeys(bad)]
            if not bad:
                break
            for key in bad:
                if key == ("new",):
                    continue
                v0 = entries[key][0]
                if isinstance(v0, T) and not getattr(guess[key], "havoc", False):
                    h = hv(key, v0.sort)
                    init = v0
                    fn = (lambda k, h=h, init=init: init if (isc(k) and cv(k) == 0) else h(k))
                    fn.havoc = True
                    guess[key] = fn
                else:
                    guess[key] = self.havoc_undef()
        else:
            raise Unsupported("loop summary did not stabilise")
        w = self.where[-1]
        self.lossy = any(getattr(g, "havoc", False) and isinstance(entries.get(key, [None])[0], T) for key, g in guess.items())
        for key, g in guess.items():
            if not getattr(g, "havoc", False):
                self.loopobl.append((w, "invariant for %s is inductive" % (key[1] if key[0] == "phi" else key[0],), True))
        for q in rguess:
            self.loopobl.append((w, "array elements written by the loop", True))
        # facts about the previous iteration
        facts = []
        for _, rg2, s2 in backs:
            facts.append(land(*[c for c in s2.pc if c not in base_pc]))
        prev = TRUE
        if facts:
            prev = implies(le(I(1), K), subst(lor(*facts), {K: add(K, I(-1))}))
        inv = self.bound_invariants(facts, K, base_pc)
        for i in inv:
            self.loopobl.append((w, "invariant %s is inductive" % tm.show(i), True))
        if any(solve.valid(pc, goal, 1500) is not True for _, pc, goal, _ in self.safety[mark[0]:]):
            # the body once more, with the proved invariants at hand
            keep = self.loopobl[mark[1]:]
            del self.safety[mark[0]:], self.loopobl[mark[1]:], self.term[mark[2]:]
            rg, s = at(K, st)
            for c in [le(I(0), K), prev] + inv:
                s.assume(c)
            rs = self.region_run(f, header, rg, s, header)
            self.loopobl.extend(k for k in keep if k not in self.loopobl)
        self.term.append((w, self.terminates(facts, K, base_pc, inv)))
        outs = []
        for r in rs:
            if r[0] == "back":
                continue
            s2 = r[4] if r[0] == "exit" else r[2]
            for c in [prev] + inv:
                s2.assume(c)
            if solve.check(list(s2.pc), 2000)[0] == "unsat":
                continue
            outs.append(r)
        return outs

    def havoc_undef(self):
        fn = lambda k: UNDEF
        fn.havoc = True
        return fn

    def bound_invariants(self, facts, K, pc):
        """a counter that stops on equality with its bound does not pass the bound"""
        out = []
        seen = set()
        for fct in facts:
            for l in (fct.args if fct.op == "and" else (fct,)):
                if l.op != "not" or l.args[0].op != "eq" or l in seen:
                    continue
                seen.add(l)
                a, b = l.args[0].args
                if a.sort != "I":
                    continue
                for slack in (sub(b, a), sub(a, b)):
                    if K not in variables(slack):
                        continue
                    inv = le(I(0), slack)
                    if solve.valid(pc, subst(inv, {K: I(0)}), 1500) is not True:
                        continue
                    if all(solve.valid(tuple(pc) + (inv, f), subst(inv, {K: add(K, I(1))}), 2500) is True for f in facts):
                        out.append(inv)
                        break
        return out

    def terminates(self, facts, K, pc, inv=()):
        """every repeating path has a literal whose slack decreases by a positive constant"""
        if not facts:
            return True
        for fct in facts:
            lits = fct.args if fct.op == "and" else (fct,)
            ok = False
            for l in lits:
                neg_ = l.op == "not"
                q = l.args[0] if neg_ else l
                if q.op not in ("lt", "eq"):
                    continue
                if q.op == "lt":
                    a, b = q.args if not neg_ else q.args[::-1]   # a < b  or  a <= b
                    slack = sub(lift(b, "R"), lift(a, "R"))
                else:
                    if not neg_:
                        continue
                    slack = sub(lift(q.args[1], "R"), lift(q.args[0], "R"))
                d = sub(subst(slack, {K: add(K, I(1))}), slack)
                r = solve.valid(pc, le(d, R(Fraction(-1, 1000))))
                if q.op == "eq":
                    if r is not True:
                        slack = neg(slack)
                        r = solve.valid(pc, le(neg(d), R(Fraction(-1, 1000))))
                    if r is True:
                        # the slack decreases, and an invariant keeps it from passing zero
                        r = solve.valid(tuple(pc) + tuple(inv), le(R(0), slack))
                if r is True:
                    ok = True
                    break
            if not ok:
                return None
        return True

    def extrapolate(self, vs, key, hv, pcs=None):
        """closed form in the iteration number from sampled values (a guess, proved afterwards)"""
        if all(v is vs[0] for v in vs):
            return lambda k: vs[0]
        if any(v is UNDEF or not isinstance(v, (T, Ptr)) for v in vs):
            return self.havoc_undef() if hv else None
        if all(isinstance(v, Ptr) for v in vs):
            if len({v.r for v in vs}) != 1:
                return self.havoc_undef() if hv else None
            g = self.extrapolate([v.off for v in vs], key, hv)
            return (lambda k: Ptr(vs[0].r, g(k))) if g else None
        if not all(isinstance(v, T) for v in vs) or len({v.sort for v in vs}) != 1:
            return self.havoc_undef() if hv else None
        sort = vs[0].sort
        for h in self.hints:
            for s in (0, 1, 2):
                if all(same_value(unfold(h(I(j + s))), unfold(v), pcs[j] if pcs else ()) for j, v in enumerate(vs)):
                    return lambda k, h=h, s=s: h(add(k, I(s)))
        if sort in ("I", "R"):
            d = sub(vs[1], vs[0])
            if all(nf_equal(sub(b, a), d) for a, b in zip(vs[1:], vs[2:])):
                d0 = simplify_const(d)
                if sort == "I":
                    return lambda k: add(vs[0], mul(d0, k))
                return lambda k: add(vs[0], mul(d0, toreal(k)))
        J = fresh("x", "I")
        a = antiunify(vs, J)
        if a is not None:
            return lambda k: subst(a, {J: k})
        if hv:
            h = hv(key, sort)
            fn = lambda k: vs[0] if (isc(k) and cv(k) == 0) else h(k)
            fn.havoc = True
            return fn
        return None


def under(t, pc):
    """t with the conditions that a path has decided replaced"""
    rw = {}
    for c in pc:
        if isinstance(c, T) and c.op == "not":
            rw[c.args[0]] = FALSE
        elif isinstance(c, T) and c.op == "and":
            for x in c.args:
                rw.update({x.args[0]: FALSE} if x.op == "not" else {x: TRUE})
        elif isinstance(c, T) and c.op != "const":
            rw[c] = TRUE
    return subst(t, rw) if rw else t


def same_value(a, b, pc=()):
    if pc and a.sort == b.sort and not a is b and _ite_cond([a, b]) is not None:
        a, b = under(a, pc), under(b, pc)
    if a.sort == "B" or b.sort == "B":
        return a is b or (a.sort == b.sort and solve.valid((), eq(a, b)) is True)
    return nf_equal(a, b)


def int_consts(f, body):
    """integer constants a loop compares with, and their neighbours"""
    out = {0, 1}

    def val(v):
        if isinstance(v, tuple):
            if v and v[0] == "int" and isinstance(v[1], int) and abs(v[1]) <= 10**6:
                out.update((v[1] - 1, v[1], v[1] + 1))
            else:
                for x in v:
                    val(x)
        elif isinstance(v, list):
            for x in v:
                val(x)
    for b in body:
        for i in f.blocks[b]:
            if i.op == "icmp" and i.a:
                val(i.a)
    return sorted(out)


def simplify_const(t):
    from .nf import NF
    try:
        n, d = NF().rf(t)
        if d == {(): 1}:
            if not n:
                return const(0, t.sort)
            if list(n) == [()]:
                return const(n[()], t.sort)
    except Exception:
        pass
    return t


def antiunify(vs, J):
    if all(v is vs[0] for v in vs):
        return vs[0]
    o = vs[0].op
    if any(v.op != o or v.sort != vs[0].sort or len(v.args) != len(vs[0].args) for v in vs):
        return None
    if o == "const":
        c = [cv(v) for v in vs]
        if vs[0].sort == "B":
            return None
        d = c[1] - c[0]
        if any(b - a != d for a, b in zip(c, c[1:])):
            return None
        if vs[0].sort == "I":
            return add(I(c[0]), mul(I(d), J))
        return add(R(c[0]), mul(R(d), toreal(J)))
    if o == "var":
        return None
    args = []
    for xs in zip(*[v.args for v in vs]):
        if not isinstance(xs[0], T):
            if any(x != xs[0] for x in xs):
                return None
            args.append(xs[0])
            continue
        a = antiunify(xs, J)
        if a is None:
            return None
        args.append(a)
    return tm.rebuild(vs[0], args)


def floordiv_exact(d, s):
    """d/s if d is syntactically a multiple of s"""
    if isc(d):
        return I(cv(d) // s) if cv(d) % s == 0 else None
    if d.op == "add":
        a, b = floordiv_exact(d.args[0], s), floordiv_exact(d.args[1], s)
        return add(a, b) if a is not None and b is not None else None
    if d.op == "neg":
        a = floordiv_exact(d.args[0], s)
        return neg(a) if a is not None else None
    if d.op == "mul" and isc(d.args[0]) and cv(d.args[0]) % s == 0:
        return mul(I(cv(d.args[0]) // s), d.args[1])
    if d.op == "mul" and isc(d.args[0]) and s % cv(d.args[0]) == 0:
        a = floordiv_exact(d.args[1], s // cv(d.args[0]))
        return a
    if d.op == "ite":
        a, b = floordiv_exact(d.args[1], s), floordiv_exact(d.args[2], s)
        return ite(d.args[0], a, b) if a is not None and b is not None else None
    return None


def bound(t):
    return None
