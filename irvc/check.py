"""Obligations for one harness entry, and the verdict policy of a check."""
import ctypes, json, math, os, random, signal, sys, time, traceback
from .terms import *
from . import terms as tm, frontend as F, ir, sx, models, solve, native
from .ir import Unsupported
from .nf import nf_equal, NF

CT = {"u32": ctypes.c_uint, "i32": ctypes.c_int, "f64": ctypes.c_double, "i16": ctypes.c_short, "i64": ctypes.c_longlong}
RANGE = {"u32": (-2**31, 2**31 - 1), "i32": (-2**31, 2**31 - 1), "i16": (-2**15, 2**15 - 1), "i64": (-2**63, 2**63 - 1)}


class Obl:
    def __init__(self, entry, name, result, detail="", model=None, backend=""):
        self.entry, self.name, self.result, self.detail, self.model, self.backend = entry, name, result, detail, model, backend


class Unit:
    """a harness file, lowered to IR once and compiled natively once per run"""
    cache = {}

    def __init__(self, src, mode, keep=None):
        self.src, self.mode, self.keep = os.path.join(F.VERIF, "harness", src), mode, keep
        self._mod = self._so = None

    @classmethod
    def get(cls, src, mode, keep=models.KEEP):
        k = (src, mode, keep)
        if k not in cls.cache:
            cls.cache[k] = cls(src, mode, keep)
        return cls.cache[k]

    def ir(self):
        if self._mod is None:
            txt = F.compile_ir(self.src, self.mode, self.keep, defines=["IRVC"])
            self._mod = ir.Module(txt)
            self._dem = F.demangle(list(self._mod.funcs) + list(self._mod.decls))
        return self._mod, self._dem

    def so(self):
        if self._so is None:
            self._so = ctypes.CDLL(F.compile_so(self.src, self.mode))
        return self._so


def contradicts(pc, g):
    """g states the opposite of an equation of reals on the path, up to normal form"""
    conj = lambda t: [x for a in t.args for x in conj(a)] if t.op == "and" else [t]
    split = lambda t: [(a.args[0] if a.op == "not" else a, a.op != "not") for a in conj(t)]
    real = lambda t: t.op == "eq" and all(isinstance(a, T) and a.sort == "R" for a in t.args)
    for p, s in [x for c in pc for x in split(c) if real(x[0])]:
        for q, r in [x for x in split(g) if real(x[0])]:
            if s != r and (p is q or any(nf_equal(p.args[0], a) and nf_equal(p.args[1], b) for a, b in (q.args, q.args[::-1]))):
                return True
    return False


def ir_constants(mod, fn, seen=None, depth=0):
    """numeric constants in a function and its callees (seeds for the search for failing inputs)"""
    if seen is None:
        seen = {}
    f = mod.func(fn)
    if f is None or fn in seen or depth > 3:
        return seen
    seen[fn] = set()

    def val(v):
        if isinstance(v, tuple):
            if v and v[0] == "fp" and v[1] is not None:
                seen[fn].add(float(v[1]))
            elif v and v[0] == "int" and isinstance(v[1], int) and abs(v[1]) < 10**6:
                seen[fn].add(float(v[1]))
            else:
                for x in v:
                    val(x)
        elif isinstance(v, list):
            for x in v:
                val(x)
    for b in f.blocks.values():
        for i in b:
            if i.op in ("unsupported", "getelementptr", "alloca", "phi") or (i.op == "call" and "lifetime" in i.text):
                continue
            if i.a:
                val(i.a)
            if i.op in ("call", "invoke") and i.a and i.a[1][0] == "glob":
                ir_constants(mod, i.a[1][1], seen, depth + 1)
    return seen


class Entry:
    """Contract of one API function.

    cases(v) -> [(name, guard, ('ret', [terms]) | ('throw',) | ('known', finding id, [terms]))]
    several cases may share a guard: then the outcome has to match one of them."""

    def __init__(self, name, fn, params, nout=1, pre=None, cases=None, hints=None, oracle=None, tol=None,
                 samples=None, unit=None, functions=(), setup=None, post=None, replay_ok=None, structs=None, max_paths=None,
                 termination=True, models=None, conv=None, nconv=None, havoc=None, invariants=None,
                 limit=240, optional=False):
        self.name, self.fn, self.params, self.nout = name, fn, params, nout
        self.pre, self.cases, self.hints, self.oracle, self.tol = pre, cases, hints, oracle, tol
        self.samples, self.unit, self.functions = samples, unit, functions
        self.setup, self.post = setup, post
        self.termination = termination
        self.models = models
        self.runner = None      # other means of running the real code on a list of arguments
        self.leakcheck = False
        self.complete = None    # model of the contract's variables -> native arguments (None: no such input)
        self.oracle2 = None     # oracle that may look at the whole native output
        self.lemmas = None      # (entry, variables) -> obligations about the contract itself
        self.havoc, self.invariants, self.limit = havoc, invariants, limit
        self.advisory = False   # obligations that support a property decided otherwise
        self.bound = None       # what bounds the inputs of this entry: its obligations are never counted as proved
        self.optional = optional        # an internal function: without it, the property is checked at the interface only
        # contract variables -> arguments of the harness entry (symbolically / natively)
        self.conv, self.nconv = conv, nconv

    # ---- symbolic side
    def vars(self):
        return {n: var(n, "R" if t == "f64" else "I") for n, t in self.params}

    def prove(self):
        obl = []
        mod, dem = self.unit.ir()
        v = self.vars()
        mods = list(self.models or []) + models.MODELS
        ex = sx.Exec(mod, dem, mods, self.hints(v) if self.hints else ())
        self.ex = ex
        if self.havoc:
            ex.havoc = self.havoc
            if self.invariants:
                ex.invariants = lambda e, ph, s, s0: self.invariants(self, e, ph, s, s0, v)
        st = sx.State()
        args = self.conv(v) if self.conv else [v[n] for n, _ in self.params]
        out = None
        if self.setup:
            args, out = self.setup(self, ex, st, v)
        elif self.nout:
            out = ex.param_array(st, "out", I(8 * self.nout), base=lambda o, t, s: sx.UNDEF)
            args = args + [out]
        for n, t in self.params:
            if t != "f64":
                lo, hi = RANGE[t]
                st.assume(land(le(I(lo), v[n]), le(v[n], I(hi))))
        pre = self.pre(v) if self.pre else []
        for p in pre:
            st.assume(p)
        if solve.check(list(st.pc), 3000)[0] == "unsat":
            return [Obl(self.name, "precondition is satisfiable", "unknown", "contradictory precondition")]
        outs = ex.call(self.fn, args, st)
        if not outs:
            return [Obl(self.name, "some path returns", "unknown", "no path")]
        cases = self.cases(v)
        groups = {}
        for c in cases:
            groups.setdefault(c[1], []).append(c)
        # the guards cover the precondition
        cov = solve.valid(st.pc, lor(*groups.keys()), 4000) if len(groups) > 1 or TRUE not in groups else True
        obl.append(Obl(self.name, "cases cover the precondition", "proved" if cov else "unknown", backend="z3"))
        hit = {g: 0 for g in groups}
        for k, o in enumerate(outs):
            for g, cs in groups.items():
                pc = o.st.pc
                if g is not TRUE:
                    if isc(g) or contradicts(pc, g) or solve.check(list(pc) + [g], 2500)[0] == "unsat":
                        continue
                    pc = pc + (g,)
                hit[g] += 1
                nm = "path %d, case %s" % (k, cs[0][0])
                best = None
                for c in cs:
                    r = self.match(ex, o, out, c, pc, v)
                    if r[0] == "proved":
                        best = (r, c)
                        break
                    if best is None or (best[0][0] == "unknown" and r[0] == "refuted"):
                        best = (r, c)
                r, c = best
                ob = Obl(self.name, nm, r[0], r[1], None, r[2])
                if r[0] == "proved" and c[2][0] == "known":
                    ob.known = c[2][1]
                if r[0] != "proved":
                    ob.model = self.model(pc, r[3] if len(r) > 3 else None, v)
                obl.append(ob)
                if self.give_up(obl):
                    return obl
        for g, n in hit.items():
            if n == 0 and solve.check(list(st.pc) + [g], 2500)[0] == "sat":
                obl.append(Obl(self.name, "case %s is reachable" % groups[g][0][0], "unknown", "no path"))
        if self.leakcheck:
            for k, o in enumerate(outs):
                live = [r.name for r in o.st.mem.values() if r.kind in ("heap", "vecdata") and r.alive]
                obl.append(Obl(self.name, "path %d releases what it allocates" % k, "unknown" if live else "proved", ", ".join(live), backend="path"))
        for nm, pc, goal, where in ex.safety:
            if goal is TRUE:
                continue
            r = solve.valid(pc, goal)
            if r is True:
                obl.append(Obl(self.name, nm, "proved", backend="z3"))
            elif solve.check(list(pc), 2500)[0] == "unsat":
                continue
            else:
                obl.append(Obl(self.name, nm, "refuted" if r is False else "unknown", "%s in %s" % (goal, where),
                               self.model(pc, lnot(goal), v), "z3"))
                if self.give_up(obl):
                    return obl
        for w, what, r in ex.loopobl:
            obl.append(Obl(self.name, what + " [" + w + "]", "proved", backend="induction: normal form/z3"))
        for w, r in ex.term:
            if r or self.termination:
                obl.append(Obl(self.name, "loop terminates [%s]" % w, "proved" if r else "unknown", backend="ranking function: z3"))
        if self.lemmas:
            obl.extend(self.lemmas(self, v))
        self.paths = len(outs)
        return obl

    def give_up(self, obl):
        if self.advisory or sum(o.result != "proved" for o in obl) < STOP:
            return False
        obl.append(Obl(self.name, "remaining obligations", "unknown", "not attempted after %d failed ones" % STOP))
        return True

    def model(self, pc, extra, v):
        fs = list(pc) + ([extra] if extra is not None else [])
        ms = []
        for f in (fs, list(pc)):
            r, m = solve.check(f, 4000, model=True)
            if m is not None:
                ms.append({n: m.get(x, 0) for n, x in v.items()})
        return ms

    def match(self, ex, o, out, case, pc, v):
        """-> (result, detail, backend, negated goal)"""
        want = case[2]
        if want[0] == "throw":
            if o.kind == "throw":
                return ("proved", "", "path")
            r = solve.check(list(pc), 2500)[0]
            return ("refuted" if r == "sat" else "unknown", "returns instead of throwing", "z3", TRUE)
        if want[0] == "any":
            return ("proved", "", "path")
        terms = want[-1]
        if o.kind != "ret":
            r = solve.check(list(pc), 2500)[0]
            return ("refuted" if r == "sat" else "unknown", "throws instead of returning", "z3", TRUE)
        if self.post:
            return self.post(self, ex, o, out, terms, pc, v)
        got = []
        for i in range(len(terms)):
            got.append(ex.load(o.st, sx.Ptr(out.r, I(8 * i)), ("double",)))
        return self.match_values(got, terms, pc)

    def match_values(self, got, terms, pc):
        backend = "normal form"
        q0 = solve.STATS["queries"]
        for i, (g, w) in enumerate(zip(got, terms)):
            if w is None:
                continue
            if not isinstance(g, T):
                return ("refuted", "output %d is not written" % i, "path", TRUE)
            r = sx.prove_eq(g, w, pc)
            if r is not True:
                return ("refuted" if r is False else "unknown",
                        "output %d: computed %s, contract %s" % (i, tm.show(g)[:400], tm.show(w)[:400]), "z3", lnot(eq(g, w)))
            d = self.defined(g, w, pc)
            if d is not None:
                return ("unknown", "output %d: %s" % (i, d), "z3", None)
        if solve.STATS["queries"] > q0:
            backend = "normal form + z3"
        return ("proved", "", backend)

    def defined(self, g, w, pc):
        """denominators and square-root/log arguments of the code that the contract does not share"""
        rw = sx.exits(pc)
        g, w = (sx.unfold(subst(x, rw) if rw else x) for x in (g, w))
        wd = [x for x in subterms(w) if x.op == "div" or (x.op == "app" and x.args[0] in ("sqrt", "log"))]
        for x in subterms(g):
            if x.op == "div":
                dd = x.args[1]
                if any(y is x for y in wd):
                    continue
                shared = False
                for y in wd:
                    if y.op == "div":
                        q = NF()
                        try:
                            a, b = q.rf(dd), q.rf(y.args[1])
                            # same zero set: quotient is a non-zero constant
                            n, d = q.mul(a, (b[1], b[0]))
                            if list(n) == [()] and list(d) == [()]:
                                shared = True
                                break
                        except Exception:
                            pass
                if shared:
                    continue
                r = solve.valid(pc, lnot(eq(dd, R(0))))
                if r is not True:
                    if any(v.args[0].startswith("k!") for v in variables(dd)):
                        pass
                    return "denominator %s may vanish" % tm.show(dd)[:200]
            elif x.op == "app" and x.args[0] in ("sqrt",):
                if any(y.op == "app" and y.args[0] == x.args[0] and nf_equal(y.args[1], x.args[1]) for y in wd):
                    continue
                if not sum_of_squares(x.args[1]) and solve.valid(pc, le(R(0), x.args[1])) is not True:
                    return "argument of %s may be negative: %s" % (x.args[0], tm.show(x.args[1])[:200])
        return None

    # ---- native side
    def native(self, args):
        so = self.unit.so()
        fn = getattr(so, "n_" + self.fn[2:])
        buf = (ctypes.c_double * max(1, self.nout))(*([float("nan")] * max(1, self.nout)))
        cargs = self.nconv(args) if self.nconv else [CT[t](a if t == "f64" else int(a)) for (n, t), a in zip(self.params, args)]
        fn.restype = ctypes.c_int
        r = fn(*cargs, buf)
        if r == 1:
            return ("throw",)
        return ("ret", list(buf)[:self.nout])

    def disagree(self, args, got=None):
        """None, a known finding id, or a description of the disagreement with the contract"""
        if got is None:
            got = self.native(args)
        if got[0] == "crash":
            return got[1]
        if got[0] == "error":
            return None
        try:
            want = self.oracle(*args) if self.oracle2 is None else self.oracle2(args, got)
        except (ZeroDivisionError, OverflowError):      # the contract's formula has no value there
            want = None
        if want is None:
            return None
        wants = want if isinstance(want, list) else [want]
        errs = []
        for w in wants:
            if w[0] == "any":
                return None
            if w[0] == "throw":
                if got[0] == "throw":
                    return None
                errs.append("returned %r instead of throwing" % (got[1],))
                continue
            if got[0] != "ret":
                errs.append("threw instead of returning %r" % (w[-1],))
                continue
            bad = None
            for i, (a, b) in enumerate(zip(got[1], w[-1])):
                if b is None:
                    continue
                b = float(b)
                tol = self.tol(args, i, b) if self.tol else 1e-9 * abs(b) + 1e-300
                if not (abs(a - b) <= tol or (a == b)):
                    bad = "output %d is %r, the contract requires %r (tolerance %.3g)" % (i, a, b, tol)
                    break
            if bad is None:
                if w[0] == "known":
                    return ("known", w[1])
                return None
            errs.append(bad)
        return errs[0]

    def admissible(self, args):
        """inputs within the precondition (counterexamples and their neighbours may leave it)"""
        if self.pre is None:
            return True
        try:
            m = {var(n, "R" if t == "f64" else "I"): (R(tm.from_float(float(x))) if t == "f64" else I(int(x)))
                 for (n, t), x in zip(self.params, args)}
            for p in self.pre(self.vars()):
                q = subst(p, m)
                if isc(q) and not cv(q):
                    return False
        except Exception:
            pass
        return True

    def sample_args(self, rng, tier, consts):
        return self.samples(rng, tier, consts) if self.samples else []


def sum_of_squares(t):
    if t.op == "add":
        return all(sum_of_squares(x) for x in t.args)
    return t.op == "mul" and t.args[0] is t.args[1] or isc(t) and cv(t) >= 0


STOP = 5        # failed obligations of an entry after which the rest is not attempted
BUDGET = 560    # seconds per check for proofs (None: no limit, thorough tier)


class time_limit:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def on(sig, frame):
            raise Unsupported("no result within %d s" % self.seconds)
        self.old = signal.signal(signal.SIGALRM, on)
        signal.alarm(max(1, int(self.seconds)))

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class BoundedEntry(Entry):
    """native evaluations of the real code against an oracle only: bounded, never counted as proved"""
    def prove(self):
        self.ex = sx.Exec(None, {})
        return []


def fl(x):
    try:
        return float(x)
    except OverflowError:
        return math.inf


class Check:
    def __init__(self, pid, entries, assumptions=(), notes="", level="proof"):
        self.pid, self.entries, self.assumptions, self.notes, self.level = pid, entries, list(assumptions), notes, level

    def run(self, tier, seed):
        t0 = time.time()
        known = load_known(self.pid)
        obls, violations, bounded, used_known = [], [], {}, set()
        evals, distinct = 0, set()
        smp = []
        assumed = set()
        functions = []
        build_error = None
        per_entry, unproved = [], []
        for ne, e in enumerate(self.entries):
            rng = random.Random("%s/%s/%d" % (self.pid, e.name, seed))
            ts = time.time()
            left = None if tier != "quick" else max(10, BUDGET - (ts - t0))
            eo, why = attempt(e, left)
            if e.ex is not None:
                assumed |= e.ex.assumed
            for o in eo:
                if getattr(o, "known", None):
                    used_known.add(o.known)
            failed = [o for o in eo if o.result != "proved"]
            obls.extend(eo)
            # ---- replay: counterexamples of failed obligations first, then the sample set
            cands = []
            for o in failed:
                for m in (o.model or []):
                    a = [fl(m[n]) if t == "f64" else int(m[n]) for n, t in e.params]
                    if self_complete(e, a, rng) is None:
                        continue
                    a = self_complete(e, a, rng)
                    cands.append((a, "counterexample of obligation '%s'" % o.name))
                    cands.extend((b, "near the counterexample of '%s'" % o.name) for b in nearby(e, a, rng))
            bad = None
            try:
                mod, _ = e.unit.ir()
                consts = sorted(set().union(*ir_constants(mod, e.fn).values() or [set()]))
            except Exception:
                consts = []
            n0 = evals
            try:
                gen = [(a, "sample") for a in e.sample_args(rng, tier, consts)]
                if failed and tier == "quick" and time.time() - t0 < BUDGET:
                    gen += [(a, "sample") for a in e.sample_args(rng, "thorough", consts)]
                cap = time.time() + min(100, max(8, (750 - (time.time() - t0)) / (len(self.entries) - ne)))
                todo = [(a, src) for a, src in list(cands) + gen
                        if not any(t == "f64" and isinstance(x, (int, float)) and not math.isfinite(x) for (n, t), x in zip(e.params, a))
                        and e.admissible(a)]
                srcs = iter([x[1] for x in todo])
                for a, got in (e.runner or native.run)(e, [x[0] for x in todo]):
                    src = next(srcs)
                    if tier == "quick" and time.time() > cap:
                        break
                    evals += 1
                    distinct.add((e.name, tuple(a) if all(isinstance(x, (int, float, str)) for x in a) else repr(a)))
                    r = e.disagree(a, got)
                    if r is None:
                        continue
                    if isinstance(r, tuple):
                        if r[1] in known:
                            used_known.add(r[1])
                            continue
                        r = "behaves as the unlisted finding %s" % r[1]
                    bad = (a, src, r)
                    break
                if len(smp) < 12 and evals > n0:
                    smp.append({"entry": e.name, "args": [repr(x) for x in a]})
            except F.BuildError as x:
                if not e.optional:
                    build_error = str(x)
            except AttributeError as x:
                if not e.optional:
                    build_error = str(x)
            if bad:
                violations.append({"entry": e.name, "input": dict(zip([n for n, _ in e.params], bad[0])), "source": bad[1],
                                   "disagreement": bad[2], "failed_obligations": [(o.name, o.result, o.detail) for o in failed]})
            if failed and not bad and not (e.advisory or why == "extraction" and e.optional):
                # no failing input: redo the proof with far more solver time before it is reported
                if why != "extraction" and (tier != "quick" or time.time() - t0 < 420):
                    global STOP
                    solve.SCALE, keep, STOP = 6, STOP, 1
                    e2, w2 = attempt(e, None if tier != "quick" else max(20, 650 - (time.time() - t0)))
                    solve.SCALE, STOP = 1, keep
                    if all(o.result == "proved" for o in e2):
                        del obls[len(obls) - len(eo):]
                        eo, why, failed = e2, w2, [o for o in e2 if o.result != "proved"]
                        obls.extend(eo)
                if failed:
                    unproved.append({"entry": e.name, "failed_obligations": [(o.name, o.result, o.detail) for o in failed],
                                     "models": [o.model for o in failed if o.model][:5]})
            elif failed and not bad:
                bounded[e.name] = {"undischarged": [(o.name, o.result, o.detail[:300]) for o in failed][:8],
                                   "bounded_evaluations": evals - n0}
                if os.environ.get("IRVC_VERBOSE"):
                    for o in failed:
                        print("  undischarged:", e.name, o.name, o.result, o.detail[:1500], o.model)
            per_entry.append({"entry": e.name, "functions": list(e.functions), "obligations": len(eo),
                              "discharged": len(eo) - len(failed), "paths": getattr(e, "paths", 0),
                              "seconds": round(time.time() - ts, 2),
                              "level": "bounded" if failed or not eo else "bounded: " + e.bound if e.bound else "proved"})
            if e.bound:
                for o in eo:
                    o.bound = e.bound
            if violations and tier == "quick":
                break       # reported with its failing input; the entries that follow are not looked at
        known_lines = []
        for k in sorted(used_known):
            if k in known:
                known_lines.append("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]["what"]))
            else:
                violations.append({"entry": "finding " + k, "disagreement": "behaves as an unlisted finding"})
        wall = time.time() - t0
        if build_error and not violations:
            # the harness no longer compiles against the tree: nothing was decided
            print("ERROR: harness does not build: " + build_error[-1500:], file=sys.stderr)
            self.evidence(tier, seed, obls, bounded, evals, distinct, smp, assumed, per_entry, wall, violations, build_error)
            return 2
        self.evidence(tier, seed, obls, bounded, evals, distinct, smp, assumed, per_entry, wall, violations + unproved, None)
        for l in known_lines:
            print(l)
        nd = sum(o.result == "proved" for o in obls)
        print("%s: %d/%d obligations discharged, %d native evaluations, %.1f s%s" % (
            self.pid, nd, len(obls), evals, wall, "" if not bounded else "; bounded (not proved): " + ", ".join(bounded)))
        if violations:
            path = os.path.join(F.VERIF, "evidence", "%s.replay.json" % self.pid)
            json.dump({"property": self.pid, "violations": violations}, open(path, "w"), indent=1, default=str)
            v = violations[0]
            print("%s: %s: %s  input %s" % (self.pid, v["entry"], v["disagreement"], v.get("input")))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if unproved:
            path = os.path.join(F.VERIF, "evidence", "%s.replay.json" % self.pid)
            json.dump({"property": self.pid, "violations": unproved}, open(path, "w"), indent=1, default=str)
            for u in unproved:
                for o in u["failed_obligations"][:4]:
                    print("%s: %s: obligation not discharged: %s (%s) %s" % (self.pid, u["entry"], o[0], o[1], str(o[2])[:300]))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (self.pid, path))
            return 1
        return 0

    def evidence(self, tier, seed, obls, bounded, evals, distinct, smp, assumed, per_entry, wall, violations, err):
        few, obls = [o for o in obls if getattr(o, "bound", None)], [o for o in obls if not getattr(o, "bound", None)]
        nd = sum(o.result == "proved" for o in obls)
        backends = {}
        for o in obls:
            if o.result == "proved":
                backends[o.backend or "path"] = backends.get(o.backend or "path", 0) + 1
        lvl = self.level
        ev = {"property": self.pid, "tier": tier, "seed": seed, "level": lvl,
              "coverage": {"obligations": len(obls), "discharged": nd,
                           "checker_cmd": "python3-vt /verif/run_check.py %s --tier %s" % (self.pid, tier),
                           "trusted_base": ["clang 18 lowering to LLVM IR and the LLVM passes named in irvc/frontend.py",
                                            "the verification-condition generator /verif/irvc", "z3 (python bindings %s)" % zver()],
                           "functions_under_contract": sorted({f for e in self.entries for f in e.functions}),
                           "per_entry": per_entry, "discharged_by": backends,
                           "solver_seconds": round(solve.STATS["time"], 3), "solver_queries": solve.STATS["queries"],
                           "bounded_not_proved": bounded,
                           "bounded_obligations": {b: "%d of %d discharged" % (sum(o.result == "proved" for o in few if o.bound == b), sum(o.bound == b for o in few))
                                                   for b in sorted({o.bound for o in few})},
                           "evaluations": evals, "distinct_nontrivial": len(distinct),
                           "rule": "native evaluations of the compiled real code against the contract (replay of counterexamples and sample set); distinct argument tuples",
                           "samples": smp,
                           "obligation_names": [o.entry + ": " + o.name for o in obls][:200]},
              "assumptions": self.assumptions + sorted("library contract assumed: " + a for a in assumed)
              + ["machine arithmetic: double treated as mathematical reals in the proofs (rounding, overflow to infinity and NaN are only exercised by the native evaluations)"],
              "wall_s": round(wall, 3), "violations": len(violations)}
        if err:
            ev["assumptions"].append("BUILD ERROR: " + err[-500:])
        os.makedirs(os.path.join(F.VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(F.VERIF, "evidence", self.pid + ".json"), "w"), indent=1, default=str)


def attempt(e, left=None):
    """-> (obligations, why the proof could not be attempted)"""
    e.ex = None
    try:
        solve.FAST = bool(e.havoc)
        with time_limit(e.limit if left is None else min(e.limit, left)):
            return e.prove(), None
    except Unsupported as x:
        return [Obl(e.name, "symbolic execution", "unknown", "outside the verifier's reach: " + str(x)[:300])], "reach"
    except F.BuildError as x:
        return [Obl(e.name, "extraction", "unknown", "IR extraction failed: " + str(x)[-600:])], "extraction"
    except Exception:       # a limit of the verifier
        return [Obl(e.name, "symbolic execution", "unknown", "verifier error: %s" % (traceback.format_exc()[-600:],))], "error"


def self_complete(e, a, rng):
    return e.complete(a, rng) if e.complete else a


def zver():
    import z3
    return z3.get_version_string()


def nearby(e, a, rng):
    out = []
    idx = [i for i, (n, t) in enumerate(e.params) if t == "f64"]
    for _ in range(60):
        b = list(a)
        for i in idx:
            s = rng.choice([1e-9, 1e-6, 1e-3, 0.1, 1.0])
            b[i] = b[i] * (1 + rng.uniform(-s, s)) + (rng.uniform(-s, s) if rng.random() < .5 else 0)
        out.append(b)
    return out


def load_known(pid):
    p = os.path.join(F.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {k["id"]: k for k in json.load(open(p))["findings"] if k["property"] == pid and k["status"] == "known"}
