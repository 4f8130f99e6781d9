"""Parser for the subset of textual LLVM 18 IR that the front end produces."""
import re
from .terms import double_bits
from fractions import Fraction

TOK = re.compile(r'''\s*(?:
   (?P<str>c"(?:[^"\\]|\\.)*")
 | (?P<local>%"[^"]*"|%[-\w.$]+)
 | (?P<glob>@"[^"]*"|@[-\w.$]+)
 | (?P<meta>!\w*(?:\([^)]*\))?)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fHKLMR]+|-?\d+)
 | (?P<attr>\#\d+)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<p>\.\.\.|[(){}\[\]<>,=*:|"])
)''', re.X)


class Unsupported(Exception):
    pass


def tokenize(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise Unsupported("token: " + s[i:i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class Inst:
    __slots__ = ("op", "res", "a", "text")

    def __init__(self, op, res, a, text):
        self.op, self.res, self.a, self.text = op, res, a, text


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []      # (type, name, attrs)
        self.ret = None
        self.blocks = {}      # label -> [Inst]
        self.order = []
        self.entry = None
        self.lines = None


ATTRS = {"noundef", "nonnull", "noalias", "readonly", "readnone", "writeonly", "nocapture", "signext", "zeroext",
         "returned", "inreg", "immarg", "dead_on_unwind", "writable", "noinline", "nofree", "nsz", "swiftself", "nest", "allocptr"}
PARATTRS = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "range", "captures",
            "memory", "elementtype", "initializes", "allocalign", "inalloca", "nofpclass"}
FLAGS = {"nsw", "nuw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "reassoc", "afn",
         "disjoint", "nneg", "volatile", "atomic", "tail", "musttail", "notail", "samesign"}


class P:
    """recursive descent over one token list"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] in ("p", "word"):
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise Unsupported("expected %s at %s" % (v, self.t[self.i:self.i + 6]))

    def skip_parens(self):
        self.exp("(")
        d = 1
        while d:
            v = self.next()[1]
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1

    def attrs(self):
        res = {}
        while True:
            k, v = self.peek()
            if k == "word" and v in ATTRS:
                self.i += 1
            elif k == "word" and v in PARATTRS:
                self.i += 1
                if self.peek()[1] == "(":
                    if v in ("sret", "byval"):
                        j = self.i
                        self.i += 1
                        res[v] = self.type()
                        self.exp(")")
                    else:
                        self.skip_parens()
                elif self.peek()[0] == "num":
                    self.i += 1
            elif k == "attr":
                self.i += 1
            elif k == "p" and v == '"':
                raise Unsupported("string attr")
            else:
                return res

    def type(self):
        k, v = self.next()
        if k == "word":
            if re.fullmatch(r"i\d+", v):
                t = ("i", int(v[1:]))
            elif v in ("double", "float", "void", "ptr", "label", "metadata", "x86_fp80", "fp128", "half", "token"):
                t = (v,)
            else:
                raise Unsupported("type " + v)
        elif k == "local":
            t = ("named", v)
        elif v == "[":
            n = int(self.next()[1])
            self.exp("x")
            e = self.type()
            self.exp("]")
            t = ("arr", n, e)
        elif v == "{":
            t = ("struct", tuple(self.types("}")), False)
        elif v == "<":
            if self.acc("{"):
                fs = self.types("}")
                self.exp(">")
                t = ("struct", tuple(fs), True)
            else:
                n = int(self.next()[1])
                self.exp("x")
                e = self.type()
                self.exp(">")
                t = ("vec", n, e)
        else:
            raise Unsupported("type at %s" % (v,))
        while self.peek()[1] == "(" and self.peek()[0] == "p":   # function type
            j = self.i
            d = 0
            while True:
                x = self.next()[1]
                if x == "(":
                    d += 1
                elif x == ")":
                    d -= 1
                    if d == 0:
                        break
            t = ("fn", t)
        return t

    def types(self, close):
        out = []
        if self.acc(close):
            return out
        while True:
            out.append(self.type())
            if self.acc(close):
                return out
            self.exp(",")

    def value(self, ty):
        k, v = self.next()
        if k == "local":
            return ("reg", v)
        if k == "glob":
            return ("glob", v[1:].strip('"'))
        if k == "num":
            if ty[0] in ("double", "float"):
                if v.startswith("0x"):
                    if ty[0] == "double" or ty[0] == "float":
                        return ("fp", double_bits(v))
                return ("fp", Fraction(float(v)))
            if v.startswith("0x"):
                raise Unsupported("literal " + v)
            return ("int", int(v))
        if k == "word":
            if v == "null":
                return ("null",)
            if v in ("undef", "poison"):
                return ("undef",)
            if v == "zeroinitializer":
                return ("zero",)
            if v == "true":
                return ("int", 1)
            if v == "false":
                return ("int", 0)
            if v == "none":
                return ("undef",)
            if v in ("getelementptr",):
                while self.peek()[1] in FLAGS or self.peek()[1] == "inrange":
                    self.i += 1
                    if self.peek()[1] == "(" and self.t[self.i-1][1] == "inrange":
                        self.skip_parens()
                self.exp("(")
                ety = self.type()
                self.exp(",")
                ops = []
                while True:
                    if self.acc("inrange") and self.peek()[1] == "(":
                        self.skip_parens()
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if self.acc(")"):
                        break
                    self.exp(",")
                return ("cgep", ety, ops)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "sub", "add"):
                raise Unsupported("constant expr " + v)
            raise Unsupported("value " + v)
        if k == "str":
            return ("str", v)
        if v in ("{", "[", "<"):
            close = {"{": "}", "[": "]", "<": ">"}[v]
            if v == "<" and self.peek()[1] == "{":
                self.i += 1
                xs = self.agg("}")
                self.exp(">")
                return ("agg", xs)
            return ("agg", self.agg(close))
        raise Unsupported("value %s %s" % (k, v))

    def agg(self, close):
        out = []
        if self.acc(close):
            return out
        while True:
            t = self.type()
            out.append((t, self.value(t)))
            if self.acc(close):
                return out
            self.exp(",")

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


class Module:
    def __init__(self, text):
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, set()
        self._gtext = {}
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                n, rest = l.split(" = type ", 1)
                self.types[n.strip()] = rest
            elif l.startswith("@"):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', l)
                if m:
                    self._gtext[m.group(1).strip('"')] = m.group(2)
            elif l.startswith("declare"):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
                self.decls.add(m.group(1).strip('"'))
            elif l.startswith("define"):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
                f = Func(m.group(1).strip('"'))
                body = [l]
                i += 1
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                f.lines = body
                self.funcs[f.name] = f
            i += 1
        self._layout = {}

    # ---- types
    def resolve(self, t):
        while t[0] == "named":
            d = self.types[t[1]]
            if isinstance(d, str):
                if d.strip() == "opaque":
                    raise Unsupported("opaque type")
                d = P(tokenize(d), self).type()
                self.types[t[1]] = d
            t = d
        return t

    def size_align(self, t):
        r = self._layout.get(t)
        if r:
            return r
        u = self.resolve(t)
        if u[0] == "i":
            n = u[1]
            s = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
            r = (s, s)
        elif u[0] in ("double", "ptr"):
            r = (8, 8)
        elif u[0] == "float":
            r = (4, 4)
        elif u[0] == "arr":
            s, a = self.size_align(u[2])
            r = (s * u[1], a)
        elif u[0] == "vec":
            s, a = self.size_align(u[2])
            r = (s * u[1], s * u[1])
        elif u[0] == "struct":
            off, al = 0, 1
            for f in u[1]:
                s, a = self.size_align(f)
                if u[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        elif u[0] == "x86_fp80":
            r = (16, 16)
        else:
            raise Unsupported("size of %s" % (u,))
        self._layout[t] = r
        return r

    def size(self, t):
        return self.size_align(t)[0]

    def field(self, t, i):
        u = self.resolve(t)
        if u[0] == "struct":
            off = 0
            for k, f in enumerate(u[1]):
                s, a = self.size_align(f)
                if u[2]:
                    a = 1
                off = (off + a - 1) // a * a
                if k == i:
                    return off, f
                off += s
        elif u[0] in ("arr", "vec"):
            return i * self.size(u[2]), u[2]
        raise Unsupported("field of %s" % (u,))

    # ---- globals
    def glob(self, name):
        g = self.globals.get(name)
        if g is None:
            txt = self._gtext.get(name)
            if txt is None:
                return None
            m = re.match(r"(?:.*?\s)?(constant|global)\s", txt)
            if not m:
                return None
            rest = txt[m.end():]
            external = bool(re.match(r"(external|extern_weak)\b", txt)) or " external " in " " + txt[:m.end()]
            p = P(tokenize(rest), self)
            t = p.type()
            init = None
            if not external:
                init = p.value(t)
            g = (t, init, m.group(1) == "constant")
            self.globals[name] = g
        return g

    # ---- functions
    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            return None
        if f.entry is None:
            self._parse(f)
        return f

    def _parse(self, f):
        head = f.lines[0]
        m = re.search(r'@("[^"]+"|[\w.$]+)\(', head)
        pre = head[len("define"):m.start()].split()
        # parameters
        d, e = 0, m.end() - 1
        while True:
            d += (head[e] == "(") - (head[e] == ")")
            e += 1
            if d == 0:
                break
        p = P(tokenize(head[m.end() - 1:e]), self)
        p.exp("(")
        k = 0
        if not p.acc(")"):
            while True:
                if p.acc("..."):
                    p.exp(")")
                    break
                t = p.type()
                at = p.attrs()
                nm = None
                if p.peek()[0] == "local":
                    nm = p.next()[1]
                f.params.append((t, nm if nm else "%%%d" % k, at))
                if nm is None:
                    k += 1
                if p.acc(")"):
                    break
                p.exp(",")
        # return type: last type tokens of the prefix
        toks = tokenize(head[len("define"):m.start()])
        q = P(toks, self)
        ret = None
        while q.i < len(toks):
            j = q.i
            try:
                q.attrs()
                if q.i < len(toks):
                    j = q.i
                    t = q.type()
                    ret = t
            except (Unsupported, IndexError):
                q.i = j + 1
        f.ret = ret
        cur = None
        lines = f.lines[1:]
        i = 0
        while i < len(lines):
            l = lines[i]
            s = l.strip()
            i += 1
            if not s or s.startswith(";"):
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):(\s*;.*)?$', l)
            if m:
                cur = "%" + m.group(1)
                f.blocks[cur] = []
                f.order.append(cur)
                if f.entry is None:
                    f.entry = cur
                continue
            if cur is None:
                cur = "%entry?"
                f.blocks[cur] = []
                f.order.append(cur)
                f.entry = cur
            # continuation lines (switch, invoke, landingpad)
            if s.startswith("switch") or " = switch" in s:
                while not s.rstrip().endswith("]"):
                    s += " " + lines[i].strip()
                    i += 1
            elif "invoke " in s and " unwind " not in s:
                s += " " + lines[i].strip()
                i += 1
            elif "landingpad" in s:
                while i < len(lines) and re.match(r"\s+(cleanup|catch|filter)\b", lines[i]) :
                    s += " " + lines[i].strip()
                    i += 1
            f.blocks[cur].append(self._inst(s))

    def _inst(self, s):
        # strip trailing metadata and comments
        s0 = s
        s = re.sub(r"(, ![\w.]+ ![\w]+)+\s*$", "", s)
        s = re.sub(r"(, ![\w.]+ ![\w]+)+", "", s)
        s = re.sub(r"\s;.*$", "", s)
        p = P(tokenize(s), self)
        res = None
        if p.peek()[0] == "local" and p.peek(1)[1] == "=":
            res = p.next()[1]
            p.next()
        flags = set()
        while p.peek()[1] in ("tail", "musttail", "notail"):
            p.next()
        k, op = p.next()
        try:
            a = self._ops(op, p)
        except (Unsupported, IndexError, ValueError) as e:
            return Inst("unsupported", res, str(e), s0)
        return Inst(op, res, a, s0)

    def _ops(self, op, p):
        def flags():
            fl = set()
            while p.peek()[0] == "word" and p.peek()[1] in FLAGS:
                fl.add(p.next()[1])
            return fl
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or",
                  "xor", "shl", "lshr", "ashr"):
            fl = flags()
            t = p.type()
            a = p.value(t)
            p.exp(",")
            b = p.value(t)
            return (t, a, b, fl)
        if op == "fneg":
            flags()
            t = p.type()
            return (t, p.value(t))
        if op in ("icmp", "fcmp"):
            flags()
            pr = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.exp(",")
            return (pr, t, a, p.value(t))
        if op == "select":
            flags()
            ct, c = p.tv()
            p.exp(",")
            t, a = p.tv()
            p.exp(",")
            _, b = p.tv()
            return (ct, c, t, a, b)
        if op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast",
                  "ptrtoint", "inttoptr", "freeze"):
            flags()
            t = p.type()
            v = p.value(t)
            t2 = t
            if op != "freeze":
                p.exp("to")
                t2 = p.type()
            return (t, v, t2)
        if op == "phi":
            flags()
            t = p.type()
            inc = []
            while True:
                p.exp("[")
                v = p.value(t)
                p.exp(",")
                b = p.next()[1]
                p.exp("]")
                inc.append((v, b))
                if not p.acc(","):
                    break
            return (t, inc)
        if op == "br":
            if p.acc("label"):
                return (None, p.next()[1], None)
            t, c = p.tv()
            p.exp(",")
            p.exp("label")
            a = p.next()[1]
            p.exp(",")
            p.exp("label")
            return (c, a, p.next()[1])
        if op == "switch":
            t, v = p.tv()
            p.exp(",")
            p.exp("label")
            d = p.next()[1]
            p.exp("[")
            cs = []
            while not p.acc("]"):
                ct, c = p.tv()
                p.exp(",")
                p.exp("label")
                cs.append((c, p.next()[1]))
            return (t, v, d, cs)
        if op == "ret":
            if p.acc("void"):
                return None
            return p.tv()
        if op == "unreachable":
            return None
        if op == "alloca":
            t = p.type()
            n = ("int", 1)
            if p.acc(","):
                if p.peek()[1] != "align":
                    _, n = p.tv()
            return (t, n)
        if op == "load":
            flags()
            t = p.type()
            p.exp(",")
            return (t, p.tv()[1])
        if op == "store":
            flags()
            t, v = p.tv()
            p.exp(",")
            return (t, v, p.tv()[1])
        if op == "getelementptr":
            fl = flags()
            t = p.type()
            p.exp(",")
            base = p.tv()
            idx = []
            while p.acc(","):
                idx.append(p.tv())
            return (t, base, idx, fl)
        if op == "extractvalue":
            t, v = p.tv()
            ix = []
            while p.acc(","):
                ix.append(int(p.next()[1]))
            return (t, v, ix)
        if op == "insertvalue":
            t, v = p.tv()
            p.exp(",")
            t2, v2 = p.tv()
            ix = []
            while p.acc(","):
                ix.append(int(p.next()[1]))
            return (t, v, t2, v2, ix)
        if op in ("call", "invoke"):
            while p.peek()[0] == "word" and (p.peek()[1] in FLAGS or p.peek()[1] in ("fastcc", "coldcc", "ccc")):
                p.next()
            p.attrs()
            rt = p.type()
            k, v = p.next()
            if k == "glob":
                callee = ("glob", v[1:].strip('"'))
            elif k == "local":
                callee = ("reg", v)
            else:
                raise Unsupported("callee")
            p.exp("(")
            args = []
            if not p.acc(")"):
                while True:
                    t = p.type()
                    if t[0] == "metadata":
                        d = 0
                        while not (d == 0 and p.peek()[1] in (",", ")")):
                            x = p.next()[1]
                            d += (x == "(") - (x == ")")
                        args.append((t, ("undef",), {}))
                    else:
                        at = p.attrs()
                        args.append((t, p.value(t), at))
                    if p.acc(")"):
                        break
                    p.exp(",")
            if rt[0] == "fn":
                rt = rt[1]
            norm = unw = None
            if op == "invoke":
                while not p.acc("to"):
                    p.next()
                p.exp("label")
                norm = p.next()[1]
                p.exp("unwind")
                p.exp("label")
                unw = p.next()[1]
            return (rt, callee, args, norm, unw)
        if op == "landingpad":
            t = p.type()
            clauses = []
            while p.i < len(p.t):
                w = p.next()[1]
                if w == "cleanup":
                    clauses.append(("cleanup",))
                elif w == "catch":
                    clauses.append(("catch", p.tv()[1]))
                else:
                    clauses.append(("filter",))
                    break
            return (t, clauses)
        if op == "resume":
            return p.tv()
        raise Unsupported("instruction " + op)
