"""Assumed contracts of library functions (libstdc++), stated over ghost values.
vector<T>: ('vec', data region, length); string: ('str', tuple of parts)."""
import re
from .terms import *
from .ir import Unsupported
from . import solve
from .sx import Ptr, Outcome, UNDEF, NULL, Undef

ESZ = {"double": 8, "std::complex<double>": 16, "int": 4, "unsigned int": 4}


def ret(st, v=None):
    return [Outcome("ret", v, st)]


def key(p):
    if not isinstance(p, Ptr) or not isc(p.off):
        raise Unsupported("container at symbolic address")
    return (p.r, cv(p.off))


def vec(ex, st, p):
    g = st.ghost.get(key(p))
    if g is None or g[0] != "vec":
        raise Unsupported("vector without ghost value")
    return g


def newvec(ex, st, p, n, base=None, size=None):
    rid = ex.alloc(st, "vec", size, "vecdata", base)
    st.ghost[key(p)] = ("vec", rid, n)
    return rid


def m_vector(ex, st, a, x, d):
    m = re.search(r"std::vector<([\w: <>]+?), std::allocator<\1 ?>>::(~?[\w\[\]=]+|operator\[\])", d)
    if not m or m.group(1) not in ESZ:
        return None
    et, fn = m.group(1), m.group(2)
    sz = ESZ[et]
    ety = ("double",) if et == "double" else ("i", 32)
    ex.assumed.add("std::vector<%s> (construction, push_back, access, size, move, destruction)" % et)
    st = st.copy()
    if fn == "~vector":
        g = st.ghost.pop(key(a[0]), None)
        if g is not None and g[1] in st.mem:
            st.w(g[1]).alive = False
        return ret(st)
    if fn == "vector":
        sig = d[d.index("::vector(") + 8:]
        if sig.startswith("(std::initializer_list"):
            rid = newvec(ex, st, a[0], a[2])
            if not isc(a[2]):
                raise Unsupported("initializer list length")
            for i in range(cv(a[2])):
                v = ex.load(st, Ptr(a[1].r, add(a[1].off, I(sz * i))), ety)
                ex.store(st, Ptr(rid, I(sz * i)), v, ety)
            return ret(st)
        if sig.startswith("()"):
            newvec(ex, st, a[0], I(0))
            return ret(st)
        if sig.startswith("(std::vector") and "&&)" in sig:
            st.ghost[key(a[0])] = vec(ex, st, a[1])
            newvec(ex, st, a[1], I(0))
            return ret(st)
        if sig.startswith("(std::vector") and "const&)" in sig:
            g = vec(ex, st, a[1])
            rid = ex.alloc(st, "vec", None, "vecdata")
            src = st.mem[g[1]]
            r = st.w(rid)
            r.cells, r.log, r.base = dict(src.cells), src.log, src.base
            st.ghost[key(a[0])] = ("vec", rid, g[2])
            return ret(st)
        if sig.startswith("(unsigned long, double const&"):
            v = ex.load(st, a[2], ("double",))
            newvec(ex, st, a[0], a[1], lambda off, ty, s: v, mul(I(sz), a[1]))
            return ret(st)
        if sig.startswith("(unsigned long,"):
            newvec(ex, st, a[0], a[1], lambda off, ty, s: R(0) if ty[0] == "double" else I(0), mul(I(sz), a[1]))
            return ret(st)
        raise Unsupported("vector constructor " + sig)
    g = vec(ex, st, a[0])
    if fn in ("push_back", "emplace_back"):
        if len(a) != 2:
            raise Unsupported("emplace_back")
        v = ex.load(st, a[1], ety)
        if ety[0] == "double" and isinstance(v, T) and v.sort == "I":
            v = toreal(v)
        if st.mem[g[1]].size is not None:
            st.w(g[1]).size = mul(I(sz), add(g[2], I(1)))
        ex.store(st, Ptr(g[1], mul(I(sz), g[2])), v, ety)
        st.ghost[key(a[0])] = ("vec", g[1], add(g[2], I(1)))
        return ret(st, Ptr(g[1], mul(I(sz), g[2])))
    if fn == "back":
        ex.safety.append(("back of non-empty vector", st.pc, lt(I(0), g[2]), ex.where[-1]))
        return ret(st, Ptr(g[1], mul(I(sz), add(g[2], I(-1)))))
    if fn == "front":
        return ret(st, Ptr(g[1], I(0)))
    if fn == "size":
        return ret(st, g[2])
    if fn == "empty":
        return ret(st, eq(g[2], I(0)))
    if fn in ("begin", "cbegin", "data"):
        return ret(st, Ptr(g[1], I(0)))
    if fn in ("end", "cend"):
        return ret(st, Ptr(g[1], mul(I(sz), g[2])))
    if fn == "reserve" or fn == "shrink_to_fit":
        return ret(st)
    if fn == "clear":
        newvec(ex, st, a[0], I(0))
        return ret(st)
    if fn == "operator[]" or fn == "at" or fn == "operator":
        i = ex.num(a[1])
        ex.safety.append(("vector index in range", st.pc, land(le(I(0), i), lt(i, g[2])), ex.where[-1]))
        return ret(st, Ptr(g[1], mul(I(sz), i)))
    if fn == "operator=":
        o = vec(ex, st, a[1])
        if "&&" in d:
            st.ghost[key(a[0])] = o
            newvec(ex, st, a[1], I(0))
        else:
            src = st.mem[o[1]]
            rid = ex.alloc(st, "vec", src.size, "vecdata")
            r = st.w(rid)
            r.cells, r.log, r.base = dict(src.cells), src.log, src.base
            st.ghost[key(a[0])] = ("vec", rid, o[2])
        return ret(st, a[0])
    raise Unsupported("vector function " + d)


def lit(s): return ("str", (s,) if s else ())


def cat(*gs):
    parts = []
    for g in gs:
        for p in g[1]:
            if parts and isinstance(p, str) and isinstance(parts[-1], str):
                parts[-1] += p
            elif p != "":
                parts.append(p)
    return ("str", tuple(parts))


def gstr(ex, st, p, cstr):
    if cstr:
        return lit(ex.cstr(st, p))
    g = st.ghost.get(key(p))
    if g is None or g[0] != "str":
        raise Unsupported("string without ghost value")
    return g


STR = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"


def m_tostring(ex, st, a, x, d):
    st = st.copy()
    ex.assumed.add("std::to_string(integer) is the decimal representation")
    v = ex.num(a[1])
    if "unsigned" in d:
        v = ex.uns(v, 64 if "long" in d else 32, st)
    elif "double" in d or "float" in d:
        raise Unsupported("to_string(double)")
    st.ghost[key(a[0])] = lit(str(cv(v))) if isc(v) else ("str", (v,))
    return ret(st)


def m_strplus(ex, st, a, x, d):
    st = st.copy()
    ex.assumed.add("std::string concatenation")
    sig = d[d.index("std::operator+"):]
    ps = re.search(r"\((.*)\)$", sig).group(1)
    kinds = split_params(ps)
    gs = []
    for k, p in zip(kinds, a[1:]):
        if k.startswith(STR):
            gs.append(gstr(ex, st, p, False))
        elif k == "char const*":
            gs.append(gstr(ex, st, p, True))
        elif k == "char":
            if not isc(p):
                raise Unsupported("symbolic character")
            gs.append(lit(chr(cv(p) & 255)))
        else:
            raise Unsupported("string + " + k)
    st.ghost[key(a[0])] = cat(*gs)
    return ret(st)


def split_params(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def m_string(ex, st, a, x, d):
    st = st.copy()
    ex.assumed.add("std::string construction, append, move and destruction")
    m = re.search(re.escape(STR) + r"::(~?\w+=?|operator\+=|operator=)(<[^(]*>)?\((.*)\)( const)?$", d)
    if not m:
        raise Unsupported("string function " + d)
    fn, ps = m.group(1), m.group(3)
    if "operator+=" in d[:d.rindex("(")]:
        fn = "operator+="
    elif "operator=" in d[:d.rindex("(")]:
        fn = "operator="
    k = split_params(ps)[0] if ps else ""

    def arg(p):
        if k.startswith(STR):
            return gstr(ex, st, p, False)
        if k.startswith("char const*"):
            return gstr(ex, st, p, True)
        if k == "char":
            if not isc(p):
                raise Unsupported("symbolic character")
            return lit(chr(cv(p) & 255))
        raise Unsupported("string argument " + k)
    if fn == "~basic_string":
        st.ghost.pop(key(a[0]), None)
        return ret(st)
    if fn == "basic_string":
        st.ghost[key(a[0])] = lit("") if not ps else arg(a[1])
        if k.endswith("&&"):
            st.ghost[key(a[1])] = lit("")
        return ret(st)
    if fn in ("operator+=", "append", "push_back"):
        if len(a) > 2:
            raise Unsupported("append with length")
        st.ghost[key(a[0])] = cat(gstr(ex, st, a[0], False), arg(a[1]))
        return ret(st, a[0])
    if fn in ("operator=", "assign"):
        st.ghost[key(a[0])] = arg(a[1])
        return ret(st, a[0])
    if fn == "compare" and len(a) == 2:
        x, y = gstr(ex, st, a[0], False), arg(a[1])
        if all(isinstance(q, str) for g in (x, y) for q in g[1]):
            x, y = "".join(x[1]), "".join(y[1])
            return ret(st, I((x > y) - (x < y)))
    raise Unsupported("string function " + d)


def m_stream(ex, st, a, x, d):
    """std::ostringstream as the text written so far (default formatting, integers and text only)"""
    st = st.copy()
    ex.assumed.add("std::ostringstream with default formatting: integers in decimal, text as it is")
    if "::~basic_ostringstream" in d:
        st.ghost.pop(key(a[0]), None)
        return ret(st)
    if "::basic_ostringstream(" in d:
        if "()" not in d:
            raise Unsupported("stream constructor " + d)
        st.ghost[key(a[0])] = lit("")
        return ret(st)
    if "::str(" in d:
        st.ghost[key(a[0])] = gstr(ex, st, a[1], False)
        return ret(st)
    ps = split_params(d[d.rindex("(") + 1:].rstrip(")"))
    k = ps[-1]
    g = gstr(ex, st, a[0], False)
    if k in ("int", "long", "short", "unsigned int", "unsigned long", "unsigned short"):
        v = ex.num(a[1])
        if k.startswith("unsigned"):
            v = ex.uns(v, 64 if "long" in k else 32, st)
        h = lit(str(cv(v))) if isc(v) else ("str", (v,))
    elif k == "char const*":
        h = gstr(ex, st, a[1], True)
    elif k == "char":
        if not isc(a[1]):
            return [o for c, s in ex.fork(st, eq(a[1], I(43))) for o in ex_char(ex, s, a, g, c)]
        h = lit(chr(cv(a[1]) & 255))
    elif k.startswith(STR):
        h = gstr(ex, st, a[1], False)
    else:
        raise Unsupported("stream insertion of " + k)
    st.ghost[key(a[0])] = cat(g, h)
    return ret(st, a[0])


def ex_char(ex, st, a, g, plus):
    st = st.copy()
    for ch in ("+",) if plus else ("-",):
        if solve.valid(st.pc, eq(a[1], I(ord(ch)))) is not True:
            raise Unsupported("symbolic character")
        st.ghost[key(a[0])] = cat(g, lit(ch))
    return ret(st, a[0])


def m_coulomb(ex, st, a, x, d):
    """contract of coulombWaveFunctions used at its call sites: G, F and their derivatives are functions of
    (l, rho, eta), both results are written, nothing else changes, or an exception is thrown"""
    ps = d[d.index("(") + 1:d.rindex(")")]
    if split_params(ps) != ["int", "double", "double", "std::complex<double>&", "std::complex<double>&"]:
        raise Unsupported("signature of coulombWaveFunctions: " + ps)
    ex.assumed.add("coulombWaveFunctions at its call sites: deterministic, writes both results or throws (its body is the subject of C07 and C14)")
    l, rho, eta = (ex.num(q) for q in a[:3])
    ok = app("coulomb_ok", l, rho, eta, sort="B")
    s1, s2 = st.copy(), st.copy()
    s1.assume(ok)
    for p, names in ((a[3], "GF"), (a[4], "gf")):
        for i in (0, 1):
            ex.store(s1, Ptr(p.r, add(p.off, I(8 * i))), app("coulomb_" + {"G": "G", "F": "F", "g": "dG", "f": "dF"}[names[i]], l, rho, eta), ("double",))
    s2.assume(lnot(ok))
    return [Outcome("ret", None, s1), Outcome("throw", "std::exception", s2)]


def qualified(d):
    """name of the function itself: no return type, no template arguments, no parameters"""
    out, depth, i = "", 0, 0
    while i < len(d):
        c = d[i]
        if depth == 0 and d.startswith("operator", i):
            out += d[i:i + 12]
            break
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            if c == "(":
                break
            out += c
        i += 1
    return out.split(" ")[-1]


KEEP = (r"^([^<(]* )?(njoy::.*coulombWaveFunctions\(|std::vector<|std::__cxx11::basic_string<char|std::operator\+<char|std::__cxx11::to_string|std::__cxx11::basic_ostringstream<char)"
        r"|^std::basic_ostream<char, std::char_traits<char>>& std::operator<<")
# the same without the contract of coulombWaveFunctions: its body is the subject
KEEP_BODY = KEEP.replace(r"njoy::.*coulombWaveFunctions\(|", r"njoy::.*::om\w+\(|")
MODELS = [(r"^njoy::.*coulombWaveFunctions\(", m_coulomb),
          (r"std::__cxx11::to_string\(", m_tostring),
          (r"^std::__cxx11::basic_ostringstream<char.*::(~?basic_ostringstream|str)\(|^std::ostream::operator<<\(|^std::ostream& std::ostream::_M_insert<(unsigned )?long>|"
           r"^std::basic_ostream<char, std::char_traits<char>>& std::operator<<<", m_stream),
          (r"std::operator\+<char", m_strplus),
          (r"^(.* )?" + STR + r"::", m_string),
          (lambda d: qualified(d).startswith("std::vector::"), m_vector)]
