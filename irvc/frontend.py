"""Front end: takes /repo's current sources, lets clang lower the harness translation unit (which
includes the real headers) to LLVM IR, keeps the functions that are under contract out of line and
simplifies the rest with a fixed list of semantics-preserving LLVM passes."""
import os, re, subprocess, shutil, tempfile, hashlib, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = "/usr/lib/llvm-18/bin"
CLANG = LLVM + "/clang++"
OPT = LLVM + "/opt"
FILT = LLVM + "/llvm-cxxfilt"

PASSES = ("cgscc(devirt<4>(inline,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,"
          "simplifycfg,gvn,instcombine<no-verify-fixpoint>,simplifycfg,dce))),globaldce")


class BuildError(Exception):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="irvc.")
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def run(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), (p.stderr or p.stdout)[-6000:]))
    return p.stdout


_slice = None


def slice_dir():
    """The part of the umbrella headers that needs no missing library (same cut as the build)."""
    global _slice
    if _slice is None:
        d = os.path.join(scratch(), "gen")
        run(["/usr/bin/python3", os.path.join(VERIF, "tools/slice_gen.py"), os.path.join(REPO, "src"), d])
        _slice = d
    return _slice


# parts of the library that a harness does not need: their #include lines are left out (nothing else is changed)
FACTORIES = ["makeParticlePairs", "makeParticleChannels", "makeParticleChannelData", "makeChannelRadiusTable",
             "makeCompoundSystem", "makeReichMooreChannelData", "makeReichMooreCompoundSystem",
             "makeLegacyBreitWignerSpinGroups", "makeLegacyBreitWignerCompoundSystem", "makeLegacyUnresolvedResonanceTable",
             "makeLegacyUnresolvedSpinGroups", "makeLegacyUnresolvedCompoundSystem", "fromENDF"]
R = "resonanceReconstruction/"
PARTS = {"bw": [R + "rmatrix.hpp"],
         "rm": [R + "breitWigner.hpp", R + "reichMoore.hpp"] + [R + "rmatrix/src/%s.hpp" % f for f in FACTORIES]
               + [R + "rmatrix/Reconstructor.hpp"]}
_parts = {}


def part_dir(part):
    if part not in _parts:
        d = os.path.join(scratch(), "part." + part)
        for f in ("resonanceReconstruction.hpp", "resonanceReconstruction/rmatrix.hpp"):
            txt = open(os.path.join(REPO, "src", f)).read()
            txt = "\n".join("" if re.match(r'\s*#\s*include\s*"(%s)"' % "|".join(map(re.escape, PARTS[part])), x) else x
                            for x in txt.split("\n"))
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            open(os.path.join(d, f), "w").write(txt)
        _parts[part] = d
    return _parts[part]


def includes(mode):
    if mode.startswith("full:"):
        return ["-I", part_dir(mode[5:])] + includes("full")
    if mode == "slice":
        return ["-I", slice_dir(), "-I", os.path.join(REPO, "src"), "-I", "/usr/include/eigen3"]
    if mode == "full":
        return ["-I", os.path.join(VERIF, "shim"), "-I", os.path.join(REPO, "src"),
                "-I", "/usr/include/eigen3"]
    raise ValueError(mode)


def skeleton(d):
    """a demangled name without template arguments, parameters and ABI tags (operator() reads operator@call)"""
    d = d.replace("operator()", "operator@call").replace("operator<<", "operator@shl").replace("operator<", "operator@lt")
    d = d.replace("operator>>", "operator@shr").replace("operator->", "operator@arrow").replace("operator>", "operator@gt")
    out, depth = [], 0
    for c in d:
        if c in "<(":
            depth += 1
        elif c in ">)":
            depth -= 1
        elif depth == 0:
            out.append(c)
    return "".join(out)


def compile_ir(src, mode, keep, defines=(), extra=()):
    """src: harness file; keep: regex over demangled names of functions kept out of line.
    Returns the text of the simplified IR."""
    s = scratch()
    tag = hashlib.sha1((src + mode + keep + repr(defines)).encode()).hexdigest()[:10]
    raw, mid, out = (os.path.join(s, tag + e) for e in (".0.ll", ".1.ll", ".2.ll"))
    run([CLANG, "-std=c++17", "-w", "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off",
         "-fno-math-errno", "-fno-discard-value-names", "-S", "-emit-llvm", "-DEIGEN_DONT_VECTORIZE",
         "-DEIGEN_NO_DEBUG", "-DNDEBUG"]
        + ["-D" + d for d in defines] + list(extra) + includes(mode) + ["-I", os.path.join(VERIF, "harness"), src, "-o", raw])
    txt = open(raw).read()
    names = sorted(set(re.findall(r'^define[^@]*@("[^"]+"|[\w.$]+)\(', txt, re.M)))
    dem = subprocess.run([FILT], input="\n".join(n.strip('"') for n in names), capture_output=True,
                         text=True).stdout.split("\n")
    pat = re.compile(keep) if keep else None
    kept = {n for n, d in zip(names, dem) if pat and (pat.search(d) or pat.search("SKEL:" + skeleton(d)))}
    always = set(re.findall(r"^attributes (#\d+) = \{[^}]*\balwaysinline\b", txt, re.M))
    lines = []
    for line in txt.split("\n"):
        m = re.match(r'^define[^@]*@("[^"]+"|[\w.$]+)\(', line)
        if m and m.group(1) in kept:
            g = re.search(r" (#\d+)", line)
            if not (g and g.group(1) in always):
                i = g.start() if g else line.rindex("{")
                line = line[:i] + " noinline" + line[i:]
        lines.append(line)
    open(mid, "w").write("\n".join(lines))
    first = []
    passes = PASSES
    if mode.startswith("full"):
        passes = "internalize,globaldce," + PASSES
        first = ["-internalize-public-api-list=" + ",".join(n for n in names if n.startswith("h_"))]
    run([OPT, "-S", "-inline-threshold=1000000"] + first + ["-passes=" + passes, mid, "-o", out])
    return open(out).read()


def demangle(names):
    names = list(names)
    out = subprocess.run([FILT], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
    return dict(zip(names, out))


def compile_so(src, mode, defines=(), sanitize=None):
    """Compiles the harness with g++ (the compiler of the real build) for replaying inputs."""
    s = scratch()
    tag = hashlib.sha1((src + mode + repr(defines) + str(sanitize)).encode()).hexdigest()[:10]
    so = os.path.join(s, tag + ".so")
    if not os.path.exists(so):
        # the parts no real build covers: clang (g++ 13 miscompiles a range pipeline in them, DESIGN section 4)
        run([CLANG if mode.startswith("full:") else "/usr/bin/g++", "-std=c++17", "-w", "-O2", "-g0", "-DNDEBUG", "-shared", "-fPIC"] + ["-D" + d for d in defines]
            + includes(mode) + ["-I", os.path.join(VERIF, "harness"), src, "-o", so])
    return so


def compile_exe(src, mode, sanitize=True):
    """a harness with a main function"""
    s = scratch()
    src = os.path.join(VERIF, "harness", src)
    exe = os.path.join(s, hashlib.sha1((src + mode + str(sanitize)).encode()).hexdigest()[:10] + ".exe")
    if not os.path.exists(exe):
        run([CLANG, "-std=c++17", "-w", "-O1", "-g0", "-DNDEBUG"]     # gcc does not instrument stores to one part of a complex
            + (["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fsanitize=float-cast-overflow"] if sanitize else [])
            + includes(mode) + ["-I", os.path.join(VERIF, "harness"), src, "-o", exe])
    return exe
