"""plant one bug: applies the replacement in /repo, builds, runs the stable tests and the demonstration with and without it, and keeps it as
seeded/<id>/ when everything a planted bug needs is confirmed; /repo is restored either way."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
DEMO = """#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -I _build/gen -I src -I /usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" || exit 3
timeout 120 "$t/demo"
"""
FULL = """#!/bin/bash
# the changed code needs libraries that are not installed: stand-ins for them lie beside this file
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
grep -v '"resonanceReconstruction/rmatrix.hpp"' src/resonanceReconstruction.hpp > "$t/resonanceReconstruction.hpp"
clang++ -std=c++17 -w -O1 -I "$t" -I "$d/shim" -I "$d" -I src -I /usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" || exit 3
timeout 120 "$t/demo"
"""
RM = FULL.replace("""grep -v '"resonanceReconstruction/rmatrix.hpp"' src/resonanceReconstruction.hpp > "$t/resonanceReconstruction.hpp"
""", """mkdir -p "$t/resonanceReconstruction"
# what the demonstration does not need is left out: breitWigner, reichMoore, the factories and the Reconstructor
grep -v '"resonanceReconstruction/\\(breitWigner\\|reichMoore\\).hpp"' src/resonanceReconstruction.hpp > "$t/resonanceReconstruction.hpp"
grep -v 'rmatrix/src/make\\(ParticlePairs\\|ParticleChannels\\|ParticleChannelData\\|ChannelRadiusTable\\|CompoundSystem\\|ReichMoore[A-Za-z]*\\|Legacy[A-Za-z]*\\).hpp\\|rmatrix/src/fromENDF.hpp\\|rmatrix/Reconstructor.hpp' \\
  src/resonanceReconstruction/rmatrix.hpp > "$t/resonanceReconstruction/rmatrix.hpp"
""")
HEAD = """#include <iostream>
#include <cstdlib>
#include <cmath>
#include <complex>
#include <vector>
#include <string>
#include <array>
#include <tuple>
#include <map>
#include <optional>
#include <variant>
#include <algorithm>
#include <numeric>
#include <limits>
#include <memory>
#include <functional>
#include <stdexcept>
#include "resonanceReconstruction.hpp"
namespace rr = njoy::resonanceReconstruction;
namespace rm = njoy::resonanceReconstruction::rmatrix;
static int bad = 0;
static void near( double a, double b, double tol ) { if ( !( std::abs( a - b ) <= tol * std::abs( b ) + 1e-300 ) ) { std::cerr << a << " != " << b << std::endl; bad = 1; } }
static void ok( bool b ) { if ( !b ) { std::cerr << "failed" << std::endl; bad = 1; } }
template < typename F > static bool throws( F f ) { try { f(); return false; } catch ( ... ) { return true; } }
"""


def head(full):
    if not full:
        return HEAD
    h = HEAD.replace('#include "resonanceReconstruction.hpp"\n', '#include "full.hpp"\n').replace("namespace rm = njoy::resonanceReconstruction::rmatrix;\n", "")
    if full == "rm":
        h = h + "namespace rm = njoy::resonanceReconstruction::rmatrix;\nnamespace lr = rm::legacy::resolved;\nnamespace lu = rm::legacy::unresolved;\n"
    return h + "using namespace dimwits;\nusing eV = Quantity< ElectronVolts >;\nstatic inline eV ev( double x ) { return x * electronVolts; }\n"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def tests():
    r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed_test.json")
    if r.returncode:
        return "build/test failed: " + (r.stdout + r.stderr)[-1500:]
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    p = json.load(open("/tmp/seed_test.json"))
    miss = [t for t in st if t not in p["passed"]]
    return "tests fail: %s" % miss if miss else None


def seed(id, prop, edits, body, needs, breaks, force=False, full=False, top=""):
    """edits: [(file under /repo, old, new)]"""
    d = os.path.join(V, "seeded", id)
    if os.path.exists(d) and not force:
        print(id, "exists")
        return
    assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(head(full) + top + "int main() {\n" + body + "\n  return bad;\n}\n")
    open(d + "/demo.sh", "w").write(RM if full == "rm" else FULL if full else DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    if full:
        sh("cp -r %s/shim %s/harness/std.hpp %s/harness/full.hpp %s" % (V, V, V, d))
    why = None
    try:
        e = tests()
        assert e is None, e
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        if r.returncode:
            why = "demo fails on the unchanged tree: " + r.stderr[-800:]
        for f, old, new in edits:
            p = os.path.join("/repo", f)
            s = open(p).read()
            if s.count(old) != 1:
                why = "%s: %d matches" % (f, s.count(old))
                break
            open(p, "w").write(s.replace(old, new))
        if not why:
            diff = sh("git -C /repo diff").stdout
            open(d + "/patch.diff", "w").write(diff)
            why = tests()
        if not why:
            r = sh("bash %s/demo.sh" % d, cwd="/repo")
            if r.returncode in (0, 3):
                why = "demo returns %d with the change: %s" % (r.returncode, r.stderr[-800:])
        if not why:
            r = sh("VERIF_SEED=1 VERIF_TIER=quick python3-vt run_check.py %s --tier quick" % prop, cwd=V)
            print(id, prop, "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s" % prop in r.stdout else "MISSED (%d)" % r.returncode,
                  "|", r.stdout.strip().splitlines()[-2:] if r.stdout else r.stderr[-500:])
    finally:
        sh("git -C /repo checkout -- .")
    if why:
        print(id, "NOT KEPT:", why)
        sh("rm -rf %s" % d)
        return
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


def rerun(ids):
    for id in ids or sorted(os.listdir(V + "/seeded")):
        d = os.path.join(V, "seeded", id)
        prop = json.load(open(d + "/meta.json"))["property"]
        assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
        try:
            a = sh("git -C /repo apply %s/patch.diff" % d)
            assert a.returncode == 0, a.stderr
            r = sh("VERIF_SEED=1 VERIF_TIER=quick python3-vt run_check.py %s --tier quick" % prop, cwd=V)
            print(id, prop, "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s" % prop in r.stdout else "MISSED (%d)" % r.returncode,
                  "|", r.stdout.strip().splitlines()[-2:-1] if r.stdout else r.stderr[-500:], flush=True)
        finally:
            sh("git -C /repo checkout -- .")


if __name__ == "__main__":
    rerun(sys.argv[1:])
