"""appends to every row of data/coulomb_ref.json the error of the evaluation on the repaired tree (the accuracy class of the point)
usage: python3-vt coulomb_base.py table.json > data/coulomb_ref.json"""
import ctypes, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import mpmath
from irvc.check import Unit
from specs.coulomb import deviation
so = Unit.get("slice.cpp", "slice").so()
rows = []
for r in json.load(open(sys.argv[1])):
    l, rho, eta = r[:3]
    b = (ctypes.c_double * 4)()
    if so.n_coulomb(l, ctypes.c_double(rho), ctypes.c_double(eta), b):
        continue
    e = deviation(list(b), [mpmath.mpf(x) for x in r[3:7]])
    rows.append(r[:7] + [float("%.3g" % max(e))])
print("[" + ",\n".join(json.dumps(r) for r in rows) + "]")
