"""writes MANIFEST.json from the list of claimed properties"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Verification conditions generated by symbolic execution, with contracts and inductively proved loop invariants, of the LLVM IR that "
        "clang lowers from /repo's current source on every run; discharged by polynomial normal forms and z3 over exact arithmetic. "
        "Doubles are treated as reals; library functions named in the evidence are assumed by contract. Counterexamples of failed "
        "obligations are replayed on the natively compiled real code; an obligation that stays undischarged without a failing input is "
        "reported as no-failing-input-found.")
SPECIAL = {}
TECH = "contract-based deductive verification of the real code: VC generation from its LLVM IR, discharged by normal forms and z3"
try:
    from manifest_notes import SPECIAL, NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
    na = {x["property"] for x in NOT_APPLICABLE}
    m = {"version": 1, "setup_cmd": "true",
         "checks": [{"property": i, "quick_cmd": "python3-vt run_check.py %s --tier quick" % i,
                     "thorough_cmd": "python3-vt run_check.py %s --tier thorough" % i,
                     "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": SPECIAL.get(i, {}).get("level", "proof"),
                     "level_note": NOTE + SPECIAL.get(i, {}).get("note", "")} for i in ids if i not in na],
         "not_applicable": NOT_APPLICABLE,
         "notes": "No hooks: the checks take /repo's sources as they are. Genuine defects repaired in /repo are 'fix:' commits, listed in known_findings.json."}
    json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)


main()
