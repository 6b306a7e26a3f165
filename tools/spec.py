"""Source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(),
         technique="", note="", state=None):
    a = {"files": ["tslearn/" + f for f in files],
         "mechanism": [{"name": n, "where": "tslearn/" + w} for n, w in mech],
         "observe_at": list(observe), "hook_needed": None}
    if state:
        a["state"] = state
    assert len(title) <= 80, title
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, technique, note))


exec(open(os.path.join(HERE, "tools", "spec_data.py")).read())

NOTE = ("Generated-input search with an explicit oracle: no counterexample in "
        "the cases generated (counts in the evidence file), never a proof. ")


def main():
    have = {os.path.basename(f)[:3].upper()
            for f in glob.glob(os.path.join(HERE, "pbt/checks/c*_*.py"))}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            if p["id"] in have:
                f.write(json.dumps(p) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 run.py %s" % p["id"],
            "thorough_cmd": "python3 run.py %s --thorough" % p["id"],
            "technique": "property-based testing (Hypothesis): " + tech,
            "level": "exploration", "level_note": NOTE + note}
            for p, tech, note in P if p["id"] in have],
        "not_applicable": NA,
        "notes": "No hooks: every check uses the public API of /repo's working "
                 "tree, imported at run time.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    missing = have - {p["id"] for p, _, _ in P}
    print("claimed: %d; checks without an entry: %s; entries without a check: "
          "%s" % (len(man["checks"]), sorted(missing),
                  sorted({p["id"] for p, _, _ in P} - have)))


main()
