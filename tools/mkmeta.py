#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/mkmeta.py writes both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U, S, E, N, P, O, V, L = ("src/legwork/%s.py" % x for x in
                          ("utils", "strain", "evol", "snr", "psd", "source", "visualisation", "logging"))

TECH = "abstract interpretation of the source into a gated value-flow graph, global value numbering against a specification graph"
LEVEL = ("Whole-source static analysis: every path of the analysed entry points is folded into one guarded expression "
         "graph, with lengths, element indices, units and unknown callees symbolic. 'Discharged' means the canonical "
         "graphs are identical (holds for every input in the stated domain, over the reals); a difference is reported "
         "only when it is established by evaluating the two extracted graphs; anything else is 'not separated' and "
         "is listed as such in the evidence. Trusts the numpy/astropy/scipy models in vfa/.")

PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, note=""):
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": text},
                      why_tests_cant=why, anchors={"files": files, "mechanism": [
                          {"name": a, "where": b} for a, b in mech]}, note=note))


def na(pid, title, statement, over, text, why, files, mech, reason):
    prop(pid, title, statement, over, text, why, files, mech)
    PROPS[-1]["na"] = reason


exec(open(os.path.join(HERE, "tools", "props.py")).read())


def main():
    checks, nas = [], []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            fh.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant",
                                                   "anchors")}) + "\n")
            assert len(p["title"]) <= 80, p["title"]
            built = os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))
            if "na" in p or not built:
                nas.append({"property": p["id"], "reason": p.get("na", "no check has been built for it yet")})
                continue
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                           "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": TECH, "level": "other",
                           "level_note": (p["note"] + " " if p["note"] else "") + LEVEL})
    man = {"version": 1, "setup_cmd": "mkdir -p evidence && python3 -c \"import ast, json, fractions\"",
           "checks": checks, "not_applicable": nas,
           "notes": "The checks need only the system python3 (standard library); nothing of /repo is imported or run. "
                    "VERIF_SEED seeds the valuations used to tell two extracted graphs apart."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
