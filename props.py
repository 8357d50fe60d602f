#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json; run it after editing."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
PROPS = []; NA = {}
def prop(id, title, statement, over, qtext, why, files, mech, hook=None, note="", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=hook), _note=note))
    if na: NA[id] = na
exec(open(os.path.join(ROOT, "props_data.py")).read())
TRUST = "Bounded: the solver's verdict covers every value inside the bounds each run reports in its evidence file, nothing outside them. Trusted: rustc's IR generation at opt-level 2, the IR interpreter in engine/ (checked against native runs), Z3/MiniSat, the listed stand-ins."
if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS: f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    m = dict(version=1, setup_cmd="make -j8 -s -C engine OUT=/verif/.build/engine",
      hooks=dict(guard="--cfg verif_hooks", enable='RUSTFLAGS="--cfg verif_hooks" (check.py sets it for the harness builds); adds the module rawler::verif_hooks and its counterparts, which only forward to crate-private functions', source_commits=HOOK_COMMITS),
      checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
        technique="symbolic execution of the LLVM IR of the current tree, SAT/SMT-decided, counterexamples replayed natively", level="other",
        level_note=(p["_note"] + " " if p["_note"] else "") + TRUST) for p in PROPS if p["id"] not in NA],
      not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
