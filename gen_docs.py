#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (both are committed)."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
C = "crates/mirror-mirror/src/"
D = "crates/mirror-mirror-macros/src/derive_reflect/"
PROPS, NA = [], []


def prop(id, title, statement, over, text, why, files, mechanism, na=None, observe=None):
    assert len(title) <= 80, title
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    **({"observe_at": observe} if observe else {})}})
    if na:
        NA.append({"property": id, "reason": na})


exec(open(os.path.join(HERE, "properties_src.py")).read())

TECH = "symbolic execution of the compiled LLVM IR of the real code (own engine), path conditions and assertions decided by z3"
NOTE = ("Every feasible path of every harness of the property is executed symbolically within the stated bounds "
        "(sizes of strings, lists, maps, recursion; a zoo of reflected types that exercises every arm of the derive and every foreign impl); "
        "all scalar values are covered. Trusts rustc/LLVM, the engine (sampled paths are replayed natively and must give the same events; "
        "counterexamples are replayed natively before they are reported) and z3 (thorough: queries repeated with cvc5).")
THREADS = (" For this property the choice of the next thread at every atomic access, futex call and spin hint is a symbolic input too; "
           "the solver shows that no schedule within the bound is left over, and sampled schedules and counterexamples are followed by a natively compiled copy of the same code.")
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
na = {x["property"] for x in NA}
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": TECH, "level": "model_checking", "level_note": NOTE + (THREADS if p["id"] == "P26" else "")} for p in PROPS if p["id"] not in na],
    "not_applicable": NA,
    "notes": "No hooks in /repo: the harness crate uses the public API only. See DESIGN.md.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
