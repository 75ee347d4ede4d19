#!/usr/bin/env python3
"""The single source of properties.jsonl, MANIFEST.json and harness.map."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
PROPS = []          # claimed
NA = []             # (id, title, statement, ..., reason)

def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), harness=None, note="", technique=None):
    assert len(title) <= 80, (id, len(title))
    import re
    assert len(re.findall(r"[.!?](?=\s|$)", statement)) <= 3, id
    assert set(over) <= {"schedules", "crash_points", "inputs", "programs", "histories", "configurations", "fault_sequences"}, id
    PROPS.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=None),
        _h=harness, _note=note, _tech=technique))

def na(id, reason, **kw):
    prop(id=id, **kw)
    PROPS[-1]["_na"] = reason

from importlib import import_module
import pathlib
for f in sorted(pathlib.Path(V, "tools").glob("p_*.py")):
    exec(compile(f.read_text(), str(f), "exec"))

ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids)), "duplicate ids"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks = []
for p in PROPS:
    if "_na" in p: continue
    checks.append(dict(property=p["id"], quick_cmd=f"bash run.sh {p['id']} quick",
        thorough_cmd=f"bash run.sh {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=p["_tech"] or "runtime monitoring: online reference-model monitor and history ledgers over randomized hostile histories of the real pallet",
        level="exploration", level_note=p["_note"]))
man = dict(version=1, setup_cmd="bash run.sh setup", checks=checks,
    not_applicable=[dict(property=p["id"], reason=p["_na"]) for p in PROPS if "_na" in p],
    notes="No hooks in /repo were needed: every monitor observes public dispatchables, storage, balances and events. DESIGN.md explains each check; known-findings.json lists genuine defects found.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
with open(os.path.join(V, "harness.map"), "w") as f:
    for p in PROPS:
        if "_na" not in p:
            f.write(f"{p['id']} {p['_h'][0]} {p['_h'][1]}\n")
print(len(checks), "checks,", len(PROPS) - len(checks), "not applicable")
