#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ALL = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
MODEL = "stateful property-based testing of the in-memory engine against a reference model, with a virtual clock"
TRUST = "Searches generated inputs; shows no absence. Trusts the reference model in harness/model.go and rapid's generators."
C = {}
def check(id, technique, level="exploration", note=TRUST): C[id] = (technique, level, note)
for i in ("C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C01", "C05"): check(i, MODEL)
check("C13", "stateful property-based testing with restarts: model continuation and field-by-field round-trip of the store through its snapshot")
check("C14", "property-based fault injection while saving: generated states x byte position of the failing write or crash, blocked paths, corrupted files, kills", "fault_enumeration",
  "Write failures and process deaths are placed at generated byte positions through RLIMIT_FSIZE; power failure (unsynced data) is not simulated.")
exec(open(os.path.join(here, "tools", "claims.py")).read()) if os.path.exists(os.path.join(here, "tools", "claims.py")) else None
m = dict(version=1, setup_cmd="./check --setup", checks=[], not_applicable=[
  dict(property=i, reason="check not built yet") for i in ALL if i not in C],
  notes="Each check rebuilds the harness and the executable from /repo's working tree (overlay package, no files written in /repo). ./check --replay FILE runs one saved case again. Known findings: KNOWN_FINDINGS.")
for i in ALL:
    if i not in C: continue
    t, l, n = C[i]
    m["checks"].append(dict(property=i, quick_cmd="./check "+i, thorough_cmd="VERIF_TIER=thorough ./check "+i,
        evidence_file="evidence/%s.json" % i, technique=t, level=l, level_note=n))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", len(m["not_applicable"]), "not")
