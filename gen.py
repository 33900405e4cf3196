#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py and props/."""
import json
import os
import meta

HERE = os.path.dirname(os.path.abspath(__file__))
lines, checks, na = [], [], []
for pid in sorted(meta.P):
    p = meta.P[pid]
    lines.append(json.dumps({
        "id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}}, ensure_ascii=False))
    f = os.path.join(HERE, "props", pid + ".py")
    if p["na"]:
        na.append({"property": pid, "reason": p["na"]})
        continue
    src = open(f).read()
    level = "proof" if 'LEVEL = "proof"' in src else "other"
    note = p["note"] or ("Every obligation generated from the current source is discharged by CBMC for all inputs stated in the property; bounded stand-ins are "
                         "listed as such in the evidence. Trusts CBMC, its C library models and the contracts." if level == "proof" else
                         "Contracts checked over bounded histories (bounds per group in the evidence), never counted as proved, plus seeded runs of the same "
                         "contracts on the real code beyond the bound. Trusts CBMC, its C library models and the contracts.")
    checks.append({"property": pid, "quick_cmd": "python3 check.py " + pid, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": "contract-based deductive verification (CBMC code contracts, --dfcc)" if level == "proof" else
                   "contract-based verification with CBMC, bounded stand-ins where stated", "level": level, "level_note": note})
open(os.path.join(HERE, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as h:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks: contracts live in /verif/harness on the public functions; /repo is compiled as it is."}, h, indent=1, ensure_ascii=False)
