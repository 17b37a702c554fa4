#!/usr/bin/env python3
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
import props
T = {p["id"]: p for p in map(json.loads, open(os.path.join(V, "properties.jsonl")))}
checks, na = [], []
for pid in sorted(T):
    if pid in props.PROPS:
        p = props.PROPS[pid]
        checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}",
                       "technique": p.get("technique", "contract-based deductive verification of the real C functions: contracts and loop invariants, verification conditions from CBMC, discharged by CaDiCaL, z3 and cvc5"),
                       "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": pid, "reason": props.NOT_APPLICABLE[pid]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "CND_CONTRACTS", "enable": "goto-cc/gcc -DCND_CONTRACTS -I/verif/harness (done by /verif/lib/engine.py for every job)", "source_commits": props.HOOK_COMMITS},
     "checks": checks, "not_applicable": na,
     "notes": "check.py <id> prints per-case progress with CND_VERBOSE=1; CND_ONLY=<substring> restricts it to some cases."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
