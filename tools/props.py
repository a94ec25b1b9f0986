#!/usr/bin/env python3
# single source of properties.jsonl and MANIFEST.json
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = ["definition/Verify.go", "crypto/crypto_config.go", "crypto/bls.go", "crypto/rsa.go", "crypto/types.go"]
P = []
def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, state=state, observe=observe))
exec(open(os.path.join(D, "tools", "props_data.py")).read())
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [m if isinstance(m, dict) else {"name": m, "where": ", ".join(p["files"][:3])} for m in p["mech"]]}
        if p["state"]: a["state"] = [{"name": x[0], "meaning": x[1], "where": x[2]} for x in p["state"]]
        if p["observe"]: a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "bash /verif/check.sh %s quick" % p["id"], "thorough_cmd": "bash /verif/check.sh %s thorough" % p["id"],
        "technique": "contract-based deductive verification: weakest-precondition style symbolic execution of go/ssa against contracts, discharged by z3/cvc5",
        "level": "proof", "level_note": p["note"]} for p in P],
     "not_applicable": NA}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
