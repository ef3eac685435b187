"""Developer tool: the single source of properties.jsonl and MANIFEST.json (never run by a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the LLVM IR (constants and rational functions, joins at merges)"
TRUST = (" Trusted: clang's lowering to IR, the abstract interpreter in engine/, the oracle tables in checks/. Values outside the domain become 'unknown' and "
         "are listed as undecided in the evidence, never reported.")
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, cmd=None, technique=AI, note="", level="other"):
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    PROPS.append((p, cmd or "python3 checks/%s.py" % id, technique, note, level))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, cmd="NA")
    NA.append((id, reason))


exec(open(os.path.join(V, "tools", "proplist.py")).read())

with open(V + "/properties.jsonl", "w") as f:
    for p, *_ in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "bash engine/build.sh",
       "checks": [{"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd, "technique": tech, "level": lev,
                   "level_note": note + TRUST} for p, cmd, tech, note, lev in PROPS if cmd != "NA"],
       "not_applicable": [{"property": i, "reason": r} for i, r in NA]}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for p, *_ in PROPS:
        jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("valid:", len(man["checks"]), "claimed,", len(NA), "not applicable")
except ImportError:
    print("written (run with python3-vt to validate)")
