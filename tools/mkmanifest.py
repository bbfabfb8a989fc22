import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
notes = json.load(open(os.path.join(H, "tools", "levels.json"))) if os.path.exists(os.path.join(H, "tools", "levels.json")) else {}
checks = []
for p in props:
    i = p["id"]
    n = notes.get(i, {})
    checks.append(dict(
        property=i,
        quick_cmd="python3 check.py %s --tier quick" % i,
        thorough_cmd="python3 check.py %s --tier thorough" % i,
        technique=n.get("technique", "contract-based deductive verification of the extracted functions (own VC generator, z3/cvc5); executable contracts as labelled bounded stand-in"),
        level=n.get("level", "exploration"),
        level_note=n.get("note", "bounded stand-in only so far"),
    ))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[]), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
