"""DESIGN.md from tools/DESIGN.in.md, tools/levels.json and tools/seeded.json."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
J = lambda p: json.load(open(os.path.join(H, p)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
lv = J("tools/levels.json")
out = []
for p in props:
    n = lv.get(p["id"], {})
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("*Level:* %s.  " % n.get("level", "exploration"))
    out.append("*Contracts / decision:* %s  " % n.get("decided", ""))
    out.append("*Bounded only:* %s  " % n.get("bounded", "nothing"))
    out.append("*Why tests cannot settle it:* %s\n" % n.get("why", "holds for every size, option combination and parameter, not sampled ones."))
sd = J("tools/seeded.json")
rows = ["| planted bug | property | caught by |", "|---|---|---|"]
for k in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = J("seeded/%s/meta.json" % k)
    rows.append("| %s | %s | %s |" % (k, m["property"], sd.get(k, "not yet run")))
t = open(os.path.join(H, "tools/DESIGN.in.md")).read()
t = t.replace("%TABLE%", "\n".join(out)).replace("%SEEDED%", "\n".join(rows))
open(os.path.join(H, "DESIGN.md"), "w").write(t)
