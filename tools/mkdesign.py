"""Writes DESIGN.md from tools/design_head.md, the checks themselves, tools/design_notes.json and tools/design_tail.md."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = json.load(open(V + "/tools/design_notes.json"))
out = open(V + "/tools/design_head.md").read()
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    src = open(V + "/mc/%s.py" % p["id"].lower()).read()
    call = [n for n in ast.walk(ast.parse(src)) if isinstance(n, ast.Call) and getattr(n.func, "attr", "") == "main"][0]
    bounds = ast.literal_eval(call.args[2])
    ass = ast.literal_eval(call.args[3]) if len(call.args) > 3 else []
    n = N[p["id"]]
    out += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], n["how"])
    out += "- Enumerated (quick, about %s s on 8 cores): %s.\n- Thorough: %s.\n" % (n["s"], bounds["quick"], bounds["thorough"])
    for a in ass:
        out += "- %s.\n" % (a[0].upper() + a[1:])
    if n.get("not"):
        out += "- Not claimed: %s\n" % n["not"]
    out += "\n"
out += open(V + "/tools/design_tail.md").read()
open(V + "/DESIGN.md", "w").write(out)
