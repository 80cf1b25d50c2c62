"""Refresh the generated tables of DESIGN.md (between the markers) from the evidence, known findings and seeds."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = lambda p: json.load(open(os.path.join(H, p)))
out = {}
rows = ["| id | evaluations | distinct | wall s | events observed (quick tier, seed 1) |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(H, "evidence", "C??.json"))):
    d = json.load(open(f))
    if d.get("tier") != "quick":
        continue
    c = d["coverage"]
    ev = c.get("events", {})
    top = sorted(ev.items(), key=lambda kv: -kv[1])[:7]
    rows.append(f"| {d['property']} | {c['evaluations']} | {c['distinct_nontrivial']} | {d['wall_s']:.0f} | "
                + ", ".join(f"{k} {v}" for k, v in top) + " |")
out["observed"] = "\n".join(rows)
k = L("known_findings.json")
rows = ["| property | commit | what failed |", "|---|---|---|"]
for s in k["fixed"]:
    s = s if isinstance(s, str) else s.get("line", str(s))
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", s)
    rows.append(f"| {m[1]} | {m[2]} | {m[3]} |")
out["fixes"] = "\n".join(rows)
rows = []
for x in k["findings"]:
    rows.append(f"* `{x['mechanism']}` - {x['what']}")
out["findings"] = "\n".join(rows)
rows = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    e = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {e(m['what_it_breaks'])} | {e(m['needs'])} | {e(m.get('caught_by', m['property']))} |")
out["seeds"] = "\n".join(rows)
p = os.path.join(H, "DESIGN.md")
t = open(p).read()
for n, body in out.items():
    t = re.sub(rf"(<!-- {n}:begin -->\n).*?(<!-- {n}:end -->)", lambda m: m[1] + body + "\n" + m[2], t, flags=re.S)
open(p, "w").write(t)
