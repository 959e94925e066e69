"""Write the table of planted bugs into DESIGN.md, between its two markers."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for m in sorted(root.glob("seeded/*/meta.json")):
    j = json.loads(m.read_text())
    rows.append((j["property"], m.parent.name, j["what_it_breaks"].rstrip("."), j["needs"]))
rows.sort()
out = ["| Property | Bug | What it breaks | Needs |", "|---|---|---|---|"]
out += [f"| {a} | {b} | {c.replace('|', chr(92) + '|')} | {d.replace('|', chr(92) + '|')} |" for a, b, c, d in rows]
p = root / "DESIGN.md"
t = p.read_text()
t = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(out) + "\n<!-- /seeded -->", t, flags=re.S)
p.write_text(t)
print(len(rows), "bugs")
