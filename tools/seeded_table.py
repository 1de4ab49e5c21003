"""Prints the table of planted bugs for DESIGN.md."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for name in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    meta = json.load(open(os.path.join(ROOT, "seeded", name, "meta.json")))
    rows.append(f"| {name} | {meta['what_it_breaks']} | {meta['needs']} | {meta.get('caught_by', meta['property'])} |")
path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read()
start, end = "<!-- table -->\n", "<!-- end of table -->"
if "SEEDED_TABLE" in text:
    text = text.replace("SEEDED_TABLE", start + end)
a, b = text.index(start) + len(start), text.index(end)
open(path, "w").write(text[:a] + "\n".join(rows) + "\n" + text[b:])
