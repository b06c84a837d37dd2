"""Writes the table of planted bugs in DESIGN.md from seeded/ and tools/seed_results.json."""
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent
results = json.loads((ROOT / "tools/seed_results.json").read_text())
rows = ["| bug | property | what it breaks | caught |", "|---|---|---|---|"]
for folder in sorted((ROOT / "seeded").iterdir()):
    meta = json.loads((folder / "meta.json").read_text())
    what = meta["what_it_breaks"].replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {folder.name} | {meta['property']} | {what} | {results.get(folder.name, 'not run')} |")
path = ROOT / "DESIGN.md"
text = re.sub(
    r"(<!-- table written by .*? -->\n).*?(<!-- end -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2],
    path.read_text(), flags=re.S,
)
path.write_text(text)
print(len(rows) - 2, "bugs")
