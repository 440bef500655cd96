"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = "<!-- seeds: begin -->", "<!-- seeds: end -->"
MISSED = set()      # ids that the check of their property does not report


def main():
    by = {}
    for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        with open(m) as f:
            d = json.load(f)
        by.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d["what_it_breaks"]))
    rows = ["| Property | Planted bugs that its quick check reports |", "|---|---|"]
    for p in sorted(by):
        rows.append(f"| {p} | " + "; ".join(f"`{i}`" + (" (missed)" if i in MISSED else "") + f" {w}" for i, w in by[p]).replace("|", "/") + " |")
    path = os.path.join(ROOT, "DESIGN.md")
    with open(path) as f:
        s = f.read()
    a, b = s.index(BEGIN) + len(BEGIN), s.index(END)
    with open(path, "w") as f:
        f.write(s[:a] + "\n" + "\n".join(rows) + "\n" + s[b:])


if __name__ == "__main__":
    main()
