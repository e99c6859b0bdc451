"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (by hand, no check reads seeded)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = "<!-- seeds -->", "<!-- /seeds -->"


def main():
    rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
    folder = os.path.join(ROOT, "seeded")
    for name in sorted(os.listdir(folder)):
        with open(os.path.join(folder, name, "meta.json")) as f:
            meta = json.load(f)
        rows.append("| %s | %s | %s |" % (name, meta["property"], meta["needs"].replace("|", "/")))
    path = os.path.join(ROOT, "DESIGN.md")
    with open(path) as f:
        text = f.read()
    text = re.sub(re.escape(BEGIN) + ".*" + re.escape(END), lambda m: BEGIN + "\n" + "\n".join(rows) + "\n" + END, text, flags=re.S)
    with open(path, "w") as f:
        f.write(text)


main()
