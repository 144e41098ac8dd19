"""Author's helper: rewrite the generated tables at the end of DESIGN.md from seeded/, known_findings.json and props.py."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import NOT_APPLICABLE, PROPS  # noqa: E402

MARK = "<!-- generated by tools/design.py -->"


def cell(x, n):
    return " ".join(x.split()).replace("|", "/")[:n]


def main():
    fn = os.path.join(HERE, "DESIGN.md")
    with open(fn, encoding="utf-8") as f:
        head = f.read().split(MARK)[0].rstrip()
    with open(os.path.join(HERE, "known_findings.json"), encoding="utf-8") as f:
        kf = json.load(f)
    out = [head, "", MARK, "", "## Planted changes (seeded/)", "", "Every one is reported by the quick check of its property (`tools/mkbug.py --recheck`).", "",
           "| change | caught by | needs | breaks |", "|---|---|---|---|"]
    rows = []
    for d in glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")):
        with open(d, encoding="utf-8") as f:
            m = json.load(f)
        rows.append((m["property"], os.path.basename(os.path.dirname(d)), cell(m["needs"], 150), cell(m["what_it_breaks"], 150)))
    out += [f"| {b} | {a} | {c} | {d} |" for a, b, c, d in sorted(rows)]
    out += ["", "## Genuine defects recorded (KNOWN-FINDING)", ""] + [f"* {k['property']}: {k['what']} ({k['file']})" for k in kf["known"]]
    out += ["", "## Genuine defects repaired in /repo", ""] + [f"* {x[len('fixed: property='):]}" for x in kf["fixed"]]
    titles = {p["id"]: p["title"] for p in PROPS}
    out += ["", "## Not applicable", ""] + [f"* {i} ({titles[i]}): {r}" for i, r in NOT_APPLICABLE]
    with open(fn, "w", encoding="utf-8") as f:
        f.write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
