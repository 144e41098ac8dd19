"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json
import os

from props import NOT_APPLICABLE, PROPS

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in PROPS:
            d = {
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 -m compileall -q mtcheck",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"python3 -m mtcheck {p['id']} --tier quick",
                "thorough_cmd": f"python3 -m mtcheck {p['id']} --tier thorough",
                "technique": p["technique"],
                "level": "other",
                "level_note": p["note"],
            }
            for p in PROPS if p.get("technique")
        ],
        "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
