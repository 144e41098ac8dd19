"""Author's helper (no check uses it): apply small edits to a copy of the package and run the checks on it.

usage: python3 tools/redteam.py SPEC.py [ID...]
SPEC defines BUGS = [(id, property, [(file, old, new), ...])] - the property's check must report -
and/or KEEP = [(id, [(file, old, new), ...])] - behaviour-preserving edits, no check may report.
"""
import ast
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("REDTEAM_REPO", "/repo")
ALL = [f"C{i:02d}" for i in range(1, 60)]


def build(edits):
    wt = tempfile.mkdtemp(prefix="red_")
    shutil.copytree(REPO, wt + "/r", symlinks=True, ignore=shutil.ignore_patterns(".git", "tests", "docs", "examples", "*.pyc", "__pycache__"))
    for f, old, new in edits:
        path = f"{wt}/r/mt_metadata/{f}"
        s = open(path, encoding="utf-8").read()
        if old not in s:
            # blank lines and comment lines between the lines do not matter
            pat = r"\n(?:[ \t]*(?:#[^\n]*)?\n)*".join(re.escape(x) for x in old.split("\n") if x.strip()) + r"\n?"
            m = re.search(pat, s)
            if m is None:
                shutil.rmtree(wt)
                return None, f"text not found in {f}: {old[:60]!r}"
            s = s[:m.start()] + new + s[m.end():]
        else:
            s = s.replace(old, new, 1)
        try:
            ast.parse(s)
        except SyntaxError as e:
            shutil.rmtree(wt)
            return None, f"syntax {f}: {e}"
        open(path, "w", encoding="utf-8").write(s)
    return wt, None


def check(wt, prop):
    env = dict(os.environ, MTCHECK_REPO=wt + "/r", MTCHECK_EVIDENCE=wt)
    r = subprocess.run(["python3", "-m", "mtcheck", prop], cwd="/verif", env=env, capture_output=True, text=True)
    lines = [l for l in (r.stdout + r.stderr).splitlines() if "KNOWN" not in l]
    return r.returncode, lines


def bug(b):
    i, prop, edits = b
    wt, err = build(edits)
    if err:
        return f"{i} {prop} SPEC {err}"
    rc, lines = check(wt, prop)
    try:
        if rc == 1:
            w = [l for l in lines if l.startswith(("  ", "violation", "- ")) or ".py:" in l]
            return f"{i} {prop} caught  {w[0][:150] if w else ''}"
        if rc == 0:
            return f"{i} {prop} MISSED"
        return f"{i} {prop} NOANSWER {lines[-2:]}"
    finally:
        shutil.rmtree(wt)


def keep(b):
    i, edits = b
    wt, err = build(edits)
    if err:
        return f"{i} SPEC {err}"
    try:
        rc, lines = check(wt, "all")
        if rc == 0:
            return f"{i} quiet"
        return f"{i} ALARM rc={rc}\n    " + "\n    ".join(l for l in lines if "held on" not in l and "analysed" not in l)[:1500]
    finally:
        shutil.rmtree(wt)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    jobs = [(bug, b) for b in ns.get("BUGS", []) if not only or b[0] in only or b[1] in only] + [(keep, b) for b in ns.get("KEEP", []) if not only or b[0] in only]
    with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
        for out in ex.map(lambda j: j[0](j[1]), jobs):
            if os.environ.get("V") or "caught" not in out and "quiet" not in out:
                print(out, flush=True)
    print(len(jobs), "run")
