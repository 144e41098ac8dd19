"""Author's helper (no check uses it): build and validate one planted bug.

usage: python3 tools/mkbug.py SPEC.py     SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]
       python3 tools/mkbug.py --recheck [ID...]   re-run demo + check for existing /verif/seeded entries (no tests)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

SEED = "/verif/seeded"
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = '#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nHERE="$(cd "$(dirname "$0")" && pwd)"\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$HERE/demo.py"\n'


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def demo(d, wt):
    # the demo's folder is laid elsewhere when it counts
    with tempfile.TemporaryDirectory() as t:
        x = os.path.join(t, "d")
        shutil.copytree(d, x, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        return run(["bash", os.path.join(x, "demo.sh")], wt, timeout=300)


def tests(wt, quick):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", TZ="UTC", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    with tempfile.TemporaryDirectory() as t:
        run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", f"--basetemp={t}/tmp", "-n", "6", "--dist", "loadfile", "-m", "not internet",
             "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={t}/junit.xml"], wt, env=env)
        run(["/usr/bin/python3", "/opt/vp/results.py", f"{t}/o.json", f"junit:{t}/junit.xml"], wt)
        return BASE - set(json.load(open(f"{t}/o.json"))["passed"])


def check(prop, wt):
    env = dict(os.environ, MTCHECK_REPO=wt, VERIF_SEED="1", MTCHECK_EVIDENCE=tempfile.gettempdir())
    r = run(["python3", "-m", "mtcheck", prop, "--tier", "quick"], "/verif", env=env)
    return r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l or "violation" in l.lower()][:4], r.stderr[-300:]


def one(b):
    d = os.path.join(SEED, b["id"])
    os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix="bug_")
    wt2 = os.path.join(wt, "repo")
    shutil.copytree("/repo", wt2, symlinks=True)
    try:
        open(d + "/demo.sh", "w").write(DEMO_SH)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = demo(d, wt2)
        ok = r.returncode == 0
        msg = [] if ok else ["CLEAN DEMO FAILS: " + (r.stdout + r.stderr)[-600:]]
        for f, old, new in b["edits"]:
            path = os.path.join(wt2, "mt_metadata", f)
            s = open(path, encoding="utf-8", newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                msg.append(f"EDIT MATCHES {s.count(old)} TIMES in {f}")
                return b["id"], msg
            open(path, "w", encoding="utf-8", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=wt2, capture_output=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
        r = run("/opt/venv/bin/python -m compileall -q mt_metadata && /opt/venv/bin/python -c 'import mt_metadata'", wt2)
        if r.returncode:
            msg.append("BUILD FAILS " + r.stderr[-300:])
        r = demo(d, wt2)
        if r.returncode == 0:
            msg.append("BUGGY DEMO PASSES")
        else:
            msg.append("demo: " + (r.stdout + r.stderr).strip().splitlines()[-1][:160])
        if "--notest" not in sys.argv:
            miss = tests(wt2, False)
            if miss:
                msg.append(f"TESTS FAIL {len(miss)} {sorted(miss)[:3]}")
        rc, v, err = check(b["prop"], wt2)
        msg.append(("CAUGHT " if rc == 1 else f"MISSED rc={rc} {err} ") + " | ".join(x[:200] for x in v))
        return b["id"], msg
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def recheck(ids):
    for i in ids or sorted(os.listdir(SEED)):
        d = os.path.join(SEED, i)
        wt = tempfile.mkdtemp(prefix="bug_")
        wt2 = os.path.join(wt, "repo")
        shutil.copytree("/repo", wt2, symlinks=True)
        try:
            prop = json.load(open(d + "/meta.json"))["property"]
            r0 = demo(d, wt2).returncode
            a = run(["git", "apply", d + "/patch.diff"], wt2)
            r1 = demo(d, wt2).returncode
            rc, v, err = check(prop, wt2)
            print(i, prop, "demo", r0, r1, "apply", a.returncode, "check", rc, v[:1], flush=True)
        finally:
            shutil.rmtree(wt, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--recheck":
        recheck(sys.argv[2:])
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        sel = [a for a in sys.argv[2:] if not a.startswith("--")]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(2) as ex:
            for i, m in ex.map(one, [b for b in ns["BUGS"] if not sel or b["id"] in sel]):
                print(i, *("\n   " + x for x in m), flush=True)
