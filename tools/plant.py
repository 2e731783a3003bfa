#!/usr/bin/env python3
"""plant.py SPEC.py [names]: build /verif/seeded/<id> from a list PLANTS of
(id, property, [(file, old, new)], demo source, needs, what it breaks); verifies each in a scratch copy."""
import json, os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
BASE = "19e0e75"
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(HERE, "..", "seeded")
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **k)


def blamed(repo, patch):
    """lines removed by the patch that do not come from the base commit"""
    bad, f, n = [], None, 0
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            b = sh(["git", "blame", "-s", "-L", f"{n},{n}", "HEAD", "--", f], repo).stdout
            if not (b.startswith("^") or b.startswith(BASE)):
                bad.append((f, n, b.strip()[:80]))
            n += 1
        elif l.startswith(" "):
            n += 1
    return bad


def one(p, tests=True):
    pid, prop, edits, demo, needs, breaks = p
    repo = "/tmp/w/plant_" + pid
    shutil.rmtree(repo, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    out = [pid, prop]
    try:
        for f, old, new in edits:
            q = os.path.join(repo, f)
            s = open(q).read()
            if s.count(old) != 1:
                return out + [f"!! {s.count(old)} matches in {f}: {old[:40]!r}"]
            open(q, "w").write(s.replace(old, new))
        patch = sh(["git", "diff"], repo).stdout
        bad = blamed(repo, patch)
        if bad:
            out.append(f"!! not base lines {bad}")
        d = os.path.join(SEED, pid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(patch)
        shutil.copy(HERE + "/plantlib/common.py", d)
        open(d + "/demo.py", "w").write(demo.strip() + "\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport MPLBACKEND=Agg\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        a = sh(["bash", d + "/demo.sh"], "/repo", timeout=300)
        b = sh(["bash", d + "/demo.sh"], repo, timeout=300)
        out.append(f"demo clean={a.returncode} patched={b.returncode}")
        if a.returncode or not b.returncode:
            out.append("!! DEMO " + (a.stdout + a.stderr)[-300:] + " | " + (b.stdout + b.stderr)[-300:])
        elif "Traceback" in b.stderr:
            out.append("traceback: " + b.stderr.strip().splitlines()[-1][:100])
        if tests:
            t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-x", "--co", "-q"], repo)
            t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300"], repo)
            out.append("tests: " + t.stdout.strip().splitlines()[-1][:60])
        caught = []
        for c in sorted(x[:-3] for x in os.listdir(HERE + "/../rules") if x.startswith("c")):
            r = sh(["/usr/bin/python3", "check.py", c.upper()], HERE + "/..", env={**os.environ, "VSA_REPO": repo})
            if r.returncode:
                caught.append(f"{c.upper()}({r.returncode})")
        out.append("caught by: " + (",".join(caught) or "-"))
    finally:
        shutil.rmtree(repo, ignore_errors=True)
    return out


if __name__ == "__main__":
    ps = runpy.run_path(sys.argv[1])["PLANTS"]
    if len(sys.argv) > 2:
        ps = [p for p in ps if p[0] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for o in ex.map(one, ps):
            print(" | ".join(o), flush=True)
