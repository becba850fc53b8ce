#!/usr/bin/env python3
"""plant.py FILE: read planted-bug definitions (Python, calling bug(...)) and
write seeded/<id>/ after checking that each one applies, builds, passes the
stable tests and is shown by its demonstration."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/plant-wt"
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


def sh(cmd, **kw):
    return subprocess.run("ulimit -v 6000000; " + cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def original_lines(diff):
    """Does the patch change only lines of the repository as first given?"""
    blame = {}
    f = None
    ok = True
    for L in diff.splitlines():
        if L.startswith("--- a/"):
            f = L[6:]
            blame[f] = sh("git -C %s blame -s HEAD -- %s" % (WT, f)).stdout.splitlines()
        elif L.startswith("@@"):
            at = int(L.split()[1].split(",")[0][1:]) - 1
        elif f and L[:1] in " -" and not L.startswith("---"):
            if L[0] == "-":
                c = blame[f][at].split()[0].lstrip("^")
                if sh("git -C %s log -1 --format=%%s %s" % (REPO, c)).stdout.startswith("fix:"):
                    print("   changes a repaired line:", L)
                    ok = False
            at += 1
    return ok


def bug(id, prop, needs, breaks, edits, demo):
    d = os.path.join(ROOT, "seeded", id)
    for f, old, new in edits:
        p = os.path.join(WT, "pads", f)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, "edit text occurs %d times in %s" % (s.count(old), f))
            sh("git -C %s checkout -q -- ." % WT)
            return
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C %s diff" % WT).stdout
    if not original_lines(diff):
        print("BAD", id)
        sh("git -C %s checkout -q -- ." % WT)
        return
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        "#!/bin/bash\n# exits 0 when the library behaves, nonzero with the planted bug\n"
        'here=$(cd "$(dirname "$0")" && pwd)\n'
        'PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD" timeout 250 /opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    sh_ = os.path.join(d, "demo.sh")
    ok = sh(sh_, cwd=REPO)
    bad = sh(sh_, cwd=WT)
    t = sh("%s -B -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1" % "/opt/venv/bin/python", cwd=WT, env=ENV)
    sh("git -C %s checkout -q -- ." % WT)
    good = ok.returncode == 0 and bad.returncode != 0 and "failed" not in t.stdout and "passed" in t.stdout
    print("%-8s %s %s demo clean=%d bug=%d tests=%s" % (
        "ok" if good else "BAD", id, prop, ok.returncode, bad.returncode, t.stdout.strip()))
    if ok.returncode:
        print(ok.stdout[-800:])
    if not good:
        print(bad.stdout[-500:])


if __name__ == "__main__":
    sh("git -C %s worktree remove --force %s" % (REPO, WT))
    r = sh("git -C %s worktree add --detach %s HEAD" % (REPO, WT))
    if r.returncode:
        sys.exit(r.stdout)
    try:
        exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), {"bug": bug})
    finally:
        sh("git -C %s worktree remove --force %s" % (REPO, WT))
        sh("git -C %s worktree prune" % REPO)
