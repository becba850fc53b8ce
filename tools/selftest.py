#!/usr/bin/env python3
"""selftest.py [C05 ...]: does the judge notice a changed answer?

Records the quick traces of a property, changes one value of one event in each of
a sample of them (a number by one, a truth value, an element dropped, repeated or
swapped, an exception added or taken away) and lets TLC judge the changed traces.
A changed trace may still be legal (a request was changed, or another answer is as
good); the accepted ones are listed by event and field so that they can be looked at."""
import json
import os
import random
import re
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import registry  # noqa: E402
import run  # noqa: E402

SAMPLE = int(os.environ.get("SAMPLE", "60"))


def places(x, path=()):
    """Paths of the values inside an event that can be changed."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k != "op":
                yield from places(v, path + (k,))
    elif isinstance(x, list):
        if x:
            yield path
        for i, v in enumerate(x[:40]):
            yield from places(v, path + (i,))
    elif x is not None:
        yield path


def change(x, rng, key):
    if isinstance(x, bool):
        return not x, "flipped"
    if isinstance(x, int):
        return x + rng.choice((-1, 1)), "off by one"
    if isinstance(x, str):
        if key == "exc":
            return ("" if x else "ValueError"), "exception"
        return (x[:-1] if x and rng.random() < .5 else x + "x"), "text"
    y = list(x)
    i = rng.randrange(len(y))
    k = rng.choice(("dropped", "repeated", "swapped"))
    if k == "dropped":
        del y[i]
    elif k == "repeated":
        y.insert(i, y[i])
    else:
        j = rng.randrange(len(y))
        y[i], y[j] = y[j], y[i]
        if y == x:
            del y[i]
            k = "dropped"
    return y, k


def corrupt(tr, rng):
    t = json.loads(json.dumps(tr))
    n = rng.randrange(len(t["ops"]))
    e = t["ops"][n]
    byfield = {}
    for p in places(e):
        byfield.setdefault(p[0], []).append(p)
    if not byfield:
        return None
    p = rng.choice(byfield[rng.choice(sorted(byfield))])
    at = e
    for k in p[:-1]:
        at = at[k]
    at[p[-1]], how = change(at[p[-1]], rng, p[-1])
    return t, n, "%s.%s %s" % (e["op"], p[0], how)


def verdicts(mod, ts, work):
    f = os.path.join(work, "c%d.json" % random.getrandbits(60))
    json.dump(ts, open(f, "w"))
    try:
        r = run.tlc(mod, mod + ".cfg", work, env={"TRACE": f}, limit=200, workers=2, heap="3g")
    except run.Machinery:
        r = {"rc": 1, "out": ""}
    if r["rc"] == 0 and "No error has been found" in r["out"]:
        bad = {int(m.group(1)) - 1: int(m.group(2)) for m in re.finditer(r'"FAIL (\d+) (\d+) ', r["out"])}
        return [bad.get(i) for i in range(len(ts))]
    if len(ts) == 1:
        return [0]
    k = len(ts) // 2
    return verdicts(mod, ts[:k], work) + verdicts(mod, ts[k:], work)


def one(pid):
    rng = random.Random(pid)
    with tempfile.TemporaryDirectory(dir=os.path.join(ROOT, ".work")) as work:
        keep = os.path.join(work, "t.json")
        subprocess.run([os.path.join(ROOT, "check"), pid, "--keep", keep], cwd=ROOT, stdout=subprocess.DEVNULL)
        data = [t for t in json.load(open(keep)) if t["ops"] and len(json.dumps(t)) < 20000]
        rng.shuffle(data)
        groups = {}
        for t in data[:SAMPLE]:
            c = corrupt(t, rng)
            if c:
                groups.setdefault(c[0].pop("spec", registry.CHECKS[pid]["judge"]), []).append(c)
        n = rejected = there = outside = 0
        kept = {}
        for mod, cs in groups.items():
            for c, v in zip(cs, verdicts(mod, [c[0] for c in cs], work)):
                n += 1
                if v is None:
                    kept[c[2]] = kept.get(c[2], 0) + 1
                    print(pid, c[2], c[0].get("id"), c[1], json.dumps(c[0]["ops"][c[1]])[:300], file=sys.stderr)
                else:
                    rejected += 1
                    there += v == c[1] + 1
                    outside += v == 0
    res = {"property": pid, "changed": n, "rejected": rejected, "at_event": there, "outside_domain": outside, "accepted": kept}
    print(json.dumps(res), flush=True)


if __name__ == "__main__":
    os.makedirs(os.path.join(ROOT, ".work"), exist_ok=True)
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(one, sys.argv[1:] or sorted(registry.CHECKS)))
