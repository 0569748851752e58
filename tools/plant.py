#!/usr/bin/env python3
"""plant.py new SPEC.py [ID...] | verify ID... : make and verify planted bugs under /verif/seeded (development tool, not used by any check).

SPEC.py defines SEEDS = {id: dict(property=, needs=, breaks=, edits=[(file, old, new)], main="rust source")}."""
import concurrent.futures as cf
import importlib.util
import json
import os
import queue
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
BASE = json.load(open("/opt/vp/BASELINE.json"))
SCR = "/tmp/plant"
Q = queue.Queue()
for i in range(4):
    Q.put("%s/slot%d" % (SCR, i))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def fresh(d):
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + "/repo/.git"):
        sh("cp -a /repo %s/repo" % d, "/")
    sh("git checkout -q -f . && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", d + "/repo")


def new(sid, s):
    d = Q.get()
    try:
        fresh(d)
        for f, o, n in s["edits"]:
            p = d + "/repo/" + f
            t = open(p).read()
            if t.count(o) != 1:
                return sid, "%d matches of %r in %s" % (t.count(o), o[:60], f)
            open(p, "w").write(t.replace(o, n))
        diff = sh("git diff", d + "/repo").stdout
        out = os.path.join(SEEDED, sid)
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/main.rs", "w").write(s["main"])
        shutil.copy(os.path.join(VERIF, "tools", "demo.sh"), out + "/demo.sh")
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
        return sid, verify_in(sid, d)
    finally:
        Q.put(d)


def verify_in(sid, d):
    sd = os.path.join(SEEDED, sid)
    fresh(d)
    r = sh("bash %s/demo.sh" % sd, d + "/repo")
    if r.returncode != 0:
        return "demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-400:]
    r = sh("git apply %s/patch.diff" % sd, d + "/repo")
    if r.returncode:
        return "patch does not apply: " + r.stderr
    r = sh("rm -rf test_out; mkdir test_out; cargo test --workspace --no-fail-fast --offline -- --test-threads 8", d + "/repo")
    failed = sorted(set(re.findall(r"^test (\S+) \.\.\. FAILED", r.stdout, re.M)))
    passed = len(re.findall(r"^test .* \.\.\. ok$", r.stdout, re.M))
    if passed == 0:
        return "does not build: " + r.stderr[-600:]
    r = sh("bash %s/demo.sh" % sd, d + "/repo")
    res = "demo rc=%d; tests ok=%d failed=%s" % (r.returncode, passed, failed)
    if r.returncode in (0, 2) or failed:
        res = "BAD " + res + " " + (r.stdout + r.stderr)[-300:]
    fresh(d)
    return res


def verify(sid):
    d = Q.get()
    try:
        return sid, verify_in(sid, d)
    finally:
        Q.put(d)


if __name__ == "__main__":
    with cf.ThreadPoolExecutor(4) as ex:
        if sys.argv[1] == "new":
            spec = importlib.util.spec_from_file_location("spec", sys.argv[2])
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            ids = sys.argv[3:] or list(m.SEEDS)
            it = ex.map(lambda i: new(i, m.SEEDS[i]), ids)
        else:
            it = ex.map(verify, sys.argv[2:] or sorted(os.listdir(SEEDED)))
        for sid, res in it:
            print(sid, "=>", res, flush=True)
