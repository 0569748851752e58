#!/usr/bin/env python3
"""caught.py [-a] [ID...]: run the check of each planted bug's property (-a: all checks) against a copy of /repo with the bug (development tool)."""
import concurrent.futures as cf
import json
import os
import queue
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/engine")
import props
args = sys.argv[1:]
allp = "-a" in args
args = [a for a in args if a != "-a"]
ids = args or sorted(os.listdir(VERIF + "/seeded"))
Q = queue.Queue()
for i in range(4):
    Q.put("/tmp/caught/slot%d" % i)


def run(sid):
    d = Q.get()
    try:
        sd = "%s/seeded/%s" % (VERIF, sid)
        prop = json.load(open(sd + "/meta.json"))["property"]
        os.makedirs(d + "/build", exist_ok=True)
        subprocess.run("rm -rf %s/repo && mkdir -p %s/repo && git -C /repo archive HEAD | tar x -C %s/repo && cp /repo/Cargo.lock %s/repo/; "
                       "cd %s/repo && git init -q . && git apply %s/patch.diff" % (d, d, d, d, d, sd), shell=True, check=True)
        if not os.path.exists(d + "/build/driver"):
            os.symlink(VERIF + "/.build/driver", d + "/build/driver")
        env = dict(os.environ, ODS_REPO=d + "/repo", ODS_BUILD=d + "/build", ODS_EVIDENCE=d + "/ev")
        out, ok = [], False
        for pr in sorted(props.MODULES) if allp else [prop]:
            r = subprocess.run([sys.executable, VERIF + "/engine/check.py", pr, "quick"], env=env, capture_output=True, text=True)
            if r.returncode:
                keys = [l[l.rindex("(key"):] for l in r.stdout.splitlines() if "(key" in l]
                out.append("%s:%d %s%s" % (pr, r.returncode, keys[:2], "" if keys else r.stderr[-300:]))
                ok = ok or (pr == prop and r.returncode == 1)
        return sid, prop, ok, "; ".join(out)
    finally:
        Q.put(d)


with cf.ThreadPoolExecutor(4) as ex:
    for sid, prop, ok, o in ex.map(run, ids):
        print("%-8s %s %s %s" % ("caught" if ok else "MISSED", prop, sid, o[:300]), flush=True)
