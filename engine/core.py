"""Shared analysis session, finding collection, evidence and verdict."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import facts as factsmod
from mir import Program


class Session:
    """lazily computed artefacts shared by the analyses"""

    def __init__(self):
        self.t0 = time.time()
        path, h = factsmod.ensure_facts()
        self.tree = h
        self.p = Program(path)
        self._w = None
        self._r = None

    @property
    def walker(self):
        if self._w is None:
            import walker
            w = walker.Walker(self.p)
            w.rootstates = []
            for f, o in walker.writer_roots(self.p):
                outs = w.run(f, {}, {}, walker.State())
                w.rootstates.append((f, outs))
            self._w = w
        return self._w

    @property
    def reader(self):
        if self._r is None:
            import reader
            r = reader.Reader(self.p)
            r.roots = reader.reader_roots(self.p)
            for f in r.roots:
                r.explore(f, {})
            self._r = r
        return self._r


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.findings = []
        self.coverage = {}
        self.samples = []
        self.assumptions = []
        self.obligations = 0
        self.rules = []

    def rule(self, text):
        self.rules.append(text)

    def ok(self, what=None, n=1):
        self.obligations += n
        if what is not None and len(self.samples) < 40:
            self.samples.append(what)

    def bad(self, key, what, file=None, line=None, fn=None, rule=None):
        self.obligations += 1
        for f in self.findings:
            if f["key"] == key:
                return
        self.findings.append(dict(key=key, what=what, file=file, line=line, function=fn, rule=rule))

    def bad_at(self, key, what, fn, line=None, rule=None):
        self.bad(key, what, fn.file, line if line is not None else fn.line, fn.path, rule)

    def need(self, cond, key, what):
        """an anchor the analysis depends on: fail closed when it disappeared"""
        if cond:
            self.ok()
        else:
            self.bad("anchor:" + key, "anchor missing: " + what, rule="anchor")
        return cond

    def count(self, **k):
        self.coverage.update(k)


def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def finish(rep, level, t0, explanation):
    known = {k["key"]: k for k in load_known() if k["property"] == rep.prop and k["status"] == "known"}
    viol, kn = [], []
    for f in rep.findings:
        (kn if f["key"] in known else viol).append(f)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cov = dict(rep.coverage)
    cov["obligations"] = rep.obligations
    cov["discharged"] = rep.obligations - len(rep.findings)
    cov["rules"] = rep.rules
    cov["sample_obligations"] = rep.samples
    cov["explanation"] = explanation
    cov["known_findings_seen"] = [f["key"] for f in kn]
    ev = dict(property=rep.prop, tier=rep.tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=rep.assumptions, violations=len(viol))
    d = os.environ.get("ODS_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, rep.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")
    for f in kn:
        print("KNOWN-FINDING: property=%s %s (%s)" % (rep.prop, known[f["key"]].get("text") or f["what"], f["key"]))
    for i, f in enumerate(viol):
        rp = os.path.join(d, "replay-%s-%d.json" % (rep.prop, i))
        with open(rp, "w") as fh:
            json.dump(f, fh, indent=1, default=str)
            fh.write("\n")
        print("%s:%s: in %s: [%s] %s  (key %s)" % (f["file"], f["line"], f["function"], f["rule"], f["what"], f["key"]))
        print("VIOLATION property=%s replay=%s" % (rep.prop, rp))
    if not viol:
        print("OK property=%s obligations=%d known=%d wall=%.1fs" % (rep.prop, rep.obligations, len(kn), time.time() - t0))
    return 1 if viol else 0
