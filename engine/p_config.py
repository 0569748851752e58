"""C07: settings keep their structure, names, types and values."""
from collections import defaultdict

import p_rt
import p_value
import roundtrip
from mir import *
from roundtrip import Check

SETS = ("config:config-item-set", "config:config-item-map-indexed", "config:config-item-map-named", "config:config-item-map-entry")
SPECIAL = {("config:config-item", "config:type"): 1, ("config:config-item", "config:type", "token"): 1}
for x in SETS:
    # an item that is written as an empty tag leaves no text behind: the writer table does not relate the two conditions
    SPECIAL[(x, "")] = 1


def find(p, name, need):
    for path, a in p.adts.items():
        if path.rsplit("::", 1)[-1] == name and a["kind"] == "enum" and need <= {v["name"] for v in a["variants"]}:
            return path


def check(s, rep):
    p, rd = s.p, s.reader
    import p_store
    p_store.containers(p, rep, ("config::ConfigMap", "config::ConfigItem", "config::ConfigIter", "config::Config"), "settings")
    p_store.parsers(p, rep, False)
    c = Check(s, rep, p_rt.sel("C07"), p_rt.SPEC.get("C07", {}), SPECIAL)
    c.run()
    rt = c.rt
    enum = find(p, "ConfigValue", {"Boolean", "String"})
    item = find(p, "ConfigItem", {"Value", "Set"})
    if not rep.need(enum and item, "ConfigValue", "the enums of settings"):
        return
    rep.rule("per variant of the setting value: one config:type token, read back to the same variant, its text parsed into the same payload; per kind of "
             "setting group: one element, read back to the same kind")
    el = "config:config-item"
    variants = {v["name"] for v in p.adts[enum]["variants"]}
    p_value.union(s, rep, rt, enum, el, "config:type", benign=empty_guard)
    # kinds of groups
    wk = defaultdict(set)
    for e2, rows in rt.Wopen.items():
        if e2 in SETS:
            for r in rows:
                wk[e2] |= own_variants(p, r.fn, r.line, item)
    rk = defaultdict(set)
    for (f, env, b, g, e2) in rd.visits:
        for tag in e2.values():
            if tag[0] == "tag":
                for n in tag[1]:
                    if n in SETS:
                        rk[n] |= made(p, g, item, rd)
    for e2 in SETS:
        w, r = wk.get(e2, set()), rk.get(e2, set())
        if len(w) == 1 and len(r) == 1:
            if r == w:
                rep.ok("%s <-> ConfigItem.%s" % (e2, next(iter(r))))
            else:
                rep.bad("group:" + e2, "%s is written for ConfigItem.%s but read as ConfigItem.%s" % (e2, sorted(w), sorted(r)), rule="group")
    rep.count(groups={k: sorted(v) for k, v in rk.items()}, variants=len(variants))
    import p_content
    p_content.common(s, rep)


def own_variants(p, f, line, item, depth=0):
    """variants of the item for which an element is opened at this place: tested here or, failing that, at the calls of this function"""
    out = set()
    for (b, path, cid, a, t) in f.calls:
        if t[5] == line:
            for subj, vals in (f.facts.get(b) or {}).items():
                vs = {v[1] for v in vals if v[0] == "var"}
                if vs and len(vs) <= 2 and vs <= {v["name"] for v in p.adts[item]["variants"]}:
                    out |= vs
    if not out and depth < 2:
        for (g, b) in p.callers.get(f.id, ()):
            out |= own_variants(p, g, g.bbs[b]["t"][5], item, depth + 1)
    return out


def empty_guard(g):
    return "is_empty" in repr(g[0])[:2000]


def made(p, g, item, rd, depth=0):
    out = {var for _, var, _, _ in p_value.aggs(p, g, item)} - {"Value"}
    if depth < 2:
        for (b, path, cid, a, t) in g.calls:
            h = p.fns.get(cid)
            if h is not None and not rd.is_reader(h) and h.argc == 0:
                out |= made(p, h, item, rd, depth + 1)
    return out


PROPS = {"C07": (check, "other", "tagged-union agreement of writer and reader")}
