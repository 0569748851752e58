"""C09: every style goes to the document section of its origin and use, and comes back from there."""
import ast
import re
from collections import defaultdict

import tables
from mir import *
from reader import q

SECTIONS = {"office:styles", "office:automatic-styles", "office:font-face-decls"}
ODS = {"office:document-content": "Content", "office:document-styles": "Styles"}
FODS = {"office:document": "Content"}
FAMILY = {"TableStyle": "table", "ColStyle": "table-column", "RowStyle": "table-row", "CellStyle": "table-cell", "ParagraphStyle": "paragraph", "TextStyle": "text",
          "RubyStyle": "ruby", "GraphicStyle": "graphic"}


def families(p):
    """{collection field of the workbook: (struct, has origin, has styleuse)}"""
    wb = next((a for path, a in p.adts.items() if q(path) == "WorkBook"), None)
    out = {}
    for v in (wb or {}).get("variants", ()):
        for f in v["fields"]:
            for path, a in p.adts.items():
                if a["kind"] == "struct" and re.search(r"\b%s\b" % re.escape(path), f[1]):
                    ns = {x[0] for vv in a["variants"] for x in vv["fields"]}
                    if "origin" in ns:
                        out[f[0]] = (q(path), "styleuse" in ns)
    return out


def variants(p, name):
    return next(([v["name"] for v in a["variants"]] for path, a in p.adts.items() if q(path) == name and a["kind"] == "enum"), [])


def allowed(p, r, coll, os, us):
    """((origin, use) pairs a row is written for, is the row about this collection, undecided?)"""
    so, su, about, open_ = set(os), set(us), False, False
    for k, v in r.guards:
        ps = tables.value_paths(p, k)
        if not any(x[0][0] == "WorkBook" and x[0][2] == coll for x in ps):
            continue
        about = True
        fs = {x[-1][2] for x in ps if x[-1][2] in ("origin", "styleuse")}
        if not fs:
            continue
        if len(fs) > 1:
            open_ = True
            continue
        f = next(iter(fs))
        got = decode(k, v, os if f == "origin" else us)
        if got is None:
            open_ = True
        elif f == "origin":
            so &= got
        else:
            su &= got
    return {(o, u) for o in so for u in su}, about, open_


def decode(k, v, dom):
    v = frozenset(v)
    if k[0] == "eq":
        c = [x for x in (strip(k[1]), strip(k[2])) if x[0] == "agg" and not x[3]]
        n = [x[2] for x in c] + [x[2][1] for x in (strip(k[1]), strip(k[2])) if x[0] == "const" and x[1] == "e"]
        if len(n) != 1 or n[0] not in dom:
            return None
        if v == frozenset({("bool", True)}):
            return {n[0]}
        if v == frozenset({("bool", False)}):
            return set(dom) - {n[0]}
        return None
    if k[0] == "field":
        pos = {x[1] for x in v if x[0] == "var"}
        neg = {x[1][1] for x in v if x[0] == "not" and x[1][0] == "var"}
        if len(v) == 1 and pos and pos <= set(dom):
            return pos
        if len(v) == 1 and neg and neg <= set(dom):
            return set(dom) - neg
        if not neg and pos and pos <= set(dom):
            return pos
    return None


def normalised(s, roots):
    """collections whose styles all get one origin before the document is written: {coll: origin}"""
    p = s.p
    out = {}
    seen, todo = set(), list(roots)
    while todo:
        f = todo.pop()
        if f.id in seen:
            continue
        seen.add(f.id)
        for (b, path, cid, args, t) in f.calls:
            g = p.fns.get(cid)
            if path.rsplit("::", 1)[-1] == "set_origin" and len(args) == 2:
                a = f.term_op(args[1], True)
                rc = f.term_op(args[0], True)
                colls = {x[0][2] for x in tables.value_paths(p, rc) if x[0][0] == "WorkBook"}
                nm = a[2] if a[0] == "agg" else a[2][1] if a[0] == "const" and a[1] == "e" else None
                conds = [u for u in f.ctrl_branches(b) if not is_next(f, u)]
                if nm and len(colls) == 1 and not conds:
                    out[next(iter(colls))] = nm
            if g is not None and g.mutates:
                todo.append(g)
    return out


def is_next(f, u):
    """the branch block u tests the result of an iterator's next(), or of a fallible call"""
    t = f.bbs[u]["t"]
    x = strip(f.term_op(t[1], True))
    while x[0] in ("discr", "un"):
        x = strip(x[-1])
    return x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("next", "branch", "next_back") or x[0] == "field" and "ControlFlow" in str(x[1])


def reader_map(s):
    """{(document root, section, struct, element): {field: variants}}, sections read per root"""
    rd = s.reader
    nxt = defaultdict(list)
    for v in rd.visits:
        nxt[v[0].id, rd.envkey(v[1])].append(v)
    eff = defaultdict(list)
    for e in rd.effects:
        if e.path[-1][2] in ("origin", "styleuse"):
            eff[e.fn.id, rd.envkey(e.env)].append(e)
    out = defaultdict(lambda: defaultdict(set))
    made = defaultdict(set)
    for (f, env, b, g, e2) in rd.visits:
        n = rd.bfacts(f, b)[0]
        if not n or not n & SECTIONS:
            continue
        roots = doc_roots(s, f)
        todo, seen = [(g.id, rd.envkey(e2))], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += [(v[3].id, rd.envkey(v[4])) for v in nxt.get(x, ())]
            for e in eff.get(x, ()):
                cs = set()
                for y in e.srcs:
                    if y[0] == "const":
                        try:
                            cs.add(ast.literal_eval(y[1])[1])
                        except (ValueError, SyntaxError, TypeError):
                            cs.add("?")
                    else:
                        cs.add("?")
                for r in roots:
                    for sec in n & SECTIONS:
                        for el in e.tags or {"*"}:
                            out[r, sec, q(e.path[-1][0]), el][e.path[-1][2]] |= cs or {"?"}
                            made[r, sec, q(e.path[-1][0])].add((e.fn, e.line))
    return out, made


def doc_roots(s, f, depth=0, seen=None):
    rd = s.reader
    seen = seen if seen is not None else set()
    if f.id in seen or depth > 3:
        return set()
    seen.add(f.id)
    out = set()
    for b in f.reachable:
        x = rd.bfacts(f, b)[0]
        if x:
            out |= {y for y in x if y.startswith("office:document")}
    if not out:
        for v in rd.visits:
            if v[3].id == f.id:
                out |= doc_roots(s, v[0], depth + 1, seen)
    return out


def check(s, rep):
    p = s.p
    fam = families(p)
    os, us = variants(p, "StyleOrigin"), variants(p, "StyleUse")
    if not rep.need(len(fam) >= 10 and len(os) == 2 and len(us) == 3, "families", "the style collections of the workbook and the enums StyleOrigin and StyleUse"):
        return
    rep.rule("per style collection, origin and use: exactly one section of the document is written for it, it is the section ODF has for this use, and the reader of "
             "this section restores this use and origin in the same kind of style")
    rows = tables.writer_table(s)
    R, made = reader_map(s)
    docs = [("ods", ODS), ("fods", FODS)]
    # which functions write the flat document
    roots = {}
    for f in p.fns.values():
        roots.setdefault(f.name, []).append(f)
    opens = [r for r in rows if r.kind in ("start", "empty") and len(r.stack) >= 1 and r.stack[0] in set(ODS) | set(FODS)]
    fods_fns = [f for nm in {r.chain[0] for r in opens if r.stack[0] in FODS} for f in roots.get(nm, ())]
    callers = {f.id for f in p.fns.values() for (b, path, cid, args, t) in f.calls if cid in {g.id for g in fods_fns}}
    norm = normalised(s, [p.fns[x] for x in callers])
    rep.count(collections=len(fam), reader_contexts=len(R), normalised=len(norm))
    for coll, (ty, has_use) in sorted(fam.items()):
        ul = us if has_use else ["-"]
        own = [r for r in opens if any(any(x[0][0] == "WorkBook" and x[0][2] == coll for x in tables.value_paths(p, k)) for k, v in r.guards)
               and (r.elem in ("style:style", "style:default-style", "style:font-face") or r.elem.startswith("number:") and r.elem.endswith("-style"))]
        for doc, rs in docs:
            W = defaultdict(lambda: defaultdict(list))
            undecided = False
            for r in own:
                if r.stack[0] not in rs:
                    continue
                al, about, op = allowed(p, r, coll, os, ul)
                undecided = undecided or op
                sec = r.stack[-1] if r.stack[-1] in SECTIONS else None
                for ou in al:
                    W[ou][r.stack[0], sec].append(r)
            if undecided:
                rep.count(undecided=1)
                continue
            for o in os:
                for u in ul:
                    oo = norm.get(coll, o) if doc == "fods" else o
                    ws = {k: v for k, v in W[oo, u].items() if k[1]}
                    name = "%s with StyleOrigin::%s%s" % (coll, o, "" if u == "-" else " and StyleUse::" + u)
                    key = "%s:%s:%s:%s" % (doc, coll, o, u)
                    if not ws:
                        rep.bad("unwritten:" + key, "%s: %s are not written to any section" % (doc, name), rule="section-coverage")
                        continue
                    if len(ws) > 1:
                        r = sorted(ws.items())[1][1][0]
                        rep.bad("twice:" + key, "%s: %s are written to %s" % (doc, name, " and to ".join("%s/%s" % k for k in sorted(ws))), r.fn.file, r.line, r.fn.path, "section-unique")
                        continue
                    (root, sec), rl = next(iter(ws.items()))
                    r = rl[0]
                    want = {"Automatic": "office:automatic-styles", "-": "office:font-face-decls"}.get(u, "office:styles")
                    if sec != want:
                        rep.bad("section:" + key, "%s: %s are written to %s instead of %s" % (doc, name, sec, want), r.fn.file, r.line, r.fn.path, "section")
                        continue
                    if u in ("Automatic", "-") and doc == "ods" and ODS[root] != o:
                        rep.bad("part:" + key, "%s: %s are written to %s" % (doc, name, root), r.fn.file, r.line, r.fn.path, "section")
                        continue
                    els = {x.elem for x in rl}
                    if ty in FAMILY:
                        welem = "style:default-style" if u == "Default" else "style:style"
                        if els != {welem}:
                            rep.bad("element:" + key, "%s: %s are written as <%s> instead of <%s>" % (doc, name, ">, <".join(sorted(els)), welem), r.fn.file, r.line, r.fn.path, "section")
                            continue
                        els = {welem}
                    # what the reader of this section makes of it
                    got = defaultdict(set)
                    hit = False
                    for (r2, s2, t2, e2), fs in R.items():
                        if r2 == root and s2 == sec and t2 == ty and (e2 == "*" or e2 in els):
                            hit = True
                            for f, v in fs.items():
                                got[f] |= v
                    ro = dict(ODS, **FODS)[root]
                    bad = False
                    for f, exp, dflt in (("origin", ro, "Content"), ("styleuse", u, "Automatic")):
                        if f == "styleuse" and (u == "-" or u == "Default" and ty not in FAMILY):
                            continue
                        g = got.get(f) or ({dflt})
                        if "?" in g:
                            continue
                        if g != {exp}:
                            bad = True
                            fn, line = next(iter(sorted(made.get((root, sec, ty), ()), key=lambda x: (x[0].path, x[1]))), (r.fn, r.line))
                            rep.bad("restore:%s:%s" % (key, f), "%s: %s in <%s> of <%s> are read back with %s = %s instead of %s" % (
                                doc, ty, sec, root, f, "/".join(sorted(g)), exp), fn.file, line, fn.path, "section-restore")
                    if not bad:
                        rep.ok("%s %s <-> %s/%s" % (doc, name, root, sec))

    dispatch(s, rep, fam)


def dispatch(s, rep, fam):
    """style:family: written per collection, read back into the same collection"""
    p, rd = s.p, s.reader
    rep.rule("style:family as written for a collection is the ODF name of this family, and the reader files a style of this family in the same collection")
    W = defaultdict(set)
    for r in tables.writer_table(s):
        if r.kind == "attr" and r.attr == "style:family" and r.elem in ("style:style", "style:default-style"):
            cs = consts(r.value)
            for k, v in r.guards:
                for x in tables.value_paths(p, k):
                    if x[0][0] == "WorkBook" and x[0][2] in fam:
                        W[x[0][2]] |= {(c, r.fn, r.line) for c in cs}
    nxt = defaultdict(list)
    for v in rd.visits:
        nxt[v[0].id, rd.envkey(v[1])].append(v)
    eff = defaultdict(set)
    for e in rd.effects:
        for c in e.path:
            if q(c[0]) == "WorkBook" and c[2] in fam:
                eff[e.fn.id, rd.envkey(e.env)].add(c[2])
    R = defaultdict(set)
    for (f, env, b, g, e2) in rd.visits:
        tags = [e for e in e2.values() if e[0] == "tag" and set(e[1]) & {"style:style", "style:default-style"}]
        if not tags:
            continue
        vals = None
        for sj, vs in (f.facts.get(b) or {}).items():
            sj = strip(sj)
            if vs and all(v[0] == "str" for v in vs):
                if sj[0] == "field" and sj[3] == "value" and "Attribute" in sj[1]:
                    vals = {v[1] for v in vs}
        if vals is None:
            continue
        todo, seen, colls = [(g.id, rd.envkey(e2))], set(), set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            colls |= eff.get(x, set())
            todo += [(v[3].id, rd.envkey(v[4])) for v in nxt.get(x, ())]
        for v in vals:
            R[v] |= {(c, f, b) for c in colls}
    rep.count(families_read=len(R), families_written=len(W))
    for coll, (ty, _) in sorted(fam.items()):
        want = FAMILY.get(ty)
        if not want:
            continue
        for c, f, line in sorted(W.get(coll, ()), key=lambda x: (x[0], x[2])):
            if c != want:
                rep.bad("family-written:%s" % coll, "%s are written with style:family=%s" % (coll, c), f.file, line, f.path, "family")
            else:
                rep.ok("%s -> style:family=%s" % (coll, c))
        rs = R.get(want, set())
        names = {x[0] for x in rs}
        if rs and coll not in names:
            f, b = sorted(rs, key=lambda x: x[0])[0][1:]
            rep.bad("family-read:%s" % coll, "style:family=%s is read into %s" % (want, ", ".join(sorted(names))), f.file, f.bbs[b]["t"][5], f.path, "family")
        elif rs:
            rep.ok("style:family=%s -> %s" % (want, coll))


def consts(t):
    out, st = set(), [t]
    while st:
        x = strip(st.pop())
        if x[0] == "const" and x[1] in ("s", "b"):
            out.add(str(x[2]))
        elif x[0] == "phi":
            st += list(x[1])
        elif x[0] == "under":
            st.append(x[2])
    return out


PROPS = {"C09": (check, "other", "constant propagation of origin and use through writer and reader contexts")}
