"""C12: loading comes to an end."""
from collections import defaultdict

import walker
from mir import *
from reader import EVK


def reads(p, f):
    """blocks of f that fetch the next XML event"""
    return [b for (b, path, cid, a, t) in f.calls if path.rsplit("::", 1)[-1] in ("read_event_into", "read_event", "read_resolved_event_into") and "quick_xml" in path or
            path.rsplit("::", 1)[-1] in ("read_event_into", "read_event") and "Reader" in path]


def admits_eof(f, b):
    for s, vals in (f.facts.get(b) or {}).items():
        if not vals:
            continue
        pos = {v[1] for v in vals if v[0] == "var"}
        neg = {v[1][1] for v in vals if v[0] == "not" and v[1][0] == "var"}
        if pos and pos <= EVK and len(pos) == len(vals) and "Eof" not in pos:
            return False
        if neg and len(neg) == len(vals) == 1 and "Eof" in neg:
            return False
    return True


def sccs(f, nodes):
    """cycles of the control flow graph within nodes"""
    idx, low, st, on, out = {}, {}, [], set(), []
    for root in sorted(nodes):
        if root in idx:
            continue
        work = [(root, iter([x for x in f.succs(root) if x in nodes]))]
        idx[root] = low[root] = len(idx)
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter([x for x in f.succs(w) if x in nodes])))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in f.succs(v):
                        out.append(c)
    return out


def progress(f, c):
    """all cycles of c pass a block that counts or changes something through a mutable reference"""
    step = set()
    for b in c:
        for st in f.bbs[b]["s"]:
            if st[0] == "=" and st[2][0] in ("bin", "cbin") and str(st[2][1]).startswith(("Add", "Sub", "Mul", "Div", "Shr", "Shl")) and not any("'i': 0}" in str(o) for o in st[2][2:]):
                step.add(b)
        t = f.bbs[b]["t"]
        if t[0] == "call":
            for a in t[2]:
                if a[0] in ("c", "m") and f.locals[a[1][0]][0].startswith("&") and "mut " in f.locals[a[1][0]][0][:24]:
                    step.add(b)
    return not sccs(f, set(c) - step)


def check_end(s, rep):
    p, rd = s.p, s.reader
    rep.rule("from every fetch of an XML event, no path that is compatible with the event being Eof leads to a fetch again within the same loop")
    loops = 0
    fns = [p.fns[i] for i in sorted(p.reach(rd.roots), key=str)]
    for f in fns:
        rs = [b for b in reads(p, f) if b in f.reachable]
        if not rs:
            continue
        edges = {}
        for c in rs:
            t = f.bbs[c]["t"]
            seen, todo, hit = set(), list(f.succs(c)), set()
            while todo:
                b = todo.pop()
                if b in seen:
                    continue
                seen.add(b)
                if b in rs:
                    hit.add(b)
                    continue
                if not admits_eof(f, b):
                    continue
                todo += f.succs(b)
            edges[c] = hit
        for c in rs:
            # a cycle through c
            seen, todo = set(), list(edges[c])
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                todo += edges[x]
            loops += 1
            if c in seen:
                rep.bad("endless:%s" % f.name, "the loop goes on after the end of the input: it never ends for a truncated document", f.file, f.bbs[c]["t"][5], f.path, "end-of-input")
            else:
                rep.ok("%s:%s" % (f.name, f.bbs[c]["t"][5]))
    # every other loop: driven by an iterator, or it changes something
    others = 0
    for f in fns:
        cut = set(reads(p, f)) | {b for (b, path, cid, a, t) in f.calls if path.rsplit("::", 1)[-1] in ("next", "next_back")}
        for c in sccs(f, set(f.reachable) - cut):
            others += 1
            if progress(f, c):
                rep.ok("%s: counting loop" % f.name)
            else:
                b = min(c)
                line = next((f.bbs[x]["t"][5] for x in sorted(c) if f.bbs[x]["t"][0] == "call"), f.line)
                rep.bad("no-progress:%s" % f.name, "a loop that neither fetches an event nor the next item of an iterator, nor changes anything it tests", f.file, line, f.path, "progress")
    rep.count(event_loops=loops, other_loops=others, functions=len(fns))
    rep.need(loops > 20, "loops", "the event loops of the reader")


PROPS = {"C12": (check_end, "other", "path exploration of event loops")}
