"""C03, C17: the headers of columns and rows: splitting, joining and writing them keeps what they say about each column and row."""
import json

from mir import *
from effects import last
from p_io import entry_points

OWN = ("sheet_::ColHeader", "sheet_::RowHeader")
LENGTH = ("span", "repeat")
WHOLE = ("iter", "keys", "values", "last_key_value", "into_iter", "last_entry", "iter_mut", "into_keys", "max_by_key", "pop_last")


def owner_of(ty):
    return next((o for o in OWN if o in ty), None)


def is_map(ty):
    return ("BTreeMap<" in ty or "HashMap<" in ty or "Vec<" in ty) and owner_of(ty)


def clones(p, rep):
    """a copy of a header that is stored for other columns or rows gets a length of its own"""
    rep.rule("a copy of a column or row header that is stored under another key has its own span set")
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if not f.file.startswith("src/"):
            continue
        for (b, path, cid, args, t) in f.calls:
            if last(path) != "clone" or b not in f.reachable or t[3] is None or len(t[3]) != 1:
                continue
            if t[3][0] == 0 or t[4] is None:
                continue
            o = f.locals[t[3][0]][0]
            if o not in OWN:
                continue
            # everything the copy is moved into
            ls, grow = {t[3][0]}, True
            setspan = stored = False
            while grow:
                grow = False
                for bb in f.reachable:
                    for st in f.bbs[bb]["s"]:
                        if st[0] != "=":
                            continue
                        if st[1][0] in ls and any(x[0] == "." and x[1] == o and x[3] == "span" for x in st[1][1:]):
                            setspan = True
                        ops = [st[2][1]] if st[2][0] == "use" else st[2][2] if st[2][0] == "agg" else []
                        if any(x[0] == "m" and x[1][0] in ls and not any(y[0] == "." and y[1] == o for y in x[1][1:]) for x in ops) and st[1][0] not in ls:
                            ls.add(st[1][0])
                            grow = True
                    tt = f.bbs[bb]["t"]
                    if tt[0] == "call":
                        for x in tt[2]:
                            if x[0] == "m" and x[1][0] in ls:
                                if last(str(tt[1].get("fn", "")) if isinstance(tt[1], dict) else "") in ("insert", "push"):
                                    stored = True
            # a reference to the copy that is used to set the span
            for bb in f.reachable:
                for st in f.bbs[bb]["s"]:
                    if st[0] == "=" and st[2][0] == "refm" and st[2][1][0] in ls:
                        setspan = True
                tt = f.bbs[bb]["t"]
            if 0 in ls or not stored:
                continue
            n += 1
            if setspan:
                rep.ok("%s: the copy of a %s has a span of its own" % (f.name, last(o)))
            else:
                rep.bad_at("copied-span:%s:%s" % (f.name, last(o)), "%s stores a copy of a %s with the span of the original, so it covers the columns or rows that follow as well" % (f.name, last(o)), f, t[5], "own span")
    rep.count(copied_headers=n)


def side(t):
    """(owner, field) a term is, references aside"""
    t = strip(t)
    while t[0] == "call" and last(t[1]) in ("as_ref", "deref", "clone", "as_deref") and t[3]:
        t = strip(t[3][0])
    return (t[1], t[3]) if t[0] == "field" and t[1] in OWN else None


def is_span(t, o):
    t = strip(t)
    if t[0] == "phi":
        return any(is_span(x, o) for x in t[1])
    return side(t) == (o, "span")


def adjacent(t, o):
    """the term compares the end of a header (key + span) with something"""
    hit = []

    def v(x):
        ys = x[1:] if x[0] == "eq" else x[2:4] if x[0] == "bin" and x[1] in ("Eq", "Ne") else ()
        for y in ys:
            y = strip(y)
            while y[0] == "field" and y[1] == "(tuple)":
                y = strip(y[4])
            if y[0] == "bin" and y[1] in ("Add", "AddWithOverflow", "Sub", "SubWithOverflow") and (is_span(y[2], o) or is_span(y[3], o)) or is_span(y, o):
                hit.append(y)
            if y[0] == "call" and any(is_span(z, o) for z in y[3]):
                hit.append(y)
    walk(t, v)
    return bool(hit)


def compared(p, f, o, depth=2, seen=None):
    """fields of the header that f, or what it calls, compares between two headers; None if whole headers are compared"""
    seen = set() if seen is None else seen
    if f.id in seen:
        return set()
    seen.add(f.id)
    out = set()
    for b in f.reachable:
        for st in f.bbs[b]["s"]:
            if st[0] == "=" and st[2][0] == "bin" and st[2][1] in ("Eq", "Ne"):
                a, c = (side(f.term_op(x, False)) for x in st[2][2:4])
                if a and a == c:
                    out.add(a[1])
    for (b, path, cid, args, t) in f.calls:
        if b not in f.reachable:
            continue
        n = last(path)
        if n in ("eq", "ne", "cmp", "partial_cmp") and len(args) == 2:
            ty = f.locals[args[0][1][0]][0] if args[0][0] in ("c", "m") else ""
            a, c = (side(f.term_op(x, False)) for x in args)
            if a and a == c:
                out.add(a[1])
            elif owner_of(notlt(ty)) or a is None and c is None and any(x in str(f.term_op(args[0], False)) for x in OWN) and "(tuple)" in str(f.term_op(args[0], False)):
                return None
        elif cid in p.fns and depth and p.fns[cid].file.startswith("src/") and any(owner_of(l[0]) for l in p.fns[cid].locals[1:1 + p.fns[cid].d.get("argc", 0)]):
            r = compared(p, p.fns[cid], o, depth - 1, seen)
            if r is None:
                return None
            out |= r
    return out


def joins(p, rep):
    """headers are only joined if nothing but their length differs, and they are next to each other"""
    rep.rule("column or row headers are joined only if all they say is the same, and they are adjacent")
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if not f.file.startswith("src/"):
            continue
        for b in sorted(f.reachable):
            for st in f.bbs[b]["s"]:
                if st[0] != "=" or not st[1][1:] or st[1][-1][0] != "." or st[1][-1][1] not in OWN or st[1][-1][3] != "span":
                    continue
                o = st[1][-1][1]
                v = strip(f.term_rv(st[2], False))
                while v[0] == "field" and v[1] == "(tuple)":
                    v = strip(v[4])
                if v[0] != "bin" or v[1] not in ("Add", "AddWithOverflow") or not is_span(v[2], o) or not is_span(v[3], o):
                    continue
                fields = {x["name"] if isinstance(x, dict) else x[0] for x in p.adts[o]["variants"][0]["fields"]} - set(LENGTH)
                got = compared(p, f, o)
                if got is None or not got:
                    continue
                for x in sorted(fields - got):
                    rep.bad_at("joined:%s.%s" % (last(o), x), "%s joins headers that differ in %s" % (f.name, x), f, st[-1], "join")
                for x in sorted(fields & got):
                    rep.ok("%s: joined headers agree in %s" % (f.name, x))
                adj = any(adjacent(s, o) for s in f.ctrl_guards(b)) or any(
                    s[0] == "call" and pa == s[1] and p.fns[cid].file.startswith("src/") and "span" in json.dumps(p.fns[cid].bbs)
                    for s in map(strip, f.ctrl_guards(b)) for (_, pa, cid, _, _) in f.calls if cid in p.fns)
                if adj:
                    rep.ok("%s: joined headers are adjacent" % f.name)
                else:
                    rep.bad_at("joined-gap:%s" % last(o), "%s joins headers though there can be columns or rows between them" % f.name, f, st[-1], "join")


def rebuilds(p, rep):
    """a function that takes all headers and puts them back drops none and changes none"""
    rep.rule("where the headers of a sheet are taken out and put back, each one is put back, as it was but for its length")
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if not f.file.startswith("src/"):
            continue
        taken = [o for (b, path, cid, args, t) in f.calls if b in f.reachable and last(path) in ("take", "replace") and "std::mem" in path and t[3]
                 for o in [is_map(f.locals[t[3][0]][0])] if o]
        for o in sorted(set(taken)):
            n += 1
            for (b, path, cid, args, t) in f.calls:
                if b in f.reachable and t[3] and len(t[3]) == 1 and f.locals[t[3][0]][0] == o and last(path) in ("default", "new"):
                    rep.bad_at("rebuilt:%s:%s" % (f.name, last(o)), "%s puts back a new %s in place of the one that was there" % (f.name, last(o)), f, t[5], "put back")
            for b in sorted(f.reachable):
                for st in f.bbs[b]["s"]:
                    if st[0] != "=":
                        continue
                    if st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1] == o:
                        continue
                    if st[1][1:] and st[1][-1][0] == "." and st[1][-1][1] == o and st[1][-1][3] not in LENGTH:
                        rep.bad_at("changed:%s:%s" % (f.name, st[1][-1][3]), "%s changes %s.%s" % (f.name, last(o), st[1][-1][3]), f, st[-1], "put back")
            def kept(b):
                bb = f.bbs[b]
                for st in bb["s"]:
                    if st[0] != "=":
                        continue
                    if any(x[0] == "." and x[1] == o for x in st[1][1:]):
                        return True
                    if st[2][0] == "agg" and any(x[0] == "m" and owner_of(notlt(f.locals[x[1][0]][0])) == o for x in st[2][2]):
                        return True
                tt = bb["t"]
                if tt[0] == "call":
                    for x in tt[2]:
                        if x[0] == "m" and len(x[1]) == 1 and f.locals[x[1][0]][0] == o:
                            return True
                        if x[0] == "m" and "&mut" in f.locals[x[1][0]][0] and notlt(f.locals[x[1][0]][0]).endswith(o):
                            return True
                return False
            for (b, path, cid, args, t) in f.calls:
                if last(path) != "next" or b not in f.reachable or not t[3] or f.locals[t[3][0]][0].replace(" ", "") != "std::option::Option<(u32,%s)>" % o:
                    continue
                some = set()
                todo, seen = [t[4]], set()
                while todo:
                    x = todo.pop()
                    if x in seen or x is None:
                        continue
                    seen.add(x)
                    tt = f.bbs[x]["t"]
                    if tt[0] == "sw":
                        some |= {y for v, y in tt[2] if v == 1} or {tt[3]}
                        continue
                    todo += f.succs(x)
                todo, seen = list(some), set()
                lost = False
                while todo:
                    x = todo.pop()
                    if x in seen or kept(x):
                        continue
                    seen.add(x)
                    if x == b:
                        lost = True
                        break
                    todo += f.succs(x)
                if lost:
                    rep.bad_at("dropped:%s:%s" % (f.name, last(o)), "%s can drop a %s" % (f.name, last(o)), f, t[5], "put back")
                else:
                    rep.ok("%s puts back each %s" % (f.name, last(o)))
    rep.count(rebuilding_functions=n)


def beyond(s, rep):
    """headers outside of the cells with content are written too"""
    p = s.p
    rep.rule("columns and rows with a header are written even if no cell is stored at or after them")
    for name, el in (("col_header", "table:table-column"), ("row_header", "table:table-row")):
        chains = {c for ev in s.walker.events.values() if ev.kind in ("elem", "empty") and ev.name == el for c in ev.chain}
        fs = [f for f in p.fns.values() if f.name in chains and f.file.startswith("src/io/")]
        if not fs:
            continue
        hit = False
        for f in fs:
            for (b, path, cid, args, t) in f.calls:
                if b not in f.reachable or not args:
                    continue
                a = strip(f.term_op(args[0], False))
                if a[0] == "field" and (a[1], a[3]) == ("sheet_::Sheet", name):
                    if last(path) in WHOLE or last(path) == "range" and "RangeFull" in json.dumps(t[1]):
                        hit = True
        if hit:
            rep.ok("the extent of %s is taken into account" % name)
        else:
            f = min(fs, key=lambda f: (f.name not in ("write_table_columns", "write_sheet"), f.line))
            rep.bad_at("beyond:Sheet.%s" % name, "only as many %s elements are written as there are cells: what Sheet.%s has beyond the last cell is lost" % (el, name), f, None, "all headers")


def check(c):
    joins(c.s.p, c.rep)
    rebuilds(c.s.p, c.rep)
    beyond(c.s, c.rep)
