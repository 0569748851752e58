"""C18: what is put into the workbook is found again under its name."""
import p_access
from mir import *
from p_access import Access, args_in, bases, check_families, const_strs_of, fields, short, stem, value_args
from effects import last

WB = "workbook_::WorkBook"


def origin(f, op, depth=0):
    """block in which an operand's value was taken from somewhere else than a conversion, or None"""
    if op[0] not in ("c", "m") or depth > 12:
        return None
    l = op[1][0]
    ds = f.defs[0].get(l, [])
    if len(ds) != 1:
        return None
    b, i, kind, d = ds[0]
    if kind == "r":
        if d[0] in ("use",):
            return origin(f, d[1], depth + 1) or b
        if d[0] in ("ref", "refm"):
            return origin(f, ["c", d[1]], depth + 1) or b
        if d[0] == "agg" and len(d[2]) == 1:
            return origin(f, d[2][0], depth + 1) or b
        return b
    g = f.prog.fns.get((d[1] or {}).get("rid") or (d[1] or {}).get("id"))
    nm = last((d[1] or {}).get("fn", "?"))
    if nm in ("clone", "to_string", "into", "from", "to_owned", "as_str", "deref", "as_ref", "borrow") and d[2]:
        return origin(f, d[2][0], depth + 1) or b
    return b


def root(f, op, depth=0):
    """local variable an operand is (a reference to)"""
    while op[0] in ("c", "m") and depth < 12:
        l = op[1][0]
        ds = f.defs[0].get(l, [])
        if len(ds) != 1:
            return l
        b, i, kind, d = ds[0]
        if kind == "r" and d[0] == "use" and d[1][0] in ("c", "m"):
            op = d[1]
        elif kind == "r" and d[0] in ("ref", "refm"):
            op = ["c", d[1]]
        elif kind == "c" and last((d[1] or {}).get("fn", "?")) in ("deref", "as_ref", "borrow", "as_str", "clone", "to_string", "to_owned", "into", "as_bytes") and d[2]:
            op = d[2][0]
        else:
            return l
        depth += 1
    return op[1][0] if op[0] in ("c", "m") else None


def reaches(f, a, b):
    seen, todo = set(), list(f.succs(a))
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x)
            todo += f.succs(x)
    return False


def leaves(f, l, seen=None):
    """variables a value is made from, through everything that is assigned once"""
    seen = set() if seen is None else seen
    if l in seen:
        return set()
    seen.add(l)
    ds = f.defs[0].get(l, [])
    if len(ds) != 1:
        return {l}
    b, i, kind, d = ds[0]
    out = set()

    def ops(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], (list, tuple)) and x[1] and isinstance(x[1][0], int):
                out.update(leaves(f, x[1][0], seen))
            else:
                for y in x:
                    ops(y)
    if kind == "c":
        ops(d[2])
    elif d[0] in ("ref", "refm"):
        out |= leaves(f, d[1][0], seen)
    else:
        ops(d[1:])
    return out


def same_name(g, rets, tested, free):
    """the name is put together once more from variables that have not changed since the test"""
    for r in rets:
        lr = leaves(g, r)
        for t in tested:
            if lr == leaves(g, t) and lr:
                after = set()
                todo = [s for _, s in free]
                while todo:
                    b = todo.pop()
                    if b not in after:
                        after.add(b)
                        todo += g.succs(b)
                if not any(b in after for l in lr for (b, i, k, d) in g.defs[0].get(l, [])):
                    return True
    return False


def fresh_name(p, g):
    """g returns a name only after seeing that its map does not contain it: (ok, reason) or None if that is not clear"""
    tests = []
    for (b, path, cid, args, t) in g.calls:
        if last(path) in ("contains_key", "contains", "get") and "Map" in path or last(path) in ("contains_key",):
            r = root(g, args[0]) if args else None
            if r is not None and 1 <= r <= g.argc and g.locals[r][0].startswith("&mut"):
                continue  # the counter
            tests.append((b, args, t))
    if not tests:
        seen, todo = set(), [g]
        while todo:
            h = todo.pop()
            if h.path in seen:
                continue
            seen.add(h.path)
            if any(last(c[1]) in ("contains_key", "contains", "get", "get_key_value", "entry", "keys", "find", "any", "all", "iter") for c in h.calls if c[1] and (h is not g or last(c[1]) != "get")):
                return None
            todo += [p.fns[c[2]] for c in h.calls if c[2] in p.fns]
            todo += [k for k in p.fns.values() if k.path.startswith(h.path + "::{closure")]
        return False, "it never looks whether the name is taken"
    # edges on which the test says: not contained
    free = set()
    subj = {}
    for b in g.reachable:
        for s, sj, v in g.edges_of(b):
            if sj is None:
                continue
            x = strip(sj)
            if x[0] == "call" and last(x[1]) == "contains_key" and v == ("bool", False):
                free.add((b, s))
            if x[0] == "call" and last(x[1]) == "get" and v in (("var", "None"), ("is", "None")) and any(last((t[1] or {}).get("fn", "?")) == "get" for _, _, t in tests):
                free.add((b, s))
    if not free:
        return None
    seen, todo = set(), [0]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        if g.bbs[b]["t"][0] == "ret":
            return False, "it can return a name without having looked whether it is taken"
        todo += [s for s in g.succs(b) if (b, s) not in free]
    # the name returned is the one tested
    rets = set()
    for b in g.reachable:
        for st in g.bbs[b]["s"]:
            if st[0] == "=" and st[1] == [0]:
                rets.add(root(g, st[2][1]) if st[2][0] == "use" else None)
        t = g.bbs[b]["t"]
        if t[0] == "call" and t[3] == [0]:
            rets.add(root(g, t[2][0]) if last((t[1] or {}).get("fn", "?")) in ("clone", "to_string", "into", "to_owned") and t[2] else None)
    tested = {root(g, a[1]) for _, a, _ in tests if len(a) > 1}
    if None not in rets and rets and tested and not rets & tested:
        # moved through the value of the loop: compare the assignments
        for r in list(rets):
            for (b, i, kind, d) in g.defs[0].get(r, []):
                if kind == "r" and d[0] == "use":
                    rets.add(root(g, d[1]))
        if not rets & tested and not same_name(g, rets, tested, free):
            return False, "it returns another name than the one it looked for"
    return True, None


def check(s, rep):
    p = s.p
    import p_store
    p_store.names(p, rep)
    A = Access(s)
    E = A.E
    ms = A.by[WB]
    rep.rule("families: add_x(), x(), x_mut(), remove_x(), iter_xs() work on one and the same collection")
    n = check_families(A, rep, lambda o: o == WB)
    rep.rule("look-ups use the name or number they are given")
    for nm, f in sorted(ms.items()):
        st, role = stem(nm)
        if f.argc != 2 or f.locals[0][0] == "()" or nm.startswith(("add_", "push_", "set_", "iter_", "insert_", "attach")) or role not in ("get", "remove"):
            continue
        r = A.reads(f) or {w.loc for w in A.stores(f)}
        rs = {c for c in r if c is not None and c and c[0] != "arg" and any(x[0] == "i" for x in c)}
        if not rs or None in r and role == "get":
            continue
        ix = {x[1] for c in rs for x in c if x[0] == "i"}
        if ix == {(2,)}:
            rep.ok("%s() looks up its argument" % nm)
        elif () not in ix or True:
            rep.bad("lookup:" + nm, "%s() does not look up what it is asked for" % nm, f.file, f.line, f.path, "look-ups")
    rep.rule("add_x() files the object itself under the object's own name, after that has been set, and returns a reference with that name")
    for nm, f in sorted(ms.items()):
        if not nm.startswith("add_"):
            continue
        ins, named, autos = [], [], []
        for e in E.run(f):
            top = (E.stack + [(e[1], e[2])])[0][1]
            if e[0] == "call" and last(e[4]) == "insert" and "Map" in e[4] and len(e[5]) == 3:
                b = {fields(c) for c in A.L.chains(e[5][0]) if c}
                if any(value_args(e[5][2])[0]) and b and e[1] is f:
                    ins.append((e, b))
                elif b and value_args(e[5][2])[0] and any(a > 1 for a in value_args(e[5][2])[0]):
                    ins.append((e, b))
            elif e[0] == "set":
                lv = strip(e[4])
                if lv[0] == "field" and strip(lv[4]) == ("arg", 2):
                    named.append((lv[3], e, top))
        for e, b in ins:
            key, val = e[5][1], e[5][2]
            if f.argc == 3:
                good = args_in(key) == (2,) and args_in(val) == (3,)
                if not good:
                    rep.bad("add:" + nm, "%s() does not file its second argument under the first" % nm, f.file, e[3], f.path, "add")
                else:
                    rep.ok("%s()" % nm)
                continue
            kf = {x[2] for x in model_fields(p, key)}
            a = args_in(key)
            if a != (2,) or strip(val) != ("arg", 2) and args_in(val) != (2,):
                rep.bad("add:" + nm, "%s() does not file its argument under the argument's name" % nm, f.file, e[3], f.path, "add")
                continue
            if strip(val)[0] != "arg":
                rep.bad("add:" + nm, "%s() does not file its argument itself" % nm, f.file, e[3], f.path, "add")
                continue
            if kf - {"id"} and not (kf & {"name", "event_name", "full_path"}):
                rep.bad("add:" + nm, "%s() files its argument under %s" % (nm, ", ".join(sorted(kf))), f.file, e[3], f.path, "add")
                continue
            ok = True
            r = strip(A.L.norm(f.ret_term(False)))
            if r[0] == "agg" and r[1].endswith("Ref"):
                rf = {x[2] for x in model_fields(p, r)}
                if args_in(r) != (2,) or rf - {"id"} and rf != kf:
                    rep.bad("ref:" + nm, "%s() returns a reference to something else than what it has filed" % nm, f.file, f.line, f.path, "add")
                    ok = False
            for fld, ev, top in named:
                if fld not in kf:
                    continue
                # the name was chosen before the key was taken
                if e[1] is f:
                    ko = origin(f, e[7][2][1])
                    if ko is not None and reaches(f, ko, top):
                        rep.bad("order:" + nm, "%s() takes the name it files under before an automatic name is set" % nm, f.file, e[3], f.path, "add")
                        ok = False
                    for (bb, i, kind, d) in f.defs[0].get(0, []):
                        if "Ref" not in f.locals[0][0]:
                            break
                        ro = bb
                        if kind == "r" and d[0] == "use":
                            ro = origin(f, d[1])
                        elif kind == "r" and d[0] == "agg" and len(d[2]) == 1:
                            ro = origin(f, d[2][0])
                        elif kind == "c" and last((d[1] or {}).get("fn", "?")) in ("clone", "into", "from") and d[2]:
                            ro = origin(f, d[2][0])
                        if ro is not None and ro != top and reaches(f, ro, top):
                            rep.bad("order:" + nm, "%s() takes the reference it returns before an automatic name is set" % nm, f.file, f.line, f.path, "add")
                            ok = False
                # only nameless objects are given a name
                gs = [(strip(x), v) for x, v in ev[6]]
                emp = [(x, v) for x, v in gs if x[0] == "call" and last(x[1]) == "is_empty" and {y[2] for y in model_fields(p, x)} & {fld}]
                if emp and not any(("bool", True) in v for x, v in emp) or not gs:
                    rep.bad("named:" + nm, "%s() renames objects that have a name" % nm, f.file, ev[3], f.path, "add")
                    ok = False
                # the name is free in the collection the object goes to
                gen = []
                walk(ev[5], lambda x: gen.append(x) if x[0] == "call" and x[2] in p.fns else None)
                for x in gen:
                    g = p.fns[x[2]]
                    cols = [c for y in x[3] for c in A.L.chains(y) if c]
                    maps = {fields(c) for c in cols} - {()}
                    # the collections among the arguments
                    maps = {m for m in maps if any(m == y for y in b) or m[-1][2] != "autonum"}
                    fr = fresh_name(p, g)
                    if fr is None:
                        continue
                    if not fr[0]:
                        rep.bad("fresh:" + g.path, "%s() does not choose a free name: %s" % (g.name, fr[1]), g.file, g.line, g.path, "automatic names")
                        ok = False
                    elif maps and not maps & b:
                        rep.bad("fresh:" + nm, "%s() chooses a name that is free in %s" % (nm, ", ".join(sorted(map(short, maps)))), f.file, ev[3], f.path, "automatic names")
                        ok = False
            if ok:
                rep.ok("%s()" % nm)
    rep.rule("sheets: a sheet keeps its position when it is detached and attached again")
    f, g = ms.get("detach_sheet"), ms.get("attach_sheet")
    if f is not None and g is not None:
        keys = []
        for e in E.run(f):
            if e[0] == "call" and "Detached" in e[4] and last(e[4]) == "new":
                keys.append((e, args_in(e[5][0])))
        locs = {x[1] for w in A.stores(f) for x in w.loc if x[0] == "i"}
        for e, k in keys:
            if locs and {k} != locs:
                rep.bad("detach:key", "detach_sheet() remembers another position than the one it takes the sheet from", f.file, e[3], f.path, "sheets")
            else:
                rep.ok("detach_sheet() remembers the position")
        for w in A.stores(g):
            fs = set()
            for e in E.run(g):
                if e[0] == "call" and last(e[4]) in ("index_mut", "get_mut", "insert"):
                    fs |= {x[2] for x in model_fields(p, e[5][1])}
            if fs and fs != {"key"}:
                rep.bad("attach:key", "attach_sheet() does not use the remembered position", g.file, w.line, g.path, "sheets")
            elif w.value is not None and args_in(w.value) != (2,):
                rep.bad("attach:value", "attach_sheet() does not put the sheet back", g.file, w.line, g.path, "sheets")
            else:
                rep.ok("attach_sheet() puts the sheet back")
    for nm, idx in (("insert_sheet", (2,)),):
        f = ms.get(nm)
        if f is None:
            continue
        for e in E.run(f):
            if e[0] == "call" and last(e[4]) == "insert" and "Vec" in e[4]:
                if args_in(e[5][1]) != idx or p_access.value_args(e[5][1])[1]:
                    rep.bad("sheets:" + nm, "%s() does not insert at the given position" % nm, f.file, e[3], f.path, "sheets")
                else:
                    rep.ok(nm)
    for nm, bad in (("push_sheet", ("insert",)), ("remove_sheet", ("swap_remove", "pop"))):
        f = ms.get(nm)
        if f is None:
            continue
        for e in E.run(f):
            if e[0] == "call" and "Vec" in e[4] and last(e[4]) in bad:
                rep.bad("sheets:" + nm, "%s() changes the order of the other sheets" % nm, f.file, e[3], f.path, "sheets")
            elif e[0] == "call" and "Vec" in e[4] and last(e[4]) in ("push", "remove"):
                rep.ok(nm)
    rep.count(methods=len(ms), family_members=n)


PROPS = {"C18": (check, "other", "places of accessors, key/value terms and call order over MIR")}
