"""C15: options and entry points do what their names say."""
from mir import *
from effects import Effects, last
from p_io import entry_points
from p_view import leading, loaders, ok_without

RO, WO = "io::read::OdsOptions", "io::write::OdsWriteOptions"
# setter, its opposite (the default)
PAIRS = [("content_only", "read_styles"), ("use_repeat_for_cells", "use_clone_for_cells"), ("ignore_empty_cells", "read_empty_cells")]


def builder(p, owner, name):
    for f in p.byname.get(name, []):
        if f.path == owner + "::" + name:
            return f
    return None


def sets(p, E, f):
    """{field: value} a builder method changes"""
    out = {}
    for e in E.run(f):
        if e[0] == "set":
            lv = strip(e[4])
            if lv[0] == "field" and lv[1] in (RO, WO):
                out[lv[3]] = strip(e[5])
    # struct update: Self { field: .., ..self }
    r = strip(p.norm(f.ret_term(False)))
    if not out and r[0] == "agg" and r[1] in (RO, WO):
        for n, v in r[3]:
            v = strip(v)
            if not (v[0] == "field" and v[1] in (RO, WO) and v[3] == n):
                out[n] = v
    return out


def const_fn(p, t):
    """the value of a constant, also of a derived default"""
    t = strip(t)
    if t[0] == "call" and last(t[1]) == "default" and not t[3]:
        if t[1].startswith("<bool"):
            return ("const", "bool", False)
        f = p.fns.get(t[2])
        if f is not None:
            return strip(p.norm(f.ret_term(False)))
    return t


def bool_paths(p, f):
    """paths of a function without loops that returns a boolean: (conditions [(subject, bool)], result)"""
    out = []

    def go(b, cond, ret, n):
        if n > 40 or len(out) > 200:
            return
        for st in f.bbs[b]["s"]:
            if st[0] == "=" and st[1] == [0]:
                ret = strip(f.term_rv(st[2], False))
        t = f.bbs[b]["t"]
        if t[0] == "call" and t[3] == [0]:
            ret = strip(f.term_call(t, False))
        if t[0] == "ret":
            if ret is not None and ret[0] == "const" and ret[1] == "bool":
                out.append((cond, ret[2]))
            elif ret is not None and ret[0] == "call":
                out.append((cond + [(ret, True)], True))
                out.append((cond + [(ret, False)], False))
            return
        es = {s: (sj, v) for s, sj, v in f.edges_of(b) if sj is not None}
        for x in f.succs(b):
            c = cond
            if x in es and es[x][1][0] == "bool":
                c = cond + [(es[x][0], es[x][1][1])]
            go(x, c, ret, n + 1)

    go(0, [], None, 0)
    return out


def check(s, rep):
    p = s.p
    rep.rule("each option of OdsOptions has two setters that set one field of its own to opposite values, the default being what the documented default says")
    E = Effects(p, lambda f: (RO + "::") in f.path or (WO + "::") in f.path)
    role = {}
    for on, off in PAIRS:
        f, g = builder(p, RO, on), builder(p, RO, off)
        if not rep.need(f is not None and g is not None, "setter:" + on, "the setters %s and %s" % (on, off)):
            continue
        a, b = sets(p, E, f), sets(p, E, g)
        for nm, fn, got, val in ((on, f, a, True), (off, g, b, False)):
            if len(got) != 1:
                rep.bad("setter:" + nm, "%s() sets %s" % (nm, sorted(got) or "nothing"), fn.file, fn.line, fn.path, "option setters")
        if len(a) == 1 and len(b) == 1:
            (fa, va), (fb, vb) = next(iter(a.items())), next(iter(b.items()))
            if fa != fb:
                rep.bad("setter:" + off, "%s() does not undo %s(): they set %s and %s" % (off, on, fb, fa), g.file, g.line, g.path, "option setters")
            elif va == vb:
                rep.bad("setter:" + off, "%s() and %s() do the same" % (off, on), g.file, g.line, g.path, "option setters")
            elif fa in role:
                rep.bad("setter:" + on, "%s() and %s() set the same option" % (on, role[fa][0]), f.file, f.line, f.path, "option setters")
            elif va[0] == "const" and va[1] == "bool":
                role[fa] = (on, va[2])
                rep.ok("%s() / %s() set %s" % (on, off, fa))
    d = next((f for f in p.byname.get("default", []) if RO in f.path), None)
    if d is not None:
        r = strip(p.norm(d.ret_term(False)))
        if r[0] == "agg":
            for n, v in r[3]:
                v = const_fn(p, v)
                if n in role and v[0] == "const":
                    if v[2] == role[n][1]:
                        rep.bad("default:" + role[n][0], "by default, %s() is in effect" % role[n][0], d.file, d.line, d.path, "option defaults")
                    else:
                        rep.ok("default of %s" % n)
    roles = {r[0]: (n, r[1]) for n, r in role.items()}
    # fields of the context that carry the options
    ctx = {}
    for f in p.fns.values():
        if not f.file.endswith("read.rs"):
            continue
        for b in f.reachable:
            for st in f.bbs[b]["s"]:
                if st[0] == "=" and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1].endswith("OdsContext"):
                    t = f.term_rv(st[2], False)
                    for n, v in t[3]:
                        v = strip(p.norm(v))
                        if v[0] == "field" and v[1] == RO:
                            ctx[(t[1], n)] = v[3]
                            rep.ok("context.%s is option %s" % (n, v[3]))

    def opt(t):
        """the option a condition is about: (name of its setter, its value for 'on')"""
        t = strip(t)
        if t[0] == "field":
            n = t[3] if t[1] == RO else ctx.get((t[1], t[3]))
            return role.get(n)
        return None

    def on(gs, name):
        """whether the option is on (True), off (False) or unknown (None) under the conditions"""
        r = None
        for sj, vals in gs:
            o = opt(sj)
            if o and o[0] == name and len(vals) == 1:
                v = next(iter(vals))
                if v[0] == "bool":
                    r = v[1] == o[1]
        return r
    used = set()
    reach = p.reach([f for f in entry_points(p) if f.name.startswith("read_")])
    # content_only: reading settings and metadata
    S = {f.id for f in p.fns.values() if f.file.endswith("read.rs") and any(
        any(x[0] == "." and x[1] == "workbook_::WorkBook" and x[3] in ("config", "metadata") for x in st[1][1:]) or
        st[2][0] == "refm" and any(x[0] == "." and x[1] == "workbook_::WorkBook" and x[3] in ("config", "metadata") for x in st[2][1][1:])
        for bb in f.bbs for st in bb["s"] if st[0] == "=")}
    rep.rule("with content_only() the loaders that read settings and metadata are not entered, without it they are; what clones cells is entered exactly without use_repeat_for_cells(); "
             "cells are dropped for being empty exactly with ignore_empty_cells()")
    for nm in ("read_ods", "read_fods"):
        f = builder(p, RO, nm)
        if not rep.need(f is not None, nm, "OdsOptions::" + nm):
            continue
        rets = 0
        for (b, path, cid, args, t) in f.calls:
            g = p.fns.get(cid)
            if g is None or "WorkBook" not in g.locals[0][0] or "Result" not in g.locals[0][0]:
                continue
            rets += 1
            full = bool(p.reach([g]) & S)
            o = on(list(f.ctrl_guards(b).items()), "content_only")
            if o is None:
                continue
            used.add("content_only")
            if o == full:
                rep.bad("dispatch:%s:%s" % (nm, "full" if full else "content"), "%s enters %s %s content_only()" % (nm, g.name, "with" if o else "without"), f.file, t[5], f.path, "dispatch")
            else:
                rep.ok("%s: %s %s content_only()" % (nm, g.name, "with" if o else "without"))
    # what clones cells
    cl = {f.id for f in p.fns.values() if f.file.endswith("read.rs") and f.kind != "closure" and any("cell_::CellData as std::clone::Clone>::clone" in path for (b, path, cid, a, t) in f.calls)}
    for i in sorted(reach, key=str):
        f = p.fns[i]
        if not f.file.endswith("read.rs"):
            continue
        gsub = False
        for (b, path, cid, args, t) in f.calls:
            g = p.fns.get(cid)
            if b not in f.reachable:
                continue
            direct = "cell_::CellData as std::clone::Clone>::clone" in path
            if g is None and not direct:
                continue
            o = on(list(f.ctrl_guards(b).items()), "use_repeat_for_cells")
            if o is None:
                continue
            used.add("use_repeat_for_cells")
            leads = direct or bool(p.reach([g]) & cl)
            if leads and o:
                rep.bad("repeat:clones", "%s clones cells with use_repeat_for_cells()" % f.name, f.file, t[5], f.path, "repeat")
            elif leads:
                rep.ok("%s clones cells only without use_repeat_for_cells()" % f.name)
                used.add("clone")
    if "use_repeat_for_cells" in used and cl and "clone" not in used:
        rep.bad("repeat:never-clones", "cells are never cloned without use_repeat_for_cells()", "src/io/read.rs", None, None, "repeat")
    # empty cells
    for i in sorted(reach, key=str):
        f = p.fns[i]
        if not f.file.endswith("read.rs") or f.locals[0][0] != "bool":
            continue
        if len(f.reachable) > 40 or not any((opt(sj) or ("",))[0] == "ignore_empty_cells" for bb in f.reachable for _, sj, _ in f.edges_of(bb) if sj is not None):
            continue
        for cond, val in bool_paths(p, f):
            o = emp = void = None
            for sj, v in cond:
                x = strip(sj)
                ro = opt(x)
                if ro and ro[0] == "ignore_empty_cells":
                    o = v == ro[1]
                elif x[0] == "call" and last(x[1]) == "is_empty" and "CellData" in x[1]:
                    emp = v
                elif x[0] == "call" and last(x[1]) == "is_void":
                    void = v
            used.add("ignore_empty_cells")
            if val is True and not void:
                if o is not True:
                    rep.bad("empty:off", "%s drops cells for being empty without ignore_empty_cells()" % f.name, f.file, f.line, f.path, "empty cells")
                elif emp is not True:
                    rep.bad("empty:any", "%s drops cells with ignore_empty_cells() that are not empty" % f.name, f.file, f.line, f.path, "empty cells")
                else:
                    rep.ok("%s drops empty cells with ignore_empty_cells()" % f.name)
            elif val is False and o and emp:
                rep.bad("empty:kept", "%s keeps empty cells with ignore_empty_cells()" % f.name, f.file, f.line, f.path, "empty cells")
    # an option nobody looks at
    looked = set()
    for i in reach:
        f = p.fns[i]
        if "OdsContext::new" in f.path or RO + "::" in f.path and f.name in dict(PAIRS) or f.d.get("trait"):
            continue
        for b in f.reachable:
            for sj, _ in [(x[1], 0) for x in f.edges_of(b) if x[1] is not None]:
                def v(x):
                    if x[0] == "field":
                        o = opt(x)
                        if o:
                            looked.add(o[0])
                walk(sj, v)
            for st in f.bbs[b]["s"]:
                if st[0] == "=":
                    def v2(x):
                        if x[0] == "field":
                            o = opt(x)
                            if o:
                                looked.add(o[0])
                    if '"%s"' % RO in str(st).replace("'", '"') or "OdsContext" in str(st):
                        walk(f.term_rv(st[2], False), v2)
    for a, b in PAIRS:
        if a in roles and a not in looked:
            rep.bad("unused:" + a, "the option %s() has no effect" % a, "src/io/read.rs", None, None, "used")
        elif a in roles:
            rep.ok("%s() has an effect" % a)
    cloning(p, rep)
    passed_on(p, rep)
    after_content(p, rep, [f for f in entry_points(p) if f.name.startswith("read_")])
    writers(p, rep, E)
    rep.count(options=len(role), functions=len(reach))


def passed_on(p, rep):
    """every loader gets the options of its caller, the free functions the defaults"""
    rep.rule("a function that is given options hands on these options; the functions without options use the defaults, unchanged")
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if not f.file.startswith("src/io/") or f.kind == "closure":
            continue
        mine = [i for i in range(1, f.d["argc"] + 1) if RO in f.locals[i][0]]
        for (b, path, cid, args, t) in f.calls:
            g = p.fns.get(cid)
            if g is None or b not in f.reachable or (g.d.get("trait")):
                continue
            for i, a in enumerate(args):
                if i + 1 > g.d["argc"] or RO not in g.locals[i + 1][0] or RO + "::" in g.path and g.name not in ("read_ods", "read_fods"):
                    continue
                x = strip(f.term_op(a, False))
                if mine and x[0] == "arg" and x[1] in mine:
                    rep.ok()
                elif mine and x[0] == "call":
                    rep.bad("options:" + f.name, "%s hands other options to %s than it was given" % (f.name, g.name), f.file, t[5], f.path, "options")
                elif not mine and x[0] == "call" and f.vis == "pub" and f.name.startswith("read_"):
                    if last(x[1]) == "default":
                        rep.ok("%s uses the defaults" % f.name)
                    elif RO + "::" in x[1]:
                        rep.bad("options:" + f.name, "%s does not read with the default options: %s()" % (f.name, last(x[1])), f.file, t[5], f.path, "options")


def after_content(p, rep, roots):
    """repeated cells are resolved after the content was read, in every loader"""
    cl = {f.id for f in p.fns.values() if f.file.endswith("read.rs") and f.kind != "closure" and any("cell_::CellData as std::clone::Clone>::clone" in path for (b, path, cid, a, t) in f.calls)}
    add = {f.id for f in p.fns.values() if f.file.endswith("read.rs") and any(last(path) in ("add_cell_data",) for (b, path, cid, a, t) in f.calls)}
    if not cl or not add:
        return
    rep.rule("every loader resolves repeated cells after it has read the content, before it returns a workbook")
    for f in loaders(p, roots):
        b1, b2 = leading(p, f, cl), leading(p, f, add)
        if not b2:
            continue
        if ok_without(f, b1, b2 - b1):
            rep.bad("repeat:lost:" + f.name, "%s can return a workbook without having resolved repeated cells" % f.name, f.file, f.line, f.path, "repeat")
        else:
            rep.ok("%s resolves repeated cells" % f.name)


def cell_clone(x):
    x = strip(x)
    return x[0] == "call" and "cell_::CellData as std::clone::Clone>::clone" in x[1]


def says_empty(k, val):
    """the condition can only hold for an empty cell"""
    x = strip(k)
    while x[0] == "un" and x[1] == "Not":
        x, val = strip(x[2]), not val
    if x[0] == "call":
        return val and last(x[1]) == "is_empty" and "CellData" in x[1]
    if x[0] == "bin" and x[1] == "BitAnd":
        return val and (says_empty(x[2], True) or says_empty(x[3], True))
    if x[0] == "phi":
        alts = [y for y in map(strip, x[1]) if not (y[0] == "const" and y[1] == "bool" and y[2] != val)]
        return bool(alts) and all(says_empty(y, val) for y in alts)
    if x[0] == "under":
        return says_empty(x[2], val)
    return False


def field_names(t):
    out = set()

    def v(y):
        if y[0] == "field":
            out.add((y[1], y[3]))
    walk(t, v)
    return out


def the_repeat(x):
    """(owner) of a repeat count that is used as it is"""
    x = strip(x)
    n = 0
    while n < 6:
        n += 1
        if x[0] == "call" and last(x[1]) in ("replace", "clone", "take", "into", "from") and x[3]:
            x = strip(x[3][0])
        elif x[0] == "cast":
            x = strip(x[2])
        else:
            break
    if x[0] == "field" and x[3] == "repeat":
        return x[1]
    return None


def cloning(p, rep):
    rep.rule("the cells that stand for a repeat count are exact copies, at all further rows or columns the count covers; only empty cells are taken out again")
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if not f.file.endswith("read.rs"):
            continue
        clones = any("cell_::CellData as std::clone::Clone>::clone" in path for (b, path, cid, a, t) in f.calls)
        removes = [(b, args, t) for (b, path, cid, args, t) in f.calls if b in f.reachable and last(path) in ("remove", "pop_last", "pop_first", "retain", "split_off", "clear")
                   and args and any(o.endswith("Sheet") and m == "data" for o, m in field_names(strip(f.term_op(args[0], False))))]
        if removes:
            sites = [(b, t) for (b, path, cid, args, t) in f.calls if b in f.reachable and last(path) in ("push", "push_back", "insert") and "(u32, u32)" in (t[1] or {}).get("g", [])
                     and not any(o.endswith("Sheet") for o, m in field_names(strip(f.term_op(args[0], False))))]
            sites = sites or [(b, t) for b, a, t in removes]
            for b, t in sites:
                n += 1
                ok = any(says_empty(k, len(v) == 1 and next(iter(v)) == ("bool", True)) for k, v in f.ctrl_guards(b).items())
                if ok:
                    rep.ok("%s takes out empty cells only" % f.name)
                else:
                    rep.bad("removed:" + f.name, "%s takes out cells that are not known to be empty" % f.name, f.file, t[5], f.path, "no cell is lost")
        if not clones:
            continue
        for b in f.reachable:
            for st in f.bbs[b]["s"]:
                if st[0] != "=":
                    continue
                pl = st[1]
                if any(isinstance(x, list) and x[0] == "." and x[1] == "cell_::CellData" and x[3] != "repeat" for x in pl[1:]):
                    rep.bad("copy-altered:" + f.name, "%s changes the cells it copies" % f.name, f.file, f.line, f.path, "exact copies")
                if st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1] == "cell_::CellData":
                    t = f.term_rv(st[2], False)
                    odd = [a for a, v in t[3] if a != "repeat" and not any(m == a and o == "cell_::CellData" for o, m in field_names(v))]
                    if odd:
                        rep.bad("copy-altered:" + f.name, "%s does not copy %s of a repeated cell" % (f.name, ", ".join(odd)), f.file, f.line, f.path, "exact copies")
        for (b, path, cid, args, t) in f.calls:
            if b not in f.reachable:
                continue
            for a in args:
                x = strip(f.term_op(a, False))
                if x[0] != "agg" or x[1] != "(tuple)" or len(x[3]) not in (2, 3):
                    continue
                d = dict(x[3])
                key, val = (d["0"], d["1"]), d.get("2")
                if len(x[3]) == 2:
                    if last(path) != "insert" or len(args) < 3:
                        continue
                    val = f.term_op(args[2], False)
                if not cell_clone(val):
                    continue
                n += 1
                place(p, rep, f, t, key)
    rep.count(copies=n)


def addition(x):
    """(a, b) of a sum"""
    x = strip(x)
    if x[0] == "field" and strip(x[4])[0] == "bin":
        x = strip(x[4])
    if x[0] == "bin" and x[1].startswith("Add"):
        return strip(x[2]), strip(x[3])
    if x[0] == "call" and last(x[1]) in ("add", "wrapping_add", "saturating_add") and len(x[3]) == 2:
        return strip(x[3][0]), strip(x[3][1])
    return None


def ranged(x):
    """the range a loop variable runs over: (start, end, inclusive)"""
    r = []

    def v(y):
        if y[0] == "agg" and y[1].endswith("::Range"):
            d = dict(y[3])
            r.append((strip(d["start"]), strip(d["end"]), False))
            return True
        if y[0] == "call" and "RangeInclusive" in y[1] and last(y[1]) == "new":
            r.append((strip(y[3][0]), strip(y[3][1]), True))
            return True
    x = strip(x)
    if x[0] == "field":
        x = strip(x[4])
    if x[0] == "call" and last(x[1]) == "next":
        y = strip(x[3][0])
        while y[0] == "call" and last(y[1]) == "into_iter":
            y = strip(y[3][0])
        v(y)
    return r[0] if len(r) == 1 else None


def place(p, rep, f, t, key):
    """one part of the key moves with the repeat count: rows for a row, columns for a cell"""
    found = []
    for i, k in enumerate(key):
        ab = addition(k)
        for y in ab or ():
            r = ranged(y)
            if r:
                found.append((i, r))
    if not found:
        # the copies are made in another way
        return
    for i, (a, e, inc) in found:
        if inc and e[0] in ("bin", "field", "call"):
            s = strip(e[4]) if e[0] == "field" and strip(e[4])[0] == "bin" else e
            if s[0] == "bin" and s[1].startswith("Sub") and strip(s[3])[:2] == ("const", "i") and strip(s[3])[2] == 1:
                e, inc = strip(s[2]), False
        o = the_repeat(e)
        if o is None or inc:
            if any(m == "repeat" for _, m in field_names(e)) or e[0] == "field" and e[1].endswith(("RowHeader", "CellData")):
                rep.bad("copies:%s" % f.name, "%s does not make one copy per repetition (%s)" % (f.name, show(e)[:60]), f.file, t[5], f.path, "exact copies")
            continue
        if not (a[0] == "const" and a[2] in (0, 1)):
            rep.bad("copies:%s" % f.name, "%s leaves out the first copies" % f.name, f.file, t[5], f.path, "exact copies")
        elif (o.endswith("RowHeader")) != (i == 0):
            rep.bad("copies:%s" % f.name, "%s repeats %s of a %s" % (f.name, "rows" if i == 0 else "columns", o.rsplit("::", 1)[-1]), f.file, t[5], f.path, "exact copies")
        else:
            rep.ok("%s: one copy per repetition of a %s" % (f.name, o.rsplit("::", 1)[-1]))


def writers(p, rep, E):
    rep.rule("the setters of OdsWriteOptions store their argument; write_ods_buf_uncompressed stores, all others deflate")
    got = {}
    for nm in ("compression_method", "compression_level"):
        f = builder(p, WO, nm)
        if not rep.need(f is not None, nm, "OdsWriteOptions::" + nm):
            continue
        a = sets(p, E, f)
        if len(a) != 1 or next(iter(a.values()))[0] != "arg":
            rep.bad("setter:" + nm, "%s() sets %s" % (nm, {k: show(v) for k, v in a.items()} or "nothing"), f.file, f.line, f.path, "write options")
        elif next(iter(a)) in got:
            rep.bad("setter:" + nm, "%s() sets the same option as %s()" % (nm, got[next(iter(a))]), f.file, f.line, f.path, "write options")
        else:
            got[next(iter(a))] = nm
            rep.ok("%s() sets %s" % (nm, next(iter(a))))
    for f in entry_points(p):
        if not f.name.startswith("write_ods") or WO in f.path:
            continue
        want = "Stored" if "uncompressed" in f.name else "Deflated"
        ms = set()
        for g in [f] + [p.fns[c] for (b, path, c, a, t) in f.calls if c in p.fns and p.fns[c].file == f.file and WO not in p.fns[c].path]:
            for (b, path, cid, args, t) in g.calls:
                if WO in path and last(path) == "compression_method":
                    x = strip(p.norm(g.term_op(args[1], False)))
                    ms.add((x[2] if x[0] == "agg" else "?", t[5]))
        if ms and all(m != "?" for m, _ in ms):
            bad = [(m, l) for m, l in ms if m != want]
            if bad:
                rep.bad("method:" + f.name, "%s writes %s, not %s" % (f.name, bad[0][0], want), f.file, bad[0][1], f.path, "compression")
            else:
                rep.ok("%s: %s" % (f.name, want))
        elif not ms:
            # the default of the options
            d = next((g for g in p.byname.get("default", []) if WO in g.path), None)
            if d is not None and want == "Stored":
                rep.bad("method:" + f.name, "%s does not ask for uncompressed entries" % f.name, f.file, f.line, f.path, "compression")


PROPS = {"C15": (check, "other", "role analysis of option fields and their uses")}
