"""C07, C08, C18, C19: the containers of attributes and settings, and the small functions texts and names pass through."""
from collections import Counter

from mir import *
from effects import last

ALTERING = {"to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "make_ascii_lowercase", "make_ascii_uppercase", "trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "trim_ascii", "trim_ascii_start", "trim_ascii_end", "replace", "replacen", "strip_prefix", "strip_suffix", "truncate", "eq_ignore_ascii_case", "split_whitespace", "split_ascii_whitespace", "repeat"}
SKIPPING = {"skip", "skip_while", "take_while", "map_while", "step_by", "dedup", "dedup_by", "dedup_by_key"}
TESTS = {"is_empty", "len", "starts_with", "ends_with", "contains", "is_char_boundary", "is_ascii", "find", "matches", "char_indices", "chars", "bytes"}
GROW = {"push", "insert", "remove", "swap_remove", "pop", "truncate", "clear", "retain", "drain", "extend", "append", "resize", "push_back", "pop_front"}
INTO = ("push", "insert", "replace", "push_back", "extend", "insert_entry", "or_insert", "insert_unique", "write")


def op_ty(p, f, op):
    if op[0] in ("c", "m"):
        return p.place_ty(f, op[1]) or ""
    return ""


def is_text(ty):
    b = ty.replace("&", "").replace("mut ", "").strip()
    while b.startswith("'") and " " in b:
        b = b.split(" ", 1)[1]
    return b in ("str", "String", "std::string::String", "alloc::string::String") or ("Box<" in b and "str" in b and "Vec<" not in b)


def helper(f):
    return f.trait in ("Debug", "Display", "GetSize") or any(x in f.path for x in ("get_heap_size", "::fmt", "::tests::", "::test_"))


def in_file(p, owners):
    files = {f.file for f in p.fns.values() if any((f.self_ty or "").startswith(o) or f.path.startswith(o + "::") for o in owners)}
    return sorted((f for f in p.fns.values() if f.file in files and not helper(f)), key=lambda f: f.id)


def calls_of(f):
    return [(b, path, cid, args, t) for (b, path, cid, args, t) in f.calls if b in f.reachable]


def used(f, t):
    """the result of a call is used"""
    if t[3] is None or len(t[3]) != 1 or t[3][0] == 0:
        return True
    l = t[3][0]

    def go(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], (list, tuple)) and x[1] and x[1][0] == l:
                return True
            if len(x) >= 2 and x[0] in ("ref", "refm", "discr", "len", "raw") and isinstance(x[1], (list, tuple)) and x[1] and x[1][0] == l:
                return True
            return any(go(y) for y in x)
        return False

    for b in f.reachable:
        for st in f.bbs[b]["s"]:
            if st[0] == "=" and go(st[2]):
                return True
        q = f.bbs[b]["t"]
        if q[0] == "sw" and go(q[1]) or q[0] == "call" and go(q[2]) or q[0] == "assert" and go(q[1:]):
            return True
    return False


def taint(f, arg):
    """locals that hold (a conversion of) what an argument holds"""
    ls, grow = {arg}, True

    def hit(op):
        return op[0] in ("c", "m") and op[1][0] in ls

    while grow:
        grow = False
        for b in f.reachable:
            for st in f.bbs[b]["s"]:
                if st[0] == "=" and len(st[1]) == 1 and st[1][0] not in ls:
                    rv = st[2]
                    ops = [rv[1]] if rv[0] == "use" else rv[2] if rv[0] == "agg" else [rv[2]] if rv[0] == "cast" else []
                    if any(isinstance(o, (list, tuple)) and o and hit(o) for o in ops):
                        ls.add(st[1][0])
                        grow = True
            t = f.bbs[b]["t"]
            if t[0] == "call" and t[3] is not None and len(t[3]) == 1 and t[3][0] not in ls and t[2] and any(hit(o) for o in t[2]):
                nm = last(str(t[1].get("fn", "")) if isinstance(t[1], dict) else "")
                if nm in ("into", "from", "to_string", "to_owned", "into_boxed_str", "into_string", "as_ref", "clone", "into_boxed", "new", "as_str", "borrow"):
                    ls.add(t[3][0])
                    grow = True
    return ls, hit


def keeps(p, f, arg):
    """every way to a return of f stores the argument"""
    ls, hit = taint(f, arg)
    sinks = set()
    for b in f.reachable:
        for st in f.bbs[b]["s"]:
            if st[0] == "=" and len(st[1]) > 1 and st[2][0] in ("use", "agg"):
                ops = [st[2][1]] if st[2][0] == "use" else st[2][2]
                if any(isinstance(o, (list, tuple)) and o and hit(o) for o in ops):
                    sinks.add(b)
        t = f.bbs[b]["t"]
        if t[0] == "call":
            path = str(t[1].get("fn", "")) if isinstance(t[1], dict) else ""
            if any(hit(o) for o in t[2][1:]) and (last(path) in INTO or last(path).startswith(("set_", "push_", "insert", "add_"))):
                sinks.add(b)
        if t[0] == "drop" and False:
            sinks.add(b)
    if not sinks:
        return None
    seen, st = set(), [0]
    while st:
        b = st.pop()
        if b in seen or b in sinks:
            continue
        seen.add(b)
        if f.bbs[b]["t"][0] == "return" or f.bbs[b]["t"][0] == "ret":
            return False
        st.extend(f.succs(b))
    return True


def pairs(p, f, owner, fields):
    """the ways through f on which the parallel lists of a container are not changed alike"""
    ops = {}
    for (b, path, cid, args, t) in calls_of(f):
        nm = last(path)
        if nm in GROW and args and "Vec" in path:
            fs = [y for y in walk_fields(strip(f.term_op(args[0], False)))]
            for fl in fs:
                if fl in fields:
                    ops.setdefault(b, []).append((fl, nm))
                    break
    if not ops:
        return None
    out, st, n = [], [(0, (), frozenset())], 0
    while st:
        b, acc, seen = st.pop()
        n += 1
        if n > 4000:
            return None
        if b in seen:
            continue
        acc = acc + tuple(ops.get(b, ()))
        ss = f.succs(b)
        if f.bbs[b]["t"][0] in ("return", "ret") or any(s in seen for s in ss):
            per = {fl: Counter(o for x, o in acc if x == fl) for fl in fields}
            if len({tuple(sorted(c.items())) for c in per.values()}) > 1:
                out.append(per)
        for s in ss:
            st.append((s, acc, seen | {b}))
    return out


def walk_fields(t):
    out = []

    def go(x):
        if isinstance(x, tuple) and x:
            if x[0] == "field":
                out.append(x[3])
            for y in x:
                if isinstance(y, tuple):
                    go(y)

    go(t)
    return out


def containers(p, rep, owners, what):
    rep.rule("the container of the %s: what is stored is stored on every way, as it was given; lookups compare whole names; nothing depends on what a value contains; parallel lists are changed alike" % what)
    fs = in_file(p, owners)
    n = 0
    for f in fs:
        bad = False
        for (b, path, cid, args, t) in calls_of(f):
            nm = last(path)
            n += 1
            if nm in ALTERING | SKIPPING | TESTS and not used(f, t):
                continue
            if nm in ALTERING and (nm != "replace" or "str" in path) and (nm != "truncate" or "String" in path) and (nm != "repeat" or "str" in path):
                rep.bad("store-altered:%s:%s" % (f.path, nm), "%s uses %s() on %s" % (f.path, nm, what), f.file, t[5], f.path, "unaltered")
                bad = True
            elif nm in SKIPPING:
                rep.bad("store-skips:%s:%s" % (f.path, nm), "%s leaves out some %s: %s()" % (f.path, what, nm), f.file, t[5], f.path, "whole container")
                bad = True
            elif nm in TESTS and args and is_text(op_ty(p, f, args[0])):
                rep.bad("store-depends:%s:%s" % (f.path, nm), "%s depends on what a text contains: %s()" % (f.path, nm), f.file, t[5], f.path, "whatever the value")
                bad = True
        own = next((o for o in owners if (f.self_ty or "").split("<")[0] == o), None)
        if own and f.kind == "AssocFn" and not f.trait and f.argc >= 2 and "mut " in f.locals[1][0][:24]:
            if f.name.startswith(("set_", "push_", "insert", "put")):
                n += 1
                if keeps(p, f, f.argc) is False:
                    rep.bad("store-lost:" + f.path, "%s does not store what it is given on every way" % f.path, f.file, f.line, f.path, "stored")
                    bad = True
            adt = p.adts.get(own)
            if adt:
                fl = [x["name"] if isinstance(x, dict) else x[0] for v in adt["variants"] for x in v["fields"]]
                tys = {(x["name"] if isinstance(x, dict) else x[0]): (x["ty"] if isinstance(x, dict) else x[1]) for v in adt["variants"] for x in v["fields"]}
                par = [x for x in fl if "Vec<" in tys[x]]
                if len(par) > 1:
                    r = pairs(p, f, own, par)
                    if r is not None:
                        n += 1
                    if r:
                        rep.bad("store-pairs:" + f.path, "%s does not change %s alike" % (f.path, " and ".join(par)), f.file, f.line, f.path, "parallel lists")
                        bad = True
        if not bad:
            rep.ok("%s keeps what it is given" % f.path)
    rep.count(container_obligations=n)


def names(p, rep):
    rep.rule("x_ref() of a model type returns the reference with the very name")
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.kind != "AssocFn" or f.trait or f.argc != 1 or not f.name.endswith("_ref") or not f.file.startswith("src/"):
            continue
        if not f.locals[0][0].split("<")[0].endswith("Ref"):
            continue
        odd = next(((last(path), t) for (b, path, cid, args, t) in calls_of(f) if last(path) in ALTERING | {"truncate", "split_at", "get", "split", "rsplit", "format", "index"}), None)
        if odd:
            rep.bad("ref-altered:" + f.path, "%s changes the name: %s()" % (f.path, odd[0]), f.file, odd[1][5], f.path, "the very name")
        else:
            rep.ok("%s keeps the name" % f.path)


WIDTH = {"i8": 7, "u8": 8, "i16": 15, "u16": 16, "i32": 31, "u32": 32, "i64": 63, "u64": 64, "isize": 63, "usize": 64, "i128": 127, "u128": 128, "f32": 24, "f64": 53}


def result_of(ty):
    g = generic_args(ty) if "Result<" in ty else []
    return g[0] if g else None


def parsers(p, rep, texts):
    """parse_x() of io/parse.rs"""
    rep.rule("the functions that turn the text of an element or attribute into a value %s" % ("keep a text as it is" if texts else "parse a number as a number of its own size"))
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.file != "src/io/parse.rs" or f.kind == "closure" or "::tests::" in f.path or not f.name.startswith("parse_"):
            continue
        ty = result_of(f.locals[0][0])
        if texts and ty in ("std::string::String", "alloc::string::String", "String"):
            odd = next(((last(path), t) for (b, path, cid, args, t) in calls_of(f) if last(path) in ALTERING), None)
            if odd:
                rep.bad("parse-altered:" + f.name, "%s changes the text: %s()" % (f.name, odd[0]), f.file, odd[1][5], f.path, "as it is")
            else:
                rep.ok("%s keeps the text" % f.name)
        elif not texts and ty in WIDTH:
            seen, st, bad = set(), [f], None
            while st:
                g = st.pop()
                if g.id in seen:
                    continue
                seen.add(g.id)
                for (b, path, cid, args, t) in calls_of(g):
                    h = p.fns.get(cid)
                    if h is not None and h.file == f.file:
                        st.append(h)
                    elif last(path) in ("parse", "from_str", "from_str_radix") and t[3]:
                        u = result_of(p.place_ty(g, t[3]) or "")
                        if u in WIDTH and WIDTH[u] < WIDTH[ty]:
                            bad = (u, g, t)
            if bad:
                rep.bad("parse-narrow:" + f.name, "%s parses a %s as %s" % (f.name, ty, bad[0]), f.file, bad[2][5], bad[1].path, "own size")
            else:
                rep.ok("%s parses a %s" % (f.name, ty))
