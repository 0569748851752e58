"""Reader side of the round trip: what is found in the file is stored whatever it is and whatever else is there."""
from collections import defaultdict

import tables
from mir import *

NARROW = {"filter", "take_if", "filter_map", "xor", "then", "then_some", "find", "find_map"}
TESTS = {"contains", "starts_with", "ends_with", "is_ascii", "is_ascii_digit", "is_numeric", "is_alphabetic", "is_some", "is_none", "eq", "ne", "lt", "le", "gt", "ge",
         "is_whitespace", "is_char_boundary", "any", "all", "matches", "contains_key", "is_finite", "is_nan", "is_sign_positive", "is_sign_negative", "is_normal"}


def last(c):
    return c.rsplit("::", 1)[-1]


def event(x):
    """the current XML event (or a part of it)"""
    x = strip(x)
    n = 0
    while x[0] in ("field", "under") and n < 20:
        x = strip(x[4] if x[0] == "field" else x[2])
        n += 1
    if x[0] == "phi":
        return any(event(y) for y in x[1])
    if x[0] != "call":
        return False
    return last(x[1]) == "read_event_into" or (last(x[1]) == "branch" and event(x[3][0]))


def tagname(x):
    x = strip(x)
    n = 0
    while x[0] == "call" and x[3] and last(x[1]) in ("as_ref", "deref", "borrow", "into_inner", "local_name") and n < 6:
        x = strip(x[3][0])
        n += 1
    return x[0] == "call" and last(x[1]) in ("name", "local_name") or x[0] == "field" and x[3] == "key"


def structural(f, k, v):
    """a guard that only tells where in the document the reader is, or that nothing failed"""
    x = strip(k)
    if all(y[0] == "var" and y[1] in ("Continue", "Ok") or y[0] == "not" and y[1][0] == "var" and y[1][1] in ("Break", "Err") for y in v):
        return True
    if x[0] == "arg" and f.locals[x[1]][0] == "bool":
        return True
    if x[0] == "call" and last(x[1]) in ("next", "name", "local_name"):
        return True
    if x[0] == "field" and x[3] == "key" or event(x):
        return True
    if x[0] in ("gt", "ge", "lt", "le", "eq", "ne", "bin", "op") and any(tagname(y) for y in x if isinstance(y, tuple)):
        return True
    if x[0] == "call" and any(tagname(a) for a in x[3]):
        return True
    return False


def flag(x):
    """a local boolean that is only ever set to constants or accumulated: the state of the reader"""
    x = strip(x)
    if x[0] == "const":
        return True
    if x[0] == "loop":
        return True
    if x[0] == "phi":
        return all(flag(y) for y in x[1])
    if x[0] in ("bin", "op"):
        return True
    if x[0] == "under":
        return flag(x[2])
    return False


def narrowing(p, f, x):
    """the Option tested is one that was made None for some values"""
    x = strip(x)
    n = 0
    while n < 30:
        n += 1
        if x[0] == "call":
            if last(x[1]) in NARROW and ("Option" in x[1] or "bool" in x[1]):
                return x
            if not x[3]:
                return None
            x = strip(x[3][0])
        elif x[0] in ("field",):
            x = strip(x[4])
        elif x[0] == "under":
            x = strip(x[2])
        else:
            return None
    return None


def small(x):
    x = strip(x)
    return x[0] == "const" and x[1] in ("i", "int") and x[2] in (0, 1)


def comparison(x):
    """(op, a, b) of a comparison"""
    if x[0] in ("gt", "ge", "lt", "le", "eq", "ne") and len(x) == 3:
        return x
    if x[0] in ("bin", "op") and len(x) >= 4 and str(x[1]).lower() in ("gt", "ge", "lt", "le", "eq", "ne"):
        return x[1].lower(), x[2], x[3]
    return None


def input_value(x):
    """derived from what stands in the file"""
    r = [False]

    def v(y):
        if y[0] == "call" and last(y[1]) in ("read_event_into", "attributes", "decode_and_unescape_value"):
            r[0] = True
    walk(x, v)
    return r[0]


def condition(p, f, k, vals):
    """why a guard makes the store depend on a value: text, or None"""
    x = strip(k)
    nb = narrowing(p, f, x)
    if nb is not None:
        if last(nb[1]) == "filter" and len(nb[3]) == 2:
            ps = Normalizer(p).pred(nb[3][1], [("item",)])
            if ps and all(comparison(strip(k2)) and condition(p, f, k2, v2) is None for k2, v2 in ps):
                return None
        return "passes %s()" % last(nb[1])
    if not any(v[0] == "bool" for v in vals):
        return None
    if flag(x):
        return None
    c = comparison(x)
    if c:
        if small(c[1]) or small(c[2]):
            return None
        return "is compared (%s)" % show(x)[:80]
    if x[0] == "call":
        nm = last(x[1])
        g = p.fns.get(x[2])
        if nm in TESTS and (g is None or is_std(x[1])):
            return "is tested with %s()" % nm
        if g is not None and g.locals[0][0] == "bool" and nm not in ("is_empty",):
            return ("pred", g, x, vals)
    return None


def conditional(c):
    """every store of what was read is only conditional on the place in the document and on the value being there"""
    rep, s, p = c.rep, c.s, c.s.p
    done = {}
    n = 0
    for e in s.reader.effects:
        if not e.path or e.path[-1][0].rsplit("::", 1)[-1] in ("OdsError",):
            continue
        els = set(e.elems or ()) | set(e.tags or ())
        if not any(c.sel(x) for x in els):
            continue
        f = e.fn
        key = (f.id, e.block, e.path[-1])
        if key in done:
            continue
        done[key] = 1
        n += 1
        bad = None
        for k, v in f.ctrl_guards(e.block).items():
            if structural(f, k, v):
                continue
            w = condition(p, f, k, v)
            if isinstance(w, tuple):
                continue
            if w:
                bad = w
        fl = "%s.%s" % (e.path[-1][0].rsplit("::", 1)[-1], e.path[-1][-1])
        if bad:
            rep.bad("conditional-read:%s:%s" % (f.name, fl), "what is read for %s is only kept under a condition: it %s" % (fl, bad), f.file, e.line, f.path, "conditional read")
        else:
            rep.ok()
    rep.count(stores=n)


# ------------------------------------------------------------------ writer
def has_field(p, t):
    r = [False]

    def v(y):
        if y[0] == "field" and y[1] in p.adts and not y[1].startswith("io::"):
            r[0] = True
    walk(t, v)
    return r[0]


def roots(t):
    out = set()

    def v(y):
        if y[0] in ("arg", "loop", "local"):
            out.add(y[:2])
    walk(t, v)
    return out


def foreign(p, f, k, vals, value):
    """a condition that has nothing to do with what is written"""
    x = strip(p.norm(k))
    if has_field(p, x) or not any(v[0] in ("bool", "int", "not") for v in vals) or any(v[0] in ("var", "str") or v[0] == "not" and v[1][0] in ("var", "str") for v in vals):
        return False
    if x[0] == "phi" and flag(x) and not any(y[0] == "arg" for y in x[1]):
        return False
    r = roots(x)
    if not r:
        return False
    if value is not None and r & roots(p.norm(value)) and not has_field(p, p.norm(value)):
        return False
    if event(x):
        return False
    return True


def writes(c):
    """attributes and texts taken from the model are written whatever the surroundings"""
    rep, s, p = c.rep, c.s, c.s.p
    rows = defaultdict(set)
    for r in tables.writer_table(s):
        if r.paths and r.kind != "start" and r.kind != "empty":
            rows[(r.fn.id if hasattr(r.fn, "id") else r.fn, r.line)].add(r.elem)
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if not f.file.endswith("io/write.rs"):
            continue
        for (b, path, cid, args, t) in f.calls:
            els = rows.get((f.id, t[5]))
            if not els or b not in f.reachable or not any(c.sel(x) for x in els) or "XmlWriter" not in path:
                continue
            nm = last(path)
            if not nm.startswith(("attr", "text", "elem_text")):
                continue
            a = const_str(strip(f.term_op(args[1]))) if len(args) > 1 else None
            value = f.term_op(args[-1]) if args else None
            w = None
            for k, v in f.ctrl_guards(b).items():
                if structural_w(k, v):
                    continue
                x = strip(k)
                nb = narrowing(p, f, x)
                if nb is not None and last(nb[1]) == "filter" and len(nb[3]) == 2:
                    ps = Normalizer(p).pred(nb[3][1], [("item",)])
                    for k2, v2 in ps or ():
                        if not mentions(k2, ("item",)) and not has_field(p, k2):
                            w = k2
                elif foreign(p, f, k, v, value):
                    w = k
            el = sorted(e for e in els if c.sel(e))[0]
            if w is not None:
                rep.bad("foreign-guard:%s:%s" % (f.name, a or nm), "%s/@%s is only written under a condition on something else (%s)" % (el, a, show(w)[:60]), f.file, t[5], f.path, "omission")
            else:
                rep.ok()


def structural_w(k, vals):
    x = strip(k)
    return x[0] == "call" and last(x[1]) in ("next", "branch")


def mentions(t, a):
    st, n = [t], 0
    while st and n < 20000:
        y = st.pop()
        n += 1
        if y == a:
            return True
        if isinstance(y, tuple):
            st.extend(z for z in y if isinstance(z, tuple))
    return False


def siblings(c):
    """all places that write an element for the same kind of object write the same attributes"""
    rep, s = c.rep, c.s
    rt = c.rt
    for el in sorted(rt.Wopen, key=str):
        if not c.sel(el):
            continue
        chains = {}
        for o in rt.Wopen[el]:
            chains.setdefault(o.chain, o)
        if len({x[-1] for x in chains}) < 2:
            continue
        per = {}
        for ch, o in chains.items():
            per[ch] = defaultdict(set)
        for (e2, at), rows in rt.W.items():
            if e2 != el or not at or str(at).startswith("?"):
                continue
            for r in rows:
                for ch in chains:
                    if r.chain[:len(ch)] == ch:
                        for x in r.paths or ():
                            per[ch][x[-1][0]].add(at)
                        per[ch][""].add(at)
        # the same function may be reached in more than one way
        fns = defaultdict(lambda: defaultdict(set))
        for ch, d in per.items():
            for o, ats in d.items():
                fns[ch[-1]][o] |= ats
        owners = {o for d in fns.values() for o in d if o}
        for o in sorted(owners):
            have = [n for n in fns if o in fns[n]]
            allats = set().union(*(fns[n][o] for n in have))
            for n in sorted(have):
                miss = {a for a in allats - fns[n][""] if (el, a) not in c.special}
                op = next(chains[ch] for ch in chains if ch[-1] == n)
                for a in sorted(miss):
                    rep.bad("sibling:%s:%s:%s" % (el, a, n), "%s/@%s (%s) is not written by %s" % (el, a, o, n), op.fn.file, op.line, op.fn.path, "omission")
                if not miss:
                    rep.ok()


def lookup(c):
    """headers that cover several rows are looked up by range"""
    rep = c.rep
    for (el, at), rows in sorted(c.rt.W.items(), key=str):
        if el != "table:table-row" or not c.sel(el):
            continue
        for r in rows:
            if not any(x[-1][0] == "RowHeader" and x[-1][2] != "repeat" for x in r.paths or c.rt.selectors(r)):
                continue
            got = set()

            def v(y):
                if y[0] == "call" and y[3] and last(y[1]) in ("get", "range", "get_key_value", "iter", "values"):
                    z = strip(y[3][0])
                    if z[0] == "field" and z[3] == "row_header":
                        got.add(last(y[1]))
            walk(r.value, v)
            for k, vv in c.rt.local_guards(r):
                walk(k, v)
            if "get" in got and "range" not in got:
                rep.bad("lookup:%s:%s" % (el, at), "%s/@%s is looked up by the exact row only: rows further down in the span of a header lose it" % (el, at), r.fn.file, r.line, r.fn.path, "lookup")
            else:
                rep.ok()


# ------------------------------------------------------------------ cells that are not kept
def paths(p, f, depth=0):
    """paths of a loop-free boolean function: [([(subject, value)], result)]; calls of other such functions are expanded"""
    out = []

    def fin(cond, val):
        alts = [([], val)]
        for sj, v in cond:
            x = strip(sj)
            g = p.fns.get(x[2]) if x[0] == "call" else None
            if g is not None and v[0] == "bool" and depth < 4 and g.locals[0][0] == "bool" and len(g.reachable) < 60:
                sub = [c2 for c2, r2 in paths(p, g, depth + 1) if r2 == v[1]]
                if sub:
                    env = {i + 1: a for i, a in enumerate(x[3])}
                    alts = [(a + [(subst(k2, env), v2) for k2, v2 in c2], val) for a, _ in alts for c2 in sub]
                    continue
            alts = [(a + [(sj, v)], val) for a, _ in alts]
        out.extend(alts)

    def go(b, cond, env, n):
        if n > 60 or len(out) > 400:
            return
        env = dict(env)
        for st in f.bbs[b]["s"]:
            if st[0] == "=" and len(st[1]) == 1 and f.locals[st[1][0]][0] == "bool":
                rv = strip(f.term_rv(st[2], False))
                src = st[2][1] if st[2][0] == "use" else st[2][2] if st[2][0] == "un" else None
                if src is not None and src[0] in ("c", "m") and len(src[1]) == 1 and src[1][0] in env:
                    rv = env[src[1][0]] if st[2][0] == "use" else ("un", st[2][1], env[src[1][0]])
                env[st[1][0]] = rv
        t = f.bbs[b]["t"]
        if t[0] == "call" and len(t[3]) == 1 and f.locals[t[3][0]][0] == "bool":
            env[t[3][0]] = strip(f.term_call(t, False))
        ret = env.get(0)
        if t[0] == "ret":
            if ret is None:
                return
            if ret[0] == "const" and ret[1] == "bool":
                fin(cond, ret[2])
            else:
                pol = True
                while ret[0] == "un" and ret[1] == "Not":
                    ret, pol = strip(ret[2]), not pol
                fin(cond + [(ret, ("bool", True))], pol)
                fin(cond + [(ret, ("bool", False))], not pol)
            return
        es = {}
        known = env.get(t[1][1][0]) if t[0] == "sw" and t[1][0] in ("c", "m") and len(t[1][1]) == 1 else None
        if known is not None and len(t[2]) == 1 and t[2][0][0] == 0 and (strip(f.term_op(t[1], False))[0] == "phi" or bare(known)[0] == "const"):
            for x, want in ((t[2][0][1], False), (t[3], True)):
                k = known
                while k[0] == "un" and k[1] == "Not":
                    k, want = strip(k[2]), not want
                if k[0] == "const" and k[1] == "bool":
                    if k[2] == want:
                        go(x, cond, env, n + 1)
                    continue
                sj, v, pol = cond_term(k)
                if v[0] == "bool":
                    go(x, cond + [(sj, ("bool", v[1] if pol == want else not v[1]))], env, n + 1)
                elif v in (("var", "Some"), ("var", "Ok")):
                    go(x, cond + [(sj, v if pol == want else ("var", {"Some": "None", "Ok": "Err"}[v[1]]))], env, n + 1)
                else:
                    go(x, cond + [(sj, v if pol == want else ("not", v))], env, n + 1)
            return
        for s, sj, v in f.edges_of(b):
            if sj is not None:
                es[s] = (sj, v)
        for x in f.succs(b):
            c = cond
            if x in es:
                sj, v = es[x]
                c = cond + [(sj, v)]
            go(x, c, env, n + 1)

    go(0, [], {}, 0)
    return out


def bare(k):
    while k[0] == "un" and k[1] == "Not":
        k = strip(k[2])
    return k


def absent(sj, v):
    """the condition says that there is nothing"""
    x = strip(sj)
    if x[0] == "call":
        nm = last(x[1])
        if nm in ("is_some",):
            return v == ("bool", False)
        if nm in ("is_none", "is_empty", "is_void", "is_default"):
            return v == ("bool", True)
        if nm in ("eq",):
            return v == ("bool", True)
        if nm in ("ne",):
            return v == ("bool", False)
    if x[0] == "eq":
        return v == ("bool", True)
    if x[0] == "ne":
        return v == ("bool", False)
    if x[0] == "bin" and x[1] in ("Eq", "Ne"):
        return v == ("bool", x[1] == "Eq")
    if v[0] == "int":
        return v[1] in (0, 1)
    if v[0] == "not":
        return False if v[1][0] == "int" else None
    if v[0] == "var":
        return v[1] in ("None", "Empty")
    if v[0] == "set":
        return set(v[1]) <= {("var", "None"), ("var", "Empty")}
    return None


def equality(sj):
    """the condition compares with the value that applies anyway"""
    x = strip(sj)
    if x[0] == "call" and last(x[1]) in ("eq", "ne") or x[0] in ("eq", "ne") or x[0] == "bin" and x[1] in ("Eq", "Ne"):
        a = [strip(y) for y in (x[3] if x[0] == "call" else x[1:] if x[0] != "bin" else x[2:])]
        return len(a) == 2 and not any(y[0] == "const" for y in a)
    return False


def fields_of(p, ty, depth=0):
    """[(owner, field)] of a struct and of the optional struct inside it"""
    a = p.adts.get(ty)
    out = []
    if a is None or a["kind"] != "struct":
        return out
    for n, t in ((x[0], x[1]) for x in a["variants"][0]["fields"]):
        inner = None
        if depth == 0 and t.startswith("std::option::Option<std::boxed::Box<"):
            inner = t[len("std::option::Option<std::boxed::Box<"):].split(">")[0].split(",")[0]
        out.append((ty, n, [x for x in fields_of(p, inner, 1)] if inner else []))
    return out


def tested(p, sj):
    """the fields a condition is about: the one tested and the structs it lies directly in"""
    out = set()
    st = [strip(sj)]
    n = 0
    while st and n < 40:
        x = st.pop()
        n += 1
        if x[0] == "call":
            st.extend(strip(a) for a in x[3])
        elif x[0] in ("eq", "ne", "gt", "ge", "lt", "le"):
            st.extend(strip(a) for a in x[1:])
        elif x[0] == "bin":
            st.extend(strip(a) for a in x[2:])
        elif x[0] in ("discr", "un"):
            st.append(strip(x[-1]))
        elif x[0] == "agg":
            st.extend(strip(v) for _, v in x[3])
        elif x[0] == "field" and x[1] in p.adts:
            while x[0] == "field" and x[1] in p.adts:
                out.add((x[1], x[3]))
                x = strip(x[4])
        elif x[0] == "field":
            st.append(strip(x[4]))
        elif x[0] == "under":
            st.append(strip(x[2]))
    return out


def dropping(c, skip=("repeat",)):
    """a cell is only left out when there is nothing in it"""
    rep, s, p = c.rep, c.s, c.s.p
    found = 0
    seen = set()
    for e in s.reader.effects:
        if not e.path or e.path[-1][0].rsplit("::", 1)[-1] != "Sheet" or e.path[-1][-1] != "data":
            continue
        f = e.fn
        for k, v in f.ctrl_guards(e.block).items():
            if structural(f, k, v):
                continue
            x = strip(k)
            w = condition(p, f, k, v)
            if not isinstance(w, tuple) or (f.id, e.block, x[2]) in seen:
                continue
            seen.add((f.id, e.block, x[2]))
            found += 1
            g = w[1]
            kept = {y[1] for y in v if y[0] == "bool"}
            if len(kept) != 1:
                continue
            drop = not kept.pop()
            ty = next((deref_ty(g.locals[i][0]) for i in range(1, g.d["argc"] + 1) if deref_ty(g.locals[i][0]) in p.adts and "Cell" in g.locals[i][0] and "Style" not in g.locals[i][0]), None)
            if not rep.need(ty, "drop:" + g.name, "the cell %s() decides about" % g.name):
                continue
            flds = fields_of(p, ty)
            for cond, val in paths(p, g):
                if val != drop:
                    continue
                if any(y[1].startswith("io::") and y[1].rsplit("::", 1)[-1] in ("OdsContext", "OdsOptions") for kk, vv in cond for y in terms(kk) if y[0] == "field"):
                    opts = [vv for kk, vv in cond for y in terms(kk) if y[0] == "field" and y[1].startswith("io::")]
                    if any(vv == ("bool", True) for vv in opts):
                        continue
                lk = [(tested(p, p.norm(kk)), absent(p.norm(kk), vv), equality(p.norm(kk))) for kk, vv in cond]
                miss = []

                def gone(o, n):
                    rs = [(a, q) for fl, a, q in lk if (o, n) in fl]
                    return any(a is True and q for a, q in rs) or bool(rs) and all(a is True for a, q in rs)
                for o, n, inner in flds:
                    if n in skip or gone(o, n):
                        continue
                    if inner and all(gone(o2, n2) for o2, n2, _ in inner):
                        continue
                    if inner:
                        miss += ["%s.%s" % (n, n2) for o2, n2, _ in inner if not gone(o2, n2)]
                    else:
                        miss.append(n)
                for m in miss:
                    rep.bad("dropped:" + m, "%s() leaves out cells with %s" % (g.name, m), g.file, g.line, g.path, "no cell is lost")
                if not miss:
                    rep.ok("a cell is left out only without " + ", ".join(n for _, n, _ in flds if n not in skip))
    rep.count(drop_tests=found)


def terms(t):
    out = []
    walk(t, lambda y: out.append(y) and False)
    return out


def headers(c):
    """the end of a header range moves with every header block that is read"""
    rep, s = c.rep, c.s
    by = defaultdict(list)
    for e in s.reader.effects:
        ns = [(x[0].rsplit("::", 1)[-1], x[-1]) for x in e.path or ()]
        for i, (o, n) in enumerate(ns):
            if o == "Sheet" and n in ("header_rows", "header_cols") and ns[i + 1:] in ([], [("Header", "to")]):
                by[(e.fn.id, n)].append(e)
    for (fid, n), es in sorted(by.items(), key=str):
        f = es[0].fn
        gs = [{strip(k): set(v) for k, v in e.fn.ctrl_guards(e.block).items() if not structural(e.fn, k, v)} for e in es]
        bad = False
        for k in {k for g in gs for k in g}:
            if all(k in g for g in gs):
                vs = set().union(*(g[k] for g in gs))
                if vs < {("var", "None"), ("var", "Some")} or vs < {("bool", True), ("bool", False)}:
                    bad = True
        if bad:
            rep.bad("header-end:%s" % n, "the end of Sheet::%s is not set for every header block that is read" % n, f.file, es[0].line, f.path, "headers")
        else:
            rep.ok()
