"""C17: accessors of the model agree with each other."""
import re
from collections import defaultdict

import walker
from mir import *
from effects import Effects, last

OPAQUE = ("src/attrmap2.rs",)
# conversions that keep a value
CONV = {"into", "from", "clone", "to_string", "to_owned", "as_ref", "as_mut", "as_deref", "as_deref_mut", "deref", "deref_mut", "new", "into_boxed_str", "as_str", "copied", "cloned", "borrow", "borrow_mut", "ok",
        "unwrap", "expect", "into_string", "to_vec", "into_boxed_slice", "as_slice", "to_smol_str", "from_str", "parse", "Some", "try_from", "try_into", "as_mut_slice", "iter", "iter_mut", "into_iter",
        "unwrap_or", "unwrap_or_default", "unwrap_or_else", "branch", "from_residual", "from_output", "or_default", "or_insert", "or_insert_with", "get_or_insert_with", "get_or_insert", "insert_entry", "fmt_arg", "values", "values_mut", "parse_attr"}
LOOK = {"get", "get_mut", "entry", "index", "index_mut", "range", "range_mut", "attr", "attr_def", "get_key_value", "contains_key", "remove", "find"}


def methods(p):
    by = defaultdict(dict)
    for f in p.fns.values():
        if f.kind == "AssocFn" and f.vis == "pub" and not f.trait and f.file.startswith("src/"):
            o, n = f.path.rsplit("::", 1)
            by[o][n] = f
    return by


def args_in(t):
    """numbers of the arguments in an index expression, in order"""
    out = []

    def go(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == "arg":
            if x[1] not in out:
                out.append(x[1])
            return
        for y in x:
            if isinstance(y, tuple):
                go(y)

    go(t)
    return tuple(out)


class Loc:
    def __init__(self, p):
        self.p = p
        self.nz = Normalizer(p, 6, OPAQUE)

    def norm(self, t):
        self.nz.budget = 4000
        return self.nz.n(t)

    def chains(self, t, depth=0):
        """places of the object a term denotes: {tuple of ('f', field) | ('k', key) | ('i', argument numbers)}, rooted at the first argument"""
        t = strip(t)
        k = t[0]
        if depth > 30:
            return {None}
        if k == "arg":
            return {()} if t[1] == 1 else {("arg", t[1])}
        if k == "field":
            r = self.chains(t[4], depth + 1)
            if t[1] in self.p.adts and not t[1].startswith("std::"):
                return {c + (("f", t[1], t[3]),) if c is not None and not (c and c[0] == "arg") else c for c in r}
            return r
        if k in ("cast",):
            return self.chains(t[2], depth + 1)
        if k == "under":
            return self.chains(t[2], depth + 1)
        if k == "phi":
            out = set()
            for a in t[1]:
                out |= self.chains(a, depth + 1)
            return out
        if k == "const":
            return set()
        if k == "agg":
            out = set()
            if t[1] in ("std::option::Option", "std::result::Result", "std::borrow::Cow") or not t[3]:
                if t[2] in ("None", "Err"):
                    return set()
                for _, a in t[3]:
                    out |= self.chains(a, depth + 1)
                return out
            if t[1] in self.p.adts and len(t[3]) == 1:
                return self.chains(t[3][0][1], depth + 1)
            return {None}
        if k == "idx":
            r = self.chains(t[1], depth + 1)
            return {None if c is None else c + (("i", args_in(t[2])),) for c in r}
        if k == "call":
            nm = last(t[1])
            g = self.p.fns.get(t[2])
            if nm in ("map", "and_then", "map_or", "filter", "map_err", "filter_map", "ok_or", "ok_or_else", "or_else") and len(t[3]) >= 2 and g is None:
                if nm == "map_or" and len(t[3]) > 2:
                    return self.chains(t[3][2], depth + 1)
                y = t[3][1]
                if nm in ("map", "and_then") and not (y[0] == "agg" and y[1].startswith("(closure)")):
                    return self.chains(y, depth + 1)
                return self.chains(t[3][0], depth + 1)
            if nm in LOOK and t[3] and len(t[3]) > 1:
                r = self.chains(t[3][0], depth + 1)
                ks = const_strs_of(t[3][1])
                it = ("k", ks) if ks is not None else ("i", args_in(t[3][1]))
                return {None if c is None else c + (it,) for c in r}
            if nm in ("last", "first", "next", "last_mut", "first_mut", "next_back", "peek", "nth") and g is None and t[3]:
                return self.chains(t[3][0], depth + 1)
            if nm in CONV and t[3] and (g is None or nm in ("clone", "as_ref", "deref", "from", "into", "parse_attr", "borrow", "from_str")):
                return self.chains(t[3][0], depth + 1)
            if g is not None and g.argc == len(t[3]) and depth < 12:
                # a reference into the object
                if g.locals[0][0].lstrip().startswith("&") or g.locals[0][0].startswith("std::option::Option<&"):
                    r = self.norm(subst(g.ret_term(False), {i + 1: a for i, a in enumerate(t[3])}))
                    if r != t:
                        return self.chains(r, depth + 6)
            return {None}
        if k == "undef":
            return set()
        return {None}


def const_strs_of(t):
    t = strip(t)
    while t[0] == "call" and t[3] and last(t[1]) in CONV:
        t = strip(t[3][0])
    return t[2] if t[0] == "const" and t[1] in ("s", "b") else None


def short(c):
    out = []
    for x in c:
        if not isinstance(x, tuple):
            continue
        if x[0] == "f":
            out.append(x[2])
        elif x[0] == "k":
            out.append("[%s]" % x[1])
        elif x[0] == "i":
            out.append("[%s]" % ",".join("#%d" % n for n in x[1]))
    return ".".join(out).replace(".[", "[")


def value_args(t, conv=True):
    """arguments a stored value consists of: (argument numbers, altered by)"""
    seen, bad = [], []

    def go(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == "arg":
            if x[1] not in seen:
                seen.append(x[1])
            return
        if x[0] == "call":
            nm = last(x[1])
            if nm not in CONV and nm not in ("map", "box_new", "fmt", "format", "new_display", "new_const", "must_use", "and_then"):
                bad.append(nm)
        if x[0] in ("bin", "un"):
            bad.append(x[1])
        for y in x:
            if isinstance(y, tuple):
                go(y)

    go(t)
    return seen, bad


class Store:
    def __init__(self, loc, value, guards, line, fn, stack):
        self.loc, self.value, self.guards, self.line, self.fn, self.stack = loc, value, guards, line, fn, stack


def cuts(f, stacks, depth=0):
    """every path through f to its return passes one of the effects"""
    here = defaultdict(list)
    for st in stacks:
        here[st[0][1]].append(st[1:])
    hit = set()
    for b, rest in here.items():
        if any(not r for r in rest) or cuts(rest[0][0][0], rest, depth + 1):
            hit.add(b)
    seen, todo = set(), [0]
    while todo:
        b = todo.pop()
        if b in seen or b in hit:
            continue
        seen.add(b)
        if f.bbs[b]["t"][0] == "ret":
            return False
        todo += f.succs(b)
    return True


class Access:
    def __init__(self, s):
        self.p = s.p
        self.by = methods(s.p)
        self.E = Effects(s.p, lambda f: f.file.startswith("src/") and not f.file.startswith("src/attrmap2"), 3, OPAQUE)
        self.L = Loc(s.p)
        self.st = {}
        self.rd = {}

    def stores(self, f):
        """[(chains, value term | None when removed, guards, line, function)] of what f changes in its object"""
        if f.id in self.st:
            return self.st[f.id]
        out = []
        for e in self.E.run(f):
            if e[0] == "set":
                for c in self.L.chains(e[4]):
                    if c is not None and c and c[0] != "arg":
                        out.append(Store(c, e[5], e[6], e[3], e[1], tuple(self.E.stack) + ((e[1], e[2]),)))
            else:
                nm, a = last(e[4]), e[5]
                path = e[4]
                if not a:
                    continue
                if "attrmap2" in path and nm in ("set_attr", "clear_attr") or re.search(r"(BTreeMap|HashMap|IndexMap|VecDeque|Vec|BTreeSet|HashSet)", path) and nm in (
                        "insert", "remove", "push", "clear", "swap_remove", "truncate", "retain", "extend", "append", "drain", "pop", "sort", "dedup"):
                    for c in self.L.chains(a[0]):
                        if c is None or c and c[0] == "arg":
                            continue
                        key = const_strs_of(a[1]) if len(a) > 1 else None
                        if nm in ("set_attr", "clear_attr"):
                            c = c + (("k", key),)
                        elif nm in ("insert", "remove") and len(a) > 1 and "Vec" not in path:
                            c = c + ((("k", key) if key is not None else ("i", args_in(a[1]))),)
                        else:
                            c = c + (("v", nm),)
                        v = None if nm in ("clear_attr", "remove", "clear") else a[-1]
                        out.append(Store(c, v, e[6], e[3], e[1], tuple(self.E.stack) + ((e[1], e[2]),)))
                elif re.search(r"Option|mem::", path) and nm in ("take", "replace", "insert", "swap") or re.search(r"Option", path) and nm in ("get_or_insert_with", "get_or_insert"):
                    if nm.startswith("get_or"):
                        continue
                    for c in self.L.chains(a[0]):
                        if c is not None and c and c[0] != "arg":
                            out.append(Store(c, a[1] if len(a) > 1 else None, e[6], e[3], e[1], tuple(self.E.stack) + ((e[1], e[2]),)))
        self.st[f.id] = out
        return out

    def reads(self, f):
        """places the result of a getter comes from"""
        if f.id not in self.rd:
            self.rd[f.id] = self.L.chains(self.L.norm(f.ret_term(False)))
        return self.rd[f.id]


def clean(c):
    """without how a collection is indexed"""
    return tuple(x for x in c if x[0] in ("f", "k"))


def same(a, b):
    """the same place; index arguments are compared where both sides have them"""
    if clean(a) != clean(b):
        return False
    ia, ib = [x[1] for x in a if x[0] == "i" and x[1]], [x[1] for x in b if x[0] == "i" and x[1]]
    return not ia or not ib or ia == ib


def prefix(a, b):
    a, b = clean(a), clean(b)
    return len(a) < len(b) and b[:len(a)] == a


def creates(A, w):
    """the store only happens when there is nothing in that place yet"""
    c = clean(w.loc)
    for g, v in w.guards:
        subj = []
        walk(g, lambda x: subj.append(x) if x[0] in ("field", "call") else None)
        for x in subj:
            if x[0] == "call" and last(x[1]) in ("is_none", "is_empty", "is_some") and x[3]:
                x = x[3][0]
            if any(y is not None and not (y and y[0] == "arg") and clean(y) == c for y in A.L.chains(x)):
                return True
    return False


def touched(A, f):
    """all places a function looks at"""
    out = set()
    for e in A.E.run(f):
        if e[0] == "call":
            for a in e[5]:
                for c in A.L.chains(a):
                    if c is not None and not (c and c[0] == "arg"):
                        out.add(clean(c))
            if last(e[4]) in ("attr", "attr_def", "get") and len(e[5]) > 1:
                k = const_strs_of(e[5][1])
                for c in A.L.chains(e[5][0]):
                    if c is not None and not (c and c[0] == "arg") and k is not None:
                        out.add(clean(c) + (("k", k),))
    return out


def check(s, rep):
    p = s.p
    import p_headers
    p_headers.clones(p, rep)
    A = Access(s)
    pairs = [(o, n[4:], ms[n], ms[n[4:]]) for o, ms in sorted(A.by.items()) for n in sorted(ms) if n.startswith("set_") and n[4:] in ms]
    rep.rule("what set_x() stores is what x() returns: same place, same index, the given value, on every path; nothing else of the object changes")
    place = {}
    for o, x, f, g in pairs:
        r = A.reads(g)
        if r and None not in r:
            place[(o, x)] = {clean(c) for c in r}
    for o, x, f, g in pairs:
        if x == "attr":
            continue
        own = "%s::%s" % (o, x)
        r = A.reads(g)
        st = A.stores(f)
        known = bool(r) and None not in r
        rr = {c for c in r if c is not None} if r else set()
        tt = None if known else touched(A, g)
        main, rest = [], []
        for w in st:
            used = value_args(w.value)[0] if w.value is not None else []
            idx = {n for i in w.loc if i[0] == "i" for n in i[1]}
            own_value = [n for n in used if n > 1 and n not in idx]
            hit = any(same(w.loc, c) for c in rr) if known else own_value and (clean(w.loc) in tt or any(same(w.loc, c) for c in rr))
            if hit:
                main.append(w)
            elif own_value and not any(prefix(w.loc, c) for c in rr):
                rest.append((w, "stores its argument in %s" % short(w.loc)))
            else:
                rest.append((w, None))
        if not st:
            rep.note("undecided: %s" % own) if hasattr(rep, "note") else None
            continue
        if not main:
            if known or tt:
                rep.bad("pair:" + own, "set_%s() does not store where %s() looks (%s)" % (x, x, ", ".join(sorted(short(c) for c in rr)) or "?"), f.file, f.line, f.path, "accessor pairs")
            continue
        bad = False
        for loc in {clean(w.loc) for w in main}:
            ws = [w for w in main if clean(w.loc) == loc]
            if known and not cuts(f, [w.stack for w in ws]):
                rep.bad("cond:" + own, "set_%s() returns without storing %s on some path" % (x, short(loc)), f.file, f.line, f.path, "accessor pairs")
                bad = True
            for w in ws:
                if w.value is None:
                    continue
                used, alt = value_args(w.value)
                if alt:
                    rep.bad("value:" + own, "set_%s() stores something else than the given value (%s)" % (x, alt[0]), w.fn.file, w.line, w.fn.path, "accessor pairs")
                    bad = True
        for w, what in rest:
            c = clean(w.loc)
            if any(prefix(w.loc, m.loc) for m in main):
                # creates what holds the place
                if not creates(A, w):
                    rep.bad("frame:" + own, "set_%s() replaces all of %s" % (x, short(w.loc)), w.fn.file, w.line, w.fn.path, "accessor pairs")
                    bad = True
                continue
            others = [y for (oo, y), ls in place.items() if oo == o and y != x and c in ls]
            if others:
                rep.bad("frame:" + own, "set_%s() also changes what %s() returns" % (x, others[0]), w.fn.file, w.line, w.fn.path, "accessor pairs")
                bad = True
        if not known:
            # the parts of a composed value
            pre = {clean(w.loc)[:-1] for w in main if clean(w.loc)[-1][0] == "k"}
            wrote = {clean(w.loc) for w in st if clean(w.loc)[-1][0] == "k" and w.value is not None}
            read = {c for c in tt if c and c[-1][0] == "k" and c[:-1] in pre}
            if pre and wrote != read:
                d = sorted(x[-1][1] for x in wrote ^ read)
                rep.bad("parts:" + own, "set_%s() and %s() do not use the same attributes: %s" % (x, x, ", ".join(d)), f.file, f.line, f.path, "accessor pairs")
                bad = True
        if not bad:
            rep.ok(own)
    rep.rule("the methods around x() (x_mut(), clear_x(), add_x(), iter_xs() ...) work on the same place")
    n = check_families(A, rep, lambda o: o != "workbook_::WorkBook")
    rep.rule("clear_x() empties what x() returns and nothing else")
    for (o, st), ms in families(A).items():
        g = next((f for nm, role, f in ms if role == "get" and (o, nm) in place), None) or next((f for nm, role, f in ms if role == "get" and not nm.endswith("_mut") and bases(A, f, "get")), None)
        for nm, role, f in ms:
            if role != "clear" or g is None:
                continue
            r = A.reads(g)
            if not r or None in r:
                continue
            ws = A.stores(f)
            bad = False
            for w in ws:
                c = clean(w.loc)
                if any(c == clean(y) for y in r):
                    if not any(same(w.loc, y) for y in r):
                        rep.bad("clear:%s::%s" % (o, nm), "%s() clears another element than %s() returns" % (nm, g.name), w.fn.file, w.line, w.fn.path, "clear")
                        bad = True
                    if w.value is not None and not empty(w.value):
                        rep.bad("clear:%s::%s" % (o, nm), "%s() does not clear" % nm, w.fn.file, w.line, w.fn.path, "clear")
                        bad = True
                    continue
                if any(prefix(w.loc, y) for y in r):
                    if not creates(A, w):
                        rep.bad("frame:%s::%s" % (o, nm), "%s() replaces all of %s" % (nm, short(w.loc)), w.fn.file, w.line, w.fn.path, "clear")
                        bad = True
                    continue
                others = [y for (oo, y), ls in place.items() if oo == o and c in ls and y != g.name]
                if others:
                    rep.bad("frame:%s::%s" % (o, nm), "%s() also changes what %s() returns" % (nm, others[0]), w.fn.file, w.line, w.fn.path, "clear")
                    bad = True
            if not bad and ws:
                rep.ok("%s::%s" % (o, nm))
    rep.rule("constructors put each argument into the field of its name")
    k = constructors(A, rep, place)
    rep.count(pairs=len(pairs), family_members=n, constructor_arguments=k)


def empty(t):
    t = strip(t)
    if t[0] == "agg":
        return t[2] == "None" or not t[3] or all(empty(a) for _, a in t[3])
    if t[0] == "call":
        return last(t[1]) in ("new", "default") and not t[3]
    return t[0] == "const"


def constructors(A, rep, place):
    """arguments named like a field or an accessor"""
    p, k = A.p, 0
    for o, ms in sorted(A.by.items()):
        adt = o.split("::<")[0]
        if adt not in p.adts:
            continue
        own = [fl[0] for v in p.adts[adt]["variants"] for fl in v["fields"]]
        for nm, f in sorted(ms.items()):
            if not f.argc or f.locals[0][0].split("<")[0] != adt or "self" in [l[1] for l in f.locals[1:f.argc + 1] if len(l) > 1]:
                continue
            r = strip(A.L.norm(f.ret_term(False)))
            if r[0] != "agg" or r[1] != adt:
                continue
            par = {f.locals[i][1]: i for i in range(1, f.argc + 1) if len(f.locals[i]) > 1}
            inv = {i: n for n, i in par.items()}
            for n, v in r[3]:
                got = args_in(v)
                if not got:
                    if n in par:
                        rep.bad("new:%s::%s.%s" % (o, nm, n), "%s() ignores its argument %s" % (nm, n), f.file, f.line, f.path, "constructors")
                    continue
                names = [inv.get(i, "?") for i in got]
                bad = None
                if n in par and par[n] not in got:
                    bad = "%s gets %s" % (n, ", ".join(names))
                elif n not in par and any(x in own for x in names) and len(got) == 1:
                    bad = "%s gets %s" % (n, names[0])
                # from and to
                for x in names:
                    if (n.startswith("to_") and x.startswith("from_")) or (n.startswith("from_") and re.search(r"(^to_|_to$|_to_)", x)) or (
                            n.startswith("to_") and "from_" + n[3:] in own and not re.search(r"(^to_|_to$|_to_)", x) and any(re.search(r"(^to_|_to$|_to_)", y) for y in par) and len(got) == 1):
                        bad = "%s gets %s" % (n, x)
                if bad:
                    rep.bad("new:%s::%s.%s" % (o, nm, n), "%s(): %s" % (nm, bad), f.file, f.line, f.path, "constructors")
                else:
                    k += 1
                    rep.ok("%s::%s %s" % (o, nm, n))
    return k


ROLES = [("clear_", "clear"), ("add_", "add"), ("push_", "add"), ("insert_", "add"), ("remove_", "remove"), ("iter_", "get"), ("num_", None), ("set_", "set")]


def stem(n):
    role = "get"
    for pre, r in ROLES:
        if n.startswith(pre):
            n, role = n[len(pre):], r
            break
    else:
        for suf, r in (("_mut", "get"), ("_iter", "get"), ("_iter_mut", "get"), ("_count", None)):
            if n.endswith(suf):
                n, role = n[:-len(suf)], r
                break
    return n.replace("_", "").rstrip("s"), role


def fields(c):
    return tuple(x for x in c if isinstance(x, tuple) and x[0] in ("f", "k"))


def bases(A, f, role):
    """places a method of a family works on, None if that is not clear"""
    if role == "get":
        r = A.reads(f)
        if not r or None in r or any(c and c[0] == "arg" for c in r) or () in r:
            return None
        return {fields(c) for c in r}
    out = set()
    ws = A.stores(f)
    for w in ws:
        used = value_args(w.value)[0] if w.value is not None else []
        idx = {n for i in w.loc if i[0] == "i" for n in i[1]}
        new = [n for n in used if n > 1 and (n not in idx or role == "add")]
        if role in ("add", "set") and not new:
            continue
        if any(prefix(w.loc, x.loc) for x in ws) and w.guards:
            continue
        out.add((fields(w.loc), not w.guards))
    # what always happens is the point of the method, the rest is preparation
    if any(g for _, g in out):
        out = {x for x in out if x[1]}
    return {x for x, _ in out} or None


def related(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


SKIPFAM = re.compile(r"^(text::|value_::|io::|attrmap2|condition|format::builder)")


def families(A):
    out = defaultdict(list)
    for o, ms in sorted(A.by.items()):
        if SKIPFAM.search(o) or o.endswith("Ref"):
            continue
        for n, f in sorted(ms.items()):
            st, role = stem(n)
            if role and f.argc and f.locals[1][0].lstrip().startswith("&"):
                out[(o, st)].append((n, role, f))
    return out


def check_families(A, rep, want):
    n = 0
    for (o, st), ms in families(A).items():
        if not want(o) or len(ms) < 2:
            continue
        known = [(nm, role, f, bases(A, f, role)) for nm, role, f in ms]
        for nm, role, f in ms:
            if role != "add":
                continue
            for w in A.stores(f):
                x = w.loc[-1]
                if x[0] != "f" or w.value is None or creates(A, w):
                    continue
                ty = ftype(A.p, x[1], x[2])
                if re.match(r"(std::option::Option<)?(std::vec::Vec|std::collections|indexmap|std::boxed::Box<\[)", ty) and 1 not in value_args(w.value)[0]:
                    rep.bad("add:%s::%s" % (o, nm), "%s() replaces what was added before" % nm, w.fn.file, w.line, w.fn.path, "accessor families")
        known = [x for x in known if x[3]]
        if len(known) < 2:
            continue
        # the reading side says what the place is; the majority decides otherwise
        votes = [(sum(1 for y in known if agree(x[3], y[3])), x[1] == "get", x) for x in known]
        best = max(votes, key=lambda v: (v[0], v[1]))[2]
        for nm, role, f, b in known:
            if agree(b, best[3]):
                rep.ok("%s::%s" % (o, nm))
                n += 1
            else:
                rep.bad("family:%s::%s" % (o, nm), "%s() works on %s, but %s() on %s" % (nm, ", ".join(sorted(map(short, b))), best[0], ", ".join(sorted(map(short, best[3])))),
                        f.file, f.line, f.path, "accessor families")
    return n


def ftype(p, adt, name):
    return next((fl[1] for v in p.adts.get(adt, {"variants": []})["variants"] for fl in v["fields"] if fl[0] == name), "")


def agree(a, b):
    return all(any(related(x, y) for y in b) for x in a) and all(any(related(x, y) for y in a) for x in b)


PROPS = {"C17": (check, "other", "term extraction of the places accessors read and write over MIR, matching by name")}
