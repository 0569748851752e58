"""C13: loading does not panic."""
from collections import defaultdict

import walker
from mir import *

UNWRAP = {"unwrap", "expect", "unwrap_err", "expect_err", "unwrap_unchecked"}
SLICE = {"split_at", "split_at_mut", "copy_from_slice", "clone_from_slice", "swap_remove", "split_off", "drain", "truncate", "replace_range", "insert_str", "chunks", "chunks_exact", "windows",
         "step_by", "rotate_left", "rotate_right", "remove", "insert", "swap", "select_nth_unstable", "get_unchecked", "get_unchecked_mut", "rchunks", "split_array_ref"}
CHRONO = {"from_ymd", "from_yo", "from_hms", "from_hms_milli", "and_hms", "and_hms_milli", "days", "hours", "minutes", "seconds", "weeks", "milliseconds", "from_timestamp", "from_num_days_from_ce",
          "from_isoywd", "with_ymd_and_hms", "succ", "pred", "add", "sub", "add_assign", "sub_assign", "mul", "neg", "div", "sum"}
SEQ = ("std::vec::Vec", "alloc::vec", "str", "slice", "std::string::String", "VecDeque", "[T]", "HashMap", "BTreeMap", "std::ops::Index")


def last(x):
    return x.rsplit("::", 1)[-1]


def sites(p, f):
    """(block, line, kind, name, args) of everything in f that can panic, arithmetic overflow of integers aside"""
    for b in sorted(f.reachable):
        t = f.bbs[b]["t"]
        if t[0] == "assert":
            k = str(t[3])
            if k.startswith("bounds"):
                yield b, t[5] if len(t) > 5 and isinstance(t[5], int) else f.line, "bounds", "bounds", t
            elif k.startswith(("div0", "rem0")):
                yield b, t[5] if len(t) > 5 and isinstance(t[5], int) else f.line, "zero", k, t
    for (b, path, cid, args, t) in f.calls:
        if b not in f.reachable:
            continue
        n = last(path)
        if cid in p.fns:
            continue
        if n in UNWRAP and ("Option" in path or "Result" in path):
            yield b, t[5], "unwrap", n, args
        elif "panicking::" in path or n in ("begin_panic", "panic_any", "unwrap_failed", "expect_failed"):
            yield b, t[5], "panic", n, args
        elif n in ("index", "index_mut") and "Index" in path:
            yield b, t[5], "index", n, args
        elif n in SLICE and any(x in path for x in ("vec::Vec", "str::<impl", "slice::<impl", "string::String", "VecDeque", "iter::Iterator")) and not ("mem::swap" in path):
            yield b, t[5], "slice", n, args
        elif n in CHRONO and "chrono" in path:
            yield b, t[5], "chrono", n, args
        elif n in ("borrow_mut", "borrow") and "RefCell" in path:
            yield b, t[5], "refcell", n, args


def same(a, b):
    return strip(a) == strip(b)


def facts(f, b):
    return [(strip(s), v) for s, v in (f.facts.get(b) or {}).items() if v]


def const_int(t):
    t = strip(t)
    return t[2] if t[0] == "const" and t[1] == "i" else None


def discharged(p, f, b, kind, name, args):
    """a static argument why the site cannot panic, or None"""
    fs = facts(f, b)
    if kind == "unwrap":
        x = strip(f.term_op(args[0], True))
        for s, v in fs:
            if s == x and frozenset(v) <= {("var", "Some"), ("var", "Ok")}:
                return "known to be present"
            if s[0] == "call" and last(s[1]) in ("is_some", "is_ok") and strip(s[3][0]) == x and frozenset(v) == {("bool", True)}:
                return "tested before"
            if s[0] == "call" and last(s[1]) in ("is_none", "is_err") and strip(s[3][0]) == x and frozenset(v) == {("bool", False)}:
                return "tested before"
        if x[0] == "agg" and x[2] in ("Some", "Ok"):
            return "built here"
        if x[0] == "call" and last(x[1]).endswith("_opt") and all(const_int(a) is not None for a in x[3][-3:]) and "hms" in x[1] and [const_int(a) for a in x[3][-3:]] <= [23, 59, 59]:
            return "constant time of day"
        return None
    if kind == "zero":
        c = strip(f.term_op(args[1], True))
        if c[0] == "bin" and c[1] == "Eq" and const_int(c[2]) not in (None, 0):
            return "constant divisor"
        return None
    if kind == "panic":
        for s, v in fs:
            if len(v) == 1:
                w = next(iter(v))
                if w[0] == "var" and s[0] == "phi" and all(strip(x)[0] == "agg" for x in s[1]) and w[1] not in {strip(x)[2] for x in s[1]}:
                    return "the variant %s is never assigned" % w[1]
        return None
    if kind == "slice" and name == "drain":
        if args[1][0] in ("c", "m") and "RangeFull" in f.locals[args[1][1][0]][0] or "RangeFull" in str(args[1]):
            return "whole range"
    if kind == "index" and "RangeFull" in str(f.term_op(args[1], True)):
        return "whole range"
    if kind in ("slice", "index", "bounds"):
        if kind == "bounds":
            c = strip(f.term_op(args[1], True))
            if c[0] == "bin" and c[1] == "Lt":
                i, n = strip(c[2]), strip(c[3])
                if const_int(i) is not None and const_int(n) is not None and const_int(i) < const_int(n):
                    return "constant position"
                base = strip(n[2]) if n[0] == "un" and len(n) > 2 else n
                if const_int(i) == 0 and nonempty(fs, base):
                    return "not empty"
                for s, v in fs:
                    if s[0] == "gt" and frozenset(v) == {("bool", True)}:
                        a, z = uncast(s[1]), uncast(s[2])
                        if z == uncast(i) and (a == uncast(n) or a[0] == "call" and last(a[1]) == "len" and strip(a[3][0]) == base or const_int(a) is not None and const_int(a) == const_int(n)):
                            return "compared with the length"
            return None
        base = strip(f.term_op(args[0], True))
        idx = strip(f.term_op(args[1], True)) if len(args) > 1 else None
        if idx is None:
            return None
        bounds = [idx]
        if idx[0] == "agg":
            bounds = [strip(v) for _, v in idx[3]]
        if all(bound_ok(f, fs, base, x) for x in bounds):
            return "position within the sequence"
    return None


def bound_ok(f, fs, base, x):
    n = const_int(x)
    if n is not None:
        if n == 0:
            return nonempty(fs, base) or True if False else nonempty(fs, base)
        if n == 1:
            return nonempty(fs, base)
        return False
    # len - k after ends_with of a literal of length k
    if x[0] == "bin" and x[1].startswith("Sub"):
        k = const_int(x[3])
        l = strip(x[2])
        if k is not None and l[0] == "call" and last(l[1]) == "len":
            for s, v in fs:
                if s[0] == "call" and last(s[1]) in ("ends_with",) and frozenset(v) == {("bool", True)}:
                    lit = strip(s[3][1])
                    if lit[0] == "const" and lit[1] in ("s", "b") and len(str(lit[2]).encode()) == k:
                        return True
    if x[0] == "field" and x[0] and x[3] in ("0", "1"):
        y = strip(x[4])
        if y[0] == "bin":
            return bound_ok(f, fs, base, y)
    # found by a search
    st = [x]
    while st:
        y = strip(st.pop())
        if y[0] == "call" and last(y[1]) in ("find", "rfind", "position", "rposition", "len"):
            return True
        if y[0] == "field":
            st.append(y[4])
        elif y[0] == "phi":
            return all(bound_ok(f, fs, base, z) for z in y[1])
    for s, v in fs:
        if s[0] in ("gt", "lt", "ge", "le", "bin") and any(strip(z) == x for z in s[1:] if isinstance(z, tuple)) and "len" in str(s):
            return True
    return False


def uncast(t):
    t = strip(t)
    while t[0] == "cast":
        t = strip(t[2])
    return t


def nonempty(fs, base):
    for s, v in fs:
        if s[0] == "call" and last(s[1]) == "is_empty" and frozenset(v) == {("bool", False)} and strip(s[3][0]) == base:
            return True
        if s[0] in ("gt", "bin") and "len" in str(s) and str(base) in str(s):
            return True
    return False


def signature(p, f, b, kind, name, args):
    """what has to be true for the panic not to happen, however it is written"""
    if kind == "unwrap":
        x = strip(f.term_op(args[0], True))
        return "%s is %s" % (what(x), "None" if "Option" in otype(f, args[0]) else "Err")
    if kind == "panic":
        best = ""
        for s, v in facts(f, b):
            if len(v) == 1:
                w = next(iter(v))
                if w in (("var", "None"), ("var", "Err")):
                    best = "%s is %s" % (what(s), w[1])
                elif w[0] == "var" and s[0] in ("arg", "field", "phi", "call", "agg") and "ControlFlow" not in str(s[1]) and w[1] not in ("Some", "Ok", "Continue"):
                    best = best or "variant %s" % w[1]
        return best or "unconditional panic"
    if kind == "index":
        return "index of %s" % (f.locals[args[0][1][0]][0].lstrip("&").replace("mut ", "") if args[0][0] in ("c", "m") else "?")
    return "%s %s" % (kind, name)


def otype(f, a):
    return f.locals[a[1][0]][0] if a[0] in ("c", "m") else "Option"


def what(x):
    x = strip(x)
    if x[0] == "call":
        return last(x[1])
    if x[0] == "field":
        return "%s.%s" % (last(str(x[1]).split("<")[0]), x[3])
    return x[0]


# sites that stay after the automatic arguments: (most occurrences, why they cannot be reached by any input)
REVIEWED = {
    "Detach.val is None": (3, "a sheet is detached and attached again within one function of the loader, and an error in between drops the workbook"),
    "take is None": (1, "a sheet is detached and attached again within one function of the loader"),
    "as_map_mut is None": (2, "tested with is_map() before; the loader inserts into maps it has created as such"),
    "from_ymd_opt is None": (2, "constant date"),
    "get_mut is None": (3, "inserted in every branch before; the index has an entry for every value"),
    "index of std::vec::Vec<ds::detach::Detach<sheet_::Sheet>>": (3, "the loader counts up to the number of sheets"),
    "index of std::vec::Vec<std::boxed::Box<str>>": (2, "the position was found in the list of keys, which is as long as the list of values"),
    "index of std::vec::Vec<string_cache::Atom<string_cache::EmptyStaticAtomSet>>": (1, "the position was found in this list"),
    "slice remove": (2, "the position was found in the list of keys, which is as long as the list of values"),
    "last_mut is None": (4, "the stack starts with one element, and the loop ends at the end tag that leaves only this"),
    "pop is None": (3, "the stack starts with one element, and the loop ends at the end tag that leaves only this"),
    "phi is None": (1, "set in the branch before"),
    "to_f64 is None": (2, "every decimal has an f64"),
    "chrono neg": (1, "the range of a duration is symmetric"),
    "unconditional panic": (4, "paths of the default settings only; the row lies within the span of the header"),
    "variant Value": (1, "paths of the default settings only"),
    "variant TextXml": (1, "no value type of a file is read as TextXml"),
    "variant XmlVec": (3, "the text of one element is never a list"),
}


def positive(p, f, t, depth=0):
    """the term is at least 1, whatever the input"""
    t = strip(t)
    if depth > 14:
        return False
    n = const_int(t)
    if n is not None:
        return n >= 1
    if t[0] == "loop":
        return True
    if t[0] == "phi":
        return all(positive(p, f, x, depth + 1) for x in t[1])
    if t[0] == "under":
        return positive(p, f, t[2], depth + 1)
    if t[0] == "call" and last(t[1]) == "max":
        return any(positive(p, f, x, depth + 1) for x in t[3])
    if t[0] == "call" and last(t[1]) == "clamp":
        return positive(p, f, t[3][1], depth + 1)
    if t[0] == "call" and last(t[1]) in ("branch", "into", "from", "unwrap_or") and t[3]:
        return all(positive(p, f, x, depth + 1) for x in t[3])
    if t[0] == "call" and t[2] in p.fns:
        g = p.fns[t[2]]
        return positive(p, g, g.term_op(("c", [0]), True), depth + 1)
    if t[0] == "agg" and t[2] in ("Ok", "Some", "Continue") and len(t[3]) == 1:
        return positive(p, f, t[3][0][1], depth + 1)
    if t[0] == "agg" and t[2] in ("Err", "None", "Break"):
        return True
    if t[0] == "call" and last(t[1]) == "from_residual":
        return True
    if t[0] == "field" and t[2] in ("Ok", "Some", "Continue"):
        return positive(p, f, t[4], depth + 1)
    return False


def preconditions(p, f, b):
    """arguments that must be positive for the panic at block b not to happen"""
    out = set()
    for s, v in facts(f, b):
        if s[0] == "gt" and frozenset(v) == {("bool", False)} and strip(s[1])[0] == "arg" and const_int(s[2]) == 0:
            out.add(strip(s[1])[1])
        elif s[0] == "eq" and frozenset(v) == {("bool", True)} and strip(s[1])[0] == "arg" and const_int(s[2]) == 0:
            out.add(strip(s[1])[1])
    return out


def check(s, rep):
    p, rd = s.p, s.reader
    rep.rule("every call that can panic (unwrap, expect, panic!, unreachable!, assert!, indexing, slicing, division, chrono arithmetic) in a function reachable from the load functions "
             "is impossible by a test on the same path, or one of the reviewed sites; an argument that a callee asserts is positive is positive at every call")
    n = 0
    left = defaultdict(list)
    pre = {}
    reach = sorted(p.reach(rd.roots), key=str)
    for i in reach:
        f = p.fns[i]
        for b, line, kind, name, args in sites(p, f):
            n += 1
            d = discharged(p, f, b, kind, name, args)
            if d:
                rep.ok("%s:%s %s: %s" % (f.file, line, name, d))
                continue
            if kind == "panic":
                pc = preconditions(p, f, b)
                if pc:
                    pre.setdefault(f.id, set()).update(pc)
                    continue
            left[signature(p, f, b, kind, name, args)].append((f, line))
    for i in reach:
        f = p.fns[i]
        for (b, path, cid, args, t) in f.calls:
            for a in pre.get(cid, ()) if b in f.reachable else ():
                if positive(p, f, f.term_op(args[a - 1], True)):
                    rep.ok("%s: the argument of %s is positive" % (f.name, last(path)))
                else:
                    rep.bad("precondition:%s:%s" % (f.name, last(path)), "%s panics if its argument is 0, and it can be 0 here" % last(path), f.file, t[5], f.path, "precondition")
    for k, v in sorted(left.items()):
        mx, why = REVIEWED.get(k, (0, ""))
        for f, line in v[:mx] if len(v) <= mx else ():
            rep.ok("%s:%s %s: %s" % (f.file, line, k, why))
        if len(v) > mx:
            for f, line in v:
                rep.bad("panic:%s:%s" % (k, f.name), "a load can panic here: %s%s" % (k, "" if not mx else " (%d sites of this kind are known not to be reachable, there are %d)" % (mx, len(v))),
                        f.file, line, f.path, "panic")
    rep.count(functions=len(reach), panic_sites=n)
    rep.need(n > 20, "sites", "the calls that can panic")


PROPS = {"C13": (check, "other", "inventory of panic sites reachable from the load functions")}
