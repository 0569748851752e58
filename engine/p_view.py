"""C14: view settings of workbook and sheets survive save and load."""
from collections import defaultdict

import json

from mir import *
from effects import Effects, last
from p_io import entry_points

OWNERS = ("workbook_::WorkBookConfig", "sheet_::SheetConfig")


def touches(f, names):
    """f assigns to, borrows mutably or reads a field of one of the structs (building a whole one aside)"""
    r = getattr(f, "_touch", None)
    if r is None:
        r = f._touch = any(('"%s"' % n) in s for s in (json.dumps(st[1:]) for bb in f.bbs.values() for st in bb["s"] if st[0] == "=" and st[2][0] != "agg") for n in names) if isinstance(f.bbs, dict) else \
            any(('"%s"' % n) in s for s in (json.dumps(st[1:]) for bb in f.bbs for st in bb["s"] if st[0] == "=" and st[2][0] != "agg") for n in names)
    return r


def config_path(t, env=None):
    """path of constant strings a config item was taken from or put under, names of sheets as '*'; None if unknown"""
    t = strip(t)
    if t[0] in ("field", "under"):
        return config_path(t[4] if t[0] == "field" else t[2])
    if t[0] == "call":
        n = last(t[1])
        if n in ("create_path", "get", "get_value", "get_value_rec", "get_rec", "get_mut") and "config::Config" in t[1] and len(t[3]) == 2:
            a = elems(t[3][1])
            if a is None:
                return None
            return (config_path(t[3][0]) or ()) + a
        if t[3] and n not in ("deref", "deref_mut", "detach"):
            return config_path(t[3][0])
    return ()


def elems(a):
    a = strip(a)
    if a[0] == "const" and a[1] == "a":
        xs = a[2]
    elif a[0] == "agg" and a[1] == "(array)":
        xs = [x for _, x in a[3]]
    else:
        return None
    out = []
    for x in xs:
        x = strip(x)
        if x[0] == "const" and x[1] == "t":
            x = strip(x[2][0])
        elif x[0] == "agg" and x[1] == "(tuple)":
            x = strip(x[3][0][1])
        s = const_strs(x)
        if s and len(s) == 1:
            out.append(next(iter(s)))
        elif "sheet_::Sheet" in str(x) and "name" in str(x):
            out.append("*" if altered(x) is None else "*.%s()" % altered(x))
        else:
            return None
    return tuple(out)


def plain(t):
    """the value itself, conversions aside"""
    t = strip(t)
    while True:
        if t[0] == "cast":
            t = strip(t[2])
        elif t[0] == "discr":
            t = strip(t[1])
        elif t[0] == "call" and last(t[1]) in ("into", "from", "clone", "to_string", "to_owned", "as_str", "branch", "try_from", "try_into", "as_ref", "deref", "copied", "cloned") and t[3]:
            t = strip(t[3][0])
        elif t[0] == "field" and t[1].startswith("std::") and t[2] in ("Continue", "Ok", "Some"):
            t = strip(t[4])
        else:
            return t


ALTER = ("max", "min", "clamp", "abs", "saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub", "checked_add", "checked_sub", "rem_euclid", "trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase",
         "to_ascii_lowercase", "to_ascii_uppercase", "replace", "unsigned_abs", "pow", "filter", "trim_matches", "not")


def altered(t):
    """the operation that changes a value on its way, or None"""
    t = plain(t)
    if t[0] == "bin" and t[1] in ("Add", "Sub", "Mul", "Div", "Rem", "AddWithOverflow", "SubWithOverflow", "MulWithOverflow", "BitAnd", "BitOr", "Shl", "Shr") or t[0] == "un":
        return t[1]
    if t[0] == "call" and last(t[1]) in ALTER and t[3]:
        return last(t[1])
    if t[0] == "field" and t[1] in ("(tuple)", "") and t[3] == "0":
        return altered(t[4])
    return None


def partial(t):
    """why a loop a term stems from leaves out some of the sheets, or None"""
    out = []

    def v(x):
        if x[0] == "call" and last(x[1]) in ("next", "next_back") and x[3]:
            y = strip(x[3][0])
            while y[0] == "call" and y[3]:
                if last(y[1]) in ("skip", "take", "step_by", "skip_while", "take_while"):
                    out.append("%s()" % last(y[1]))
                y = strip(y[3][0])
            if y[0] == "agg" and y[1] == "std::ops::Range" and "num_sheets" in str(y):
                a = dict(y[3])
                lo, hi = strip(a.get("start", ("?",))), plain(a.get("end", ("?",)))
                if lo[0] == "const" and lo[1] == "i" and lo[2] != 0:
                    out.append("it starts at %s" % lo[2])
                if altered(hi) in ("Sub", "SubWithOverflow", "saturating_sub", "Div", "min"):
                    out.append("it ends before the last one")
    walk(t, v)
    return out[0] if out else None


def variant_of(p, ty):
    """the ConfigValue variant values of a type are stored as"""
    ty = notlt(ty).replace("&mut ", "&")
    for f in p.byname.get("from", []):
        if "config::ConfigValue" in f.path and f.locals[0][0].endswith("ConfigValue") and notlt(f.locals[1][0]) == ty:
            r = strip(f.ret_term(False))
            if r[0] == "agg":
                return r[2]
    return None


def inner_variant(t):
    out = set()

    def v(x):
        if x[0] == "field" and x[1] == "config::ConfigValue":
            out.add(x[2])
    walk(t, v)
    return out


def paths_in(t):
    out = set()

    def v(x):
        if x[0] == "call" and last(x[1]) in ("get_value", "get_value_rec") and "config::Config" in x[1]:
            out.add(config_path(x))
            return False
    walk(t, v)
    return out


def odd_guards(gs, ok):
    """conditions that are neither presence tests nor belong to a loop"""
    out = []
    for s, v in gs:
        s = strip(s)
        vs = {x[1] if x[0] != "not" else x[1][1] for x in v if isinstance(x, tuple)}
        if all(x in ("Some", "None", "Ok", "Err", "Continue", "Break", "String", "Int", "Short", "Boolean", "Long", "Double", "Value", "Set", "Map", "Vec", "Entry") for x in vs if isinstance(x, str)) and \
                not any(isinstance(x, bool) or isinstance(x, int) for x in vs):
            continue
        if s[0] == "call" and last(s[1]) in ("is_some", "is_none", "is_ok"):
            continue
        if "io::read::OdsOptions" in str(s) or s[0] == "const" or s[0] == "call" and last(s[1]) == "default" and not s[3]:
            continue
        out.append((s, v))
    return out


def empty_test(s, v, fld):
    """a condition that holds only if the field is empty"""
    s = strip(s)
    neg = False
    while s[0] in ("un", "not") and len(s) > 1:
        s, neg = strip(s[-1]), not neg
    f = lambda x: ("'%s'" % fld[1]) in str(x)
    if s[0] == "call" and last(s[1]) in ("is_empty", "is_none") and s[3] and f(s[3][0]):
        return v == frozenset({("bool", not neg)})
    if s[0] == "call" and last(s[1]) == "is_some" and s[3] and f(s[3][0]):
        return v == frozenset({("bool", neg)})
    if s[0] == "eq" and f(s) and ("('const', 's', '')" in str(s) or "('const', 'i', 0)" in str(s)):
        return v == frozenset({("bool", not neg)})
    if s[0] == "call" and last(s[1]) == "len" and f(s):
        return True
    return False


def check(s, rep):
    p = s.p
    fields = {}
    for o in OWNERS:
        if o in p.adts:
            for fl in p.adts[o]["variants"][0]["fields"]:
                fields[(o, fl["name"] if isinstance(fl, dict) else fl[0])] = fl
    rep.need(len(fields) > 10, "config", "the structs with view settings")
    rep.rule("each field of WorkBookConfig and SheetConfig is stored under one path of the settings, with a type the reader accepts, and the reader assigns the item of the same path to the same field, both unconditionally")
    want = lambda f: touches(f, OWNERS) and not f.d.get("trait")
    E = Effects(p, want, opaque=("src/config.rs", "src/ds/", "src/workbook_", "src/attrmap"))
    W, R = defaultdict(set), defaultdict(set)
    wunk, runk = set(), set()
    seen_w = seen_r = 0
    wfn, rfn = set(), set()
    eps = entry_points(p)
    wroots = [f for f in eps if f.name.startswith("write_")]
    for root in wroots:
        for e in E.run(root):
            if e[0] == "set":
                _, f, b, line, lv, v, gs, chain = e
                lv = strip(lv)
                if lv[0] == "field" and (lv[1], lv[3]) in fields and not any(empty_test(s, v, (lv[1], lv[3])) for s, v in gs):
                    rep.bad("overwritten:%s" % lv[3], "saving replaces %s.%s though it has a value" % (last(lv[1]), lv[3]), f.file, line, f.path, "saved as it is")
                continue
            _, f, b, line, path, args, gs, t, chain = e
            mf = [(o, n) for a in args for (o, v, n) in model_fields(p, a) if (o, n) in fields]
            if last(path) == "insert" and "config::ConfigItem" in path and len(args) == 3:
                src = plain(args[2])
                key = const_strs(strip(args[1]))
                base = config_path(args[0])
                ty = t[1].get("g", ["?"])[-1] if isinstance(t[1], dict) else "?"
                fld = (src[1], src[3]) if src[0] == "field" else None
                if key and len(key) == 1 and base:
                    seen_w += 1
                    path_ = base + (next(iter(key)),)
                    if fld in fields:
                        W[fld].add((path_, variant_of(p, ty), line, f.name))
                        wfn.add(f.id)
                        og = odd_guards(gs, None)
                        if og:
                            rep.bad("conditional-write:%s" % fld[1], "the setting %s is only saved under a condition" % path_[-1], f.file, line, f.path, "unconditional")
                        pa = partial(args[0])
                        if pa:
                            rep.bad("some-sheets:%s" % fld[1], "the settings of some sheets are not saved: %s" % pa, f.file, line, f.path, "every sheet")
                    elif mf and altered(src):
                        wunk.update(mf)
                        rep.bad("altered:%s" % path_[-1], "the setting %s is not saved as it is, but changed by %s" % (path_[-1], altered(src)), f.file, line, f.path, "saved as it is")
                    elif mf:
                        wunk.update(mf)
                elif mf:
                    wunk.update(mf)
            elif mf and not last(path) in ("is_empty", "clone", "len", "eq", "to_string", "deref", "as_str"):
                wunk.update(mf)
    rr = [f for f in eps if f.name.startswith("read_")]
    for root in rr:
        for e in E.run(root):
            if e[0] == "set":
                _, f, b, line, lv, v, gs, chain = e
                lv = strip(lv)
                # the outermost field of one of the structs
                while lv[0] == "field" and (lv[1], lv[3]) not in fields:
                    lv = strip(lv[4])
                if lv[0] != "field":
                    continue
                fld = (lv[1], lv[3])
                ps = paths_in(v)
                src = plain(v)
                if len(ps) == 1 and None not in ps and src[0] == "field" and src[1] == "config::ConfigValue":
                    seen_r += 1
                    R[fld].add((next(iter(ps)), src[2], line, f.name))
                    rfn.add(f.id)
                    og = [x for x in odd_guards(gs, None)]
                    if og:
                        rep.bad("conditional-read:%s" % fld[1], "the setting %s is only restored under a condition" % next(iter(ps))[-1], f.file, line, f.path, "unconditional")
                    pa = partial(lv)
                    if pa:
                        rep.bad("some-sheets:%s" % fld[1], "the settings of some sheets are not restored: %s" % pa, f.file, line, f.path, "every sheet")
                elif ps and altered(src):
                    runk.add(fld)
                    rep.bad("altered:%s" % fld[1], "%s is not restored as it is, but changed by %s" % (fld[1], altered(src)), f.file, line, f.path, "restored as it is")
                else:
                    runk.add(fld)
            else:
                _, f, b, line, path, args, gs, t, chain = e
                for a, o in zip(args, t[2]):
                    a = strip(a)
                    if a[0] == "field" and (a[1], a[3]) in fields and o[0] in ("c", "m") and "&mut" in notlt(f.locals[o[1][0]][0]):
                        runk.add((a[1], a[3]))
    rep.count(fields=len(fields), written_settings=seen_w, restored_settings=seen_r)
    if not rep.need(seen_w > 5 and seen_r > 5, "settings", "the transfer of view settings"):
        return
    for fld in sorted(fields):
        w, r = W.get(fld, set()), R.get(fld, set())
        nm = "%s.%s" % (last(fld[0]), fld[1])
        wp, rp = {x[0] for x in w}, {x[0] for x in r}
        f0 = p.byname.get("calc_config", [None])[0]
        if not w:
            if fld not in wunk:
                rep.bad("unsaved:" + nm, "%s is not saved" % nm, None, None, None, "saved")
            continue
        if not r:
            if fld not in runk:
                x = min(w, key=str)
                rep.bad("unread:" + nm, "%s is saved as %s, but not restored" % (nm, "/".join(x[0])), "src/io/read.rs", None, None, "restored")
            continue
        if len(wp) > 1:
            rep.bad("two-paths:" + nm, "%s is saved under several paths: %s" % (nm, sorted(wp)), "src/io/write.rs", min(x[2] or 0 for x in w), None, "one path")
            continue
        if fld not in runk and wp != rp:
            rep.bad("path:" + nm, "%s is saved as %s, but restored from %s" % (nm, sorted("/".join(x) for x in wp), sorted("/".join(x) for x in rp)), "src/io/read.rs", min(x[2] or 0 for x in r), None, "same path")
            continue
        wv, rv = {x[1] for x in w}, {x[1] for x in r}
        if None not in wv and not wv <= rv:
            rep.bad("type:" + nm, "%s is saved as %s, but only restored from %s" % (nm, sorted(wv), sorted(rv)), "src/io/read.rs", min(x[2] or 0 for x in r), None, "same type")
            continue
        rep.ok("%s <-> %s (%s)" % (nm, "/".join(next(iter(wp))), next(iter(wv))))
    by = defaultdict(set)
    for fld, w in W.items():
        for x in w:
            by[x[0]].add(fld)
    for path, fl in sorted(by.items()):
        if len(fl) > 1:
            rep.bad("shared:" + path[-1], "the setting %s is taken from several fields: %s" % ("/".join(path), sorted(fl)), "src/io/write.rs", None, None, "one field")
        else:
            rep.ok()
    discriminants(p, rep)
    sizes(p, rep, wroots, rr)
    order(p, rep, wroots, rr, wfn, rfn)


def discriminants(p, rep):
    """enums that are saved by their number are read back by the same number"""
    for f in sorted(p.byname.get("try_from", []), key=lambda x: x.id):
        ret = f.locals[0][0]
        en = next((a for a in p.adts if p.adts[a]["kind"] == "enum" and "Result<%s," % a in ret), None)
        if en is None or not f.locals[1][0] in ("i16", "i32", "u8", "u16", "u32", "i8", "i64"):
            continue
        ds = {v["name"]: v["discr"] for v in p.adts[en]["variants"]}
        got = {}
        for d in f.defs[0].get(0, []):
            t = strip(f.term_def(d, False))
            if t[0] == "agg" and t[2] == "Ok":
                x = strip(t[3][0][1])
                if x[0] == "agg":
                    for sj, vals in f.ctrl_guards(d[0]).items():
                        for v in vals:
                            if v[0] == "int":
                                got.setdefault(x[2], set()).add(v[1])
        if not got:
            continue
        for n, dv in sorted(ds.items()):
            if got.get(n) == {dv}:
                rep.ok("%s::%s = %s" % (last(en), n, dv))
            elif n in got or len(got) == len(ds) - 1:
                rep.bad("number:%s" % n, "%s::%s is saved as %s, but restored from %s" % (last(en), n, dv, sorted(got.get(n, ()))), f.file, f.line, f.path, "same number")


SIZES = [("sheet_::ColHeader", "width", "ColStyle", "set_col_width", "set_use_optimal_col_width", "col_width", "use_optimal_col_width"),
         ("sheet_::RowHeader", "height", "RowStyle", "set_row_height", "set_use_optimal_row_height", "row_height", "use_optimal_row_height")]


def case(gs, owner, field):
    """which sizes the guards admit: 'default', 'size' or 'any'"""
    for s, v in gs:
        s = strip(s)
        if s[0] == "field" and (s[1], s[3]) == (owner, field):
            if v == frozenset({("var", "Default")}):
                return "default"
            if v == frozenset({("not", ("var", "Default"))}) or ("var", "Default") not in v and all(x[0] == "var" for x in v):
                return "size"
        if s[0] == "eq" and "Default" in str(s) and len(v) == 1:
            for x in s[1:]:
                x = strip(x)
                if x[0] == "field" and (x[1], x[3]) == (owner, field):
                    return "default" if v == frozenset({("bool", True)}) else "size"
    return "any"


def other(gs, owner, allowed):
    """fields of the header, apart from the allowed ones, that the guards test"""
    out = set()
    for s, _ in gs:
        def v(x):
            if x[0] == "field" and x[1] == owner and x[3] not in allowed:
                out.add("%s.%s" % (last(owner), x[3]))
        walk(s, v)
    return sorted(out)


def sizes(p, rep, wroots, rr):
    rep.rule("column widths and row heights go into the style of the column or row, together with use-optimal-size exactly if there is none, and come from there")
    names = {n for x in SIZES for n in x[3:]}

    def want(f):
        r = getattr(f, "_sz", None)
        if r is None:
            r = f._sz = f.file.startswith("src/io/") and any(last(path) in names and "style" in path for (b, path, cid, args, t) in f.calls)
        return r
    E = Effects(p, want, opaque=("src/config.rs", "src/ds/", "src/workbook_", "src/attrmap", "src/style"))
    ev = [e for root in wroots + rr for e in E.run(root)]
    for owner, field, style, sw, so, gw, go in SIZES:
        nm = "%s.%s" % (last(owner), field)
        wc, oc, seen = set(), {}, False
        for e in ev:
            if e[0] == "set":
                _, f, b, line, lv, v, gs, chain = e
                lv = strip(lv)
                if lv[0] == "field" and (lv[1], lv[3]) == (owner, "style") and not f.file.endswith("read.rs"):
                    og = [x for x in other(gs, owner, (field, "style"))]
                    if og:
                        rep.bad("size-unstyled:" + nm, "whether a %s without a style gets one depends on %s too" % (nm, og[0]), f.file, line, f.path, "sizes")
                    pa = partial(lv)
                    if pa:
                        rep.bad("some-sheets:" + nm, "%s is not saved for some sheets: %s" % (nm, pa), f.file, line, f.path, "every sheet")
                continue
            _, f, b, line, path, args, gs, t, chain = e
            n = last(path)
            if n not in (sw, so) or len(args) != 2:
                continue
            if style + "::" not in path:
                continue
            seen = True
            og = [x for x in other(gs, owner, (field, "style"))]
            if og:
                rep.bad("size-conditional:" + nm, "whether %s goes into the style depends on %s too" % (nm, og[0]), f.file, line, f.path, "sizes")
            pa = partial(args[0]) or partial(args[1])
            if pa:
                rep.bad("some-sheets:" + nm, "%s is not saved for some sheets: %s" % (nm, pa), f.file, line, f.path, "every sheet")
            c = case(gs, owner, field)
            x = plain(args[1])
            if n == sw:
                if x[0] == "field" and (x[1], x[3]) == (owner, field):
                    wc |= {"default", "size"} if c == "any" else {c}
                elif x[0] == "field" and x[1] in [y[0] for y in SIZES]:
                    rep.bad("size-crossed:" + nm, "%s takes %s.%s for %s" % (f.name, last(x[1]), x[3], nm), f.file, line, f.path, "sizes")
                elif x[0] == "agg" and x[2] == "Default":
                    if c == "default":
                        wc.add("default")
                    else:
                        rep.bad("size-dropped:" + nm, "the style of %s is set to the default size though there is one" % nm, f.file, line, f.path, "sizes")
                else:
                    wc |= {"default", "size"}
            else:
                if x[0] == "const" and x[1] == "bool":
                    if c == "any":
                        rep.bad("optimal:" + nm, "use-optimal-size is set to %s whether there is a size or not" % str(x[2]).lower(), f.file, line, f.path, "sizes")
                        oc.update(default=1, size=1)
                    elif (c == "default") != x[2]:
                        rep.bad("optimal:" + nm, "use-optimal-size is set to %s %s" % (str(x[2]).lower(), "though there is a size" if c == "size" else "though there is no size"), f.file, line, f.path, "sizes")
                    oc[c] = 1
                else:
                    oc.update(default=1, size=1)
        if seen:
            for c in ("default", "size"):
                if c not in wc:
                    rep.bad("size-unsaved:%s:%s" % (nm, c), "a %s is not put into the style when it is %s" % (nm, "the default" if c == "default" else "a length"), "src/io/write.rs", None, None, "sizes")
                elif c not in oc:
                    rep.bad("optimal-unsaved:%s:%s" % (nm, c), "use-optimal-size is left as it was when the %s is %s" % (nm, "the default" if c == "default" else "a length"), "src/io/write.rs", None, None, "sizes")
                else:
                    rep.ok("%s -> %s (%s)" % (nm, style, c))
        else:
            rep.need(False, "size-writer:" + nm, "saving of %s" % nm)
        got = None
        for e in ev:
            if e[0] != "set":
                continue
            _, f, b, line, lv, v, gs, chain = e
            lv = strip(lv)
            if lv[0] != "field" or (lv[1], lv[3]) != (owner, field) or not f.file.endswith("read.rs"):
                continue
            opt = None
            for s, vals in gs:
                if s[0] != "call" and ("::" + go) in str(s) or s[0] == "call" and last(s[1]) == go:
                    if vals <= {("bool", True), ("bool", False)} and len(vals) == 1:
                        opt = next(iter(vals))[1]
            x = plain(v)
            og = [x for x in other(gs, owner, (field, "style"))]
            if og:
                rep.bad("size-read-conditional:" + nm, "whether %s is taken from the style depends on %s too" % (nm, og[0]), f.file, line, f.path, "sizes")
            pa = partial(lv)
            if pa:
                rep.bad("some-sheets:" + nm, "%s is not restored for some sheets: %s" % (nm, pa), f.file, line, f.path, "every sheet")
            if x[0] == "call" and last(x[1]) == gw and style in x[1]:
                got = True
                if opt is True:
                    rep.bad("size-read:" + nm, "the size is taken from the style if the optimal one is wanted", f.file, line, f.path, "sizes")
                else:
                    rep.ok("%s <- %s" % (nm, gw))
            elif x[0] == "call" and last(x[1]) in [y[5] for y in SIZES]:
                got = True
                rep.bad("size-crossed:" + nm, "%s is restored from %s" % (nm, last(x[1])), f.file, line, f.path, "sizes")
            elif x[0] == "agg" and x[2] == "Default":
                if opt is not True:
                    rep.bad("size-read:" + nm, "the size in the style is ignored", f.file, line, f.path, "sizes")
                else:
                    rep.ok("%s <- default if the optimal size is wanted" % nm)
            else:
                got = True
        if got is None:
            rep.bad("size-unread:" + nm, "%s is not restored from the style" % nm, "src/io/read.rs", None, None, "sizes")


def leading(p, f, to):
    """blocks of f with a call that leads to one of the functions"""
    return {b for (b, path, cid, args, t) in f.calls if cid in p.fns and b in f.reachable and p.reach([p.fns[cid]]) & to}


def meet(p, f, one, two, seen=None):
    """functions below f in which calls leading to the one and calls leading to the other are different calls: [(function, blocks one, blocks two)]"""
    seen = set() if seen is None else seen
    if f.id in seen:
        return []
    seen.add(f.id)
    if f.id in one or f.id in two:
        return []
    b1, b2 = leading(p, f, one), leading(p, f, two)
    out = []
    if b2 - b1:
        out.append((f, b1, b2 - b1))
    for (b, path, cid, args, t) in f.calls:
        if b in b1 & b2:
            out += meet(p, p.fns[cid], one, two, seen)
    return out


def loaders(p, rr):
    """the functions that build the loaded workbook: [function]"""
    out = []
    for i in sorted(p.reach(rr), key=str):
        f = p.fns[i]
        if "Result<workbook_::WorkBook" in f.locals[0][0] and any(
                st[0] == "=" and st[1] == [0] and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][2] == "Ok" for b in f.reachable for st in f.bbs[b]["s"]):
            out.append(f)
    return out


def ok_without(f, b1, b2):
    """a workbook can be returned after b2 without b1 in between"""
    seen, todo = set(), [x for b in b2 for x in f.succs(b)]
    while todo:
        b = todo.pop()
        if b in seen or b in b1:
            continue
        seen.add(b)
        for st in f.bbs[b]["s"]:
            if st[0] == "=" and st[1] == [0] and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][2] == "Ok":
                return True
        todo += f.succs(b)
    return False


def order(p, rep, wroots, rr, wfn, rfn):
    """the settings are collected before they are written, and distributed after they are read"""
    def says(f, txt):
        return any('"%s"' % txt in json.dumps(bb) for bb in f.bbs)
    T = {f.id for f in p.fns.values() if f.kind != "closure" and f.file.endswith("write.rs") and says(f, "config:config-item-set")}
    S = set()
    for f in p.fns.values():
        if f.file.endswith("read.rs") and any(st[0] == "=" and any(x[0] == "." and x[1] == "workbook_::WorkBook" and x[3] == "config" for x in st[1][1:]) or
                                              st[0] == "=" and st[2][0] == "refm" and any(x[0] == "." and x[1] == "workbook_::WorkBook" and x[3] == "config" for x in st[2][1][1:])
                                              for bb in f.bbs for st in bb["s"]) and not p.reach([f]) & rfn:
            S.add(f.id)
    n = 0
    done = set()
    for root in wroots if T and wfn else ():
        for f, b1, b2 in meet(p, root, wfn, T):
            if f.id in done:
                continue
            done.add(f.id)
            n += 1
            seen, todo = set(), [0]
            while todo:
                b = todo.pop()
                if b in seen or b in b1:
                    continue
                seen.add(b)
                todo += f.succs(b)
            if seen & b2:
                rep.bad("stale:%s" % f.name, "%s can write the settings without having collected them from workbook and sheets before" % f.name, f.file, f.line, f.path, "collect before write")
            else:
                rep.ok("%s collects the settings before it writes them" % f.name)
    for f in loaders(p, rr) if S and rfn else ():
        b1, b2 = leading(p, f, rfn), leading(p, f, S)
        if not b2:
            continue
        n += 1
        if ok_without(f, b1, b2 - b1):
            rep.bad("lost:%s" % f.name, "%s reads the settings, but can return without having applied them to workbook and sheets" % f.name, f.file, f.line, f.path, "apply after read")
        else:
            rep.ok("%s applies the settings after it has read them" % f.name)
    rep.count(load_save_orders=n)


PROPS = {"C14": (check, "other", "matching of saved and restored settings")}
