"""C25: Rust values become the cell value of their type, and come out of it again unaltered."""
import re

from mir import *
from effects import last

V = "value_::Value"
NUM = ("Number", "Percentage", "Currency")
INTS = ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "isize", "usize", "i128", "u128")
KEEP = ("to_string", "into", "from", "to_owned", "clone", "as_ref", "as_str", "deref", "borrow", "to_f64", "expect", "unwrap", "copied", "cloned", "from_f64", "from_f64_retain", "box_assume_init_into_vec_unsafe", "into_vec",
        "into_boxed_str", "as_deref", "date", "and_time", "trunc", "as_mut", "box_new", "new", "into_string", "and_hms_opt", "write", "as_string", "to_vec", "branch", "slice_into_vec")
ALTER = ("round", "ceil", "floor", "abs", "trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase", "replace", "max", "min", "clamp", "neg", "abs_sub", "fract", "checked_neg", "num_seconds", "num_milliseconds",
         "from_num_seconds", "with_nanosecond", "with_second", "with_time", "succ_opt", "pred_opt", "truncate", "trim_end_matches", "trim_matches", "num_minutes", "num_days", "num_hours", "signum", "rescale", "round_dp",
         "seconds", "milliseconds", "saturating_sub", "wrapping_add", "checked_add_signed", "normalize")


def kind(ty):
    """(variants of Value a Rust type stands for, type without reference and Option, is an Option)"""
    ty = notlt(ty).strip()
    opt = False
    while True:
        m = re.match(r"^&(mut )?(.*)$", ty) or re.match(r"^std::option::Option<(.*)>$", ty)
        if not m:
            break
        opt = opt or ty.startswith("std::option")
        ty = m.groups()[-1].strip()
    if ty == "()":
        v = ("Empty",)
    elif ty in ("str", "std::string::String", "std::boxed::Box<str>") or "Cow<" in ty and "str" in ty:
        v = ("Text",)
    elif ty in INTS or ty in ("f32", "f64") or ty.endswith("::Decimal"):
        v = NUM
    elif ty == "bool":
        v = ("Boolean",)
    elif ty.endswith(("::NaiveDateTime", "::NaiveDate", "::NaiveTime")):
        v = ("DateTime",)
    elif ty.endswith("::TimeDelta") or ty.endswith("::Duration") and "chrono" in ty:
        v = ("TimeDuration",)
    elif ty.endswith("XmlTag") or ty.endswith("XmlTag>"):
        v = ("TextXml",)
    else:
        v = None
    return v, ty, opt


def flow(t, leaf, target=None):
    """how t is made of what leaf accepts: ('ok', leaf), ('altered', what), ('const', ..) or ('?',)"""
    t = strip(t)
    x = leaf(t)
    if x is not None:
        return ("ok", x)
    k = t[0]
    if k == "const":
        return ("const", str(t[2]))
    if k == "cast":
        inner = strip(t[2])
        r = flow(inner, leaf)
        if r[0] == "ok" and inner[0] == "cast" and width(inner[1]) is not None and (width(t[1]) is None or width(inner[1]) < width(t[1])):
            return ("altered", "the detour over %s" % inner[1])
        if r[0] == "ok" and target and width(t[1]) is not None and t[1] != target and leaf(inner) is None:
            return r
        return r
    if k == "bin" or k == "un":
        rs = [flow(x, leaf) for x in t[2:] if isinstance(x, tuple)]
        return ("altered", t[1]) if any(r[0] in ("ok", "altered") for r in rs) else ("?",)
    if k == "field":
        if t[1] == "(tuple)" or t[1].startswith("std::") or t[1] == "":
            return flow(t[4], leaf)
        return ("?",)
    if k == "call":
        n = last(t[1])
        if n in ALTER:
            return ("altered", n + "()") if any(flow(x, leaf)[0] == "ok" for x in t[3]) else ("?",)
        rs = [flow(x, leaf) for x in t[3]]
        if n == "and_hms_opt":
            if any(r[0] == "const" and r[1] != "0" for r in rs[1:]):
                return ("altered", "a time other than 00:00:00")
            return rs[0]
        if n == "new" and "NaiveDateTime" in t[1] and len(rs) == 2:
            if any(r[0] == "ok" for r in rs):
                c = [x for x in map(str, (strip(y) for y in t[3])) if "from_ymd_opt" in x]
                if c and not all(x in c[0] for x in ("1899", "12", "30")):
                    return ("altered", "a date other than 1899-12-30")
                return next(r for r in rs if r[0] == "ok")
            return ("?",)
        if n == "map" and len(t[3]) == 2:
            return rs[1] if rs[1][0] in ("ok", "altered") else rs[0] if strip(t[3][1])[0] != "call" else ("?",)
        if n in KEEP:
            for r in rs:
                if r[0] in ("ok", "altered"):
                    return r
            if rs and all(r[0] == "const" for r in rs):
                return rs[0]
        return ("?",)
    if k == "agg" and t[1] in ("(array)", "(tuple)", "std::option::Option"):
        rs = [flow(x, leaf) for _, x in t[3]]
        if len(rs) == 1:
            return rs[0]
    return ("?",)


def width(ty):
    m = re.match(r"^[iuf](\d+)$", ty)
    return int(m.group(1)) if m else {"isize": 64, "usize": 64}.get(ty)


def alts(p, f):
    """[(term, guards)] of what f returns"""
    out = []
    for d in f.defs[0].get(0, []):
        if d[0] not in f.reachable:
            continue
        t = strip(p.norm(f.term_def(d, False)))
        gs = f.ctrl_guards(d[0])
        todo = [t]
        while todo:
            x = strip(todo.pop())
            if x[0] == "phi":
                todo += list(x[1])
            elif x[0] == "under":
                todo.append(x[2])
            else:
                out.append((x, gs, d))
    return out


def admitted(gs, ty):
    """variants of the argument the guards admit, or None; and other conditions"""
    r, others = None, []
    for s, v in gs.items():
        s = strip(s)
        if s == ("arg", 1):
            names = {x[1] for x in v if x[0] == "var"}
            if names and all(x[0] == "var" for x in v):
                r = names if r is None else r & names
            continue
        if "('arg', 1)" in str(s):
            others.append((s, v))
    return r, others


def line_of(f, d):
    return f.line


def froms(p, rep):
    rep.rule("From<T> for Value makes a value of the variant for T out of the whole given value, and Value::Empty exactly for None")
    n = 0
    for f in sorted(p.byname.get("from", []), key=lambda f: f.id):
        if f.locals[0][0] != V or f.kind == "closure":
            continue
        v, ty, opt = kind(f.locals[1][0])
        if v is None:
            continue
        want = "Number" if v is NUM else v[0]
        shown = notlt(f.locals[1][0])
        n += 1
        bad = 0
        for t, gs, d in alts(p, f):
            adm, others = admitted(gs, ty)
            if t[0] != "agg" or t[1] != V:
                continue
            if t[2] == "Empty" and want != "Empty":
                if not opt or adm is not None and "None" not in adm:
                    rep.bad_at("from-empty:%s" % shown, "a given %s becomes Value::Empty" % shown, f, None, "from")
                    bad += 1
                elif others:
                    rep.bad_at("from-empty:%s" % shown, "a given %s can become Value::Empty" % shown, f, None, "from")
                    bad += 1
                continue
            if t[2] != want:
                rep.bad_at("from-variant:%s" % shown, "a %s becomes Value::%s instead of Value::%s" % (shown, t[2], want), f, None, "from")
                bad += 1
                continue
            if adm == {"None"}:
                rep.bad_at("from-none:%s" % shown, "None becomes a Value::%s" % want, f, None, "from")
                bad += 1
            for _, x in t[3]:
                r = flow(x, lambda y: "arg" if y == ("arg", 1) else None)
                if r[0] == "altered":
                    rep.bad_at("from-altered:%s" % shown, "a %s is not stored as it is, but changed by %s" % (shown, r[1]), f, None, "from")
                    bad += 1
                elif r[0] == "const":
                    rep.bad_at("from-const:%s" % shown, "a %s becomes a constant" % shown, f, None, "from")
                    bad += 1
        if not bad:
            rep.ok("%s -> Value::%s" % (shown, want))
    rep.count(conversions_into_value=n)
    rep.need(n > 10, "from", "conversions into Value")


def payload(t, want):
    """(variants, problems) of the payloads a term is made of"""
    vs, probs = set(), []
    t = strip(t)
    if t[0] == "phi":
        for x in t[1]:
            a, b = payload(x, want)
            vs |= a
            probs += b
        return vs, probs

    def leaf(y):
        if y[0] == "field" and y[1] == V and strip(y[4]) == ("arg", 1):
            return (y[2], y[3])
        return None
    # a join of payloads within a cast or a call
    phis = []

    def v(x):
        if x[0] == "phi":
            phis.append(x)
            return False
    walk(t, v)
    if phis:
        for alt in phis[0][1]:
            r = flow(alt, leaf)
            if r[0] == "ok":
                vs.add(r[1])
                x = strip(alt)
                while x[0] == "agg" and len(x[3]) == 1:
                    x = strip(x[3][0][1])
                if x[0] == "cast" and want and width(want) and width(x[1]) and width(x[1]) < width(want):
                    probs.append("the detour over %s" % x[1])

        def w(x):
            if x[0] == "phi":
                return False
            if x[0] == "call" and last(x[1]) in ALTER:
                probs.append(last(x[1]) + "()")
        walk(t, w)
        return vs, probs
    r = flow(t, leaf, want)
    if r[0] == "ok":
        vs.add(r[1])
    elif r[0] == "altered":
        probs.append(r[1])
    elif r[0] == "const":
        probs.append("constant")
    else:
        vs.add("?")
    return vs, probs


def getters(p, rep):
    rep.rule("as_x..() of a Value returns the payload of exactly the variants that hold an x, unaltered, and None or the given default for the others; value_type() names the variant; currency() is the currency")
    variants = {x["name"] for x in p.adts[V]["variants"]}
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.kind == "closure" or not f.path.startswith(V + "::") or f.d.get("argc", 0) < 1 or notlt(f.locals[1][0]) != "&" + V:
            continue
        if f.name == "value_type":
            n += 1
            for t, gs, d in alts(p, f):
                adm, _ = admitted(gs, V)
                nm = t[2] if t[0] == "agg" else t[2][1] if t[0] == "const" and t[1] == "e" else None
                if adm is None or nm is None:
                    continue
                for x in sorted(adm):
                    if x == nm:
                        rep.ok("value_type() of %s" % x)
                    else:
                        rep.bad_at("value-type:%s" % x, "value_type() of a %s is %s" % (x, nm), f, None, "getter")
            continue
        if f.name == "currency":
            n += 1
            for t, gs, d in alts(p, f):
                adm, others = admitted(gs, V)
                vs, probs = payload(t, None)
                if adm is not None and "Currency" in adm:
                    if probs:
                        rep.bad_at("currency", "currency() is not the currency of the value", f, None, "getter")
                    elif vs == {("Currency", "1")}:
                        rep.ok("currency()")
                elif vs - {"?"} and vs != {("Currency", "1")}:
                    rep.bad_at("currency", "currency() takes %s" % sorted(vs, key=str), f, None, "getter")
            continue
        m = re.match(r"^as_(\w+?)_(opt|or|or_default)$", f.name)
        if not m:
            continue
        v, ty, opt = kind(f.locals[0][0])
        if v is None:
            continue
        n += 1
        got, undec = set(), False
        nbad = 0

        def bad(key, what):
            rep.bad_at("%s:%s" % (key, f.name), what, f, None, "getter")
        for t, gs, d in alts(p, f):
            adm, others = admitted(gs, V)
            inner = [t]
            if t[0] == "call" and last(t[1]) in ("unwrap_or", "unwrap_or_default", "unwrap_or_else", "map_or") and t[3]:
                x = strip(t[3][0])
                inner = list(x[1]) if x[0] == "phi" else [x]
                if last(t[1]) == "unwrap_or" and m.group(2) == "or" and strip(t[3][1]) != ("arg", 2):
                    r = flow(t[3][1], lambda y: "arg" if y == ("arg", 2) else None)
                    if r[0] in ("const", "altered"):
                        bad("default", "%s() does not return the given default" % f.name)
                        nbad += 1
                adm = None
            for x in inner:
                x = strip(x)
                if x[0] == "under":
                    x = strip(x[2])
                if x[0] == "agg" and x[1] == "std::option::Option":
                    if x[2] == "None":
                        if adm is not None and adm & set(v):
                            bad("none", "%s() is None for a Value::%s" % (f.name, sorted(adm & set(v))[0]))
                            nbad += 1
                        continue
                    x = strip(x[3][0][1])
                if not opt and (x == ("arg", 2) or flow(x, lambda y: "arg" if y == ("arg", 2) else None)[0] == "ok"):
                    if adm is not None and adm & set(v):
                        bad("none", "%s() is the default for a Value::%s" % (f.name, sorted(adm & set(v))[0]))
                        nbad += 1
                    continue
                if "default" in str(x)[:200] and "value_::Value'" not in str(x):
                    continue
                vs, probs = payload(x, ty)
                for pr in probs:
                    if pr == "constant" and (adm is None or not adm & set(v)):
                        continue
                    bad("altered", "%s() does not return the value as it is: %s" % (f.name, pr))
                    nbad += 1
                if vs - {"?"} and any(not all(z[0] == "var" and z[1] in ("Some", "None") or z[0] == "not" for z in y) for _, y in others):
                    bad("conditional", "%s() depends on the value itself" % f.name)
                    nbad += 1
                for y in vs:
                    if y == "?":
                        undec = True
                        continue
                    got.add(y[0])
                    if y[0] not in v and not (f.name.startswith("as_cow") and y[0] == "TextXml"):
                        bad("variant", "%s() returns something for a Value::%s" % (f.name, y[0]))
                        nbad += 1
                    elif y[1] != "0":
                        bad("payload", "%s() takes another part of a Value::%s" % (f.name, y[0]))
                        nbad += 1
        for x in sorted(set(v) - got):
            if got and not undec:
                bad("missing-%s" % x, "%s() does not return a Value::%s" % (f.name, x))
                nbad += 1
        if not nbad and got:
            rep.ok("%s: %s" % (f.name, "/".join(sorted(got))))
    rep.count(getters_of_value=n)
    rep.need(n > 10, "getters", "getters of Value")


def constructors(p, rep):
    rep.rule("Value::new_currency() and new_percentage() make a value of that kind from their arguments")
    for name, var, want in (("new_currency", "Currency", {"0": 2, "1": 1}), ("new_percentage", "Percentage", {"0": 1})):
        for f in p.byname.get(name, []):
            if not f.path.startswith(V + "::"):
                continue
            for t, gs, d in alts(p, f):
                if t[0] != "agg" or t[1] != V:
                    continue
                if t[2] != var:
                    rep.bad_at("new:" + name, "%s() makes a Value::%s" % (name, t[2]), f, None, "new")
                    continue
                for k, x in t[3]:
                    a = want.get(str(k))
                    r = flow(x, lambda y: "arg" if y == ("arg", a) else None)
                    if r[0] in ("altered", "const"):
                        rep.bad_at("new:%s:%s" % (name, k), "%s() changes what it is given: %s" % (name, r[1]), f, None, "new")
                    elif r[0] == "ok":
                        rep.ok("%s() %s" % (name, k))


def check(s, rep):
    p = s.p
    if not rep.need(V in p.adts, "Value", "the enum of cell values"):
        return
    froms(p, rep)
    getters(p, rep)
    constructors(p, rep)


PROPS = {"C25": (check, "other", "term extraction of conversions over MIR, per variant")}
