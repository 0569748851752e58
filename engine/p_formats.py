"""C21: value formats consist of exactly the parts that were asked for."""
import re

import odf
from effects import last
from emit import *
from p_attrs import EV, Rec, arg_piece, kebab, shape, syms, truth

FORMAT = "FormatPart"


class Build(Rec):
    """also records the parts that are added, and what is known of them"""

    def call(self, st, f, fid, t, depth, stack):
        fx = t[1]
        if isinstance(fx, dict) and "ind" not in fx:
            path = fx.get("r") or fx["fn"]
            if last(path) == "push_part" and len(t[2]) == 2 and stack:
                a = [self.deepval(st, self.op(st, fid, x)) for x in t[2]]
                st.mem[EV] = st.mem.get(EV, ()) + (("push", self.op(st, fid, t[2][0]), a[1]),)
                return [(st, ("sym", "unit"))]
            if path.endswith("::lt") or "Locale" in path and last(path) in ("eq", "ne"):
                # whether a locale is the unknown one does not matter here
                return [(st, ("call", path, tuple(self.deepval(st, self.op(st, fid, x)) for x in t[2])))]
        return super().call(st, f, fid, t, depth, stack)


def run(p, f, maxst=3000):
    E = Build(p, max_states=maxst)
    st = St()
    argv = []
    for i in range(1, f.argc + 1):
        nm = f.locals[i][1] if len(f.locals[i]) > 1 else "#%d" % i
        argv.append(("ref", (("A", "self"), ())) if i == 1 and nm == "self" and f.locals[1][0].startswith("&") else ("sym", ("A", nm)))
    try:
        return E, E.run(f, argv, st)
    except (TooComplex, RecursionError):
        return E, None


def part_type(v):
    """name of the type of a part, None if it is not known"""
    if v[0] == "agg" and v[1].endswith(FORMAT):
        t = dict(v[3]).get("part_type")
        if t is not None and t[0] == "agg":
            return t[2]
        if t is not None and t[0] == "const" and t[1] == "e":
            return t[2][1]
    return None


def content(v):
    c = dict(v[3]).get("content") if v[0] == "agg" else None
    if c is None:
        return ("sym", "?")
    if c[0] == "agg":
        return dict(c[3])["0"] if c[2] == "Some" else None
    return c


def parts(evs):
    """[(receiver, type, attributes, content)], [(event on the format itself)]"""
    out, own, cur = [], [], {}
    for e in evs:
        if e[0] == "push":
            out.append((e[1], part_type(e[2]), cur, content(e[2])))
            cur = {}
        else:
            key = e[2][2] if e[2] is not None and e[2][0] == "const" else "?"
            path = e[1][1][1] if e[1][0] == "ref" else ()
            if any(seg[1] == "part" for seg in path) or not path or path[-1][1] != "attr" or len(path) > 1:
                cur[key] = (e[0], e[3])
            else:
                own.append((e[0], key, e[3]))
    return out, own


def camel(x):
    return {"scientific": "ScientificNumber", "currency": "CurrencySymbol"}.get(x, "".join(w.capitalize() for w in x.split("_")))


PUSHED = {"number_fix": "Number", "currency_symbol": "CurrencySymbol", "scientific": "ScientificNumber"}

# what a ready-made format has to contain, in this order (a tuple: any order; a set: with or without am/pm)
CREATED = [
    (r"boolean_format$", ["Boolean"]),
    (r"number_format(_fixed)?$", ["Number"]),
    (r"percentage_format$", ["Number", "Text"]),
    (r"currency_prefix$", ["CurrencySymbol", "Text", "Number"]),
    (r"currency_suffix$", ["Number", "Text", "CurrencySymbol"]),
    (r"date_iso_format$", ["Year", "Text", "Month", "Text", "Day"]),
    (r"date_dmy_format$", ["Day", "Text", "Month", "Text", "Year"]),
    (r"date_mdy_format$", ["Month", "Text", "Day", "Text", "Year"]),
    (r"^(create|create_loc)_datetime_format$", ("Day", "Month", "Year", "Hours", "Minutes", "Seconds")),
    (r"time(_of_day|_interval)?_format$", ["Hours", "Text", "Minutes", "Text", "Seconds"]),
]
LOCALIZED = {
    "boolean_format": ["Boolean"], "number_format": ["Number"], "percentage_format": ["Number", "Text"], "currency_format": ("CurrencySymbol", "Number"),
    "date_format": ("Day", "Month", "Year"), "datetime_format": ("Day", "Month", "Year", "Hours", "Minutes", "Seconds"),
    "time_of_day_format": {"Hours", "Minutes", "Seconds"}, "time_interval_format": ["Hours", "Text", "Minutes", "Text", "Seconds"],
}
DEFAULTS = {"boolean_format": "bool", "number_format": "number", "percentage_format": "percent", "currency_format": "currency", "date_format": "date",
            "datetime_format": "datetime", "time_of_day_format": "time_of_day", "time_interval_format": "time_interval"}


def fits(types, want):
    if isinstance(want, set):
        return [t for t in types if t not in ("AmPm", "Text")] == [t for t in sorted(want)]
    if isinstance(want, tuple):
        return sorted(t for t in types if t != "Text") == sorted(want)
    return types == want


def check_formats(s, rep):
    p = s.p
    und = []
    builders(p, rep, und)
    pushes(p, rep, und)
    created(p, rep, und)
    localized(p, rep, und)
    settings(p, rep, und)
    rep.count(undecided=len(und))


def owner(f):
    m = re.match(r"(?:<)?([\w:]+?)(?:::<[^>]*>)?(?: as [^>]*>)?::\w+$", f.path)
    return m.group(1).rsplit("::", 1)[-1] if m else ""


def builders(p, rep, und):
    rep.rule("part_x() starts a part of type x; build() adds that part, as it is, once, at the end of the format it was started for; if_then() applies its builder exactly if the test is true")
    n = nb = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        m = re.match(r"part_(\w+)$", f.name)
        if m and "format" in f.path and owner(f).startswith("ValueFormat") and f.name not in ("part_type",):
            E, res = run(p, f)
            if res is None:
                und.append(f.path)
                continue
            n += 1
            want = camel(m.group(1))
            key = "part:%s::%s" % (owner(f), f.name)
            for st, rv in res:
                v = E.deepval(st, rv)
                part = dict(v[3]).get("part") if v[0] == "agg" else None
                if part is None:
                    continue
                ty = part_type(part)
                back = dict(E.val(st, rv)[3]).get("valueformat")
                par = [f.locals[i][1] for i in range(2, f.argc + 1)]
                if ty is not None and ty != want:
                    rep.bad(key, "%s() starts a part of type %s" % (f.name, ty), f.file, f.line, f.path, "format parts")
                    break
                if back is not None and back[0] == "ref" and back[1] != (("A", "self"), ()):
                    rep.bad(key, "%s() adds to another format" % f.name, f.file, f.line, f.path, "format parts")
                    break
                if par and content(part) is not None and arg_of(content(part), par) != par[0]:
                    rep.bad(key, "%s() has the content %s" % (f.name, showv(content(part))), f.file, f.line, f.path, "format parts")
                    break
                if par and content(part) is None or st.mem.get(EV, ()):
                    rep.bad(key, "%s() %s" % (f.name, "ignores its text" if par else "starts with attributes"), f.file, f.line, f.path, "format parts")
                    break
            else:
                rep.ok(key)
        if f.name == "build" and re.match(r"Part\w+Builder$", owner(f)):
            E, res = run(p, f)
            if res is None:
                und.append(f.path)
                continue
            nb += 1
            key = "build:" + owner(f)
            bad = None
            for st, rv in res:
                ev = st.mem.get(EV, ())
                psh = [e for e in ev if e[0] == "push"]
                if len(psh) != 1 or len(ev) != 1:
                    bad = "adds %d parts%s" % (len(psh), " and changes attributes" if len(ev) > len(psh) else "")
                elif psh[0][2] != ("fld", ("sym", ("A", "self")), ("", "part")):
                    bad = "adds %s" % showv(psh[0][2])[:80]
                elif "'valueformat'" not in repr(psh[0][1]):
                    bad = "adds to another format"
            if bad:
                rep.bad(key, "build() %s" % bad, f.file, f.line, f.path, "format parts")
            else:
                rep.ok(key)
        if f.name == "if_then" and re.match(r"Part\w+Builder$", owner(f)):
            E, res = run(p, f)
            if res is None:
                und.append(f.path)
                continue
            key = "if_then:" + owner(f)
            bad = None
            for st, rv in res:
                t = truth(st.cond, "test")
                v = E.val(st, rv)
                me = v == ("sym", ("A", "self"))
                if t is None or t is me or t and not (v[0] == "call" and ("sym", ("A", "build")) in v[2]):
                    bad = "returns %s if the test is %s" % ("the part as it was" if me else showv(v)[:60], t)
            if bad:
                rep.bad(key, "if_then() " + bad, f.file, f.line, f.path, "format parts")
            else:
                rep.ok(key)
        if f.name == "push_part" and owner(f).startswith("ValueFormat"):
            key = "push_part:" + owner(f)
            E, res = run(p, f)
            if res is None:
                und.append(f.path)
                continue
            par = [f.locals[i][1] for i in range(2, f.argc + 1)]
            bad = None
            for st, rv in res:
                v = st.mem.get((("A", "self"), (("", "parts"),)))
                ps = v[1] if v is not None and v[0] == "str" else ()
                if len(ps) != 2 or ps[0][:1] != ("val",) or ps[1][:1] != ("val",) or arg_piece(ps[1][1], par) != par[0]:
                    bad = "leaves %s" % (showp(ps) if ps else "the parts as they were")
            if bad:
                rep.bad(key, "push_part() " + bad, f.file, f.line, f.path, "format parts")
            else:
                rep.ok(key)
    rep.count(part_functions=n, builders=nb)


def arg_of(v, par):
    """the argument a text comes from"""
    n = 0
    while n < 6:
        n += 1
        a = arg_piece(v, par)
        if a is not None:
            return a
        if v[0] == "str" and len(v[1]) == 1 and v[1][0][0] == "val":
            v = v[1][0][1]
        elif v[0] == "call" and last(v[1]) in ("into", "to_string", "as_ref", "from", "to_owned", "borrow") and v[2]:
            v = v[2][0]
        else:
            return None
    return None


def pushes(p, rep, und):
    rep.rule("push_x() adds one part of type x, with each argument as the attribute of its name")
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        m = re.match(r"push_(\w+)$", f.name)
        if not m or not owner(f).startswith("ValueFormat") or m.group(1) in ("part", "parts", "stylemap"):
            continue
        E, res = run(p, f)
        if res is None:
            und.append(f.path)
            continue
        n += 1
        x = m.group(1)
        want = PUSHED.get(x, camel(x))
        key = "push:%s::%s" % (owner(f), f.name)
        par = [f.locals[i][1] for i in range(2, f.argc + 1)]
        bad = None
        for st, rv in res:
            ps, own = parts(st.mem.get(EV, ()))
            if len(ps) != 1:
                bad = "adds %d parts" % len(ps)
                break
            recv, ty, attrs, cont = ps[0]
            if ty is None:
                und.append(f.path)
                continue
            if ty != want:
                bad = "adds a part of type %s" % ty
                break
            if recv != ("ref", (("A", "self"), ())) and recv[0] == "ref":
                bad = "adds to another format"
                break
            if own:
                bad = "sets %s" % own[0][1]
                break
            bad = args_used(par, attrs, cont, st.cond)
            if bad:
                break
        if bad:
            rep.bad(key, "%s() %s" % (f.name, bad), f.file, f.line, f.path, "push functions")
        else:
            rep.ok(key)
    rep.count(push_functions=n)


ATTR_OF = {"decimal": ("number:decimal-places",), "decimal_places": ("number:decimal-places",), "denominator": ("number:denominator-value",)}


def args_used(par, attrs, cont, cond):
    for a in par:
        if a in ("name",):
            continue
        if a in ("symbol", "text"):
            if cont is None or arg_of(cont, par) != a:
                return "does not use %s as the content" % a
            continue
        if a in ("locale", "symbol_locale"):
            v = attrs.get("number:language")
            if v is None or v[0] != "set_attr" or syms(v[1]) != [a]:
                return "does not set the language of the part from %s" % a
            continue
        ks = ATTR_OF.get(a, ("number:" + a.replace("_", "-"),))
        t = truth(cond, a)
        for k in ks:
            v = attrs.get(k)
            if t is False:
                if v is not None and v[0] == "set_attr":
                    return "sets %s although %s is false" % (k, a)
                continue
            if v is None or v[0] != "set_attr":
                return "does not set %s%s" % (k, " if %s" % a if t else "")
            sh = shape(lit_of(v[1]), par)
            if sh != ([("l", "true")] if t else [("a", a)]):
                return "sets %s to %s" % (k, showp(lit_of(v[1])))
    return None


def judge(E, st, rv, want, interval=False):
    """(problem, parts) of a format that is returned"""
    ps, own = parts(st.mem.get(EV, ()))
    types = [t for _, t, _, _ in ps]
    if None in types:
        return None, ps, own
    if not fits(types, want):
        return "consists of %s" % ", ".join(types), ps, own
    tr = [v for w, k, v in own if k == "number:truncate-on-overflow" and w == "set_attr"]
    if interval and not (tr and lit_of(tr[-1]) == (("lit", "false"),)):
        return "is cut off after a day", ps, own
    if not interval and tr and lit_of(tr[-1]) == (("lit", "false"),):
        return "counts beyond its largest unit", ps, own
    return None, ps, own


def fname(E, st, rv):
    v = E.deepval(st, rv)
    return dict(v[3]).get("name") if v[0] == "agg" else None


def created(p, rep, und):
    rep.rule("a ready-made format has the parts its name promises, in that order, the given name, locale, symbol and digits")
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if not f.name.startswith("create_") or not f.file.startswith("src/format/"):
            continue
        want = next((w for r, w in CREATED if re.search(r, f.name)), None)
        if want is None:
            continue
        E, res = run(p, f)
        if res is None:
            und.append(f.path)
            continue
        n += 1
        par = [f.locals[i][1] for i in range(1, f.argc + 1)]
        bad = None
        for st, rv in res:
            bad, ps, own = judge(E, st, rv, want, "interval" in f.name)
            if bad:
                break
            nm = fname(E, st, rv)
            if nm is not None and "name" in par and arg_of(nm, par) != "name":
                bad = "is named %s" % showv(nm)
                break
            if "locale" in par:
                lang = [v for w, k, v in own if k == "number:language"]
                if not lang or lang[-1] is not None and syms(lang[-1]) != ["locale"]:
                    bad = "does not have the given locale"
                    break
            for _, ty, attrs, cont in ps:
                if ty == "CurrencySymbol":
                    bad = bad or args_used([a for a in ("symbol_locale", "symbol") if a in par], attrs, cont, st.cond)
                    if not bad and cont is not None and arg_of(cont, par) != "symbol":
                        bad = "has another symbol"
                if ty == "Number":
                    bad = bad or args_used([a for a in ("decimal", "grouping") if a in par], attrs, cont, st.cond)
                    if "fixed" in f.name and not bad:
                        v = attrs.get("number:min-decimal-places")
                        if v is None or v[0] != "set_attr" or shape(lit_of(v[1]), par) != [("a", "decimal")]:
                            bad = "does not fix the number of decimals"
                if ty == "Text" and "percentage" in f.name and not bad:
                    if cont is None or lit_of(cont) != (("lit", "%"),):
                        bad = "has the text %s" % (showv(cont) if cont else "nothing")
            if bad:
                break
        if bad:
            rep.bad("create:" + f.name, "the format of %s() %s" % (f.name, bad), f.file, f.line, f.path, "ready-made formats")
        else:
            rep.ok("create:" + f.name)
    rep.count(create_functions=n)


def default_names(p, ty):
    """method -> name it returns"""
    out = {}
    for f in p.fns.values():
        if owner(f) == ty and f.argc == 0:
            E, res = run(p, f)
            for st, rv in res or []:
                ss = {x for x in strings(E.deepval(st, rv))}
                if len(ss) == 1:
                    out[f.name] = ss.pop()
    return out


def strings(v):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "const" and v[1] == "s":
            yield v[2]
        elif len(v) == 2 and v[0] == "lit":
            yield v[1]
        else:
            for x in v:
                yield from strings(x)


def localized(p, rep, und):
    rep.rule("the default formats of each locale have the parts of their kind, and are filed under the default name of that kind, which no other kind has")
    names = default_names(p, "DefaultFormat")
    for a in sorted(names):
        for b in sorted(names):
            if a < b and names[a] == names[b]:
                f = next(f for f in p.fns.values() if owner(f) == "DefaultFormat" and f.name == b)
                rep.bad("default-name:%s" % b, "the default formats %s and %s have the same name" % (a, b), f.file, f.line, f.path, "default formats")
    n = 0
    locs = {}
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if f.name not in LOCALIZED or not f.file.startswith("src/locale/") or not f.trait:
            continue
        E, res = run(p, f)
        if res is None:
            und.append(f.path)
            continue
        n += 1
        key = "locale:%s::%s" % (owner(f), f.name)
        bad = None
        for st, rv in res:
            bad, ps, own = judge(E, st, rv, LOCALIZED[f.name], "interval" in f.name)
            nm = fname(E, st, rv)
            want = names.get(DEFAULTS[f.name])
            if not bad and nm is not None and want is not None:
                got = set(strings(nm))
                if got and got != {want}:
                    bad = "is filed under the name %s" % "/".join(sorted(got))
            for _, ty, attrs, cont in ps:
                if not bad and ty == "Text" and f.name == "percentage_format" and (cont is None or lit_of(cont) != (("lit", "%"),)):
                    bad = "has no percent sign"
                if not bad and ty == "CurrencySymbol" and cont is None:
                    bad = "has no symbol"
            if bad:
                break
        if bad:
            rep.bad(key, "%s() of %s %s" % (f.name, owner(f), bad), f.file, f.line, f.path, "default formats")
        else:
            rep.ok(key)
    rep.count(localized_formats=n)


class Calls(Emit):
    WATCH = ("add_cellstyle", "add_def_style", "add_def_style_")

    def call(self, st, f, fid, t, depth, stack):
        fx = t[1]
        if isinstance(fx, dict) and "ind" not in fx:
            nm = last(fx.get("r") or fx["fn"])
            if nm == "CellStyle::new" or (fx.get("r") or fx["fn"]).endswith("CellStyle::new") or nm in LOCALIZED or nm.startswith(("add_", "create_")) or nm == "localized_format":
                a = tuple(self.deepval(st, self.op(st, fid, x)) for x in t[2])
                st.mem[EV] = st.mem.get(EV, ()) + ((fx.get("r") or fx["fn"], a, t[5]),)
                if nm == "localized_format":
                    return [(st, ("sym", "lf"))]
                return [(st, ("call", fx.get("r") or fx["fn"], a))]
        return super().call(st, f, fid, t, depth, stack)


VALUE_DEFAULT = {"Boolean": ("bool",), "Number": ("number",), "Percentage": ("percent",), "Currency": ("currency",), "DateTime": ("date", "datetime"), "TimeDuration": ("time_interval",)}


def settings(p, rep, und):
    rep.rule("the default styles of a workbook use the default format of their kind, and each value type has the default style of its kind")
    fm = {v: k for k, v in default_names(p, "DefaultFormat").items()}
    sm = {v: k for k, v in default_names(p, "DefaultStyle").items()}
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if f.name not in ("locale_settings", "create_default_styles"):
            continue
        E = Calls(p, max_states=3000)
        try:
            res = E.run(f, [("ref", (("A", "self"), ())), ("sym", ("A", "locale"))][:f.argc], St())
        except (TooComplex, RecursionError):
            und.append(f.path)
            continue
        for st, rv in res:
            ev = st.mem.get(EV, ())
            bad, styled, typed, fmts = [], set(), {}, set()
            looped = any(last(path) == "next" for (b, path, cid, args, tt) in f.calls if b in f.reachable)  # entries of a table: which ones is not decided
            for path, a, line in ev:
                nm = last(path)
                if path.endswith("CellStyle::new") and len(a) == 2:
                    x = {sm.get(y) for y in strings(a[0])}
                    y = {fm.get(z) for z in strings(a[1])}
                    if len(x) == len(y) == 1 and None not in x | y:
                        if x != y:
                            bad.append((line, "the default style %s uses the format %s" % (next(iter(x)), next(iter(y)))))
                        n += 1
                elif nm == "add_cellstyle":
                    styled |= {sm.get(y) for y in strings(a[1])} if len(a) > 1 else set()
                elif nm == "add_def_style" and len(a) == 3:
                    vt = a[1][2] if a[1][0] == "agg" else a[1][2][1] if a[1][0] == "const" and a[1][1] == "e" else None
                    x = {sm.get(y) for y in strings(a[2])}
                    if vt is not None and len(x) == 1 and None not in x:
                        typed[vt] = (next(iter(x)), line)
                elif nm.startswith("add_") and len(a) == 2 and a[1][0] == "call":
                    fmts.add(last(a[1][1]))
            for vt, (x, line) in sorted(typed.items()):
                n += 1
                if vt in VALUE_DEFAULT and x not in VALUE_DEFAULT[vt]:
                    bad.append((line, "values of type %s get the default style %s" % (vt, x)))
                if x not in styled and not looped:
                    bad.append((line, "the default style %s of %s is not added" % (x, vt)))
            for vt in sorted(set(VALUE_DEFAULT) - set(typed)) if not looped else ():
                bad.append((f.line, "values of type %s get no default style" % vt))
            if fmts & set(LOCALIZED) and not looped:
                for x in sorted(set(LOCALIZED) - fmts):
                    bad.append((f.line, "the %s of the locale is not added" % x.replace("_", " ")))
            for line, msg in bad[:2]:
                rep.bad("settings:%s:%s" % (f.name, msg.replace(" ", "-")), msg, f.file, line, f.path, "default formats")
            if not bad:
                rep.ok("%s: %d styles, %d value types, %d formats" % (f.name, len(styled), len(typed), len(fmts)))
    rep.count(default_bindings=n)


PROPS = {"C21": (check_formats, "other", "path summaries of the parts and attributes added to value formats over MIR, compared with what each function is named after")}
