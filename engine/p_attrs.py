"""C19: attributes set through the API get their ODF name, in the right property group, with the given value.
C20: enums, units and text elements are written with their ODF tokens."""
import re

import odf
from effects import last
from emit import *
from p_access import methods

EV = (("EV",), ())
HEX = re.compile(r"^f69000020w2:(lower|upper)_hex$")


class Rec(Emit):
    """records the changes of attribute maps along each path"""

    def call(self, st, f, fid, t, depth, stack):
        fx = t[1]
        if isinstance(fx, dict) and "ind" not in fx:
            path = fx.get("r") or fx["fn"]
            if "attrmap2" in path and last(path) in ("set_attr", "clear_attr"):
                a = [self.deepval(st, self.op(st, fid, x)) for x in t[2]]
                tgt = self.op(st, fid, t[2][0])
                ev = (last(path), tgt, a[1] if len(a) > 1 else None, a[2] if len(a) > 2 else None, f.path, t[5])
                st.mem[EV] = st.mem.get(EV, ()) + (ev,)
                return [(st, ("sym", "unit"))]
        return super().call(st, f, fid, t, depth, stack)


def summary(p, f, maxst=2500):
    """[(conditions, events, store)] per path, or None"""
    E = Rec(p, max_states=maxst)
    st = St()
    self_ref = f.argc and f.locals[1][0].startswith("&") and len(f.locals[1]) > 1 and f.locals[1][1] == "self"
    argv = [("ref", (("A", "self"), ())) if i == 1 and self_ref else ("sym", ("A", f.locals[i][1] if len(f.locals[i]) > 1 else "#%d" % i)) for i in range(1, f.argc + 1)]
    try:
        res = E.run(f, argv, st)
    except (TooComplex, RecursionError):
        return None
    return [(s.cond, s.mem.get(EV, ()), s, rv) for s, rv in res]


def field_of(tgt):
    """last field of the place a reference points to"""
    if tgt[0] == "ref":
        path = tgt[1][1]
        for seg in reversed(path):
            if seg[1] not in ("*", "0", ""):
                return seg[1]
        return None
    return None


def syms(v, out=None):
    """arguments in a value"""
    out = [] if out is None else out
    if isinstance(v, frozenset):
        for x in v:
            syms(x, out)
    elif isinstance(v, tuple):
        if len(v) == 2 and v[0] == "sym" and isinstance(v[1], tuple) and len(v[1]) == 2 and v[1][0] == "A":
            if v[1][1] not in out:
                out.append(v[1][1])
        else:
            for x in v:
                syms(x, out)
    return out


def arg_piece(v, par):
    """argument whose plain value is displayed: the argument, its id or its content"""
    while v[0] == "fld" and v[2][1] in ("id", "0", "name"):
        v = v[1]
    if v[0] == "sym" and isinstance(v[1], tuple) and v[1][1] in par:
        return v[1][1]
    return None


def arr(v):
    """element of a list that was made on the spot"""
    while v[0] == "fld":
        v = v[1]
    while v[0] in ("elem", "iter") and isinstance(v[1], tuple):
        v = v[1]
    return v[0] in ("agg", "str", "array", "tup")


def rep_piece(x, par):
    """every element of one argument, separated by blanks"""
    names = set()
    if any(y[0] == "val" and arr(y[1]) for cond, ps in x[1] for y in ps):
        return ("it", ",".join(syms(x)))
    for cond, ps in x[1]:
        vals = [y for y in ps if y[0] == "val"]
        if len(vals) != 1 or vals[0][2] != "" or any(y[0] not in ("val", "lit") or y[0] == "lit" and (y[1].strip() or not y[1]) for y in ps):
            # a separator alone is fine
            if vals or any(y[0] != "lit" or y[1].strip() for y in ps):
                return ("?", showp((x,)))
            continue
        v = vals[0][1]
        while v[0] == "fld" and v[2][1] in ("id", "0", "name"):
            v = v[1]
        names.update(syms(v) if v[0] in ("elem", "it", "iter") else ["?"])
    return ("rep", ",".join(sorted(names)))


def shape(pieces, par):
    """value as a list of argument names and literals: [('a', name) | ('l', text) | ('rep', name) | ('?', text)]"""
    out = []
    i = 0
    ps = list(pieces)
    while i < len(ps):
        x = ps[i]
        if x[0] == "lit":
            # a colour: '#' and three bytes in hex
            if x[1].endswith("#") and i + 3 < len(ps) + 0 and all(y[0] == "val" for y in ps[i + 1:i + 4]) and len(ps[i + 1:i + 4]) == 3:
                comp = []
                for y in ps[i + 1:i + 4]:
                    v = y[1]
                    if v[0] == "fld" and v[1][0] == "sym" and HEX.match(y[2]):
                        comp.append((v[1][1][1], v[2][1]))
                    else:
                        comp.append(("?", "?"))
                if [c[1] for c in comp] == ["r", "g", "b"] and len({c[0] for c in comp}) == 1:
                    if x[1][:-1]:
                        out.append(("l", x[1][:-1]))
                    out.append(("a", comp[0][0]))
                else:
                    out.append(("?", "colour " + showp(ps[i:i + 4])))
                i += 4
                continue
            out.append(("l", x[1]))
        elif x[0] == "val":
            a = arg_piece(x[1], par)
            if a is not None and x[2] == "":
                out.append(("a", a))
            elif x[1][0] == "const" and x[1][1] == "e":
                out.append(("l", kebab(x[1][2][1])))
            else:
                out.append(("?", showp((x,))))
        elif x[0] == "rep":
            out.append(rep_piece(x, par))
        else:
            out.append(("?", showp((x,))))
        i += 1
    return out


def kebab(n):
    return re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "-", n).lower()


CONST = {"font-bold": "bold", "font-italic": "italic", "grouping": "true", "textual": "true", "possessive-form": "true", "long-style": "long", "short-style": "short"}


def is_default(cond):
    """the path is taken for an argument that stands for nothing"""
    for k, v in cond.items():
        if isinstance(v, frozenset) and v & {"Default", "None"}:
            return True
        if isinstance(v, tuple) and v and v[0] == "is":
            return True
        if v is True and k[0] == "is" and any(x in repr(k) for x in ("'Default'", "'None'")):
            return True
    return False


def group(owner, fld):
    o = owner.split("::<")[0].rsplit("::", 1)[-1]
    if (o, fld) in odf.GROUPS:
        return odf.GROUPS[(o, fld)]
    if fld in odf.GROUPS:
        return odf.GROUPS[fld]
    m = re.match(r"Part(\w+)Builder$", o)
    if m:
        return odf.PARTS.get(m.group(1))
    if o in odf.TEXTTAGS:
        return odf.TEXTTAGS[o][1]
    if fld == "attr":
        return odf.FORMAT if owner.startswith("format::") else odf.STYLE
    return None


def compound(x):
    for suf in ("", "-asian", "-complex"):
        if x == "font-attr" + suf:
            return {"font-size" + suf, "font-weight" + suf, "font-style" + suf}
        if x == "locale" + suf:
            return {"language" + suf, "country" + suf, "script" + suf}
    if x == "transliteration-locale":
        return {"transliteration-language", "transliteration-country"}
    if x == "fixed-decimal-places":
        return {"decimal-places", "min-decimal-places"}
    return None


def base(x):
    return re.sub(r"-(asian|complex)$", "", x)


def check_attrs(s, rep):
    p = s.p
    import p_store
    p_store.containers(p, rep, ("attrmap2::AttrMap2", "attrmap2::AttrMapIter"), "attributes")
    rep.rule("every setter stores its attribute under the name ODF has for it in that group of properties, on every path, with the text of its arguments in order, and no other attribute")
    tgt = {f.id for f in p.fns.values() if "attrmap2" in f.path and f.name in ("set_attr", "clear_attr")}
    nset, undecided = 0, 0
    for o, ms in sorted(methods(p).items()):
        short = o.split("::<")[0].rsplit("::", 1)[-1]
        builder = re.match(r"Part\w+Builder$", short) or short in odf.TEXTTAGS
        for nm, f in sorted(ms.items()):
            if f.file.startswith(("src/attrmap2", "src/io")) or short in ("WorkBook", "XmlTag") or nm in ("set_attr", "clear_attr"):
                continue
            if not nm.startswith(("set_", "svg_")) and not builder:
                continue
            if not any(i in tgt for i in p.reach([f])):
                continue
            res = summary(p, f)
            if res is None:
                undecided += 1
                continue
            par = [f.locals[i][1] if len(f.locals[i]) > 1 else "#%d" % i for i in range(2, f.argc + 1)]
            if not any(ev for _, ev, _, _ in res):
                continue
            nset += 1
            x = (nm[4:] if nm.startswith("set_") else nm).replace("_", "-")
            comp = compound(x)
            own = "%s::%s" % (o.split("::<")[0], nm)
            bad = []
            for cond, evs, st, rv in res:
                keys = {}
                for what, m, key, val, fp, line in evs:
                    k = key[2] if key is not None and key[0] == "const" else None
                    if k is None:
                        bad.append(("key", "uses a name that is not fixed"))
                        continue
                    g = group(o, field_of(m) or "attr")
                    loc = k.split(":", 1)[-1]
                    if comp is not None:
                        good = comp
                    else:
                        good = {x, odf.ALIAS.get(x)}
                        if x.startswith(k.split(":")[0] + "-"):
                            good.add(x[len(k.split(":")[0]) + 1:])
                        if x == "rotation-angle" and field_of(m) == "textstyle":
                            good = {"text-rotation-angle"}
                    if loc not in good:
                        bad.append(("key", "sets %s" % k))
                    elif g is not None and k not in g:
                        bad.append(("name", "%s is not an attribute ODF has there" % k))
                    keys[loc] = (what, val)
                if not evs:
                    bad.append(("lost", "sets nothing if %s" % showcond(cond)))
                    continue
                bad += values(x, comp, par, cond, keys, builder)
            for kind, msg in bad[:1]:
                rep.bad("%s:%s" % (kind, own), "%s() %s" % (nm, msg), f.file, f.line, f.path, "attribute setters")
            if not bad:
                rep.ok(own)
    rep.count(setters=nset, undecided=undecided)


def showcond(cond):
    return ", ".join("%s is %s" % (showc(k), "/".join(sorted(v)) if isinstance(v, frozenset) else v) for k, v in list(cond.items())[:3])[:160] or "always"


def truth(cond, name):
    for k, v in cond.items():
        if k[0] in ("is",) and syms(k) == [name] and isinstance(v, bool) and k[1] == ("sym", ("A", name)):
            return v
    return None


def values(x, comp, par, cond, keys, fresh=False):
    bad = []
    b = base(x)
    if comp is not None and b == "font-attr":
        for part, arg, tok in (("font-weight", "bold", "bold"), ("font-style", "italic", "italic")):
            k = next((y for y in keys if base(y) == part), None)
            i = [a for a in par if a == arg]
            if not i:
                continue
            t = truth(cond, arg)
            if t is True and (k is None or keys[k][0] != "set_attr" or shape(lit_of(keys[k][1]), par) != [("l", tok)]):
                bad.append(("value", "does not set %s if %s" % (part, arg)))
            if t is False and k is not None and keys[k][0] == "set_attr" and shape(lit_of(keys[k][1]), par) == [("l", tok)]:
                bad.append(("value", "sets %s if not %s" % (part, arg)))
        k = next((y for y in keys if base(y) == "font-size"), None)
        if k is None or shape(lit_of(keys[k][1]), par) != [("a", par[0])]:
            bad.append(("value", "does not set the size"))
        return bad
    if comp is not None and (b == "locale" or x == "transliteration-locale"):
        want = {"language": "language", "country": "region", "script": "script"}
        if all(w == "clear_attr" for w, _ in keys.values()):
            if set(keys) != comp:
                bad.append(("value", "clears only %s" % ", ".join(sorted(keys))))
            return bad
        if not set(keys) <= comp or set(keys) != comp and not fresh:
            bad.append(("value", "leaves %s as it was" % ", ".join(sorted(comp - set(keys)))))
        for k in sorted(comp - set(keys)):
            part = want.get(base(k).replace("transliteration-", ""), "?")
            if not any(isinstance(v, frozenset) and v & {"None", "?other", "#0"} and "." + part in showc(c) for c, v in cond.items()):
                bad.append(("value", "does not set %s" % k))
        for k, (w, v) in keys.items():
            part = base(k).replace("transliteration-", "")
            if w == "set_attr":
                txt = showp(lit_of(v))
                if "." + want.get(part, "?") not in txt or any("." + y in txt for z, y in want.items() if z != part):
                    bad.append(("value", "sets %s from %s" % (k, txt)))
        return bad
    for k, (w, v) in keys.items():
        if w == "clear_attr":
            if not is_default(cond):
                bad.append(("lost", "clears %s if %s" % (k, showcond(cond))))
            continue
        sh = shape(lit_of(v), par)
        if b in CONST and (not par or b in ("font-bold", "font-italic")):
            if sh != [("l", CONST[b])]:
                bad.append(("value", "sets %s to %s" % (k, showp(lit_of(v)))))
            continue
        got = [a for kind, a in sh if kind in ("a", "rep")]
        want = [a for a in par if not absent(cond, a)]
        if b.endswith("shadow") and "color" in want:
            want = ["color"] + [a for a in want if a != "color"]
        lits = [t for kind, t in sh if kind == "l"]
        odd = [t for kind, t in sh if kind == "?"]
        if (odd and assembled(v) or any(kind == "it" for kind, _ in sh)) and set(want) <= set(syms(v)):
            continue
        if odd:
            bad.append(("value", "sets %s to %s" % (k, odd[0])))
        elif got != want:
            bad.append(("value", "sets %s to %s" % (k, showp(lit_of(v)))))
        elif b == "rel-col-width":
            if lits != ["*"]:
                bad.append(("value", "does not mark %s as relative" % k))
        elif len(want) > 1 and (len(lits) != len(want) - 1 or any(t.strip() or not t for t in lits)) or len(want) == 1 and any(t.strip() for t in lits):
            bad.append(("value", "sets %s to %s" % (k, showp(lit_of(v)))))
    return bad


def assembled(v):
    """text put together by an iterator, whose order is not followed"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "call" and isinstance(v[1], str) and last(v[1]) in ("join", "concat", "collect", "fold", "from_iter", "reduce"):
            return True
        return any(assembled(x) for x in v)
    return isinstance(v, frozenset) and any(assembled(x) for x in v)


def absent(cond, name):
    for k, v in cond.items():
        if k[0] == "var" and k[1] == ("sym", ("A", name)) and isinstance(v, frozenset) and v == frozenset({"None"}):
            return True
    return False


# ---------------------------------------------------------------- C20

SHOWN = ("src/style/", "src/format/", "src/sheet_", "src/validation", "src/xlink")
SELF = ("sym", ("A", "self"))


def display_paths(p, f):
    E = Emit(p, max_states=3000)
    st = St()
    out = (("A", "f"), ())
    st.mem[out] = ("str", ())
    try:
        res = E.run(f, [SELF, ("ref", out)], st)
    except (TooComplex, RecursionError):
        return None
    return [(s2.cond, E.read(s2, out)[1]) for s2, _ in res]


def root(v):
    while v[0] == "fld":
        v = v[1]
    return v


def variants_on(cond):
    """[(place, variants)] tested on the way, outer first"""
    r = [(k[1], v) for k, v in cond.items() if k[0] == "var" and isinstance(v, frozenset) and root(k[1]) == SELF]
    return sorted(r, key=lambda x: depth(x[0]))


def depth(v):
    n = 0
    while v[0] == "fld":
        v = v[1]
        n += 1
    return n


def token(ty, var):
    return odf.TOKENS.get(ty, {}).get(var, kebab(var))


def adt_at(p, adt, place):
    """type of a place below self"""
    segs = []
    while place[0] == "fld":
        segs.append(place[2])
        place = place[1]
    for var, fld in reversed(segs):
        a = p.adts.get(adt)
        if a is None:
            return None
        ty = next((fl[1] for v in a["variants"] if v["name"] == var or not var for fl in v["fields"] if fl[0] == fld), None)
        if ty is None:
            return None
        adt = ty if ty in p.adts else None
    return adt


def check_tokens(s, rep):
    p = s.p
    rep.rule("each variant is displayed as its ODF token, or its value followed by its ODF unit")
    shown, paths, und = {}, 0, []
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if f.name != "fmt" or not f.trait or "Display" not in f.trait or not f.file.startswith(SHOWN):
            continue
        adt = f.path.split(" as ")[0][1:]
        a = p.adts.get(adt)
        if a is None or a["kind"] != "enum":
            continue
        ty = adt.rsplit("::", 1)[-1]
        res = display_paths(p, f)
        if res is None:
            und.append(f.path)
            continue
        all_v = {v["name"]: v for v in a["variants"]}
        seen = set()
        bad = []
        for cond, out in res:
            vs = variants_on(cond)
            paths += 1
            outer = vs[0][1] if vs and vs[0][0] == SELF else frozenset(all_v) if len(all_v) == 1 else None
            if outer is None:
                bad.append(("all", "writes %s whatever the variant" % showp(out)))
                continue
            for var in sorted(outer):
                seen.add(var)
                if var not in all_v:
                    continue
                inner_ty, inner = ty, var
                fields = all_v[var]["fields"]
                for place, vv in vs[1:]:
                    t = adt_at(p, adt, place)
                    if t and len(vv) == 1:
                        inner_ty, inner = t.rsplit("::", 1)[-1], next(iter(vv))
                        fields = next((v["fields"] for v in p.adts[t]["variants"] if v["name"] == inner), [])
                # a wrapped type with one variant has no test of its own
                vals = [x for x in out if x[0] != "lit"]
                lits = "".join(x[1] for x in out if x[0] == "lit")
                if not fields:
                    want = token(inner_ty, inner)
                    if vals or lits != want:
                        bad.append((var, "writes %s as %s, not %s" % (inner, showp(out) or "nothing", want or "nothing")))
                    continue
                pl = vals[0][1] if len(vals) == 1 and vals[0][0] == "val" else None
                if pl is None or root(pl) != SELF or vals[0][2] not in ("", None) or out[0] != vals[0]:
                    bad.append((var, "writes %s as %s" % (inner, showp(out))))
                    continue
                # the payload itself or, if that was looked into, its innermost value
                last_v = pl[2][0] if pl[0] == "fld" else ""
                owner_ = adt_at(p, adt, pl[1]) if pl[0] == "fld" else None
                oty = owner_.rsplit("::", 1)[-1] if owner_ else ty
                unit = odf.UNITS.get(last_v, "") if oty in ("Length", "Angle", "Percent") else ""
                if lits != unit:
                    bad.append((var, "writes %s with the unit '%s', not '%s'" % (last_v, lits, unit)))
        for v in sorted(set(all_v) - seen):
            if seen:
                bad.append((v, "does not write %s" % v))
        for var, msg in bad[:1]:
            rep.bad("token:%s" % ty, "%s %s" % (ty, msg), f.file, f.line, f.path, "tokens")
        if not bad:
            rep.ok("%s: %d variants" % (ty, len(all_v)))
        shown[adt] = {v["name"] for v in a["variants"]}
    check_parse(p, rep, shown, und)
    check_tags(p, rep, und)
    rep.count(types=len(shown), paths=paths, undecided=len(und))


def ints(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "const" and v[1] == "i":
            out.add(v[2])
        else:
            for x in v:
                ints(x, out)
    return out


def strs(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "const" and v[1] == "s":
            out.add(v[2])
        else:
            for x in v:
                strs(x, out)
    return out


def binops(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if len(v) >= 3 and v[0] == "bin" and isinstance(v[1], str):
            out.add(v[1].replace("WithOverflow", ""))
        for x in v:
            binops(x, out)
    return out


def check_parse(p, rep, shown, und):
    rep.rule("the parser of an attribute maps each token (or unit) back to the variant that is displayed as it, and rejects other text")
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if f.name != "parse_attr" or not f.trait or "ParseStyleAttr" not in f.trait:
            continue
        adt = f.path.split(" as ")[0][1:]
        if adt not in p.adts:
            continue
        ty = adt.rsplit("::", 1)[-1]
        E = Emit(p, max_states=3000)
        try:
            res = [(s2.cond, E.deepval(s2, rv)) for s2, rv in E.run(f, [("sym", ("A", "attr"))], St())]
        except (TooComplex, RecursionError):
            und.append(f.path)
            continue
        bad, got = [], {}
        for cond, rv in res:
            if rv[0] != "agg" or rv[2] == "Err":
                continue
            opt = dict(rv[3]).get("0")
            if opt is None or opt[0] != "agg" or opt[2] != "Some":
                continue
            v = dict(opt[3]).get("0")
            if v is None or v[0] != "agg" or v[1] != adt:
                continue
            eq = [c[1] for k, c in cond.items() if k[0] == "eq" and isinstance(c, tuple) and c and c[0] == "is"]
            suf = [x for k, c in cond.items() if k[0] == "is" and c is True for x in strs(k)]
            suf += [x for k, c in cond.items() if k[0] == "var" and c == frozenset({"Some"}) and "suffix" in repr(k) for x in strs(k)]
            eqs = [x for k, c in cond.items() if k[0] == "is" and c is True and "ends_with" not in repr(k) for x in strs(k)]
            if v[3]:
                want = odf.UNITS.get(v[2])
                got[v[2]] = want
                if not suf:
                    bad.append((v[2], "reads text without a unit as %s" % v[2]))
                elif want not in suf:
                    bad.append((v[2], "reads the unit '%s' as %s" % (suf[-1], v[2])))
                elif any(n != len(want) for n in ints(v)) or binops(v) - {"Sub"}:
                    bad.append((v[2], "does not read the number before '%s' as it is" % want))
            else:
                want = token(ty, v[2])
                got[v[2]] = want
                e = eq or eqs
                if want not in e and (want or e):
                    bad.append((v[2], "reads %s as %s" % ("'%s'" % e[0] if e else "any text", v[2])))
        need = {v["name"] for v in p.adts[adt]["variants"] if v["name"] != "Default" and token(ty, v["name"])}
        for v in sorted(need - set(got)):
            if got:
                bad.append((v, "rejects the text of %s" % v))
        for var, msg in bad[:1]:
            rep.bad("parse:%s" % ty, "%s %s" % (ty, msg), f.file, f.line, f.path, "attribute parsers")
        if not bad:
            rep.ok("%s parser: %d variants" % (ty, len(got)))
            n += 1
    rep.count(parsers=n)


def check_tags(p, rep, und):
    rep.rule("each text type creates its ODF element")
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        ty = f.path.rsplit("::", 2)[-2] if f.path.count("::") > 1 else ""
        if f.file != "src/text.rs" or f.name != "new" or ty not in odf.TEXTTAGS:
            continue
        E = Emit(p, max_states=3000)
        try:
            res = [E.deepval(s2, rv) for s2, rv in E.run(f, [("sym", ("A", "a%d" % i)) for i in range(f.argc)], St())]
        except (TooComplex, RecursionError):
            und.append(f.path)
            continue
        for rv in res:
            xml = dict(rv[3]).get("xml") if rv[0] == "agg" else None
            name = dict(xml[3]).get("name") if xml is not None and xml[0] == "agg" else None
            if name is None:
                continue
            n += 1
            t = name[2] if name[0] == "const" else "?"
            if t != odf.TEXTTAGS[ty][0]:
                rep.bad("tag:%s" % ty, "%s creates %s, not %s" % (ty, t, odf.TEXTTAGS[ty][0]), f.file, f.line, f.path, "text elements")
            else:
                rep.ok("%s is %s" % (ty, t))
    rep.count(tags=n)


PROPS = {
    "C19": (check_attrs, "other", "path summaries of attribute map changes over MIR, compared with the ODF attribute tables"),
    "C20": (check_tokens, "other", "path summaries of the text written and read by enums over MIR, compared with the ODF tokens"),
}
