"""Round-trip obligations: what is written to an XML location is read back into the same model field, and vice versa.

Locations are (element, attribute | '' for character data).  All obligations are derived from the writer table (walker) and the
reader table (reader effects) of the current tree; the committed location list only makes the loss of *both* sides visible."""
from collections import defaultdict
from mir import *
import readrules
import tables
from tables import value_paths, match, own
from reader import q

# functions that change a value (as opposed to converting its representation)
ALTER = {"trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "trim_left", "trim_right", "to_lowercase",
         "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "make_ascii_lowercase", "make_ascii_uppercase", "replace", "replacen",
         "replace_range", "truncate", "split_at", "split_off", "split_once", "rsplit_once", "split", "splitn", "split_whitespace",
         "strip_prefix", "strip_suffix", "rev", "repeat", "retain", "drain", "remove", "pop", "take_while", "skip_while", "skip", "step_by",
         "dedup", "abs", "neg", "round", "floor", "ceil", "trunc", "fract", "min", "max", "clamp", "saturating_sub", "saturating_add",
         "wrapping_add", "wrapping_sub", "checked_add", "checked_sub", "succ", "pred", "not", "lines", "escape_default", "escape_debug",
         "date", "with_nanosecond", "with_second", "with_time", "and_utc", "num_seconds", "num_minutes", "num_days", "num_hours",
         "sort", "sort_unstable", "reverse", "and_then_none"}
ALTER_OPS = {"op:Neg", "op:Not", "op:Div", "op:Rem", "op:Mul", "op:MulWithOverflow", "op:Add", "op:AddWithOverflow", "op:Sub",
             "op:SubWithOverflow", "op:Shl", "op:Shr", "op:BitAnd", "op:BitOr", "op:BitXor"}


LOSSY = {"num_seconds", "num_minutes", "num_hours", "num_days", "num_weeks", "trim", "trim_start", "trim_end", "round", "floor", "trunc", "abs",
         "is_sign_positive", "subsec_nanos", "timestamp"}


def altering(calls):
    out = set()
    for c in calls:
        if c in ALTER_OPS or c.startswith("op:cast:"):
            out.add(c)
            continue
        nm = c.rsplit("::", 1)[-1]
        if nm in ALTER and (is_std(c) or c.startswith("chrono") or c.startswith("<") or c.startswith("alloc") or c.startswith("core")):
            out.add(nm)
    return out


def dateformat(t):
    """date formats that drop a part of the point in time"""
    out = set()
    st = [t]
    n = 0
    while st and n < 4000:
        x = st.pop()
        n += 1
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == "call" and x[1].endswith("NaiveDateTime::format") and len(x[3]) == 2:
            c = const_str(strip(x[3][1]))
            if c is not None:
                if c.replace("%H:%M:%S", "%T").replace("%Y-%m-%d", "%F") not in ("%FT%T%.f", "%FT%T%.9f", "%FT%T.%f"):
                    out.add("format:" + c)
            continue
        if x[0] == "field" and x[1] not in ("(tuple)", "std::option::Option", "std::boxed::Box"):
            continue
        st.extend(y for y in x if isinstance(y, tuple))
    return out


def sp(p):
    return "/".join(o + "." + (v + "." if v else "") + n for o, v, n in p)


def fld(p):
    return p[-1][0] + "." + (p[-1][1] + "." if p[-1][1] else "") + p[-1][2]


def loc(e, a):
    return "%s@%s" % (e, a) if a else "%s/text()" % e


def tree(ps):
    """character data of foreign tags: decided with the pass-through property"""
    return ps and all(x[-1][0] in ("XmlContent", "XmlTag") for x in ps)


def coarse(rt, w, x):
    """the whole object (w) is handed to a formatter / the payload of an enum field is read into that field"""
    if len(w) > 1 and w[-1][1] and w[-2][0] == x[-1][0] and w[-2][2] == x[-1][2]:
        return True
    ty = rt.field_type(w[-1][0], w[-1][2])
    return bool(ty) and x[-1][0] in names_in(ty)


# ------------------------------------------------------------------ writer side: selector fields of constant values
def is_iter_guard(s, vals):
    return s[0] == "call" and s[1].rsplit("::", 1)[-1] in ("next", "next_back")


class RT:
    def __init__(self, s):
        self.s, self.p = s, s.p
        p = s.p
        self.W = defaultdict(list)
        self.Wopen = defaultdict(list)
        for r in tables.writer_table(s):
            if r.kind in ("start", "empty"):
                self.Wopen[r.elem].append(r)
            else:
                self.W[(r.elem, r.attr)].append(r)
        self.R = defaultdict(list)
        self.Rany = defaultdict(list)
        for r in tables.reader_table(s):
            if r.attr == "*":
                self.Rany[r.elem].append(r)
            else:
                self.R[(r.elem, r.attr)].append(r)
        # stores of a constant chosen by an attribute value
        self.Rctl = defaultdict(list)
        for e in s.reader.effects:
            if e.keys and e.tags:
                rp = tables.rpath(e)
                if rp and rp[-1][0] != "OdsError":
                    for k in e.keys:
                        for t in e.tags:
                            self.Rctl[(t, k)].append((rp, e))
        self._lg = {}
        self._vp = {}
        self._def = {}

    # ---- element kinds the reader reacts to
    def rkinds(self):
        if not hasattr(self, "_rk"):
            d = defaultdict(set)
            for i in self.p.reach(self.s.reader.roots):
                f = self.p.fns[i]
                for b in f.reachable:
                    ns, _, ks, _ = self.s.reader.bfacts(f, b)
                    if ns and ks and len(ns) <= 12:
                        for x in ns:
                            d[x] |= set(ks)
            for e in self.s.reader.effects:
                for x in e.elems or ():
                    d[x] |= set(e.kinds or ())
                for v in e.env.values():
                    if v and v[0] == "tag":
                        for x in v[1]:
                            d[x] |= set(v[2])
                for x in e.srcs:
                    y = x[1] if x[0] == "deep" else x
                    if y[0] == "attr":
                        d[y[1]] |= set(y[4])
                    elif y[0] == "read":
                        d[y[2]] |= set(y[3])
            self._rk = d
        return self._rk

    def vpaths(self, t):
        k = id(t)
        r = self._vp.get(k)
        if r is None:
            r = self._vp[k] = (value_paths(self.p, t), t)
        return r[0]

    def local_guards(self, r):
        k = id(r)
        g = self._lg.get(k)
        if g is None:
            g = self._lg[k] = [x for x in tables.local_guards(self.s, r) if not is_iter_guard(*x)]
        return g

    def selectors(self, r):
        """fields a constant-valued row depends on"""
        out = set()
        for s, v in self.local_guards(r) + [g for _, gs in (r.choices or ()) for g in gs if g not in r.guards]:
            out |= self.vpaths(s)
        # one side of a disjunction
        for s in r.either or ():
            out |= self.vpaths(s)
        return out

    def field_type(self, owner, field):
        for path, a in self.p.adts.items():
            if q(path) == owner:
                for v in a["variants"]:
                    for f in v["fields"]:
                        if f[0] == field:
                            return f[1]
        return None

    def contains(self, owner, field, target, depth=4):
        """the type of owner.field contains the type named target"""
        ty = self.field_type(owner, field)
        if not ty:
            return False
        seen = set()
        cur = {ty}
        for _ in range(depth):
            nxt = set()
            for t in cur:
                if target in names_in(t):
                    return True
                for n in names_in(t):
                    if n in seen:
                        continue
                    seen.add(n)
                    for path, a in self.p.adts.items():
                        if q(path) == n:
                            for v in a["variants"]:
                                for f in v["fields"]:
                                    nxt.add(f[1])
            cur = nxt
        return False

    # ---- constructor defaults used by the reader
    def ctor_fns(self):
        if not hasattr(self, "_ct"):
            d = defaultdict(list)
            reach = self.p.reach([f for f in self.s.reader.roots])
            for i in sorted(reach, key=str):
                f = self.p.fns[i]
                rt = strip_generics(f.locals[0][0])
                if rt in self.p.adts and f.name in ("new", "default", "new_empty", "empty", "new_with_name"):
                    d[q(rt)].append(f)
            self._ct = d
        return self._ct

    def defaults(self, owner, field):
        k = (owner, field)
        if k in self._def:
            return self._def[k]
        out = set()
        for f in self.ctor_fns().get(owner, ()):
            t = self.p.norm(f.ret_term())
            for alt in alts(t):
                if alt[0] == "agg":
                    for fl, v in alt[3]:
                        n = fl[-1] if isinstance(fl, tuple) else fl
                        if n == field:
                            for a in alts(v):
                                out.add(constval(self.p, a))
        self._def[k] = out
        return out


def alts(t):
    if t[0] == "phi":
        o = []
        for a in t[1]:
            o += alts(a)
        return o
    if t[0] == "under":
        return alts(t[2])
    return [t]


def names_in(ty):
    import re
    return {x.rsplit("::", 1)[-1] for x in re.findall(r"[A-Za-z_][A-Za-z0-9_:]*", ty or "")}


def constval(p, t):
    t = strip(t)
    if t[0] == "const":
        if t[1] == "e":
            return ("var", t[2][1])
        return (t[1], t[2])
    if t[0] == "agg" and t[2] and not t[3]:
        return ("var", t[2])
    if t[0] == "agg" and t[2] == "Some":
        return ("var", "Some")
    if t[0] == "call":
        nm = t[1].rsplit("::", 1)[-1]
        if nm in ("new", "default") and not t[3]:
            return ("empty", "")
        g = p.fns.get(t[1])
    return ("?", show(t)[:60])


# ------------------------------------------------------------------ token tables in the reader
def str_facts(f, b):
    """tokens established at a block, one set per tested subject"""
    out = []
    for s, vals in (f.facts.get(b) or {}).items():
        if vals and len(vals) <= 4 and all(v[0] == "str" for v in vals):
            out.append(frozenset(v[1] for v in vals))
    return out


def tagged_consts(s):
    """{enum: {token: {variants}}}: enum values mentioned under a string test, anywhere the reader can reach"""
    if getattr(s, "_tagc", None) is not None:
        return s._tagc
    p = s.p
    out = defaultdict(lambda: defaultdict(set))
    for i in sorted(p.reach(s.reader.roots), key=str):
        f = p.fns[i]
        for b in f.reachable:
            cs = consts_in(p, f, b)
            if cs:
                for ns in str_facts(f, b):
                    for n in ns:
                        for path, var in cs:
                            out[path][n].add(var)
    s._tagc = out
    return out


def consts_in(p, f, b):
    """enum values built or mentioned in a block: {(enum path, variant)}"""
    res = set()
    st = [f.bbs[b]["s"], f.bbs[b]["t"]]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            continue
        if isinstance(x, (list, tuple)):
            if len(x) >= 3 and x[0] == "adt" and isinstance(x[1], str) and p.adts.get(x[1], {}).get("kind") == "enum":
                res.add((x[1], x[2]))
                continue
            if len(x) >= 2 and x[0] == "k":
                t = const_term(x[1])
                if t[0] == "const" and t[1] == "e":
                    res.add((t[2][0], t[2][1]))
                continue
            st.extend(x)
    return res


# ------------------------------------------------------------------ guards and defaults
def excluded(rt, s, vals, wp):
    """value of the field for which a guarded row is NOT written: ('v', normal form) | ('none',) | None unknown"""
    vals = set(vals)
    lossy = {c.rsplit("::", 1)[-1] for c in tables.value_calls(s, rt.p) if not c.startswith("op:")} & LOSSY
    if lossy:
        return ("bad", "is left out depending on %s of its value" % ", ".join(sorted(lossy)))
    if s[0] == "gt" and vals == {("bool", True)}:
        a, b = strip(s[1]), strip(s[2])
        if b[0] == "const" and not (a[0] == "const"):
            ty = rt.field_type(wp[-1][0], wp[-1][2]) or ""
            if ty in ("f64", "f32", "i8", "i16", "i32", "i64", "isize") or ty.endswith("TimeDelta"):
                return ("bad", "is left out for negative values")
            return ("v", ("i", b[2]) if b[1] == "i" else (b[1], b[2]))
        if a[0] == "const":
            return None
        if b[0] == "call" and b[1].rsplit("::", 1)[-1] in ("zero", "default"):
            return ("v", ("empty", ""))
        return None
    if s[0] in ("call",):
        nm = s[1].rsplit("::", 1)[-1]
        if nm in ("is_empty", "is_zero", "is_default") and vals == {("bool", False)}:
            return ("v", ("empty", ""))
        if nm in ("is_empty", "is_zero", "is_default") and vals == {("bool", True)}:
            return ("bad", "is written only when empty")
        if nm in ("gt", "lt", "ge", "le"):
            return None
    if vals == {("var", "Some")}:
        return ("v", ("var", "None"))
    if vals == {("var", "None")}:
        return ("bad", "is written only when absent")
    if len(vals) == 1:
        (v,) = vals
        if v[0] == "bool" and s[0] in ("field", "under", "phi", "call"):
            if s[0] == "call" and s[2] not in rt.p.fns:
                return None
            return ("v", ("bool", not v[1]))
        if v[0] == "not" and v[1][0] in ("var", "int"):
            return ("v", ("i", v[1][1]) if v[1][0] == "int" else v[1])
    return None


def same_tail(a, b):
    """two element stacks, of which only the innermost levels are kept, may be the same"""
    n = min(len(a), len(b))
    return n == 0 or tuple(a[-n:]) == tuple(b[-n:])


def fn_fields(p, f, depth=0, seen=None):
    """all model fields a (boolean) function looks at"""
    seen = set() if seen is None else seen
    if f.id in seen or depth > 5:
        return set()
    seen.add(f.id)
    out = set()
    for b in f.reachable:
        for st in f.bbs[b]["s"]:
            if st[0] == "=":
                out |= op_fields(st[2])
        t = f.bbs[b]["t"]
        if t[0] == "call":
            for a in t[2]:
                out |= op_fields(a)
            g = p.fns.get((t[1].get("rid") or t[1].get("id")) if isinstance(t[1], dict) else None)
            if g is not None:
                out |= fn_fields(p, g, depth + 1, seen)
        for st in f.bbs[b]["s"]:
            if st[0] == "=" and st[2][0] == "agg" and st[2][1][0] == "closure" and st[2][1][1] in p.fns:
                out |= fn_fields(p, p.fns[st[2][1][1]], depth + 1, seen)
    return out


def op_fields(x):
    out = set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, (list, tuple)):
            if len(y) == 4 and y[0] == "." and isinstance(y[1], str):
                out.add((q(y[1]), y[3]))
            st.extend(y)
    return out


def cond_fields(p, f, l):
    """model fields the value of the local l depends on, including through branches and calls"""
    out, seen, todo = set(), set(), [l]
    blocks = set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for d in f.defs[0].get(x, []):
            b = d[0]
            blocks.add(b)
            if d[2] == "r":
                out |= op_fields(d[3])
                todo += locals_in(d[3])
            elif f.bbs[b]["t"][0] == "call":
                t = f.bbs[b]["t"]
                for a in t[2]:
                    out |= op_fields(a)
                    todo += locals_in(a)
                g = p.fns.get((t[1].get("rid") or t[1].get("id")) if isinstance(t[1], dict) else None)
                if g is not None:
                    out |= fn_fields(p, g)
            if len(f.defs[0].get(x, [])) > 1:
                for u in f.ctrl_branches(b):
                    op = f.bbs[u]["t"][1]
                    out |= op_fields(op)
                    todo += locals_in(op)
    return out


def locals_in(x):
    """locals of the operands / places in x"""
    out = []
    if isinstance(x, (list, tuple)) and x:
        if x[0] in ("c", "m") and isinstance(x[1], list):
            return [x[1][0]]
        if x[0] in ("ref", "refm", "discr", "len") and isinstance(x[1], list):
            return [x[1][0]]
        for y in x:
            if isinstance(y, (list, tuple)):
                out += locals_in(y)
    return out


def sibling(a, b):
    """the same field of two different parts: x.header.attrs and x.footer.attrs"""
    a, b = [[x for x in p if x[0] != "AttrMap2"] for p in (a, b)]
    if not a or not b or a[-1][0] != b[-1][0] or a[-1][2] != b[-1][2]:
        return False
    for x, y in zip(reversed(a), reversed(b)):
        if x[0] != y[0]:
            return False
        if x[2] != y[2]:
            return True
    return False


def default_ok(rt, wp, ex):
    owner, _, field = wp[-1]
    ds = rt.defaults(owner, field)
    if not ds:
        return None
    ty = rt.field_type(owner, field) or ""
    want = {ex}
    if ex == ("empty", ""):
        want |= {("s", ""), ("i", 0), ("var", "None"), ("bool", False)}
    if ex in (("i", 0), ("bool", False), ("var", "None"), ("s", "")):
        want.add(("empty", ""))
    if all(d[0] == "?" for d in ds):
        return None
    return bool(ds & want)


def where(r):
    return dict(file=r.fn.file, line=r.line, fn=r.fn.path)


class Check:
    def __init__(self, s, rep, sel, spec, special):
        self.s, self.rep, self.sel, self.spec, self.special = s, rep, sel, spec, special
        rt = getattr(s, "_rtobj", None)
        if rt is None:
            rt = s._rtobj = RT(s)
        self.rt = rt

    def group(self, el):
        """element names chosen at run time by the same expression"""
        if not hasattr(self, "_grp"):
            self._grp = defaultdict(set)
            for sym in self.s.walker.symterms:
                a = tables.elem_alts(sym)
                for x in a:
                    self._grp[x] |= set(a)
        return self._grp.get(el, ())

    # M: what is written is read back into the same field
    def written_is_read(self):
        rep, rt = self.rep, self.rt
        for (el, at), rows in sorted(rt.W.items(), key=str):
            if not self.sel(el) or str(at).startswith("?") or str(el).startswith("?"):
                continue
            rs = rt.R.get((el, at), []) + rt.R.get(self.special.get((el, at, "alias")), [])
            ctl = rt.Rctl.get((el, at), [])
            groups = defaultdict(list)
            for r in rows:
                ps = r.paths or rt.selectors(r)
                groups[frozenset(fld(x) for x in ps)].append((r, ps))
            for g, lst in sorted(groups.items(), key=lambda x: sorted(x[0])):
                r, _ = lst[0]
                if any((el, at, "src", x) in self.special for x in g):
                    rep.ok()
                    continue
                ps = set().union(*[x[1] for x in lst])
                if (el, at) in self.special or (el, at, None) in self.special:
                    rep.ok()
                    continue
                if not ps or tree(ps):
                    # a constant without any selecting field
                    rep.ok()
                    continue
                if any(match(w, x.path) for w in ps for x in rs) or any(match(w, x) for w in ps for x, _ in ctl) or \
                        any(coarse(rt, w, x.path) for w in ps for x in rs):
                    rep.ok("%s <- %s: read back" % (loc(el, at), ",".join(sorted(g))))
                    continue
                if any(any(match(w, x.path) for w in ps for x in rt.R.get((e2, at), [])) for e2 in self.group(el)):
                    rep.ok()
                    continue
                if not rs and not ctl:
                    rep.bad("unread:%s:%s" % (loc(el, at), ",".join(sorted(g))), "%s is written from %s but nothing reads it" % (loc(el, at), ", ".join(sorted(g))),
                            rule="written-is-read", **where(r))
                else:
                    tg = sorted({fld(x.path) for x in rs if not x.deep} | {fld(x) for x, _ in ctl})
                    rep.bad("crossed:%s:%s" % (loc(el, at), ",".join(sorted(g))),
                            "%s is written from %s but read into %s" % (loc(el, at), ", ".join(sorted(g)), ", ".join(tg) or "?"),
                            rule="written-is-read", **where(r))

    # N: what is read under an attribute name is written under that name
    def read_is_written(self):
        rep, rt = self.rep, self.rt
        seen = set()
        for (el, at), rows in sorted(rt.R.items(), key=str):
            if not self.sel(el) or at in ("<", "*") or (el, at) in self.special:
                continue
            ws = rt.W.get((el, at), [])
            wps = set()
            for w in ws:
                wps |= w.paths or rt.selectors(w)
            for x in rows:
                if x.deep or (at and (x.e.keys is None or set(x.e.keys) != {at})):
                    continue
                f = fld(x.path)
                k = (el, at, f)
                if k in seen:
                    continue
                seen.add(k)
                if (el, at, f) in self.special:
                    rep.ok()
                    continue
                if tree([x.path]) or any(match(w, x.path) or coarse(rt, w, x.path) for w in wps):
                    rep.ok()
                elif ws and not wps:
                    rep.ok()    # a constant handed in from elsewhere: covered by the location list only
                elif not ws:
                    rep.bad("unwritten:%s:%s" % (loc(el, at), f), "%s is read into %s but never written" % (loc(el, at), f), x.e.fn.file, x.e.line,
                            x.e.fn.path, "read-is-written")
                else:
                    rep.bad("crossed-read:%s:%s" % (loc(el, at), f), "%s is read into %s but written from %s" %
                            (loc(el, at), f, ", ".join(sorted({fld(w) for w in wps}))), x.e.fn.file, x.e.line, x.e.fn.path, "read-is-written")

    # G/D: a value is left out only because of itself, and only when it has the value a fresh object has
    def omission(self):
        rep, rt = self.rep, self.rt
        done = set()
        for (el, at), rows in sorted(rt.W.items(), key=str):
            if not self.sel(el) or (el, at) in self.special:
                continue
            for r in rows:
                ps = r.paths or rt.selectors(r)
                if not ps or tree(ps):
                    continue
                for s, vals in rt.local_guards(r):
                    gps = rt.vpaths(s)
                    if not gps:
                        continue
                    if str(at).startswith("?") or len(gps) == 1 and len(ps) == 1:
                        sib = [(g_, w_) for g_ in gps for w_ in ps if sibling(g_, w_)]
                        if sib and len(sib) == len(gps) * len(ps):
                            g_, w_ = sib[0]
                            rep.bad("guard:%s:%s<-%s" % (el if str(at).startswith("?") else loc(el, at), ".".join(x[2] for x in w_), ".".join(x[2] for x in g_)),
                                    "%s of %s is written only under a condition on %s" % (el, ".".join(x[2] for x in w_), ".".join(x[2] for x in g_)), rule="omission", **where(r))
                            continue
                    if str(at).startswith("?") and not any(x[0] == "AttrMap2" for x_ in ps for x in x_):
                        rep.ok()
                        continue
                    key = (el, at, frozenset(fld(x) for x in ps), frozenset(fld(x) for x in gps), frozenset(vals))
                    if key in done:
                        continue
                    done.add(key)
                    rel = None
                    for gp in gps:
                        for wp in ps:
                            if gp[-1][0] == wp[-1][0] and gp[-1][2] == wp[-1][2]:
                                rel = "own"
                            elif rel is None and any(gp[-1][0] == x[0] and gp[-1][2] == x[2] for x in wp):
                                rel = "in"
                            elif rel is None and rt.contains(gp[-1][0], gp[-1][2], wp[-1][0]):
                                rel = "in"
                            elif rel is None and at == "" and gp[-1][0] == wp[-1][0] and all(v[0] == "var" and v[1] not in ("Some", "None") for v in vals):
                                rel = "same"
                    g = sorted({fld(x) for x in gps})
                    f = ",".join(sorted({fld(x) for x in ps}))
                    if rel is None:
                        if (el, at, "guard", g[0]) in self.special:
                            rep.ok()
                            continue
                        rep.bad("guard:%s:%s<-%s" % (loc(el, at), f, ",".join(g)), "%s (%s) is written only under a condition on %s" % (loc(el, at), f, ", ".join(g)),
                                rule="omission", **where(r))
                        continue
                    rep.ok()
                    if rel == "own" and len({fld(x) for x in ps}) == 1:
                        wp = min(ps)
                        if (s[0] in ("eq", "ne", "lt", "le", "gt", "ge") or s[0] == "bin" and s[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge")) and len(g) > 1:
                            rep.bad("omit:%s:%s" % (loc(el, at), f), "%s (%s) is left out depending on how it compares with %s" % (loc(el, at), f, ", ".join(x for x in g if x != f)), rule="omission", **where(r))
                            continue
                        if any(len(x) and x[-1][0] == wp[-1][0] and x[-1][2] == wp[-1][2] for x in gps) and len(g) == 1:
                            ex = excluded(rt, s, vals, wp)
                            if ex is None:
                                continue
                            if ex[0] == "bad":
                                rep.bad("omit:%s:%s" % (loc(el, at), f), "%s (%s) %s" % (loc(el, at), f, ex[1]), rule="omission", **where(r))
                                continue
                            ok = default_ok(rt, wp, ex[1])
                            if ok is False and (el, at, "default") not in self.special:
                                rep.bad("default:%s:%s" % (loc(el, at), f), "%s is left out for %s = %s, but a freshly read %s has %s" %
                                        (loc(el, at), f, ex[1][1] if ex[1][0] != "empty" else "empty", wp[-1][0],
                                         sorted(str(d[1]) or "empty" for d in rt.defaults(wp[-1][0], wp[-1][2]))), rule="omission", **where(r))
                            else:
                                rep.ok()

    # E: an element is left out only when there is nothing to say
    def elements(self):
        rep, rt = self.rep, self.rt
        allrows = tables.writer_table(self.s)
        by_stack = defaultdict(list)
        for r in allrows:
            if r.kind not in ("start", "empty") and r.paths:
                for e in set(r.stack) | {r.elem}:
                    by_stack[e].append(r)
        done = set()
        for r in allrows:
            if r.kind not in ("start", "empty") or r.elem.startswith("?") or not self.sel(r.elem):
                continue
            body = None
            for k, v in tables.outer_guards(self.s, r):
                if is_iter_guard(k, v):
                    continue
                gps = rt.vpaths(k)
                if not gps:
                    continue
                if k[0] == "phi" and any(x[0] == "const" and x[1] == "bool" for x in k[1]):
                    # a short-circuit over several fields of a part: the part as a whole
                    gps = {x[:-1] or x for x in gps}
                fs = sorted({fld(x) for x in gps})
                key = (r.elem, r.kind, r.stack[-1:], frozenset(gps), v, k[0], r.line)
                if key in done:
                    continue
                done.add(key)
                order = k[0] in ("lt", "le", "gt", "ge") or k[0] == "bin" and k[1] in ("Lt", "Le", "Gt", "Ge")
                rest = [x for x in gps if x[-1][2] not in ("origin", "styleuse") and not self.layout(r.elem, fld(x)) and (order or (r.elem, "elem", fld(x)) not in self.special
                        and (r.elem.split(":")[0] + ":*", "elem", fld(x)) not in self.special)]
                if not rest:
                    rep.ok()
                    continue
                if body is None:
                    rg = {(a, frozenset(b)) for a, b in r.guards}
                    body = [x for x in by_stack[r.elem] if (x.elem == r.elem and same_tail(x.stack, r.stack) or any(
                        r.elem in tables.elem_alts(y) and same_tail(x.stack[:i], r.stack) for i, y in enumerate(x.stack))) and (x.chain[:len(r.chain)] == r.chain or r.chain[:len(x.chain)] == x.chain)
                        and rg <= {(a, frozenset(b)) for a, b in x.guards}]
                out = set()
                for x in body:
                    for wp in x.paths:
                        w2 = [c for c in wp if c[0] != "AttrMap2"] or list(wp)
                        if any(self.covers(gp, wp, w2) for gp in rest):
                            continue
                        out.add(".".join(c[2] for c in w2))
                if out:
                    rep.bad("element:%s<-%s" % (r.elem, ",".join(fs)), "<%s>, and with it %s, is written only under a condition on %s" % (
                        r.elem, ", ".join(sorted(out)[:4]), ", ".join(fs)), rule="element-omission", **where(r))
                    continue
                if frozenset(v) == frozenset({("var", "None")}) or k[0] == "call" and k[1].rsplit("::", 1)[-1] == "is_empty" and frozenset(v) == frozenset({("bool", True)}):
                    if body and not any(o.elem == r.elem and o is not r and (k, v) not in o.guards for o in allrows if o.kind in ("start", "empty")):
                        rep.bad("element-polarity:%s<-%s" % (r.elem, ",".join(fs)), "<%s> is written only when %s is absent" % (r.elem, ", ".join(fs)), rule="element-omission", **where(r))
                        continue
                rep.ok()

    # the writer goes through all of a collection, in its order
    PARTIAL = {"skip": "without its first items", "take": "only up to some count", "step_by": "in steps", "rev": "in reverse order", "nth": "for one position", "first": "for its first item",
               "last": "for its last item", "first_key_value": "for its first item", "last_key_value": "for its last item"}

    def iteration(self):
        rep, rt, p = self.rep, self.rt, self.s.p
        done, memo = {}, {}
        for r in tables.writer_table(self.s):
            if not self.sel(r.elem):
                continue
            for k, v in r.guards:
                if id(k) in done and done[id(k)] is k:
                    continue
                done[id(k)] = k
                x, ad = strip(k), []
                if x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("next", "next_back"):
                    ad = ["rev"] if x[1].endswith("next_back") else []
                    x = strip(x[3][0])
                    loop = True
                else:
                    loop = False
                n = 0
                while n < 16:
                    n += 1
                    if x[0] == "call" and x[3]:
                        nm = x[1].rsplit("::", 1)[-1]
                        if nm in self.PARTIAL and ("iter" in x[1].lower() or "slice" in x[1] or "[T]" in x[1] or "BTreeMap" in x[1] or "Vec" in x[1]):
                            ad.append(nm)
                        x = strip(x[3][0])
                    elif x[0] == "field" and not (x[1] in p.adts and not x[1].startswith("io::")):
                        x = strip(x[4])
                    else:
                        break
                ps = rt.vpaths(x)
                for nm in ad:
                    if not ps or (r.elem.split(":")[0] + ":*", "iteration", nm) in self.special:
                        continue
                    fs = ",".join(sorted({fld(y) for y in ps}))
                    key = "partial-iteration:%s:%s" % (fs, nm)
                    if key in memo:
                        continue
                    memo[key] = 1
                    rep.bad(key, "%s is written %s" % (fs, self.PARTIAL[nm]), rule="iteration", **where(r))
                if loop and not ad:
                    rep.ok()

    # an element that is written as an empty tag unless ... : the condition knows about each of its children
    def optional_parents(self):
        rep, rt, p = self.rep, self.rt, self.s.p
        allrows = tables.writer_table(self.s)
        done = set()
        inside = defaultdict(list)
        for x in allrows:
            if x.kind != "attr":
                inside[tuple(x.stack)].append(x)
        stacks = defaultdict(list)
        for st in inside:
            if st:
                for e in tables.elem_alts(st[-1]):
                    stacks[e].append(st)
        for o in allrows:
            if o.kind != "start" or not self.sel(o.elem) or o.elem.startswith("?"):
                continue
            cond = None
            for (b, path, cid, args, t) in o.fn.calls:
                if path.rsplit("::", 1)[-1] == "elem_if" and t[5] == o.line:
                    cond = args[1]
            if cond is None or cond[0] not in ("c", "m"):
                continue
            cf = cond_fields(p, o.fn, cond[1][0])
            if not cf:
                continue
            og = {(a, frozenset(b)) for a, b in o.guards}
            for x in [x for st in stacks.get(o.elem, ()) if same_tail(st[:-1], o.stack) for x in inside[st]]:
                if not (x.chain[:len(o.chain)] == o.chain or o.chain[:len(x.chain)] == x.chain):
                    continue
                if x.kind not in ("start", "empty") and o.elem not in tables.elem_alts(x.elem):
                    continue
                xs = set()
                for k, v in x.guards:
                    if (k, frozenset(v)) not in og:
                        xs |= rt.vpaths(k)
                if x.kind not in ("start", "empty"):
                    xs |= set(x.paths)
                ys = {tuple((c[0], c[2]) for c in y if c[0] not in ("AttrMap2", "WorkBook", "XmlTag", "XmlContent", "Value", "Option", "Box", "Vec") and c[2] not in ("origin", "styleuse")) for y in xs}
                pre = {y[:i] for y in ys for i in range(1, len(y))}
                cs = {y[-1] for y in ys if y and y not in pre}
                cs = {c for c in cs if "%s.%s" % c not in self.LAYOUT} or cs
                key = (o.elem, o.line, x.line, frozenset(cs))
                if not cs or key in done:
                    continue
                done.add(key)
                if cs & cf:
                    rep.ok()
                else:
                    last = sorted({fld(y) for y in xs})
                    rep.bad("unparented:%s/%s" % (o.elem, x.elem), "<%s> is written as an empty tag unless %s, which says nothing about its content %s (%s)" % (
                        o.elem, ", ".join(sorted("%s.%s" % c for c in cf)[:5]), "<%s>" % x.elem if x.kind in ("start", "empty") else "text", ", ".join(last)), rule="optional-parent", **where(x))

    def covers(self, gp, wp, w2):
        """the value at wp is part of what the condition on gp looks at"""
        rt = self.rt
        g2 = [c for c in gp if c[0] != "AttrMap2"] or list(gp)
        last = g2[-1]
        if any(c[0] == last[0] and c[2] == last[2] for c in w2):
            return not sibling(gp, wp)
        return rt.contains(last[0], last[2], w2[0][0]) and w2[0][0] != last[0]

    LAYOUT = {"Sheet.data", "Sheet.row_header", "Sheet.col_header", "RowHeader.repeat", "RowHeader.span", "CellData.repeat", "CellData.span", "CellDataExt.span", "ColHeader.span",
              "Detach.val", "Grouped.to", "Grouped.from", "Header.to", "Header.from", "Sheet.header_rows", "Sheet.header_cols", "Sheet.group_rows", "Sheet.group_cols",
              "CellSpan.row_span", "CellSpan.col_span", "CellData.value"}

    def layout(self, el, f):
        return el.startswith("table:table-") and f in self.LAYOUT or el.startswith("table:covered") and f in self.LAYOUT or f in ("RowHeader.repeat", "Sheet.data")

    # N: an element that stands for one of several parts of the same type goes back to this part
    def composites(self):
        rep, rt = self.rep, self.rt
        sibs = defaultdict(lambda: defaultdict(set))
        for path, a in rt.p.adts.items():
            if a["kind"] == "struct":
                for v in a["variants"]:
                    for f in v["fields"]:
                        sibs[q(path)][f[1]].add(f[0])
        RF = defaultdict(lambda: defaultdict(list))
        for x in tables.reader_table(self.s):
            if x.attr == "<" and self.sel(x.elem) and not x.deep and (x.elem, "part") not in self.special:
                o, _, f = x.path[-1]
                RF[x.elem][o, f].append(x)
        memo = {}
        WF = defaultdict(set)
        for r in tables.writer_table(self.s):
            if r.value is None or not r.paths:
                continue
            els = [e for st in list(r.stack) + [r.elem] for e in tables.elem_alts(st) if e in RF]
            if not els:
                continue
            lp = memo.get(id(r.value))
            if lp is None:
                lp = memo[id(r.value)] = {(x[0], x[2]) for pth in value_paths(rt.p, r.value, maxlen=8) for x in pth}
            for e in els:
                WF[e] |= lp
        for el, fs in sorted(RF.items(), key=str):
            for (o, f), xs in sorted(fs.items()):
                same = next((s for s in sibs[o].values() if f in s), set())
                ty = rt.field_type(o, f) or ""
                if len(same) < 2 or not any(a in ty for a in rt.p.adts):
                    continue
                w = {g for (o2, g) in WF[el] if o2 == o and g in same}
                if not w:
                    continue
                if f in w:
                    rep.ok("<%s> <-> %s.%s" % (el, o, f))
                else:
                    x = xs[0]
                    rep.bad("part:%s:%s.%s" % (el, o, f), "<%s> is read into %s.%s, but it is written from %s" % (el, o, f, ", ".join("%s.%s" % (o, g) for g in sorted(w))),
                            x.e.fn.file, x.e.line, x.e.fn.path, "part")

    # V: conversions on the way do not alter the value
    def unaltered(self):
        rep, rt = self.rep, self.rt
        for (el, at), rows in sorted(rt.W.items(), key=str):
            if not self.sel(el) or (el, at) in self.special:
                continue
            bad = set()
            first = None
            for r in rows:
                a = altering(r.calls) | dateformat(r.value)
                if a - bad:
                    first = r
                bad |= a
            bad -= self.special.get((el, at, "alter"), set())
            if bad and first is not None:
                rep.bad("altered:%s:w:%s" % (loc(el, at), ",".join(sorted(bad))), "the value written to %s passes through %s" % (loc(el, at), ", ".join(sorted(bad))),
                        rule="unaltered", **where(first))
            else:
                rep.ok()
        for (el, at), rows in sorted(rt.R.items(), key=str):
            if not self.sel(el) or at in ("<", "*") or (el, at) in self.special:
                continue
            for x in rows:
                if x.deep or (at and x.e.keys is not None and set(x.e.keys) != {at}):
                    continue
                if at and x.e.keys is None and (len({y[:3] for y in x.e.srcs if y[0] != "const"}) != 1 or x.e.how == "new"):
                    continue
                bad = altering(x.via) - self.special.get((el, at, "alter-read"), self.special.get((el, at, "alter"), set()))
                if bad:
                    rep.bad("altered:%s:r:%s:%s" % (loc(el, at), fld(x.path), ",".join(sorted(bad))), "the value read from %s into %s passes through %s" %
                            (loc(el, at), fld(x.path), ", ".join(sorted(bad))), x.e.fn.file, x.e.line, x.e.fn.path, "unaltered")
                else:
                    rep.ok()

    # K: an element is recognised in the form (start / empty tag) it is written in
    def kinds(self):
        rep, rt = self.rep, self.rt
        rk = rt.rkinds()
        for el, rows in sorted(rt.Wopen.items()):
            if not self.sel(el) or el.startswith("?") or (el, "kind") in self.special:
                continue
            for kind, ev in (("start", "Start"), ("empty", "Empty")):
                rr = [r for r in rows if r.kind == kind]
                if not rr:
                    continue
                if ev in rk.get(el, ()):
                    rep.ok("<%s> as %s tag is recognised" % (el, kind))
                elif (el, "kind", kind) in self.special:
                    rep.ok()
                else:
                    rep.bad("kind:%s:%s" % (el, kind), "%s is written as %s tag, which the reader does not recognise" % (el, "a start" if kind == "start" else "an empty"),
                            rule="tag-kind", **where(rr[0]))

        for (el, at), rows in sorted(rt.W.items(), key=str):
            if not at or not self.sel(el) or el.startswith("?") or str(at).startswith("?") or (el, at) in self.special or (el, "kind") in self.special:
                continue
            wk = {dict(start="Start", empty="Empty").get(r.kind) for r in rt.Wopen.get(el, ())} - {None}
            got = set()
            for x in rt.R.get((el, at), ()):
                got |= set(x.kinds or ())
            if not got or not wk:
                continue
            for k in sorted(wk - got):
                if (el, "kind", k.lower()) not in self.special:
                    rep.bad("kind:%s:%s" % (loc(el, at), k.lower()), "%s is only read from %s tags, but %s is also written as %s tag" %
                            (loc(el, at), "/".join(sorted(got)), el, k), rule="tag-kind", **where(rows[0]))
            rep.ok()

        withattr = {k[0] for k in rt.W if k[1]}
        # ... and acted upon in every function that acts on the other form
        for (fn, el), ks in sorted(acted(self.s).items(), key=str):
            if not self.sel(el) or (el, "kind") in self.special or el not in withattr:
                continue
            for kind, ev, oth in (("start", "Start", "Empty"), ("empty", "Empty", "Start")):
                if oth in ks and any(r.kind == kind for r in rt.Wopen.get(el, ())) and (el, "kind", kind) not in self.special:
                    f = self.s.p.fns[fn]
                    if ev in ks:
                        rep.ok()
                    else:
                        rep.bad_at("kind:%s:%s:%s" % (el, kind, f.name), "%s takes <%s> only as %s tag, but it is also written as %s tag" % (f.name, el, oth.lower(), kind), f, rule="tag-kind")

    # A: attribute maps
    def maps(self):
        rep, rt = self.rep, self.rt
        wm, rm = defaultdict(dict), defaultdict(dict)
        done = set()
        for (el, at), rows in rt.W.items():
            if not self.sel(el) or not str(at).startswith("?"):
                continue
            for r in rows:
                for wp in r.paths:
                    h = wp[-2] if len(wp) > 1 and wp[-1][0] == "AttrMap2" else wp[-1]
                    wm[el].setdefault((h[0], h[2]), r)
                # keys of the map that are left out are attributes written from elsewhere
                for k, v in r.guards:
                    if not any(x[-1][0] == "AttrMap2" and x[-1][2] == "keys" for x in rt.vpaths(k)):
                        continue
                    for y in v:
                        if y[0] == "not" and y[1][0] == "str" and (el, y[1][1]) not in done:
                            done.add((el, y[1][1]))
                            if (el, y[1][1]) in rt.W or any((e2, y[1][1]) in rt.W for e2 in self.group(el)) or not self.keeps(r, y[1][1]):
                                rep.ok()
                            else:
                                rep.bad("map-without:%s@%s" % (el, y[1][1]), "attribute %s of %s is left out when the attributes are written" % (y[1][1], el), rule="attribute-map", **where(r))
        for el, rows in rt.Rany.items():
            if not self.sel(el):
                continue
            for x in rows:
                h = x.path[-1]
                if h[0] == "AttrMap2" and len(x.path) > 1:
                    h = x.path[-2]
                if h[0] in ("XmlTag", "XmlContent"):
                    continue
                rm[el].setdefault((h[0], h[2]), x)
        for el in sorted(set(wm) | set(rm)):
            if el.startswith("?"):
                continue
            for h in sorted(set(wm[el]) | set(rm[el])):
                if (el, "*", "%s.%s" % h) in self.special or (el, "*") in self.special:
                    rep.ok()
                    continue
                if h in wm[el] and (h in rm[el] or any(h in rm[e2] for e2 in self.group(el))):
                    rep.ok("all attributes of <%s> <-> %s.%s" % (el, h[0], h[1]))
                elif h in wm[el]:
                    rep.bad("map-unread:%s:%s.%s" % (el, h[0], h[1]), "all of %s.%s is written as attributes of %s, but not read back into it" % (h[0], h[1], el),
                            rule="attribute-map", **where(wm[el][h]))
                else:
                    x = rm[el][h]
                    rep.bad("map-unwritten:%s:%s.%s" % (el, h[0], h[1]), "all attributes of %s are read into %s.%s, which is not written there" % (el, h[0], h[1]),
                            x.e.fn.file, x.e.line, x.e.fn.path, "attribute-map")
        self.wm, self.rm = wm, rm

    def keeps(self, r, name):
        """the attribute is not one the model keeps in a field of its own"""
        return not any(at == name and not x.path[-1][0] == "AttrMap2" for (e, at), rows in self.rt.R.items() if e == r.elem for x in rows)

    # S: collections
    def colls(self):
        rep, rt = self.rep, self.rt
        w, r = collections(rt)
        for el, f in self.spec.get("colls", ()):
            a, b = f in w.get(el, ()), f in r.get(el, ())
            if a and b:
                rep.ok("one <%s> per entry of %s" % (el, f))
            elif not a:
                rep.bad("coll-unwritten:%s:%s" % (el, f), "no %s element is written for the entries of %s" % (el, f), rule="collection")
            else:
                rep.bad("coll-unread:%s:%s" % (el, f), "%s elements are not collected into %s when reading" % (el, f), rule="collection")

    # L: locations that must exist on both sides
    def locations(self):
        rep, rt = self.rep, self.rt
        for el, at in self.spec.get("locs", ()):
            w = bool(rt.W.get((el, at)))
            r = bool(rt.R.get((el, at)) or rt.Rctl.get((el, at)))
            if w and r or (el, at) in self.special and w:
                rep.ok()
            elif not w:
                rep.bad("lost:%s:w" % loc(el, at), "%s is no longer written" % loc(el, at), rule="location")
            else:
                rep.bad("lost:%s:r" % loc(el, at), "%s is no longer read" % loc(el, at), rule="location")

    # T: tokens
    def tokens(self):
        rep, rt = self.rep, self.rt
        tc = tagged_consts(self.s)
        for (el, at), rows in sorted(rt.W.items(), key=str):
            if not self.sel(el) or not at or str(at).startswith("?") or (el, at, "token") in self.special:
                continue
            tab = defaultdict(set)
            wh = None
            for r in rows:
                if r.paths:
                    continue
                for tok, conds in token_alts(rt, r):
                    for path, var in conds:
                        tab[(path, var)].add(tok)
                        wh = r
            self.match_tokens(loc(el, at), tab, tc, wh)

    def match_tokens(self, what, tab, tc, wh):
        rep = self.rep
        byenum = defaultdict(dict)
        for (en, var), toks in tab.items():
            byenum[en][var] = toks
        for en, d in sorted(byenum.items()):
            rd = tc.get(en)
            all_t = set().union(*d.values())
            if not rd or not any(t in rd for t in all_t):
                rep.count(undecided_tokens=rep.coverage.get("undecided_tokens", 0) + 1)
                continue
            for var, toks in sorted(d.items()):
                for t in sorted(toks):
                    if rd.get(t) == {var}:
                        rep.ok("%s: %s::%s <-> %r" % (what, q(en), var, t))
                    else:
                        rep.bad("token:%s:%s.%s" % (what, q(en), var), "%s writes %r for %s::%s, the reader takes that as %s" %
                                (what, t, q(en), var, "/".join(sorted(rd.get(t, ()))) or "nothing"), rule="token", **(where(wh) if wh else {}))

    def elem_tokens(self, pred):
        """element names chosen by an enum value"""
        rt, rep = self.rt, self.rep
        tc = tagged_consts(self.s)
        for sym, terms in sorted(self.s.walker.symterms.items()):
            if not any(pred(x) for x in tables.elem_alts(sym)):
                continue
            for ch in terms.values():
                tab = defaultdict(set)
                for tok, gs in ch or ():
                    for path, var in enum_conds(rt, gs):
                        tab[(path, var)].add(tok)
                self.match_tokens("element name", tab, tc, None)

    # B: polarity of true/false
    def polarity(self):
        rep, rt = self.rep, self.rt
        for (el, at), rows in sorted(rt.W.items(), key=str):
            if not self.sel(el) or str(at).startswith("?"):
                continue
            for r in rows:
                ch = r.choices or ()
                if not ch:
                    c = const_str(strip(r.value)) if r.value is not None else None
                    ch = [(c, ())] if c else ()
                for c, gs in ch:
                    if c not in ("true", "false"):
                        continue
                    for s, vals in list(rt.local_guards(r)) + list(gs):
                        if len(vals) != 1:
                            continue
                        (v,) = vals
                        s2 = strip(s)
                        if v[0] != "bool" or s2[0] != "field":
                            continue
                        ps = rt.vpaths(s2)
                        if not any((rt.field_type(x[-1][0], x[-1][2]) or "") == "bool" or x[-1][1] for x in ps):
                            continue
                        f = ",".join(sorted(fld(x) for x in ps))
                        if v[1] != (c == "true"):
                            rep.bad("polarity:%s:%s" % (loc(el, at), f), "%s is written as %r when %s is %s" % (loc(el, at), c, f, str(v[1]).lower()),
                                    rule="token", **where(r))
                        else:
                            rep.ok("%s: %s = %s" % (loc(el, at), f, c))

    # P: elements are written where the reader looks for them
    def place(self):
        rep, rt = self.rep, self.rt
        h, roots = handled(self.s)
        for el, rows in sorted(rt.Wopen.items()):
            if not self.sel(el) or el.startswith("?") or (el, "place") in self.special:
                continue
            fs = h.get(el)
            if not fs:
                continue
            ctx = set()
            for f in fs:
                ctx |= roots[f]
            if None in ctx:
                continue
            sites = defaultdict(set)
            rowof = {}
            for r in rows:
                k = (str(r.fn), r.line)
                rowof.setdefault(k, r)
                st = r.stack[-1] if r.stack else ""
                for par in tables.elem_alts(st):
                    sites[k].add("" if par in TOP else par)
                    sites[k] |= set(self.group(par))
            for k, pars in sorted(sites.items(), key=str):
                good = {x for x in pars if x in ctx or x.startswith("?") or not x or (el, "place", x) in self.special}
                # an optional parent (written as an empty tag when there are no children) leaves its own parent on the stack
                over = set()
                for _ in range(3):
                    for g in good | over:
                        over |= {"" if y in TOP else y for r in rt.Wopen.get(g, ()) if r.kind == "empty" for y in tables.elem_alts(r.stack[-1] if r.stack else "")}
                # one of several names chosen by the same expression: the children belong to one of them
                for g in good:
                    over |= set(self.group(g))
                bad = pars - good - over
                if good and not bad:
                    rep.ok()
                else:
                    bad = bad or pars
                    rep.bad("place:%s/%s" % ("|".join(sorted(bad)), el), "%s is written inside %s, where the reader does not look for it" % (el, sorted(bad)), rule="place", **where(rowof[k]))

    def run(self):
        self.polarity()
        self.place()
        self.locations()
        self.written_is_read()
        self.read_is_written()
        self.omission()
        self.elements()
        self.optional_parents()
        self.iteration()
        self.composites()
        self.unaltered()
        self.kinds()
        self.maps()
        self.colls()
        self.tokens()
        readrules.conditional(self)
        readrules.writes(self)
        readrules.siblings(self)
        readrules.lookup(self)
        self.rep.count(locations_written=sum(1 for k in self.rt.W if self.sel(k[0])), locations_read=sum(1 for k in self.rt.R if self.sel(k[0])),
                       writer_rows=sum(len(v) for k, v in self.rt.W.items() if self.sel(k[0])), elements=sum(1 for k in self.rt.Wopen if self.sel(k)))


def acted(s):
    """{(function, element): event kinds on which the function does something with the element}"""
    if getattr(s, "_acted", None) is not None:
        return s._acted
    p, rd = s.p, s.reader
    out = defaultdict(set)
    eff = defaultdict(set)
    for e in rd.effects:
        eff[e.fn.id].add(e.block)
    for i in sorted(p.reach(rd.roots), key=str):
        f = p.fns[i]
        if not rd.is_reader(f):
            continue
        act = set(eff.get(i, ()))
        for (b, pth, cid, a, t) in f.calls:
            if cid in p.fns and rd.is_reader(p.fns[cid]):
                act.add(b)
        for b in act:
            if b not in f.reachable:
                continue
            ns, _, ks, an = rd.bfacts(f, b)
            if ns and ks and len(ns) <= 2:
                for x in ns:
                    out[(i, x)] |= set(ks)
    s._acted = out
    return out


TOP = ("office:document", "office:document-content", "office:document-styles", "office:document-meta", "office:document-settings")


def handled(s):
    """({element: reader functions that react to it}, {function: elements inside which it reads})"""
    if getattr(s, "_hnd", None) is not None:
        return s._hnd
    p, rd = s.p, s.reader
    h = defaultdict(set)
    own_ = defaultdict(set)
    reach = sorted(p.reach(rd.roots), key=str)
    sites = defaultdict(list)
    for i in reach:
        f = p.fns[i]
        if not rd.is_reader(f):
            continue
        for b in f.reachable:
            ns, _, ks, an = rd.bfacts(f, b)
            if ns and len(ns) <= 12 and (ks is None or ks & {"Start", "Empty"}):
                for x in ns:
                    h[x].add(i)
                    own_[i].add(x)
        for (b, pth, cid, a, t) in f.calls:
            if cid in p.fns and rd.is_reader(p.fns[cid]):
                ns, _, ks, an = rd.bfacts(f, b)
                nn = set(ns) if ns and len(ns) <= 12 else set()
                for v in an.values():
                    nn |= set(v)
                sites[cid].append((i, frozenset(nn) or None))
    roots = {i: set(own_[i]) for i in reach}
    rr = {f.id if hasattr(f, "id") else f for f in rd.roots}
    for i in rr:
        if i in roots:
            roots[i].add("")
    ch = True
    while ch:
        ch = False
        for g, ss in sites.items():
            for f, ns in ss:
                add = set(ns) if ns is not None else set(roots.get(f, ()))
                if not add <= roots[g]:
                    roots[g] |= add
                    ch = True
    s._hnd = (h, roots)
    return s._hnd


def subj_enum(rt, s):
    """enum type of a guard subject (last model field of its access path, or the type of a getter's result)"""
    out = set()
    for wp in rt.vpaths(s):
        ty = rt.field_type(wp[-1][0], wp[-1][2])
        if ty:
            for path, a in rt.p.adts.items():
                if a.get("kind") == "enum" and path in ty:
                    out.add(path)
    s2 = strip(s)
    if s2[0] == "call":
        for g in rt.p.fns.values():
            if g.path == s2[1]:
                t = strip_generics(deref_ty(g.locals[0][0]))
                if rt.p.adts.get(t, {}).get("kind") == "enum":
                    out.add(t)
    return out


def enum_conds(rt, guards):
    out = []
    for s, vals in guards:
        vs = {v[1] for v in vals if v[0] == "var"}
        if vs and len(vs) == len(set(vals)) and len(vs) <= 3:
            for en in subj_enum(rt, s):
                ns = {v["name"] for v in rt.p.adts[en]["variants"]}
                for v in vs & ns:
                    out.append((en, v))
    return out


def token_alts(rt, r):
    base = enum_conds(rt, rt.local_guards(r))
    ch = r.choices or ()
    if not ch:
        c = const_str(strip(r.value))
        return [(c, base)] if c is not None else []
    return [(c, base + enum_conds(rt, gs)) for c, gs in ch]


def collections(rt):
    s = rt.s
    if getattr(s, "_coll", None) is not None:
        return s._coll
    w, r = defaultdict(set), defaultdict(set)
    for el, rows in rt.Wopen.items():
        for row in rows:
            for g, v in row.guards:
                if ("var", "Some") in v and is_iter_guard(g, v):
                    for x in rt.vpaths(g):
                        w[el].add(fld(x))
    for e in s.reader.effects:
        if e.how in ("push", "insert", "push_back", "extend", "append"):
            rp = tables.rpath(e)
            if not rp:
                continue
            for x in list(e.elems or ()) + list(e.tags or ()):
                r[x].add(fld(rp))
            for y in e.srcs:
                y = y[1] if y[0] == "deep" else y
                if y[0] == "read":
                    r[y[2]].add(fld(rp))
    s._coll = (w, r)
    return s._coll
