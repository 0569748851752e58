"""C04: every kind of cell value is written with its own type token and value attribute, and read back from exactly these."""
import re
from collections import defaultdict

import p_rt
import roundtrip
import tables
from mir import *
from roundtrip import Check, loc

CELLS = p_rt.CELLS
ATTRS = ("office:value-type", "office:value", "office:currency", "office:date-value", "office:time-value", "office:boolean-value", "office:string-value")
VALUE = "value_::Value"


def find_value(p):
    for path, a in p.adts.items():
        if path.rsplit("::", 1)[-1] == "Value" and a["kind"] == "enum":
            ns = {v["name"] for v in a["variants"]}
            if {"Number", "Text", "Currency"} <= ns:
                return path
    return None


def aggs(p, f, enum):
    """constructions of enum variants in f: (block, variant, operands, line)"""
    for b in f.rpo():
        for st in f.bbs[b]["s"]:
            if st[0] == "=" and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1] == enum:
                yield b, st[2][1][2], st[2][2], st[3]
        t = f.bbs[b]["t"]
        if t[0] == "call" and isinstance(t[1], dict) and t[1].get("ctor"):
            tm = f.term_call(t, False)
            if tm[0] == "agg" and tm[1] == enum:
                yield b, tm[2], t[2], t[5]


def subj_type(p, f, s):
    s = strip(s)
    if s[0] == "field":
        a = p.adts.get(s[1])
        for v in (a or {"variants": []})["variants"]:
            if s[2] and v["name"] != s[2]:
                continue
            for fl in v["fields"]:
                if fl[0] == s[3]:
                    return fl[1]
    if s[0] == "arg":
        return f.locals[s[1]][0]
    if s[0] == "discr":
        return subj_type(p, f, s[1])
    # a local: the enum values that are assigned to it
    es = set()
    st = [s]
    n = 0
    while st and n < 500:
        x = st.pop()
        n += 1
        if isinstance(x, tuple) and x:
            if x[0] == "const" and x[1] == "e":
                es.add(x[2][0])
            elif x[0] == "agg" and x[1] in p.adts:
                es.add(x[1])
            elif x[0] == "loop" and isinstance(x[-1], int) and x[-1] < len(f.locals):
                es.add(f.locals[x[-1]][0])
            elif x[0] == "phi":
                st.extend(x[1])
            elif x[0] == "under":
                st.append(x[2])
    return es.pop() if len(es) == 1 else None


def union(s, rep, rt, enum, el, attr, default=None, benign=lambda g: False):
    """a tagged enum written as type token (attribute attr) + payload (text of el); `default` is the variant without token"""
    p = s.p
    nm = enum.rsplit("::", 1)[-1]
    variants = {v["name"]: v for v in p.adts[enum]["variants"]}
    rv = Reads(s, enum)
    tok, row = defaultdict(set), {}
    for r in rt.W.get((el, attr), ()):
        for t, conds in roundtrip.token_alts(rt, r):
            for en, var in conds:
                if en == enum:
                    tok[var].add(t)
                    row[var] = r
    if rep.need(bool(tok), attr, "constant tokens written per variant"):
        for var in sorted(variants):
            ts = tok.get(var, set())
            if var == default and not ts:
                if rv.tokens.get(var, set()):
                    rep.bad("token:" + var, "%s.%s is written without %s, but only read with %s" % (nm, var, attr, sorted(rv.tokens[var])), rule="token")
                else:
                    rep.ok()
                continue
            if len(ts) != 1:
                rep.bad("token:" + var, "%d type tokens for %s.%s" % (len(ts), nm, var), rule="token", **(roundtrip.where(row[var]) if var in row else {}))
                continue
            t = next(iter(ts))
            got = {v for v in variants if t in rv.tokens.get(v, ())}
            if got == {var}:
                rep.ok("%s.%s <-> %s=%s" % (nm, var, attr, t))
            else:
                rep.bad("token:" + var, "%s.%s is written with %s=%s, which is read as %s" % (nm, var, attr, t, sorted(got) or "nothing"), rule="token", **roundtrip.where(row[var]))
    wp = defaultdict(set)
    for r in rt.W.get((el, ""), ()):
        for path in r.paths or rt.selectors(r):
            for x in path:
                if x[0] == nm and x[1]:
                    wp[x[1]].add(r)
                    g = value_guard(rt, r, enum)
                    if g and not benign(g):
                        rep.bad("conditional:" + x[1], "the value of %s.%s is only written for some values" % (nm, x[1]), rule="unconditional", **roundtrip.where(r))
    for var in sorted(variants):
        if var not in wp:
            rep.bad("payload:" + var, "the value of %s.%s is not written" % (nm, var), rule="payload")
        elif el not in rv.texts(var, "0"):
            if rv.sites.get(var):
                rep.bad("payload-read:" + var, "the value of %s.%s is not taken from the text of %s" % (nm, var, el), rule="payload")
        else:
            rep.ok()
        bad = roundtrip.altering(rv.via.get((var, "0"), ()))
        if bad:
            rep.bad("altered:r:%s:%s" % (var, ",".join(sorted(bad))), "the value of %s.%s passes through %s" % (nm, var, sorted(bad)), rule="unaltered")
    return rv


class Reads:
    """how the reader makes values of a tagged enum: {variant: {tokens}}, {(variant, i): {attributes}}"""

    def __init__(self, s, enum, within="io/"):
        self.s, self.enum = s, enum
        p, rd = s.p, s.reader
        self.tc = roundtrip.tagged_consts(s)
        self.tokens = defaultdict(set)
        self.srcs = defaultdict(set)
        self.via = defaultdict(set)
        self.sites = defaultdict(list)
        self.envs = defaultdict(list)
        for (f, env, b, g, e2) in rd.visits:
            if e2 not in self.envs[g.id]:
                self.envs[g.id].append(e2)
        reach = p.reach(rd.roots)
        self.callers = defaultdict(list)
        for i in reach:
            f = p.fns[i]
            for (b, path, cid, a, t) in f.calls:
                self.callers[cid].append((f, b, t))
        for i in sorted(reach, key=str):
            f = p.fns[i]
            if within not in f.file:
                continue
            for b, var, ops, line in aggs(p, f, enum):
                self.sites[var].append((f, b, line))
                self.tokens[var] |= self.block_tokens(f, b)
                for n, o in enumerate(ops):
                    sr, vi = self.src(f, o, b)
                    self.srcs[(var, str(n))] |= sr
                    self.via[(var, str(n))] |= vi

    def block_tokens(self, f, b):
        out = set()
        for st in roundtrip.str_facts(f, b):
            out |= st
        for subj, vals in (f.facts.get(b) or {}).items():
            vs = {v[1] for v in vals if v[0] == "var"}
            if not vs or len(vs) != len(vals) or len(vs) > 3:
                continue
            ty = (subj_type(self.s.p, f, subj) or "").replace("&", "").strip()
            for en, tab in self.tc.items():
                if ty != en or en == self.enum:
                    continue
                for tok, vars_ in tab.items():
                    if vars_ & vs and len(vars_) <= 3:
                        out.add(tok)
        return out

    def src(self, f, op, b, key=(), depth=0):
        p, rd = self.s.p, self.s.reader
        srcs, via = set(), set()
        if op[0] == "k":
            return srcs, via
        if rd.is_reader(f) or f.id in self.envs:
            for env in self.envs.get(f.id) or [{}]:
                a, v = rd.resolve(f, env, op, b, key)
                srcs |= a
                via |= v
            return srcs, via
        for leaf in rd.pv.leaves(f, op, b, stop=lambda pp, i: i in p.fns and rd.is_reader(p.fns[i]), key0=key):
            if leaf[0] == "arg" and depth < 4:
                for g, gb, t in self.callers.get(f.id, ()):
                    if leaf[1] - 1 < len(t[2]):
                        a, v = self.src(g, t[2][leaf[1] - 1], gb, leaf[2], depth + 1)
                        srcs |= a
                        via |= v
            elif leaf[0] == "via":
                via.add(leaf[1])
            else:
                rd.resolve_leaf(f, {}, leaf, {(b,)}, srcs, via, 0)
        return srcs, via

    def attrs(self, var, i, el=None):
        out = set()
        for x in self.srcs.get((var, i), ()):
            x = x[1] if x[0] == "deep" else x
            if x[0] == "attr" and (el is None or x[1] == el):
                out.add(x[2])
        return out

    def texts(self, var, i):
        out = set()
        for x in self.srcs.get((var, i), ()):
            x = x[1] if x[0] == "deep" else x
            if x[0] == "evtext":
                out.add(x[2])
        return out


def value_guard(rt, r, enum):
    """local guards of a row that look at the payload of the value (not only at its variant)"""
    q = roundtrip.q(enum) if hasattr(roundtrip, "q") else enum.rsplit("::", 1)[-1]
    for s, v in rt.local_guards(r):
        for path in rt.vpaths(s):
            if any(x[0] == q and x[1] for x in path):
                return s, v
    return None


def check(s, rep):
    p = s.p
    enum = find_value(p)
    if not rep.need(enum is not None, "Value", "the enum of cell values"):
        return
    q = enum.rsplit("::", 1)[-1]
    spec = {k: v for k, v in p_rt.SPECIAL["C03"].items() if k[1] not in ATTRS}
    for c_ in CELLS:
        spec[(c_, "office:value-type")] = 1
        spec[(c_, "office:string-value")] = 1
    sub = type(rep)(rep.prop, rep.tier)
    c = Check(s, sub, lambda e: e in CELLS, {}, spec)
    c.run()
    for f in sub.findings:
        if any(a in f["key"] for a in ATTRS):
            rep.bad(f["key"], f["what"], f["file"], f["line"], f["function"], f["rule"])
    rep.ok(n=sum(1 for k in c.rt.W if k[0] in CELLS and k[1] in ATTRS))
    rt = c.rt
    rd = Reads(s, enum)
    variants = {v["name"]: v for v in p.adts[enum]["variants"]}
    rep.rule("for each variant V of the cell value enum: the writer emits exactly one type token for V, unconditionally; the reader builds V for this "
             "token and no other variant; each payload of V is written to an attribute or the text from which the reader builds the same payload")
    for el in CELLS:
        tok = defaultdict(set)
        row = {}
        for r in rt.W.get((el, "office:value-type"), ()):
            for t, conds in roundtrip.token_alts(rt, r):
                for en, var in conds:
                    if en == enum:
                        tok[var].add(t)
                        row[var] = r
                        g = value_guard(rt, r, enum)
                        if g:
                            rep.bad("conditional:%s@value-type:%s" % (el, var), "the type token of %s.%s is only written for some of its values" % (q, var), rule="unconditional", **roundtrip.where(r))
        if not rep.need(bool(tok), el + "@value-type", "constant type tokens written per value variant"):
            continue
        for var, v in sorted(variants.items()):
            if not v["fields"]:
                if tok.get(var):
                    rep.bad("empty-token:%s:%s" % (el, var), "a type token is written for the empty value", rule="token", **roundtrip.where(row[var]))
                else:
                    rep.ok()
                continue
            ts = tok.get(var, set())
            if not ts:
                rep.bad("no-token:%s:%s" % (el, var), "no office:value-type is written for %s.%s" % (q, var), rule="token")
                continue
            if len(ts) > 1:
                rep.bad("token:%s:%s" % (el, var), "several type tokens %s for %s.%s" % (sorted(ts), q, var), rule="token", **roundtrip.where(row[var]))
                continue
            t = next(iter(ts))
            same = {v2 for v2 in variants if tok.get(v2) == ts}
            got = {v2 for v2 in variants if t in rd.tokens.get(v2, ())}
            if not rd.tokens:
                continue
            if not got or (got - same) or (var not in got and len(same) == 1):
                rep.bad("token:%s:%s" % (el, var), "%s.%s is written with office:value-type=%s, which is read as %s" % (q, var, t, sorted(got) or "nothing"), rule="token", **roundtrip.where(row[var]))
            else:
                rep.ok("%s: %s.%s <-> value-type=%s" % (el, q, var, t))
        # payload
        wa = defaultdict(set)
        wrow = {}
        for (e2, at), rows in rt.W.items():
            if e2 != el or at not in ATTRS or at == "office:value-type":
                continue
            for r in rows:
                ps = set(r.paths)
                if not ps:
                    for _, gs in (r.choices or ()):
                        for s_, _v in gs:
                            ps |= rt.vpaths(s_)
                    for s_, _v in rt.local_guards(r):
                        ps |= rt.vpaths(s_)
                for path in ps:
                    for x in path:
                        if x[0] == q and x[1]:
                            wa[(x[1], x[2])].add(at)
                            wrow[(x[1], x[2], at)] = r
                if r.paths:
                    g = value_guard(rt, r, enum)
                    if g:
                        rep.bad("conditional:%s@%s" % (el, at), "%s is only written for some values" % loc(el, at), rule="unconditional", **roundtrip.where(r))
        for var, v in sorted(variants.items()):
            for fl in v["fields"]:
                k = (var, fl[0])
                w = wa.get(k, set())
                ra = rd.attrs(var, fl[0], el) & set(ATTRS)
                if not rd.sites.get(var):
                    continue
                if w:
                    if w & ra:
                        extra = {a for a in ra - w if a in ("office:value", "office:currency", "office:date-value", "office:time-value", "office:boolean-value")}
                        if extra:
                            rep.bad("payload:%s:%s.%s" % (el, var, fl[0]), "%s.%s is written to %s but also read from %s" % (q, var, sorted(w), sorted(extra)), rule="payload")
                        else:
                            rep.ok("%s: %s.%s.%s <-> %s" % (el, q, var, fl[0], sorted(w)))
                    elif ra:
                        rep.bad("payload:%s:%s.%s" % (el, var, fl[0]), "%s.%s is written to %s but read from %s" % (q, var, sorted(w), sorted(ra)), rule="payload",
                                **roundtrip.where(wrow[k + (next(iter(w)),)]))
                elif ra - {"office:string-value"}:
                    rep.bad("payload:%s:%s.%s" % (el, var, fl[0]), "%s.%s is read from %s, where the writer does not put it" % (q, var, sorted(ra)), rule="payload")
                else:
                    rep.ok()
    # conversions on the reading side
    for k in sorted(rd.via):
        bad = roundtrip.altering(rd.via[k])
        if k[0] in ("Text", "TextXml"):
            bad -= {"pop", "op:AddWithOverflow", "op:Add"}
        if bad:
            f, b, line = rd.sites[k[0]][0]
            rep.bad("altered:r:%s.%s:%s" % (k[0], k[1], ",".join(sorted(bad))), "the payload of %s.%s passes through %s when it is read" % (q, k[0], ", ".join(sorted(bad))), f.file, line, f.path, "unaltered")
        else:
            rep.ok()
    # text content
    for (el, at), rows in sorted(rt.W.items(), key=str):
        if at == "":
            for r in rows:
                if any(x[0] == q and x[1] == "Text" for path in r.paths for x in path):
                    bad = roundtrip.altering(r.calls) - {"split"}
                    if bad:
                        rep.bad("altered:text:%s" % ",".join(sorted(bad)), "the text of a cell passes through %s when it is written" % ", ".join(sorted(bad)), rule="unaltered", **roundtrip.where(r))
                    else:
                        rep.ok()
    tx = {e for (e, at), rows in rt.W.items() if at == "" for r in rows for path in r.paths if any(x[0] == q and x[1] == "Text" for x in path)}
    got = rd.texts("Text", "0")
    if rep.need(bool(tx), "text", "an element that carries the characters of Value::Text"):
        if got and not (tx & got) and "?" not in got:
            rep.bad("text", "text is written inside %s but read from %s" % (sorted(tx), sorted(got)), rule="text")
        else:
            rep.ok("Value.Text <-> characters of %s" % sorted(tx))
    duration(s, rep)
    import p_content
    p_content.content(s, rep)
    rep.count(variants=len(variants), value_sites=sum(len(x) for x in rd.sites.values()), tokens={k: sorted(v) for k, v in rd.tokens.items()},
              payload_sources={"%s.%s" % k: sorted(rd.attrs(*k)) for k in rd.srcs})


UNITS = {"num_days": None, "num_hours": ("H",), "num_minutes": ("M",), "num_seconds": ("S", "."), "num_milliseconds": ("S",), "num_microseconds": ("S",)}
MOD = {"num_minutes": 60, "num_seconds": 60}


def duration(s, rep):
    """the ISO 8601 duration template: unit letters, moduli, zero padded fraction, sign"""
    p = s.p
    for f in p.fns.values():
        if "io/" not in f.file or f.name != "fmt":
            continue
        tms = []
        for (b, path, cid, a, t) in f.calls:
            if path.endswith("fmt::Arguments::<'a>::new") or path.endswith("Arguments::new"):
                tms.append((b, t))
        for b, t in tms:
            ps = template(f, t)
            if ps is None or not any(x[0] == "val" and unit(x[1]) for x in ps):
                continue
            rep.count(duration_template="".join(x[1] if x[0] == "lit" else "{%s}" % x[2] for x in ps))
            lits = "".join(x[1] for x in ps if x[0] == "lit")
            if "PT" not in lits:
                rep.bad_at("duration:prefix", "a duration is not written in the PT…H…M…S form that is parsed", f, rule="duration")
            for i, x in enumerate(ps):
                u = unit(x[1]) if x[0] == "val" else None
                if not u:
                    continue
                nxt = ps[i + 1][1][:1] if i + 1 < len(ps) and ps[i + 1][0] == "lit" else ""
                prv = ps[i - 1][1][-1:] if i and ps[i - 1][0] == "lit" else ""
                name, mod, neg = u
                frac = prv == "."
                if frac:
                    want = {"num_milliseconds": 3, "num_microseconds": 6, "subsec_millis": 3, "subsec_micros": 6, "subsec_nanos": 9, "num_nanoseconds": 9}.get(name)
                    ok = want and mod in (10 ** want, None if name.startswith("subsec") else 10 ** want) and x[2] == "0%d" % want and nxt == "S"
                    (rep.ok("fraction of %s, padded to %s digits" % (name, want)) if ok else
                     rep.bad_at("duration:fraction", "the fraction of a second (%s %% %s) is printed with format '{:%s}', so its digits do not line up" % (name, mod, x[2]), f, rule="duration"))
                else:
                    ok = UNITS.get(name) and nxt in UNITS[name] and mod == MOD.get(name)
                    (rep.ok("%s -> %s" % (name, nxt)) if ok else
                     rep.bad_at("duration:" + name, "%s (modulus %s) is printed before '%s'" % (name, mod, nxt), f, rule="duration"))
                if neg:
                    rep.ok()
                else:
                    rep.bad_at("duration:sign", "negative durations are printed with a sign inside, which cannot be parsed", f, rule="duration")


def unit(t):
    t = strip(t)
    mod = None
    if t[0] == "bin" and t[1] in ("Rem",):
        m = strip(t[3])
        mod = m[2] if m[0] == "const" else None
        t = strip(t[2])
    if t[0] == "call" and "TimeDelta" in t[1]:
        nm = t[1].rsplit("::", 1)[-1]
        if nm.startswith(("num_", "subsec_")):
            return nm, mod, "neg" in repr(t[3]) or "abs" in repr(t[3])
    return None


def template(f, t):
    """[('lit', text) | ('val', term, spec)] of a fmt::Arguments::new call"""
    tm = strip(f.term_op(t[2][0], False))
    arr = strip(f.term_op(t[2][1], False)) if len(t[2]) > 1 else ("agg", "", "", ())
    if tm[0] != "const" or arr[0] != "agg":
        return None
    items = [strip(x) for _, x in arr[3]]
    b = tm[2]
    out = []
    i, nxt = 0, 0
    while i < len(b):
        c = ord(b[i])
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(("lit", b[i:i + c]))
            i += c
        elif c == 0x80:
            n = ord(b[i]) | ord(b[i + 1]) << 8
            out.append(("lit", b[i + 2:i + 2 + n]))
            i += 2 + n
        else:
            spec = ""
            if c & 1:
                fl = sum(ord(b[i + j]) << 8 * j for j in range(4))
                i += 4
                spec += "0" if fl & (1 << 24) else ""
            if c & 2:
                spec += "%d%s" % (ord(b[i]) | ord(b[i + 1]) << 8, "*" if c & 16 else "")
                i += 2
            if c & 4:
                spec += ".%d%s" % (ord(b[i]) | ord(b[i + 1]) << 8, "*" if c & 32 else "")
                i += 2
            if c & 8:
                nxt = ord(b[i]) | ord(b[i + 1]) << 8
                i += 2
            v = items[nxt] if nxt < len(items) else ("undef",)
            nxt += 1
            if v[0] == "call" and "Argument" in v[1] and v[3]:
                v = v[3][0]
            out.append(("val", v, spec))
    return out


PROPS = {"C04": (check, "other", "tagged-union agreement of writer and reader")}
