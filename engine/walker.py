"""Typestate walk of the XML writer: every path of every function that drives an XmlWriter is interpreted
over the abstract state (open-element stack, pending tag, attributes already given to it, tracked flags)."""
from collections import defaultdict
from mir import *

PRIMS = {"dtd", "elem", "elem_if", "empty", "end_elem", "end_elem_if", "attr", "attr_str", "attr_esc",
         "text", "text_str", "text_esc", "elem_text", "elem_text_esc", "comment", "close", "new", "line_break"}
# the nesting of these two is decided by group boundaries in the data (row/column numbers), not by the code's shape
DATA_NESTED = {"table:table-row-group", "table:table-column-group"}


def is_xw(path):
    return "xmlwriter::XmlWriter" in path


FULL = (frozenset({("var", "None"), ("var", "Some")}), frozenset({("bool", True), ("bool", False)}))


class Event:
    __slots__ = ("kind", "stack", "elem", "name", "value", "guards", "fn", "line", "chain", "choices", "either")

    def __init__(self, kind, stack, elem, name, value, guards, fn, line, chain):
        self.choices = self.either = ()
        self.kind, self.stack, self.elem, self.name, self.value = kind, stack, elem, name, value
        self.guards, self.fn, self.line, self.chain = guards, fn, line, chain


class State:
    """stack: tuple of element names; open: None | ('Elem'|'Empty', name); attrs: names given to the open tag
    flags: ((key, value)...) tracked booleans; facts: ((subject, value)...)"""
    __slots__ = ("stack", "open", "attrs", "flags", "facts", "doc", "_h")

    def __init__(self, stack=(), open=None, attrs=frozenset(), flags=(), facts=(), doc="pre"):
        self.stack, self.open, self.attrs, self.flags, self.facts, self.doc = stack, open, attrs, flags, facts, doc
        self._h = hash((stack, open, attrs, flags, facts, doc))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return (self.stack == o.stack and self.open == o.open and self.attrs == o.attrs and
                self.flags == o.flags and self.facts == o.facts and self.doc == o.doc)

    def with_(self, **k):
        d = {s: getattr(self, s) for s in ("stack", "open", "attrs", "flags", "facts", "doc")}
        d.update(k)
        return State(**d)

    def flag(self, key):
        for k, v in self.flags:
            if k == key:
                return v
        return None

    def setflag(self, key, v):
        fl = tuple((k, x) for k, x in self.flags if k != key)
        if v is not None:
            fl = tuple(sorted(fl + ((key, v),), key=repr))
        return self.with_(flags=fl)

    def fact(self, subj):
        for k, v in self.facts:
            if k == subj:
                return v
        return None

    def setfact(self, subj, v):
        fs = tuple((k, x) for k, x in self.facts if k != subj)
        return self.with_(facts=tuple(sorted(fs + ((subj, v),), key=repr)))


class Frame:
    def __init__(self, fn, env, refs, chain, guards, cache):
        self.fn, self.env, self.refs, self.chain, self.guards = fn, env, refs, chain, guards
        self.uid = fn.id
        self.cache = cache  # per (function, argument terms): block -> resolved terms


class Walker:
    MAXSTATES = 3000

    def __init__(self, prog):
        self.p = prog
        self.events = {}
        self.symterms = {}
        self.problems = []
        self.probkeys = set()
        self.memo = {}
        self.active = []
        self.visited_fns = set()
        self.nstates = 0
        self._writerfns = {}
        self._multi = {}
        self._bgf = {}
        self._ids = {}
        self._terms = []
        self._frames = {}
        self._kill = {}
        self._live = {}
        self._dupn = {}
        self._picks = {}

    def tid(self, t):
        i = self._ids.get(t)
        if i is None:
            i = len(self._terms)
            self._ids[t] = i
            self._terms.append(t)
        return i

    # ------------------------------------------------------------------
    def drives(self, f):
        """does the function (transitively through its signature) take an XmlWriter?"""
        r = self._writerfns.get(f.id)
        if r is None:
            r = any("XmlWriter<" in ty for ty, *_ in (f.locals[i] for i in range(1, f.argc + 1)))
            if not r and f.kind == "closure":
                r = any(is_xw(p) for (_, p, i, _, _) in f.calls) or any(
                    i in self.p.fns and i != f.id and self.p.fns[i].kind != "closure" and self.drives(self.p.fns[i]) for (_, p, i, _, _) in f.calls)
            self._writerfns[f.id] = r
        return r

    def problem(self, rule, fn, line, what, key):
        k = (rule, fn.path, key)
        if k in self.probkeys:
            return
        self.probkeys.add(k)
        self.problems.append({"rule": rule, "fn": fn.path, "file": fn.file, "line": line, "what": what, "key": "%s|%s|%s" % (rule, fn.name, key)})

    # ------------------------------------------------------------------
    def term(self, fr, op, key):
        """value term of an operand in the caller's terms; cached per frame"""
        r = fr.cache.get(key)
        if r is None:
            r = self.p.norm(subst(fr.fn.term_op(op, False), fr.env))
            fr.cache[key] = r
        return r

    def cond(self, fr, op, key):
        r = fr.cache.get(key)
        if r is None:
            t = self.p.norm(subst(fr.fn.term_op(op, False), fr.env))
            subj, val, pol = cond_term(t)
            r = (self.tid(subj), val, pol)
            fr.cache[key] = r
        return r

    def place_key(self, fr, pl):
        """tracking key of a place denoting a boolean: follows `&mut bool` parameters to the caller's variable"""
        l = pl[0]
        projs = pl[1:]
        if l in fr.refs and projs and projs[0][0] == "*":
            return fr.refs[l]
        if not projs:
            return (fr.uid, l)
        if len(projs) == 1 and projs[0][0] == ".":
            return (fr.uid, l, projs[0][3])
        # deref of a local reference
        if projs[0][0] == "*" and len(projs) == 1:
            r = self.local_ref(fr, l)
            if r is not None:
                return r
        return None

    def local_ref(self, fr, l):
        if l in fr.refs:
            return fr.refs[l]
        ds = fr.fn.defs[0].get(l, [])
        if len(ds) == 1 and ds[0][2] == "r":
            rv = ds[0][3]
            if rv[0] in ("ref", "refm"):
                return self.place_key(fr, rv[1])
            if rv[0] == "use" and rv[1][0] in ("c", "m") and len(rv[1][1]) == 1:
                return self.local_ref(fr, rv[1][1][0])
        return None

    def op_flag(self, fr, st, op):
        if op[0] == "k":
            v = op[1].get("v")
            if isinstance(v, dict) and "bool" in v:
                return v["bool"]
            return None
        if op[0] in ("c", "m"):
            k = self.place_key(fr, op[1])
            if k is not None:
                return st.flag(k)
        return None

    IMPURE = {"next", "next_back", "pop", "pop_front", "pop_back", "peek", "take", "replace", "insert", "remove"}

    def is_root(self, f, l):
        """may executing a definition of this local change the value of an expression over it?  Temporaries of a
        re-evaluated pure expression do not."""
        ds = f.defs[0].get(l, [])
        if len(ds) > 1 or f.defs[1].get(l):
            return True
        for d in ds:
            if d[2] == "c" and isinstance(d[3][1], dict):
                nm = (d[3][1].get("fn") or "").rsplit("::", 1)[-1]
                if nm in self.IMPURE:
                    return True
        return False

    def roots_of(self, f, pl, out, seen):
        l = pl[0]
        for p in pl[1:]:
            if p[0] == "[]":
                self.roots_of(f, [p[1]], out, seen)
        if l in seen:
            return
        seen.add(l)
        if self.is_root(f, l):
            out.add(l)
            return
        for d in f.defs[0].get(l, []):
            if d[2] == "r":
                for o in rv_places(d[3]):
                    self.roots_of(f, o, out, seen)
            else:
                for a in d[3][2]:
                    if a[0] in ("c", "m"):
                        self.roots_of(f, a[1], out, seen)

    def volatile(self, sj):
        """results of ?, iterator steps: never correlated"""
        if sj[0] == "call":
            nm = sj[1].rsplit("::", 1)[-1]
            return nm in ("branch", "next", "from_residual") or nm in self.IMPURE
        if sj[0] == "phi":
            return any(self.volatile(strip(x)) or (x[0] == "agg" and x[1] == "std::result::Result") for x in sj[1])
        return sj[0] == "agg"

    def interesting(self, f):
        """per function: which tests are repeated (raw subject tested at least twice), the blocks from which a
        repeated subject is tested again, and the definitions that make knowledge about it stale"""
        r = self._multi.get(f.id)
        if r is None:
            sites = defaultdict(list)
            for b in f.reachable:
                t = f.bbs[b]["t"]
                if t[0] == "sw":
                    tm = f.term_op(t[1], False)
                    if tm[0] == "discr":
                        names = self.p.discr_names(f, t[1])
                        if names and set(names.values()) in ({"Continue", "Break"}, {"Ok", "Err"}):
                            continue
                        sj = strip(self.p.norm(tm[1]))
                    else:
                        sj = cond_term(self.p.norm(tm))[0]
                    sites[sj].append((b, t[1]))
            for (b, p, i, a, t) in f.calls:
                nm = p.rsplit("::", 1)[-1]
                if is_xw(p) and nm in ("elem_if", "end_elem_if"):
                    sites[cond_term(self.p.norm(f.term_op(a[1], False)))[0]].append((b, a[1]))
                if is_xw(p) and nm in ("elem", "empty", "end_elem", "elem_if", "end_elem_if"):
                    op = a[2] if nm.endswith("_if") else a[1]
                    nt = self.p.norm(f.term_op(op, False))
                    cs = const_strs(nt)
                    if cs is not None and len(cs) > 1:
                        sites[("name", nt)].append((b, op))
            bysubj, byblock, kill, live = {}, {}, defaultdict(set), {}
            for sj, ss in sites.items():
                if len(ss) < 2 or self.volatile(sj):
                    continue
                key = len(bysubj)
                bysubj[sj] = key
                deps = set()
                for b, op in ss:
                    byblock.setdefault(b, {})[sj[0] == "name"] = key
                    if op[0] in ("c", "m"):
                        self.roots_of(f, op[1], deps, set())
                for l in deps:
                    kill[l].add(key)
                # backward reachability from the test sites
                lv = set()
                st = [b for b, _ in ss]
                while st:
                    x = st.pop()
                    for q in f.preds.get(x, []):
                        if q not in lv:
                            lv.add(q)
                            st.append(q)
                live[key] = lv | {b for b, _ in ss}
            r = (byblock, kill, live)
            self._multi[f.id] = r
        return r

    # ------------------------------------------------------------------
    def run(self, f, env, refs, st, chain=(), guards=()):
        """all exit states of f started in st (normal returns only)"""
        ek = (f.id, tuple(sorted((k, self.tid(v)) for k, v in env.items())))
        cut = max(0, len(st.stack) - 3)
        prefix = st.stack[:cut]
        st0 = st.with_(stack=st.stack[cut:], facts=(), flags=tuple(x for x in st.flags if x[0] in refs.values() or x[0][0] == "ghost"))
        rest = tuple(x for x in st.flags if x not in st0.flags)
        key = (ek, tuple(sorted(refs.items())), st0, guards)
        outs = self.memo.get(key)
        if outs is None:
            if f.id in self.active:
                # recursive descent over a tree: induction hypothesis = balanced, nothing pending
                return {st.with_(open=None, attrs=frozenset())}
            self.active.append(f.id)
            self.visited_fns.add(f.id)
            outs = set()
            for pick, items in self.picks(f):
                outs |= self.run1(f, {**env, **items} if items else env, refs, st0, chain, guards, (ek, pick))
            self.active.pop()
            self.memo[key] = outs
        return {o.with_(stack=prefix + o.stack, facts=st.facts, flags=tuple(sorted(o.flags + rest, key=repr))) for o in outs}

    def picks(self, f):
        """a loop over an array that is written out in the code runs for each of its elements: [(name, {term of the item: element})]"""
        r = self._picks.get(f.id)
        if r is None:
            r = literal_loops(f)
            self._picks[f.id] = r
        return r

    def run1(self, f, env, refs, st0, chain, guards, ek):
        cache = self._frames.setdefault(ek, {})
        fr = Frame(f, env, refs, chain + (f.name,), guards, cache)
        outs = set()
        seen = set()
        wl = [(0, st0)]
        perblock = defaultdict(int)
        _, _, live = self.interesting(f)
        while wl:
            b, s = wl.pop()
            if s.facts:
                fs = tuple(x for x in s.facts if b in live[x[0][1]])
                if fs != s.facts:
                    s = s.with_(facts=fs)
            if (b, s) in seen:
                continue
            seen.add((b, s))
            self.nstates += 1
            perblock[b] += 1
            if perblock[b] > self.MAXSTATES:
                self.problem("state-explosion", f, f.line, "analysis bound exceeded in %s" % f.path, "bound")
                break
            for nb, ns in self.step(fr, b, s):
                if nb == "ret":
                    outs.add(ns.with_(facts=(), flags=tuple(x for x in ns.flags if x[0][0] != f.id)))
                else:
                    wl.append((nb, ns))
        return outs

    def kill_facts(self, fr, s, l):
        if not s.facts:
            return s
        ks = self.interesting(fr.fn)[1].get(l)
        if not ks:
            return s
        fs = tuple(x for x in s.facts if x[0][1] not in ks)
        return s if fs == s.facts else s.with_(facts=fs)

    def step(self, fr, b, s):
        f = fr.fn
        bb = f.bbs[b]
        for st_ in bb["s"]:
            if st_[0] == "dead":
                ks = [k for k, _ in s.flags if k[0] == fr.uid and k[1] == st_[1]]
                for k in ks:
                    s = s.setflag(k, None)
                continue
            if st_[0] != "=":
                continue
            pl, rv = st_[1], st_[2]
            s = self.kill_facts(fr, s, pl[0])
            if pl == [0] and rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] == "std::result::Result" and rv[1][2] == "Err":
                return []  # error exit
            ty = f.locals[pl[0]][0]
            isb = (len(pl) == 1 and ty == "bool") or (len(pl) > 1)
            if len(pl) == 1 and rv[0] == "agg" and rv[1][0] == "tuple":
                for i, o in enumerate(rv[2]):
                    v = self.op_flag(fr, s, o)
                    s = s.setflag((fr.uid, pl[0], str(i)), v)
                continue
            if len(pl) == 1 and rv[0] == "use" and rv[1][0] in ("c", "m") and len(rv[1][1]) == 1 and ty.startswith("("):
                src = rv[1][1][0]
                for k, v in list(s.flags):
                    if k[:2] == (fr.uid, src) and len(k) == 3:
                        s = s.setflag((fr.uid, pl[0], k[2]), v)
                continue
            if isb:
                k = self.place_key(fr, pl)
                if k is not None:
                    v = None
                    if rv[0] == "use":
                        v = self.op_flag(fr, s, rv[1])
                    elif rv[0] == "un" and rv[1] == "Not":
                        v = self.op_flag(fr, s, rv[2])
                        v = None if v is None else (not v)
                    if v is not None or s.flag(k) is not None:
                        s = s.setflag(k, v)
        t = bb["t"]
        k = t[0]
        if k == "ret":
            return [("ret", s)]
        if k == "goto":
            return [(t[1], s)]
        if k == "drop":
            return [(t[2], s)]
        if k == "assert":
            return [(t[4], s)]
        if k == "sw":
            return self.switch(fr, b, s, t)
        if k == "call":
            if t[4] is None:
                return []
            outs = self.call(fr, b, s, t)
            # what was known about a value that is produced anew here no longer holds
            return [(t[4], self.kill_facts(fr, o, t[3][0])) for o in outs]
        return []

    def switch(self, fr, b, s, t):
        f = fr.fn
        op = t[1]
        # tracked flag
        fl = self.op_flag(fr, s, op)
        if fl is not None and len(t[2]) == 1 and t[2][0][0] == 0:
            return [(t[3] if fl else t[2][0][1], s)]
        info = fr.cache.get(("sw", b))
        if info is None:
            term = f.term_op(op, False)
            if term[0] == "discr":
                names = self.p.discr_names(f, op)
                if names and (set(names.values()) == {"Continue", "Break"} or set(names.values()) == {"Ok", "Err"}):
                    subj = ("rt",)
                else:
                    subj = strip(self.p.norm(subst(strip(term[1]), fr.env)))
                info = ("d", self.tid(subj), names, strip(term[1]))
            else:
                info = ("b",)
            fr.cache[("sw", b)] = info
        ik = self.interesting(f)[0].get(b, {}).get(False)
        if info[0] == "d":
            sid, names, raw = info[1:]
            if names and set(names.values()) == {"Continue", "Break"}:
                return [(x, s) for v, x in t[2] if names.get(v) == "Continue"]
            if names and set(names.values()) == {"Ok", "Err"}:
                outs = [(x, s) for v, x in t[2]]
                if f.bbs[t[3]]["t"][0] != "unr":
                    outs.append((t[3], s))
                return outs
            subj = self._terms[sid]
            res = []
            known = s.fact((sid, ik)) if ik is not None else None
            if subj[0] == "const" and subj[1] == "e":
                known = ("var", subj[2][1])
            if subj[0] == "agg" and subj[2]:
                known = ("var", subj[2])
            cover = []
            allv = [(("var", names.get(v, "#%d" % v) if names else "#%d" % v), x) for v, x in t[2]]
            cover = [n for n, _ in allv]
            if f.bbs[t[3]]["t"][0] != "unr":
                if names:
                    allv += [(("var", n), t[3]) for v, n in names.items() if ("var", n) not in cover]
                else:
                    allv.append((None, t[3]))
            for n, x in allv:
                if n is not None and known is not None:
                    if known[0] == "not":
                        if known[1] == n:
                            continue
                    elif known != n:
                        continue
                ns = s.setfact((sid, ik), n) if (ik is not None and n is not None) else s
                if n is not None:
                    ns = self.ghost_next(fr, raw, n, ns)
                if ns is not None:
                    res.append((x, ns))
            return list(dict.fromkeys(res))
        if len(t[2]) == 1 and t[2][0][0] == 0:
            sid, val, pol = self.cond(fr, op, ("c", b))
            ff, tt = t[2][0][1], t[3]
            dec = self.decide(s, sid, ik, val)
            if dec is not None:
                return [(tt if dec == pol else ff, s)]
            res = []
            for branch, truth in ((tt, True), (ff, False)):
                ns = s
                if ik is not None:
                    ns = self.assume(s, sid, ik, val, truth == pol)
                res.append((branch, ns))
            return res
        return [(x, s) for v, x in t[2]] + [(t[3], s)]

    def decide(self, s, sid, ik, val):
        subj = self._terms[sid]
        if subj[0] == "const" and subj[1] == "bool":
            return subj[2] == val[1] if val[0] == "bool" else None
        if subj[0] == "const" and subj[1] == "e" and val[0] == "var":
            return subj[2][1] == val[1]
        if subj[0] == "const" and subj[1] == "s" and val[0] == "str":
            return subj[2] == val[1]
        if subj[0] == "agg" and subj[2] and val[0] == "var":
            return subj[2] == val[1]
        if ik is None:
            return None
        known = s.fact((sid, ik))
        if known is None:
            return None
        if known[0] == "not":
            return False if known[1] == val else None
        if val[0] == known[0]:
            return val == known
        return None

    def assume(self, s, sid, ik, val, holds):
        k = (sid, ik)
        if holds:
            return s.setfact(k, val)
        if val == ("var", "Some"):
            return s.setfact(k, ("var", "None"))
        if val[0] == "bool":
            return s.setfact(k, ("bool", not val[1]))
        return s.setfact(k, ("not", val))

    # the cell iterator: next() yields None exactly when the preceding peek_cell() found nothing
    def ghost_next(self, fr, raw, n, s):
        r = strip(raw)
        if r[0] == "call":
            nm = r[1].rsplit("::", 1)[-1]
            if nm == "peek_cell" and "CellDataIter" in r[1]:
                return s.setflag(("ghost", "more"), n[1] == "Some")
            if nm == "next" and "CellDataIter" in r[1]:
                more = s.flag(("ghost", "more"))
                if more is not None and more != (n[1] == "Some"):
                    return None
                return s.setflag(("ghost", "more"), None)
        return s

    # ------------------------------------------------------------------ calls
    def call(self, fr, b, s, t):
        f = fr.fn
        fx = t[1]
        line = t[5]
        if not isinstance(fx, dict) or "ind" in fx:
            return [s]
        path = fx.get("r") or fx["fn"]
        fid = fx.get("rid") or fx["id"]
        nm = path.rsplit("::", 1)[-1]
        if is_xw(path) and nm in PRIMS:
            return self.prim(fr, b, s, t, nm, line)
        if t[3] == [0] and nm == "from_residual":
            return []
        g = self.p.fns.get(fid)
        tgt = []
        if g is not None and self.drives(g):
            tgt = [(g, None)]
        else:
            for cl in fx.get("cl", []):
                c = self.p.fns.get(cl)
                if c is not None and self.drives(c):
                    tgt.append((c, "closure"))
        if not tgt:
            return [s]
        outs = set()
        for g, how in tgt:
            env, refs = {}, {}
            extra = ()
            if how == "closure":
                recv = None
                for i, a in enumerate(t[2]):
                    tm = strip(self.term(fr, a, ("a", b, i)))
                    if tm[0] == "agg" and tm[1] == "(closure)" + g.id:
                        env[1] = tm
                    elif recv is None:
                        recv = tm
                if recv is not None and size(recv, 300) < 300:
                    env[2] = payload(recv)
                    extra = ((self.tid(("call", "std::iter::Iterator::next", "?", (recv,), ())), frozenset([("var", "Some")])),)
            if how is None:
                for i, a in enumerate(t[2]):
                    tm = self.term(fr, a, ("a", b, i))
                    if size(tm, 300) >= 300:
                        tm = ("opaque", g.name, i)
                    env[i + 1] = tm
                    if a[0] in ("c", "m") and len(a[1]) == 1:
                        ty = f.locals[a[1][0]][0]
                        if ty.startswith("&") and ty.endswith("bool"):
                            r = self.local_ref(fr, a[1][0])
                            if r is not None:
                                refs[i + 1] = r
                    if i + 1 <= g.argc and g.locals[i + 1][0] == "bool":
                        v = self.op_flag(fr, s, a)
                        if v is not None:
                            env[i + 1] = ("const", "bool", v)
            guards = fr.guards + self.block_guards(fr, b) + extra
            if len(guards) > 40:
                guards = guards[-40:]
            guards = tuple(dict.fromkeys(guards))
            o = self.run(g, env, refs, s, fr.chain, guards)
            if how == "closure":
                # may run zero or more times
                outs |= {s}
                for x in o:
                    if x.stack != s.stack:
                        self.problem("unbalanced-closure", g, g.line, "closure leaves the element stack changed", "closure")
                outs |= o
            else:
                outs |= o
        return outs

    def block_guards(self, fr, b):
        k = ("g", b)
        r = fr.cache.get(k)
        if r is None:
            out, either = [], []
            for subj, vals in fr.fn.ctrl_guards(b).items():
                if vals and all(v[0] == "var" and v[1] in ("Ok", "Err", "Continue", "Break") for v in vals):
                    continue
                sj = strip(self.p.norm(subst(subj, fr.env)))
                if sj[0] == "const":
                    continue
                if frozenset(vals) in FULL:
                    either.append(sj)
                    continue
                if size(sj, 400) >= 400:
                    sj = ("opaque", fr.fn.name, 0)
                out.append((self.tid(sj), vals))
            r = tuple(sorted(out, key=repr))
            fr.cache[k] = r
            fr.cache[("either", b)] = tuple(either)
        return r

    def choices(self, fr, op, depth=0):
        """[(constant, conditions)] an operand chooses from, or () when it is not a choice between constants"""
        if depth > 8:
            return ()
        if op[0] == "k":
            c = const_str(const_term(op[1]))
            return [(c, ())] if c is not None else ()
        pl = op[1]
        if any(x[0] != "*" for x in pl[1:]):
            return ()
        out = []
        ds = fr.fn.defs[0].get(pl[0], [])
        if not ds or pl[0] <= fr.fn.argc:
            return ()
        for d in ds:
            b = d[0]
            if b not in fr.fn.reachable:
                continue
            g = self.block_guards(fr, b)
            if d[2] == "r":
                rv = d[3]
                if rv[0] == "use":
                    sub = self.choices(fr, rv[1], depth + 1)
                elif rv[0] in ("ref", "refm"):
                    sub = self.choices(fr, ("c", rv[1]), depth + 1)
                elif rv[0] == "cast":
                    sub = self.choices(fr, rv[2], depth + 1) if isinstance(rv[2], (list, tuple)) and rv[2] and rv[2][0] in ("c", "m", "k") else ()
                else:
                    return ()
            else:
                t = d[3]
                info = t[1] if isinstance(t[1], dict) else {}
                h = self.p.fns.get(info.get("rid") or info.get("id"))
                if h is None:
                    if info.get("fn", "").rsplit("::", 1)[-1] in TRANSPARENT and t[2]:
                        sub = self.choices(fr, t[2][0], depth + 1)
                    else:
                        return ()
                else:
                    env = {i + 1: self.p.norm(subst(fr.fn.term_op(a, False), fr.env)) for i, a in enumerate(t[2])}
                    fr2 = Frame(h, env, {}, fr.chain, (), {})
                    sub = self.choices(fr2, ("c", [0]), depth + 1)
            if not sub:
                return ()
            for c, gg in sub:
                out.append((c, tuple((self._terms[i], v) for i, v in g) + tuple(gg)))
        return out

    def record(self, fr, b, s, kind, elem, name, value, line, vop=None):
        guards = fr.guards + self.block_guards(fr, b)
        key = (kind, s.stack, elem, name, fr.fn.id, b, fr.chain, guards, value if kind == "elem" else None)
        if key not in self.events:
            e = self.events[key] = Event(kind, s.stack, elem, name, value, tuple((self._terms[i], v) for i, v in guards), fr.fn, line, fr.chain)
            e.either = fr.cache.get(("either", b), ())
            if vop is not None and value is not None and const_strs(value) is not None:
                e.choices = tuple(self.choices(fr, vop) or ())

    def names(self, fr, b, op, s, ending=False):
        """possible (name, state) choices of an element/attribute name operand; a repeated use of the same
        multi-valued name expression stays correlated along a path"""
        t = self.term(fr, op, ("n", b))
        cs = const_strs(t)
        if cs is None:
            return [("?" + "/".join(sorted(n for _, _, n in model_fields(self.p, t))), s)]
        if len(cs) == 1:
            return [(next(iter(cs)), s)]
        ik = self.interesting(fr.fn)[0].get(b, {}).get(True)
        if ik is None:
            return [(c, s) for c in sorted(cs)]
        # same expression, not reassigned in between: one symbolic name stands for all its values
        k = (self.tid(t), ik)
        sym = "\u00ab" + "|".join(sorted(cs)) + "\u00bb"
        self.symterms.setdefault(sym, {}).setdefault(self.tid(t), self.choices(fr, op))
        if s.fact(k) is not None:
            return [(sym, s)]
        if ending:
            return [(c, s) for c in sorted(cs)]
        return [(sym, s.setfact(k, ("sym",)))]

    def dupnames(self, f):
        r = self._dupn.get(f.id)
        if r is None:
            cnt = defaultdict(int)
            for (b, p, i, a, t) in f.calls:
                nm = p.rsplit("::", 1)[-1]
                if is_xw(p) and nm in ("attr", "attr_str", "attr_esc"):
                    for c in const_strs(f.term_op(a[1], False)) or ():
                        cnt[c] += 1
            r = {c for c, n in cnt.items() if n > 1}
            self._dupn[f.id] = r
        return r

    def close_tag(self, s):
        if s.open is None:
            return s
        return s.with_(open=None, attrs=frozenset())

    def prim(self, fr, b, s, t, nm, line):
        f = fr.fn
        a = t[2]
        res = []
        if nm in ("new", "line_break"):
            return [s]
        if nm == "dtd":
            if s.doc != "pre" or s.stack or s.open:
                self.problem("dtd-position", f, line, "XML declaration written after content", "dtd")
            return [s.with_(doc="dtd")]
        if nm == "close":
            if s.open is not None:
                self.problem("close-pending", f, line, "document closed while the start tag <%s> is still pending" % s.open[1], "close:" + s.open[1])
            if s.stack:
                self.problem("close-open", f, line, "document closed with open elements %s" % (list(s.stack),), "close:" + "/".join(s.stack))
            self.record(fr, b, s, "close", "", "", None, line)
            return [s.with_(doc="closed")]
        if nm in ("elem", "empty", "elem_if"):
            has = {"elem": True, "empty": False}.get(nm)
            ops = a[1:]
            alts = [(has, s)]
            if nm == "elem_if":
                alts = self.bool_alts(fr, b, s, a[1])
                ops = a[2:]
            for has, s1 in alts:
                for name, s2 in self.names(fr, b, ops[0], s1):
                    s2 = self.close_tag(s2)
                    if s2.doc == "closed":
                        self.problem("after-close", f, line, "element <%s> written after the document was closed" % name, name)
                    if not s2.stack and s2.doc == "root":
                        self.problem("second-root", f, line, "<%s> would be a second root element" % name, name)
                    doc = s2.doc
                    if not s2.stack:
                        if doc not in ("dtd",) and doc != "rel":
                            pass
                        doc = "root" if doc in ("pre", "dtd") else doc
                    self.record(fr, b, s2, "elem", s2.stack[-1] if s2.stack else "", name, ("const", "bool", has), line)
                    if has:
                        stack = s2.stack if name in DATA_NESTED else s2.stack + (name,)
                        if len(stack) > 40 or stack.count(name) > 6 and not name.startswith("?"):
                            self.problem("unbounded-nesting", f, line, "element <%s> may be opened repeatedly without being closed: %s" % (name, list(stack)[-6:]), name)
                            continue
                        res.append(s2.with_(stack=stack, open=("Elem", name), attrs=frozenset(), doc=doc))
                    else:
                        res.append(s2.with_(open=("Empty", name), attrs=frozenset(), doc=doc))
            return res
        if nm in ("end_elem", "end_elem_if"):
            ops = a[1:]
            alts = [(True, s)]
            if nm == "end_elem_if":
                alts = self.bool_alts(fr, b, s, a[1])
                ops = a[2:]
            for has, s1 in alts:
                s2 = self.close_tag(s1)
                if not has:
                    res.append(s2)
                    continue
                for name, s2 in self.names(fr, b, ops[0], s2, True):
                    if name in DATA_NESTED:
                        res.append(s2)
                        continue
                    if not s2.stack:
                        self.problem("end-without-start", f, line, "</%s> written with no open element" % name, name)
                        continue
                    if s2.stack[-1] != name:
                        self.problem("mismatched-end", f, line, "</%s> written while <%s> is the innermost open element" % (name, s2.stack[-1]), "%s/%s" % (s2.stack[-1], name))
                        continue
                    self.record(fr, b, s2, "end", s2.stack[-1], name, None, line)
                    res.append(s2.with_(stack=s2.stack[:-1]))
            return res
        if nm in ("attr", "attr_str", "attr_esc"):
            val = self.term(fr, a[2], ("v", b))
            for name, s in self.names(fr, b, a[1], s):
                if s.open is None:
                    self.problem("attr-outside-tag", f, line, "attribute %s written while no start tag is open" % name, name)
                    res.append(s)
                    continue
                if name in s.attrs and not name.startswith("?"):
                    self.problem("duplicate-attr", f, line, "attribute %s may be written twice on <%s>" % (name, s.open[1]), name + "@" + s.open[1])
                self.record(fr, b, s, nm, s.open[1], name, val, line, a[2])
                res.append(s.with_(attrs=s.attrs | {name}) if name in self.dupnames(f) else s)
            return res
        if nm in ("text", "text_str", "text_esc", "comment"):
            s2 = self.close_tag(s)
            if not s2.stack:
                self.problem("text-outside-root", f, line, "text written outside of any element", "text")
            self.record(fr, b, s2, nm, s2.stack[-1] if s2.stack else "", "", self.term(fr, a[1], ("v", b)), line, a[1])
            return [s2]
        if nm in ("elem_text", "elem_text_esc"):
            for name, s in self.names(fr, b, a[1], s):
                s2 = self.close_tag(s)
                if not s2.stack:
                    self.problem("second-root", f, line, "<%s> outside of any element" % name, name)
                self.record(fr, b, s2, nm, name, "", self.term(fr, a[2], ("v", b)), line, a[2])
                res.append(s2)
            return res
        return [s]

    def bool_alts(self, fr, b, s, op):
        v = self.op_flag(fr, s, op)
        if v is not None:
            return [(v, s)]
        sid, val, pol = self.cond(fr, op, ("e", b))
        ik = self.interesting(fr.fn)[0].get(b, {}).get(False)
        d = self.decide(s, sid, ik, val)
        if d is not None:
            return [(d == pol, s)]
        if ik is None:
            return [(True, s), (False, s)]
        return [(pol, self.assume(s, sid, ik, val, True)), (not pol, self.assume(s, sid, ik, val, False))]


def rv_places(rv):
    k = rv[0]
    ops = []
    if k == "use":
        ops = [rv[1]]
    elif k in ("ref", "refm", "discr"):
        return [rv[1]]
    elif k == "cast":
        ops = [rv[2]]
    elif k == "bin":
        ops = [rv[2], rv[3]]
    elif k == "un":
        ops = [rv[2]]
    elif k == "agg":
        ops = rv[2]
    return [o[1] for o in ops if o[0] in ("c", "m")]


def has_kind(t, kinds):
    hit = []

    def v(x):
        if x[0] in kinds:
            hit.append(1)
            return False

    walk(t, v)
    return bool(hit)


def contains(t, sub):
    if t == sub:
        return True
    return any(contains(x, sub) for x in t if isinstance(x, tuple))


def writer_roots(prog):
    """functions that own an XmlWriter (construct it or are the first to receive it): entry points of a document part"""
    roots = []
    w = Walker(prog)
    for f in prog.fns.values():
        if f.kind == "closure" or not w.drives(f) or "xmlwriter" in f.file:
            continue
        cs = prog.callers.get(f.id, [])
        outer = [c for c, _ in cs if not w.drives(c)]
        if outer:
            roots.append((f, outer))
    return roots
