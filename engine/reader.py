"""Store effects of the XML reader: which model field receives which attribute / text of which element.

Every function reachable from the read entry points that takes the XML reader, a start tag or an attribute is
explored in context: a tag parameter stands for the set of element names (and Start/Empty kinds) its callers
established on the path to the call."""
from collections import defaultdict
from mir import *
from prov import Prov, DECODE, fkey

EVK = {"Start", "End", "Empty", "Text", "CData", "Comment", "Decl", "PI", "DocType", "GeneralRef", "Eof"}


class Effect:
    __slots__ = ("target", "path", "how", "srcs", "via", "elems", "kinds", "keys", "fn", "line", "chain", "block", "env", "tags")

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


def q(owner):
    return owner.rsplit("::", 1)[-1]


class Reader:
    STD_MUT = {"push", "insert", "push_str", "extend", "replace", "append", "push_back", "or_insert", "or_insert_with",
               "get_or_insert_with", "clear", "remove", "pop", "retain", "get_or_insert", "or_default", "set"}

    def __init__(self, prog):
        self.p = prog
        self.pv = Prov(prog)
        self.effects = []
        self.seen = {}
        self.fns = set()
        self.calls = 0
        self._mut = {}
        self._bf = {}
        self._res = {}
        self._ret = {}
        self._rt = {}
        self.visits = []      # (fn, env, block, callee, tagnames, kinds)

    # ------------------------------------------------------------------ classification
    def is_reader(self, f):
        r = self._rt.get(f.id)
        if r is None:
            r = False
            for i in range(1, f.argc + 1):
                ty = f.locals[i][0]
                if "quick_xml::Reader<" in ty or "reader::Reader<" in ty or "BytesStart" in ty or "events::attributes::Attribute" in ty:
                    r = True
            self._rt[f.id] = r
        return r

    def model(self, owner):
        return owner in self.p.adts and not owner.startswith("io::")

    # ------------------------------------------------------------------ facts of a block
    def bfacts(self, f, b):
        """(start/empty tag names, attr keys, event kinds) established at block b; None = unknown"""
        k = (f.id, b)
        r = self._bf.get(k)
        if r is not None:
            return r
        names = keys = kinds = None
        argnames = {}
        for s, vals in (f.facts.get(b) or {}).items():
            if not vals:
                continue
            s = strip(s)
            if all(v[0] == "str" for v in vals):
                ns = frozenset(v[1] for v in vals)
                if s[0] == "field" and "QName" in s[1]:
                    s = s[4]
                if s[0] == "call" and s[1].rsplit("::", 1)[-1] in ("name", "local_name") and s[3]:
                    t = strip(s[3][0])
                    if t[0] == "arg":
                        argnames[t[1]] = ns
                        continue
                    ks = evkinds(t)
                    if ks and ks <= {"End"}:
                        continue
                    names = ns if names is None else (names & ns or names)
                elif s[0] == "field" and s[3] == "key" and "Attribute" in s[1]:
                    keys = ns if keys is None else (keys & ns or keys)
            elif all(v[0] == "var" and v[1] in EVK for v in vals):
                ns = frozenset(v[1] for v in vals)
                kinds = ns if kinds is None else (kinds & ns or kinds)
        r = (names, keys, kinds, argnames)
        self._bf[k] = r
        return r

    # ------------------------------------------------------------------ tags / attributes
    def tag_of(self, f, env, op, b):
        """(names, kinds) a BytesStart operand stands for"""
        names, kinds = set(), set()
        nf, kf, vf, an = self.bfacts(f, b)
        for leaf, ctxs in self.pv.leaves(f, op, b).items():
            if leaf[0] == "arg":
                e = env.get(leaf[1])
                if e and e[0] == "tag":
                    ns = set(e[1])
                    if leaf[1] in an:
                        ns = set(an[leaf[1]])
                    names |= ns
                    kinds |= set(e[2])
                elif "BytesStart" in f.locals[leaf[1]][0]:
                    names |= set(an.get(leaf[1], {"*"}))
            elif leaf[0] == "event":
                if leaf[1] in ("Start", "Empty", "?"):
                    if leaf[1] != "?" and not (vf and leaf[1] not in vf):
                        kinds.add(leaf[1])
                    best = nf
                    for c in ctxs:
                        for bb in c:
                            n2 = self.bfacts(f, bb)[0]
                            if n2 is not None and (best is None or n2 < best):
                                best = n2
                    names |= set(best) if best else {"*"}
        return frozenset(names or {"*"}), frozenset(kinds)

    def attr_tag(self, f, env, op, b):
        """tag an Attribute operand was taken from"""
        names, kinds = set(), set()
        for leaf, ctxs in self.pv.leaves(f, op, b, stop=lambda p, i: p.rsplit("::", 1)[-1] in ("attributes", "html_attributes", "try_get_attribute")).items():
            if leaf[0] == "call":
                t = f.bbs[leaf[3]]["t"]
                n, k = self.tag_of(f, env, t[2][0], leaf[3])
                names |= n
                kinds |= k
            elif leaf[0] == "arg":
                e = env.get(leaf[1])
                if e and e[0] == "attr":
                    names |= set(e[1])
                    kinds |= set(e[3])
        return frozenset(names or {"*"}), frozenset(kinds)

    def keys_of(self, f, env, leaf_block, ctxs):
        """attribute keys that can reach through a set of def paths"""
        out = set()
        for c in ctxs:
            best = None
            for bb in tuple(c) + (leaf_block,):
                k = self.bfacts(f, bb)[1]
                if k is not None:
                    best = k if best is None or k < best else best
            out |= set(best) if best else {"*"}
        return frozenset(out)

    # ------------------------------------------------------------------ resolving leaves
    def envkey(self, env):
        return tuple(sorted(env.items(), key=lambda x: x[0]))

    def resolve(self, f, env, op, b, key0=(), depth=0):
        """(srcs, via) of an operand in context"""
        if op[0] == "k":
            t = const_term(op[1])
            return ({("const", str(t[2]))} if t[1] in ("s", "b", "bool", "i", "e", "c") else set()), set()
        rk = (f.id, self.envkey(env), repr(op), b, key0)
        r = self._res.get(rk)
        if r is not None:
            return r
        self._res[rk] = (set(), set())
        srcs, via = set(), set()
        lv = self.pv.leaves(f, op, b, stop=lambda p, i: i in self.p.fns and self.is_reader(self.p.fns[i]), key0=key0)
        for leaf, ctxs in lv.items():
            self.resolve_leaf(f, env, leaf, ctxs, srcs, via, depth)
        self._res[rk] = (srcs, via)
        return srcs, via

    def resolve_leaf(self, f, env, leaf, ctxs, srcs, via, depth):
        k = leaf[0]
        if k == "const":
            if leaf[1] in ("s", "b", "bool", "i", "e", "c", "f"):
                srcs.add(("const", str(leaf[2])))
        elif k == "decode":
            t = f.bbs[leaf[2]]["t"]
            names, kinds = self.attr_tag(f, env, t[2][0], leaf[2])
            keys = self.keys_of(f, env, leaf[2], ctxs)
            keys = self.env_keys(f, env, t[2][0], leaf[2], keys)
            for n in names:
                for key in keys:
                    srcs.add(("attr", n, key, "esc", tuple(sorted(kinds))))
        elif k == "attrfield":
            keys = self.keys_of(f, env, leaf[2], ctxs)
            names, kinds, keys = self.attr_anywhere(f, env, leaf[2], keys)
            for n in names:
                if leaf[1] == "key":
                    srcs.add(("attrname", n))
                else:
                    for key in keys:
                        srcs.add(("attr", n, key, "raw", tuple(sorted(kinds))))
        elif k == "event":
            if leaf[1] in ("Text", "GeneralRef", "CData"):
                tag = [e for e in env.values() if e[0] == "tag"]
                ns = tag[0][1] if tag else ("?",)
                for n in ns:
                    srcs.add(("evtext", leaf[1], n))
            else:
                srcs.add(("event", leaf[1]))
        elif k == "field":
            if self.model(leaf[1]):
                srcs.add(("field", q(leaf[1]), leaf[3]))
        elif k == "arg":
            e = env.get(leaf[1])
            if e is None:
                return
            if e[0] == "tag":
                for n in e[1]:
                    srcs.add(("tag", n))
            elif e[0] == "attr":
                if any(x[2] == "key" for x in leaf[2]):
                    for n in e[1]:
                        srcs.add(("attrname", n))
                else:
                    for n in e[1]:
                        for key in e[2]:
                            srcs.add(("attr", n, key, "raw", tuple(e[3])))
            elif e[0] == "const":
                srcs.add(("const", str(e[2])))
            elif e[0] == "srcs":
                srcs |= set(e[1])
                via |= set(e[2])
        elif k == "call":
            g = self.p.fns[leaf[2]]
            t = f.bbs[leaf[3]]["t"]
            e2 = self.call_env(f, env, g, t, leaf[3])
            names, kinds = ("*",), ()
            for e in e2.values():
                if e[0] == "tag":
                    names, kinds = e[1], e[2]
            fns = tuple(sorted(const_term(a[1])[2][0] for a in t[2] if a[0] == "k" and const_term(a[1])[1] == "fn"))
            for n in names:
                srcs.add(("read", g.name, n, tuple(kinds), fns))
            if depth < 6 and "quick_xml" not in g.locals[0][0]:
                s2, v2 = self.resolve(g, e2, ("c", [0]), 0, leaf[4], depth + 1)
                srcs |= {x if x[0] == "deep" else ("deep", x) for x in s2}
                via |= v2
        elif k == "via":
            via.add(leaf[1])
        elif k == "overflow":
            srcs.add(("overflow",))

    def env_keys(self, f, env, op, b, keys):
        if keys != frozenset({"*"}):
            return keys
        for leaf in self.pv.leaves(f, op, b):
            if leaf[0] == "arg":
                e = env.get(leaf[1])
                if e and e[0] == "attr":
                    return frozenset(e[2])
        return keys

    def attr_anywhere(self, f, env, b, keys):
        """the attribute loop(s) dominating block b: tag operand of every attributes() call that reaches b"""
        names, kinds = set(), set()
        for (cb, path, fid, args, t) in f.calls:
            if path.rsplit("::", 1)[-1] in ("attributes", "html_attributes"):
                n, k = self.tag_of(f, env, args[0], cb)
                names |= n
                kinds |= k
        for e in env.values():
            if e[0] == "attr":
                names |= set(e[1])
                kinds |= set(e[3])
                if keys == frozenset({"*"}):
                    keys = frozenset(e[2])
        return frozenset(names or {"*"}), frozenset(kinds), keys

    def call_env(self, f, env, g, t, b):
        e2 = {}
        if g.kind == "closure":
            return e2
        for i, a in enumerate(t[2]):
            if i + 1 > g.argc:
                break
            ty = g.locals[i + 1][0]
            if "BytesStart" in ty:
                n, k = self.tag_of(f, env, a, b)
                e2[i + 1] = ("tag", tuple(sorted(n)), tuple(sorted(k)))
            elif "attributes::Attribute" in ty:
                n, k = self.attr_tag(f, env, a, b)
                lv = self.pv.leaves(f, a, b)
                keys = set()
                for leaf, ctxs in lv.items():
                    if leaf[0] == "arg":
                        e = env.get(leaf[1])
                        if e and e[0] == "attr":
                            keys |= set(e[2])
                kk = self.bfacts(f, b)[1]
                if kk is not None:
                    keys = set(kk)
                e2[i + 1] = ("attr", tuple(sorted(n)), tuple(sorted(keys or {"*"})), tuple(sorted(k)))
            elif a[0] == "k":
                c = const_term(a[1])
                if c[1] in ("s", "b", "bool", "i", "e", "fn"):
                    e2[i + 1] = c
            else:
                ty0 = deref_ty(ty)
                if ty0.startswith(("quick_xml", "io::", "reader::Reader")) or "Reader<" in ty0:
                    continue
                tt = f.term_op(a, False)
                if tt[0] == "call" and not tt[3]:
                    # a constant function, such as a derived Default
                    h = self.p.fns.get(tt[2]) or next((x for x in self.p.fns.values() if x.path == tt[1] and not x.argc), None)
                    if h is not None and not h.argc:
                        tt = strip(h.term_op(("c", [0]), False))
                if tt[0] == "const" and tt[1] in ("s", "b", "bool", "i", "e"):
                    e2[i + 1] = tt
                elif tt[0] == "agg" and tt[2] and not tt[3] and tt[1] in self.p.adts:
                    e2[i + 1] = ("const", "e", (tt[1], tt[2]))
                elif tt[0] == "arg" and tt[1] in env and env[tt[1]][0] in ("const", "path"):
                    e2[i + 1] = env[tt[1]]
                elif ty.startswith("&") and "mut " in ty[:24]:
                    fs = self.recv_chains(f, env, a, b)
                    if fs:
                        e2[i + 1] = ("path", tuple(sorted(fs)))
                    else:
                        aty = strip_generics(deref_ty(f.locals[a[1][0]][0])) if len(a[1]) == 1 else None
                        if aty in self.p.adts and deref_ty(ty) not in self.p.adts:
                            e2[i + 1] = ("obj", aty)
        return e2

    # ------------------------------------------------------------------ what a &mut operand denotes
    def chains(self, f, env, l0, key0, depth=0):
        """access paths a place denotes: set of (root, chain); root = ('arg', i) | ('local',), chain = model fields"""
        out = set()
        if depth > 8:
            return out
        seen = set()
        st = [(l0, tuple(key0))]
        while st:
            l, key = st.pop()
            key = key[-5:]
            if (l, key) in seen or len(seen) > 200:
                continue
            seen.add((l, key))
            mf = tuple(k for k in key if self.model(k[0]))
            if 1 <= l <= f.argc:
                e = env.get(l)
                if e and e[0] == "path":
                    for c in e[1]:
                        out.add((("local",), (c + mf)[-4:]))
                else:
                    out.add((("arg", l), mf))
                continue
            progressed = False
            for d in f.defs[0].get(l, []):
                if d[2] == "r":
                    rv = d[3]
                    if rv[0] in ("ref", "refm"):
                        st.append((rv[1][0], fkey(rv[1][1:]) + key))
                        progressed = True
                    elif rv[0] == "use" and rv[1][0] in ("c", "m"):
                        st.append((rv[1][1][0], fkey(rv[1][1][1:]) + key))
                        progressed = True
                    elif rv[0] == "cast" and rv[2][0] in ("c", "m"):
                        st.append((rv[2][1][0], fkey(rv[2][1][1:]) + key))
                        progressed = True
                else:
                    t = d[3]
                    fx = t[1]
                    if not isinstance(fx, dict) or "ind" in fx or fx.get("ctor"):
                        continue
                    g = self.p.fns.get(fx.get("rid") or fx["id"])
                    if g is None and depth < 6 and env:
                        g = self.callee(f, env, t)
                    if g is not None:
                        if self.is_reader(g):
                            continue
                        for root, ch in self.ret_chains(g, depth + 1):
                            if root[0] == "arg" and root[1] - 1 < len(t[2]):
                                o = t[2][root[1] - 1]
                                if o[0] in ("c", "m"):
                                    st.append((o[1][0], fkey(o[1][1:]) + ch + mf))
                                    progressed = True
                        continue
                    if t[2] and t[2][0][0] in ("c", "m") and not fx.get("ctor"):
                        o = t[2][0]
                        if self.f_isref(f, l):
                            st.append((o[1][0], fkey(o[1][1:]) + mf))
                            progressed = True
            if not progressed and mf:
                out.add((("local",), mf[-4:]))
        return out

    def f_isref(self, f, l):
        ty = f.locals[l][0]
        return "&" in ty or "Entry" in ty or "Iter" in ty

    def recv_chains(self, f, env, op, b):
        if op[0] not in ("c", "m"):
            return set()
        return {c for r, c in self.chains(f, env, op[1][0], fkey(op[1][1:])) if c}

    def ret_chains(self, g, depth=0):
        r = self._ret.get(g.id)
        if r is None:
            self._ret[g.id] = frozenset()
            r = frozenset()
            if "&" in g.locals[0][0] or "Entry" in g.locals[0][0]:
                r = frozenset(self.chains(g, {}, 0, (), depth))
            self._ret[g.id] = r
        return r

    # ------------------------------------------------------------------ mutation summaries of plain functions
    def mutations(self, f, depth=0):
        """[(root, chain, how, leaves)] for stores made by a non-reader function; leaves are of f"""
        if f.id in self._mut:
            return self._mut[f.id]
        self._mut[f.id] = []
        if depth > 6:
            return []
        out = []
        for b in f.rpo():
            for s in f.bbs[b]["s"]:
                if s[0] == "=" and len(s[1]) > 1:
                    for root, ch in self.place_target(f, {}, s[1]):
                        lv = set()
                        for o in rv_ops(s[2]):
                            lv |= set(self.pv.leaves(f, o, b))
                        if s[2][0] == "agg" and s[2][1][0] == "adt" and not s[2][2]:
                            lv.add(("const", "e", (s[2][1][1], s[2][1][2])))
                        out.append((root, ch, "set", lv))
            t = f.bbs[b]["t"]
            if t[0] == "call":
                if len(t[3]) > 1:
                    for root, ch in self.place_target(f, {}, t[3]):
                        lv = {("via", cpath(t), None, b)}
                        for o in t[2]:
                            lv |= set(self.pv.leaves(f, o, b))
                        out.append((root, ch, "set", lv))
                for root, ch, how, ops in self.call_effects(f, b, t, depth + 1):
                    out.append((root, ch, how if not isinstance(how, tuple) else (how[0], self._oplv(f, how[1], b)), self._oplv(f, ops, b)))
        self._mut[f.id] = out
        return out

    def _oplv(self, f, ops, b):
        lv = set()
        for o in ops:
            if o[0] in ("c", "m", "k"):
                lv |= set(self.pv.leaves(f, o, b))
            else:
                lv.add(o[1])   # ('leaf', leaf)
        return lv

    def place_target(self, f, env, pl):
        """chains a store through a projected place hits"""
        return {(r, c) for r, c in self.chains(f, env, pl[0], fkey(pl[1:])) if c}

    def callee(self, f, env, t):
        """callee, resolving a trait method on a generic parameter by the caller's argument type"""
        fx = t[1]
        if not isinstance(fx, dict) or "ind" in fx:
            return None
        g = self.p.fns.get(fx.get("rid") or fx["id"])
        if g is None and "r" not in fx and t[2] and t[2][0][0] in ("c", "m"):
            impls = self.p.trait_impls(fx["fn"])
            if impls:
                for root, ch in self.chains(f, env, t[2][0][1][0], fkey(t[2][0][1][1:])):
                    if root[0] == "arg" and not ch:
                        e = env.get(root[1])
                        if e and e[0] == "obj":
                            for g2 in impls:
                                if g2.self_ty and strip_generics(g2.self_ty) == e[1]:
                                    return g2
                if len(impls) == 1:
                    return impls[0]
        return g

    def call_effects(self, f, b, t, depth=0, env=None):
        """[(root, chain, how, [operands of f | ('leaf', leaf)])]"""
        env = env or {}
        fx = t[1]
        if not isinstance(fx, dict) or "ind" in fx:
            return []
        path = fx.get("r") or fx["fn"]
        nm = path.rsplit("::", 1)[-1]
        g = self.callee(f, env, t)
        if g is not None:
            if self.is_reader(g) or not g.mutates:
                return []
            if g.name in ("set_attr", "push_attr", "add_attr") and "AttrMap2" in g.path:
                own = self.chains(f, env, t[2][0][1][0], fkey(t[2][0][1][1:])) if t[2][0][0] in ("c", "m") else set()
                own = own or {(("local",), (("AttrMap2", "", "?"),))}
                return [(r, c, ("attr", [t[2][1]]), [t[2][2]] if len(t[2]) > 2 else []) for r, c in own]
            res = []
            for root, ch, how, lv in self.mutations(g, depth):
                ops = []
                for leaf in lv:
                    if leaf[0] == "arg" and leaf[1] - 1 < len(t[2]):
                        ops.append(t[2][leaf[1] - 1])
                    elif leaf[0] in ("const", "field", "via"):
                        ops.append(("leaf", leaf))
                if isinstance(how, tuple):
                    kops = []
                    for leaf in how[1]:
                        if leaf[0] == "arg" and leaf[1] - 1 < len(t[2]):
                            kops.append(t[2][leaf[1] - 1])
                        elif leaf[0] == "const":
                            kops.append(("leaf", leaf))
                    how = (how[0], kops)
                if root[0] == "arg":
                    if root[1] - 1 < len(t[2]) and t[2][root[1] - 1][0] in ("c", "m"):
                        o = t[2][root[1] - 1]
                        rs = self.chains(f, env, o[1][0], fkey(o[1][1:]))
                        if not rs:
                            rs = {(("local",), ())}
                        for r2, c2 in rs:
                            res.append((r2, (c2 + ch)[-4:], how, ops))
                    continue
                # a store into a value local to the callee: effect only if it escapes; keep it visible
                res.append((("local",), ch, how, ops))
            return res
        if nm in self.STD_MUT and t[2] and t[2][0][0] in ("c", "m"):
            o = t[2][0]
            cs = self.chains(f, env, o[1][0], fkey(o[1][1:]))
            return [(r, c, nm, list(t[2][1:])) for r, c in cs if c or r[0] == "arg"]
        return []

    # ------------------------------------------------------------------ exploration
    def explore(self, f, env, chain=()):
        key = (f.id, self.envkey(env))
        if key in self.seen:
            return
        self.seen[key] = chain
        if len(chain) > 14:
            return
        self.fns.add(f.id)
        chain = chain + (f.name,)
        for b in f.rpo():
            bb = f.bbs[b]
            for s in bb["s"]:
                if s[0] != "=":
                    continue
                pl, rv = s[1], s[2]
                if len(pl) > 1:
                    for _, tgt in self.place_target(f, env, pl):
                        self.add(f, env, b, tgt, "set", rv_ops(rv), s[3], chain, rv)
                if rv[0] == "agg" and rv[1][0] == "adt" and self.model(rv[1][1]):
                    for n, o in zip(rv[1][3], rv[2]):
                        self.add(f, env, b, ((rv[1][1], rv[1][2], n),), "new", [o], s[3], chain)
            t = bb["t"]
            if t[0] != "call":
                continue
            fx = t[1]
            if not isinstance(fx, dict) or "ind" in fx:
                continue
            self.calls += 1
            if fx.get("ctor"):
                agg = f.term_call(t, False)
                if self.model(agg[1]):
                    for (n, _), o in zip(agg[3], t[2]):
                        self.add(f, env, b, ((agg[1], agg[2], n),), "new", [o], t[5], chain)
            if len(t[3]) > 1:
                for _, tgt in self.place_target(f, env, t[3]):
                    self.add(f, env, b, tgt, "set", [("call", t)], t[5], chain)
            for _, tg, how, ops in self.call_effects(f, b, t, 0, env):
                if tg:
                    self.add(f, env, b, tg, how, ops, t[5], chain)
            fid = fx.get("rid") or fx["id"]
            g = self.p.fns.get(fid)
            targets = []
            if g is not None and self.is_reader(g):
                targets.append(g)
            for cl in fx.get("cl", []):
                c = self.p.fns.get(cl)
                if c is not None and c is not g and self.is_reader(c):
                    targets.append(c)
            for g in targets:
                e2 = self.call_env(f, env, g, t, b)
                self.visits.append((f, env, b, g, e2))
                self.explore(g, e2, chain)

    def add(self, f, env, b, tgt, how, ops, line, chain, rv=None):
        srcs, via = set(), set()
        for o in ops:
            if o[0] == "leaf":
                self.resolve_leaf(f, env, o[1], {(b,)}, srcs, via, 0)
            elif o[0] == "call":
                t = o[1]
                path = cpath(t)
                g = self.p.fns.get((t[1].get("rid") or t[1]["id"]))
                if g is not None and self.is_reader(g):
                    self.resolve_leaf(f, env, ("call", path, g.id, b, ()), {(b,)}, srcs, via, 0)
                elif path.rsplit("::", 1)[-1] in DECODE:
                    self.resolve_leaf(f, env, ("decode", "", b), {(b,)}, srcs, via, 0)
                else:
                    via.add(path)
                    for a in t[2]:
                        s2, v2 = self.resolve(f, env, a, b)
                        srcs |= s2
                        via |= v2
            else:
                s2, v2 = self.resolve(f, env, o, b)
                srcs |= s2
                via |= v2
        if rv is not None and rv[0] == "agg" and rv[1][0] == "adt" and not rv[2]:
            srcs.add(("const", str((rv[1][1], rv[1][2]))))
        if isinstance(how, tuple):
            ks = set()
            for o in how[1]:
                if o[0] == "leaf":
                    self.resolve_leaf(f, env, o[1], {(b,)}, ks, set(), 0)
                else:
                    ks |= self.resolve(f, env, o, b)[0]
            how = ("attr", frozenset(ks))
        nf, kf, vf, an = self.bfacts(f, b)
        tags = set()
        for i, e in env.items():
            if e[0] in ("tag", "attr"):
                tags |= set(an.get(i, e[1]))
        self.effects.append(Effect(target=tgt[-1], path=tgt, how=how, srcs=frozenset(srcs), via=frozenset(via), elems=nf, kinds=vf, keys=kf, tags=frozenset(tags),
                                   fn=f, line=line, chain=chain, block=b, env=env))


def cpath(t):
    fx = t[1]
    if not isinstance(fx, dict) or "ind" in fx:
        return "?"
    return fx.get("r") or fx["fn"]


def rv_ops(rv):
    k = rv[0]
    if k == "use":
        return [rv[1]]
    if k in ("ref", "refm", "discr"):
        return [("c", rv[1])]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return list(rv[2])
    if k == "rep":
        return [rv[1]]
    return []


def evkinds(t):
    ks = set()

    def v(x):
        if x[0] == "field" and x[1] == "quick_xml::events::Event":
            ks.add(x[2])
            return False
    walk(t, v)
    return ks


ROOTS = ("read_ods_impl", "read_ods_impl_content_only", "read_fods_impl", "read_fods_impl_content_only")


def reader_roots(p):
    """entry functions of the XML reader: those that create the read context"""
    out = []
    for n in ROOTS:
        out += p.byname.get(n, [])
    return out
