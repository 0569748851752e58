"""Program model over the extracted facts: CFG, value terms (def-use provenance), path facts.

Terms are nested tuples:
  ('arg', i)                               i-th parameter (1-based)
  ('const', kind, value)                   kind in s,b,i,bool,c,f,e,a,t,adt,z,fn,?
  ('field', owner, variant, name, base)    owner = ADT path, '(tuple)' or '(closure)id'
  ('call', path, id, args, generics)
  ('agg', path, variant, ((fname, term), ...))     path '(tuple)', '(array)', '(closure)id'
  ('phi', (t1, t2, ...))                   value of a multiply assigned local
  ('under', facts, term)                   alternative valid under path facts
  ('bin', op, a, b) ('un', op, a) ('cast', ty, a) ('discr', base) ('idx', base, i)
  ('slice', base) ('loop', local) ('undef', local) ('rt',)
References and dereferences are transparent.
"""
import json
from collections import defaultdict, deque

STD = ("std::", "core::", "alloc::")


def const_term(k):
    if "f" in k and isinstance(k["f"], dict):
        f = k["f"]
        return ("const", "fn", (f.get("r") or f["fn"], f.get("rid") or f["id"]))
    if "inner" in k:
        return const_term(k["inner"])
    v = k.get("v")
    return const_val(v, k)


def const_val(v, k=None):
    if v is None:
        return ("const", "?", (k or {}).get("def") or (k or {}).get("ty") or "?")
    for key in ("s", "b", "i", "bool", "c", "f"):
        if key in v and "adt" not in v:
            return ("const", key, v[key])
    if "e" in v:
        return ("const", "e", (v["e"], v["v"]))
    if "a" in v:
        return ("const", "a", tuple(const_val(x) for x in v["a"]))
    if "t" in v:
        return ("const", "t", tuple(const_val(x) for x in v["t"]))
    if "adt" in v:
        return ("const", "adt", (v["adt"], tuple((n, const_val(x)) for n, x in v["f"].items())))
    if "z" in v:
        return ("const", "z", (k or {}).get("ty", ""))
    if "raw" in v:
        return ("const", "raw", v["raw"])
    return ("const", "?", "?")


class Fn:
    def __init__(self, prog, d):
        self.prog = prog
        self.d = d
        self.id = d["id"]
        self.path = d["path"]
        self.name = d["name"] or d["path"].rsplit("::", 1)[-1]
        self.file = d["file"]
        self.line = d["line"]
        self.kind = d["kind"]
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.bbs = d["bbs"]
        self.self_ty = d.get("self")
        self.trait = d.get("trait")
        self.vis = d.get("vis")
        self.sig = d.get("sig", [])
        self._defs = None
        self._memo = {}
        self._facts = None
        self._preds = None
        self._calls = None
        self._inprog = set()

    @property
    def mutates(self):
        """takes a mutable reference: its result is not a pure function of its argument terms"""
        return any(self.locals[i][0].startswith("&") and "mut " in self.locals[i][0].split("<")[0][:24] for i in range(1, self.argc + 1))

    # ------------------------------------------------------------------ CFG
    def succs(self, b):
        t = self.bbs[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "sw":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    @property
    def reachable(self):
        if not hasattr(self, "_reach"):
            seen = {0}
            st = [0]
            while st:
                b = st.pop()
                for s in self.succs(b):
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            self._reach = seen
        return self._reach

    @property
    def preds(self):
        if self._preds is None:
            p = defaultdict(list)
            for b in self.reachable:
                for s in self.succs(b):
                    p[s].append(b)
            self._preds = p
        return self._preds

    def rpo(self):
        if hasattr(self, "_rpo"):
            return self._rpo
        order = []
        seen = set()
        st = [(0, iter(self.succs(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self._rpo = order
        return order

    @property
    def idom(self):
        if not hasattr(self, "_idom"):
            order = self.rpo()
            num = {b: i for i, b in enumerate(order)}
            pred = defaultdict(list)
            for b in order:
                for s in self.succs(b):
                    pred[s].append(b)
            d = {order[0]: order[0]}
            changed = True
            while changed:
                changed = False
                for b in order[1:]:
                    new = None
                    for x in pred[b]:
                        if x not in d:
                            continue
                        if new is None:
                            new = x
                        else:
                            y = x
                            while y != new:
                                while num[y] > num[new]:
                                    y = d[y]
                                while num[new] > num[y]:
                                    new = d[new]
                    if new is not None and d.get(b) != new:
                        d[b] = new
                        changed = True
            self._idom = d
        return self._idom

    def dominates(self, a, b):
        d = self.idom
        while b in d:
            if b == a:
                return True
            if d[b] == b:
                return False
            b = d[b]
        return False

    # ------------------------------------------------------------------ defs
    @property
    def defs(self):
        if self._defs is None:
            whole = defaultdict(list)
            part = defaultdict(list)
            for b in self.reachable:
                bb = self.bbs[b]
                for i, s in enumerate(bb["s"]):
                    if s[0] == "=":
                        pl = s[1]
                        if len(pl) == 1:
                            whole[pl[0]].append((b, i, "r", s[2]))
                        else:
                            part[pl[0]].append((b, i, "r", s[2], pl[1:]))
                t = bb["t"]
                if t[0] == "call":
                    pl = t[3]
                    if len(pl) == 1:
                        whole[pl[0]].append((b, len(bb["s"]), "c", t))
                    else:
                        part[pl[0]].append((b, len(bb["s"]), "c", t, pl[1:]))
            self._defs = (whole, part)
        return self._defs

    def term_place(self, pl, guarded=True):
        # leading struct projections may be assigned field-wise
        base = self.term_local(pl[0], guarded)
        projs = pl[1:]
        part = self.defs[1].get(pl[0])
        alts = []
        if part:
            want = proj_key(projs)
            for d in part:
                key = proj_key(d[4])
                if key and want[: len(key)] == key:
                    v = self.term_def(d, guarded)
                    rest = projs_after(projs, d[4])
                    v = self.apply_projs(v, rest, guarded)
                    alts.append(self.guard(d[0], v, guarded))
        t = self.apply_projs(base, projs, guarded)
        if alts:
            if not (t[0] == "undef" or (t[0] == "field" and t[4][0] == "undef")):
                alts = [t] + alts
            return mkphi(alts)
        return t

    def apply_projs(self, t, projs, guarded):
        for p in projs:
            k = p[0]
            if k == "*" or k == "as":
                continue
            if k == ".":
                t = mkfield(p[1], p[2], p[3], t)
            elif k == "[]":
                t = ("idx", t, self.term_local(p[1], guarded))
            elif k == "ci":
                t = ("idx", t, ("const", "i", -p[1] if p[3] else p[1]))
            elif k == "ss":
                t = ("slice", t)
            else:
                t = ("field", "?", "", "?", t)
        return t

    def term_op(self, op, guarded=True):
        if op[0] in ("c", "m"):
            return self.term_place(op[1], guarded)
        if op[0] == "k":
            return const_term(op[1])
        return ("rt",)

    def term_rv(self, rv, guarded):
        k = rv[0]
        if k == "use":
            return self.term_op(rv[1], guarded)
        if k in ("ref", "refm"):
            return self.term_place(rv[1], guarded)
        if k == "cast":
            t = self.term_op(rv[2], guarded)
            if "PointerCoercion" in rv[1] or "Transmute" in rv[1] or "PtrToPtr" in rv[1]:
                return t
            return ("cast", rv[3], t)
        if k == "bin":
            return ("bin", rv[1], self.term_op(rv[2], guarded), self.term_op(rv[3], guarded))
        if k == "un":
            return ("un", rv[1], self.term_op(rv[2], guarded))
        if k == "discr":
            return ("discr", self.term_place(rv[1], guarded))
        if k == "agg":
            kk = rv[1]
            if kk[0] == "adt":
                return ("agg", kk[1], kk[2], tuple((n, self.term_op(o, guarded)) for n, o in zip(kk[3], rv[2])))
            ops = tuple((str(i), self.term_op(o, guarded)) for i, o in enumerate(rv[2]))
            if kk[0] == "tuple":
                return ("agg", "(tuple)", "", ops)
            if kk[0] == "closure":
                return ("agg", "(closure)" + kk[1], "", ops)
            return ("agg", "(array)", "", ops)
        if k == "rep":
            return ("agg", "(array)", "", (("0", self.term_op(rv[1], guarded)),))
        return ("other",)

    def term_call(self, t, guarded):
        f = t[1]
        args = tuple(self.term_op(a, guarded) for a in t[2])
        if f is not None and f.get("fn", "").endswith("::box_assume_init_into_vec_unsafe"):
            v = self.boxed_array(t[2][0], guarded)
            if v is not None:
                args = (v,)
        if f is None:
            return ("call", "?", "?", args, ())
        if "ind" in f:
            return ("call", "(indirect)", "?", (self.term_op(f["ind"], guarded),) + args, ())
        if f.get("ctor"):
            of = f["of"]
            return mkctor(self.prog, f["fn"], of, args)
        return ("call", f.get("r") or f["fn"], f.get("rid") or f["id"], args, tuple(f.get("g", ())))

    def boxed_array(self, op, guarded):
        """the array of a vec![...]: what is put through the pointer of the box"""
        if op[0] not in ("c", "m"):
            return None
        ls = {op[1][0]}
        for _ in range(3):
            for l in list(ls):
                for (b, i, k, d) in self.defs[0].get(l, []):
                    if k == "r" and d[0] == "use" and d[1][0] in ("c", "m"):
                        ls.add(d[1][1][0])
        ptr = set(ls)
        for l, ds in self.defs[0].items():
            for (b, i, k, d) in ds:
                if k == "r" and d[0] == "cast" and d[2][0] in ("c", "m") and d[2][1][0] in ls:
                    ptr.add(l)
        found = None
        for b in self.bbs:
            for s in b["s"]:
                if s[0] == "=" and s[1][0] in ptr and len(s[1]) > 1 and s[2][0] == "agg":
                    if found is not None:
                        return None
                    found = s[2]
        return None if found is None else self.term_rv(found, guarded)

    def term_def(self, d, guarded):
        if d[2] == "r":
            return self.term_rv(d[3], guarded)
        return self.term_call(d[3], guarded)

    def guard(self, b, t, guarded):
        if not guarded:
            return t
        g = self.guard_facts(b)
        if g:
            return ("under", g, t)
        return t

    def guard_facts(self, b):
        f = self.facts.get(b)
        if not f:
            return ()
        out = []
        for subj, vals in f.items():
            if vals and all(v[0] == "str" for v in vals):
                out.append((subj, vals))
            elif vals and all(v[0] == "var" for v in vals):
                if any(v[1] in ("Ok", "Err", "Continue", "Break") for v in vals):
                    continue
                out.append((subj, vals))
        return tuple(sorted(out, key=repr))

    def term_local(self, l, guarded=True):
        key = (l, guarded)
        if key in self._memo:
            return self._memo[key]
        if key in self._inprog:
            return ("loop", l)
        self._inprog.add(key)
        try:
            ds = self.defs[0].get(l, [])
            alts = []
            if 1 <= l <= self.argc:
                alts.append(("arg", l))
            multi = len(ds) + len(alts) > 1
            for d in ds:
                t = self.term_def(d, guarded)
                if multi:
                    t = self.guard(d[0], t, guarded)
                alts.append(t)
            if not alts:
                # assigned field by field?
                part = self.defs[1].get(l)
                if part:
                    fs = []
                    for d in part:
                        if len(d[4]) >= 1 and d[4][-1][0] == ".":
                            fs.append((d[4][-1][3], self.term_def(d, guarded)))
                    r = ("agg", "(partial)", "", tuple(fs)) if fs else ("undef", l)
                else:
                    r = ("undef", l)
            else:
                r = mkphi(alts)
        finally:
            self._inprog.discard(key)
        if not self._inprog or not contains_loop(r):
            self._memo[key] = r
        return r

    def ret_term(self, guarded=True):
        return self.term_local(0, guarded)

    # ------------------------------------------------------------------ path facts
    @property
    def facts(self):
        """block -> {subject term: frozenset of values}; values: ('var',name) ('str',s) ('bool',b) ('int',i)"""
        if self._facts is None:
            self._facts = {}  # re-entrancy: unguarded during computation
            self._facts = compute_facts(self)
        return self._facts

    def edge_facts(self, b):
        """list of (succ, {subj: values}) refinements contributed by the terminator of b"""
        return edge_refinements(self, b)

    # ------------------------------------------------------------------ control dependence
    def ok_succs(self, b):
        """successors without the error exits of `?`"""
        r = self._oks.get(b) if hasattr(self, "_oks") else None
        if r is not None:
            return r
        if not hasattr(self, "_oks"):
            self._oks = {}
        ss = self.succs(b)
        t = self.bbs[b]["t"]
        if t[0] == "sw":
            ss = [x for x in ss if self.bbs[x]["t"][0] != "unr"] or ss
            for s, subj, val in self.edges_of(b):
                if val in (("var", "Break"), ("var", "Err")) and subj is not None and (val[1] == "Break" or self.err_only(s)):
                    ss = [x for x in ss if x != s] or ss
        self._oks[b] = ss
        return ss

    def err_only(self, b):
        """the block only leads to a return (no loop back, no further branching on data)"""
        n = 0
        while n < 12:
            n += 1
            t = self.bbs[b]["t"]
            if t[0] == "ret":
                return True
            ss = self.succs(b)
            if len(ss) != 1:
                return False
            b = ss[0]
        return False

    def edges_of(self, b):
        if not hasattr(self, "_edges"):
            self._edges = {}
        r = self._edges.get(b)
        if r is None:
            r = self._edges[b] = edge_refinements(self, b)
        return r

    @property
    def ctrl(self):
        """block -> set of (branch block, successor) it is directly control dependent on"""
        if hasattr(self, "_ctrl"):
            return self._ctrl
        nodes = set()
        st = [0]
        while st:
            b = st.pop()
            if b in nodes:
                continue
            nodes.add(b)
            st.extend(self.ok_succs(b))
        EXIT = -1
        succ = {b: [s for s in dict.fromkeys(self.ok_succs(b)) if s in nodes] or [EXIT] for b in nodes}
        order = [b for b in self.rpo() if b in nodes]
        pred = defaultdict(list)
        for b in nodes:
            for s in succ[b]:
                pred[s].append(b)
        # nodes that cannot reach EXIT (infinite loops): connect
        reach = {EXIT}
        st = [EXIT]
        while st:
            x = st.pop()
            for p_ in pred[x]:
                if p_ not in reach:
                    reach.add(p_)
                    st.append(p_)
        for b in order[::-1]:
            if b not in reach:
                succ[b] = succ[b] + [EXIT]
                pred[EXIT].append(b)
                st = [b]
                reach.add(b)
                while st:
                    x = st.pop()
                    for p_ in pred[x]:
                        if p_ not in reach:
                            reach.add(p_)
                            st.append(p_)
        # post order on the reverse graph
        seen = {EXIT}
        po = []
        stack = [(EXIT, iter(pred[EXIT]))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(pred[s])))
                    break
            else:
                po.append(b)
                stack.pop()
        num = {b: i for i, b in enumerate(po)}
        ip = {EXIT: EXIT}
        changed = True
        while changed:
            changed = False
            for b in reversed(po):
                if b == EXIT:
                    continue
                new = None
                for s in succ[b]:
                    if s in ip:
                        if new is None:
                            new = s
                        else:
                            x, y = s, new
                            while x != y:
                                while num[x] < num[y]:
                                    x = ip[x]
                                while num[y] < num[x]:
                                    y = ip[y]
                            new = x
                if new is not None and ip.get(b) != new:
                    ip[b] = new
                    changed = True
        cd = defaultdict(set)
        for u in nodes:
            if len(succ[u]) > 1 and u in ip:
                for v in succ[u]:
                    x = v
                    n = 0
                    while x != ip[u] and x != EXIT and n < 5000:
                        cd[x].add((u, v))
                        x = ip.get(x, EXIT)
                        n += 1
        self._ctrl = cd
        self._ipdom = ip
        return cd

    def ctrl_branches(self, b):
        """transitive: {branch block: set of successors taken}"""
        k = ("cb", b)
        if not hasattr(self, "_cb"):
            self._cb = {}
        r = self._cb.get(b)
        if r is None:
            r = defaultdict(set)
            seen = set()
            st = [b]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                for u, v in self.ctrl.get(x, ()):
                    if u != x and self.dominates(x, u):
                        # decides whether the loop goes on after x
                        continue
                    r[u].add(v)
                    st.append(u)
            self._cb[b] = r
        return r

    def ctrl_guards(self, b):
        """conditions block b is (transitively) control dependent on: {subject: values}"""
        if not hasattr(self, "_cg"):
            self._cg = {}
        r = self._cg.get(b)
        if r is not None:
            return r
        out = {}
        for u, vs in sorted(self.ctrl_branches(b).items()):
            er = self.edges_of(u)
            subj = None
            vals = set()
            other = set()
            for s, sj, val in er:
                if sj is None:
                    continue
                subj = sj
                vv = set(val[1]) if val[0] == "set" else {val}
                if s in vs:
                    vals |= vv
                else:
                    other |= vv
            if subj is None:
                continue
            if not vals:
                # otherwise-branch of an integer / byte test
                vals = {("not", x) for x in other}
            if subj in out:
                prev = out[subj]
                out[subj] = frozenset(vals & prev) or frozenset(vals | prev)
            else:
                out[subj] = frozenset(vals)
        self._cg[b] = out
        return out

    # ------------------------------------------------------------------ calls
    @property
    def calls(self):
        """list of (bb, callee path, callee id, arg operands, terminator)"""
        if self._calls is None:
            out = []
            for b in self.rpo():
                t = self.bbs[b]["t"]
                if t[0] == "call":
                    f = t[1]
                    if f is None or "ind" in f:
                        out.append((b, "(indirect)", None, t[2], t))
                    else:
                        out.append((b, f.get("r") or f["fn"], f.get("rid") or f["id"], t[2], t))
            self._calls = out
        return self._calls

    def loc(self, line=None):
        return "%s:%s" % (self.file, line if line is not None else self.line)

    def __repr__(self):
        return "<Fn %s>" % self.path


def proj_key(projs):
    return tuple((p[1], p[3]) for p in projs if p[0] == ".")


def projs_after(projs, done):
    n = len(proj_key(done))
    i = 0
    out = list(projs)
    while n > 0 and i < len(out):
        if out[i][0] == ".":
            n -= 1
        i += 1
    return out[i:]


def contains_loop(t):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == "loop":
        return True
    return any(contains_loop(x) for x in t if isinstance(x, tuple))


def mkphi(alts):
    flat = []
    for a in alts:
        if a[0] == "phi":
            flat.extend(a[1])
        else:
            flat.append(a)
    seen = []
    ss = set()
    for a in flat:
        if a not in ss:
            ss.add(a)
            seen.append(a)
    if len(seen) > 1:
        seen = [a for a in seen if a[0] != "loop"] or seen
    if len(seen) == 1:
        return seen[0]
    return ("phi", tuple(seen))


def mkfield(owner, variant, name, base):
    if base[0] == "agg":
        if base[1] == owner and (not variant or base[2] == variant):
            for n, t in base[3]:
                if n == name:
                    return t
        elif owner.startswith("(tuple)") and base[1] == "(tuple)":
            for n, t in base[3]:
                if n == name:
                    return t
        elif base[1] == "(partial)":
            for n, t in base[3]:
                if n == name:
                    return t
        elif base[1] == owner and variant and base[2] != variant:
            return ("never",)
    if base[0] == "const" and base[1] == "t" and owner == "(tuple)":
        try:
            return base[2][int(name)]
        except Exception:
            pass
    if base[0] == "phi":
        al = [mkfield(owner, variant, name, a) for a in base[1]]
        al2 = [a for a in al if a != ("never",)]
        if al2 and len(al2) <= 40:
            return mkphi(al2)
    if base[0] == "under":
        t = mkfield(owner, variant, name, base[2])
        if t == ("never",):
            return t
        return ("under", base[1], t)
    return ("field", owner, variant, name, base)


def mkctor(prog, fnpath, of, args):
    # enum variant ctor: of = path of the variant (Enum::Variant); struct ctor: of = struct path
    fields = None
    if of in prog.adts:
        fields = [f[0] for f in prog.adts[of]["variants"][0]["fields"]]
        return ("agg", of, "", tuple(zip(fields, args)))
    if "::" in of:
        e, v = of.rsplit("::", 1)
        if e in prog.adts:
            return ("agg", e, v, tuple((str(i), a) for i, a in enumerate(args)))
        return ("agg", e, v, tuple((str(i), a) for i, a in enumerate(args)))
    return ("agg", of, "", tuple((str(i), a) for i, a in enumerate(args)))


# ---------------------------------------------------------------------- facts
EQ_NAMES = ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")


def const_str(t):
    """constant string/bytes value of a term, or None"""
    if t[0] == "const":
        if t[1] in ("s", "b"):
            return t[2]
    return None


def cond_of(fn, op, depth=0):
    """Normalise a boolean operand into (subject, value-if-true, polarity) or None."""
    t = fn.term_op(op, False)
    return cond_term(t)


def undiscr(t):
    if t[0] == "discr":
        return t[1]
    if t[0] == "call" and "discriminant_value" in t[1] and t[3]:
        return t[3][0]
    return t


def cond_term(t, pol=True):
    while True:
        if t[0] == "un" and t[1] == "Not":
            pol = not pol
            t = t[2]
            continue
        break
    if t[0] == "call":
        p = t[1]
        nm = p.rsplit("::", 1)[-1]
        if nm in ("eq", "ne") and len(t[3]) == 2:
            if nm == "ne":
                pol = not pol
            a, b = t[3]
            for x, y in ((a, b), (b, a)):
                s = const_str(y)
                if s is not None:
                    return (strip(x), ("str", s), pol)
                if y[0] == "const" and y[1] == "e":
                    return (strip(x), ("var", y[2][1]), pol)
                if y[0] == "agg" and y[2] and not y[3]:
                    return (strip(x), ("var", y[2]), pol)
                if y[0] == "const" and y[1] == "i":
                    return (strip(x), ("int", y[2]), pol)
            return (("eq", strip(a), strip(b)), ("bool", True), pol)
        if nm in ("is_some", "is_none") and t[3]:
            return (strip(t[3][0]), ("var", "Some"), pol if nm == "is_some" else not pol)
        if nm in ("is_ok", "is_err") and t[3]:
            return (strip(t[3][0]), ("var", "Ok"), pol if nm == "is_ok" else not pol)
        return (strip(t), ("bool", True), pol)
    if t[0] == "bin":
        op, a, b = t[1], t[2], t[3]
        if op in ("Eq", "Ne"):
            if op == "Ne":
                pol = not pol
            # derived PartialEq of a field-less enum: discriminant(a) == discriminant(b)
            a, b = undiscr(a), undiscr(b)
            for x, y in ((a, b), (b, a)):
                if y[0] == "const" and y[1] == "e":
                    return (strip(x), ("var", y[2][1]), pol)
                if y[0] == "agg" and y[2] and not y[3]:
                    return (strip(x), ("var", y[2]), pol)
            for x, y in ((a, b), (b, a)):
                if y[0] == "const" and y[1] == "i":
                    # PtrMetadata(slice) == n : length test of a byte pattern
                    if x[0] == "un" and x[1] == "PtrMetadata":
                        return (strip(x[2]), ("len", y[2]), pol)
                    return (strip(x), ("int", y[2]), pol)
                if y[0] == "const" and y[1] in ("c", "bool"):
                    return (strip(x), (y[1], y[2]), pol)
            return (("eq", strip(a), strip(b)), ("bool", True), pol)
        flip = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}
        neg = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}
        if op in flip:
            a, b = strip(a), strip(b)
            # canonical: Gt / Ge only
            if op in ("Lt", "Le"):
                op, a, b = flip[op], b, a
            if op == "Ge":
                # a >= b  ==  !(b > a)
                return (("gt", b, a), ("bool", True), not pol)
            return (("gt", a, b), ("bool", True), pol)
        return (strip(t), ("bool", True), pol)
    return (strip(t), ("bool", True), pol)


TRANSPARENT = {
    "as_ref", "as_mut", "as_str", "as_deref", "as_deref_mut", "deref", "deref_mut", "borrow", "clone",
    "to_owned", "into_inner", "as_slice", "as_bytes", "borrow_mut", "as_mut_slice", "cloned", "copied",
}


def strip(t):
    """Remove value-preserving wrappers so that equal subjects have equal terms."""
    while True:
        if t[0] == "under":
            t = t[2]
            continue
        if t[0] == "call" and len(t[3]) == 1:
            nm = t[1].rsplit("::", 1)[-1]
            if nm in TRANSPARENT and is_std(t[1]):
                t = t[3][0]
                continue
            if nm == "branch" and "Try" in t[1]:
                t = t[3][0]
                continue
        return t


def is_std(p):
    p = p.lstrip("<&")
    return p.startswith(STD) or p.startswith("quick_xml") or p.startswith("str") or p.startswith("[")


def variant_names(fn, place):
    """discriminant value -> variant name for the type of a place (by term owner)."""
    return None


def edge_refinements(fn, b):
    t = fn.bbs[b]["t"]
    if t[0] != "sw":
        return []
    op = t[1]
    out = []
    # 1. direct byte-pattern test: switch on slice[ci]
    if op[0] in ("c", "m"):
        pl = op[1]
        if pl[-1:] and isinstance(pl[-1], list) and pl[-1][0] == "ci" and not pl[-1][3]:
            base = strip(fn.term_place(pl[:-1], False))
            for v, s in t[2]:
                out.append((s, base, ("byte", pl[-1][1], v)))
            out.append((t[3], None, None))
            return out
    term = fn.term_op(op, False)
    if term[0] == "discr":
        subj = strip(term[1])
        names = fn.prog.discr_names(fn, op)
        seen = []
        for v, s in t[2]:
            n = names.get(v) if names else None
            nm = ("var", n if n is not None else "#%d" % v)
            out.append((s, subj, nm))
            seen.append(nm)
        if names:
            rest = [("var", n) for v, n in names.items() if ("var", n) not in seen]
            if fn.bbs[t[3]]["t"][0] != "unr" and rest:
                out.append((t[3], subj, ("set", frozenset(rest))))
        return out
    ty = None
    if op[0] in ("c", "m") and len(op[1]) == 1:
        ty = fn.locals[op[1][0]][0]
    is_bool = ty == "bool" or term[0] in ("bin", "un") or (t[2] and len(t[2]) == 1 and t[2][0][0] == 0 and ty in (None, "bool"))
    if is_bool and len(t[2]) == 1 and t[2][0][0] == 0:
        c = cond_term(term)
        subj, val, pol = c
        ff, tt = t[2][0][1], t[3]
        if not pol:
            ff, tt = tt, ff
        if val[0] == "bool":
            out.append((tt, subj, ("bool", val[1])))
            out.append((ff, subj, ("bool", not val[1])))
        elif val == ("var", "Some"):
            out.append((tt, subj, val))
            out.append((ff, subj, ("var", "None")))
        elif val == ("var", "Ok"):
            out.append((tt, subj, val))
            out.append((ff, subj, ("var", "Err")))
        else:
            out.append((tt, subj, val))
            out.append((ff, subj, ("not", val)))
        return out
    subj = strip(term)
    for v, s in t[2]:
        if ty == "char":
            out.append((s, subj, ("c", chr(v))))
        else:
            out.append((s, subj, ("int", v)))
    out.append((t[3], None, None))
    return out


MAXALT = 64


def refine(state, subj, val):
    """state: {subj: frozenset(values)}; returns new state or None when contradictory."""
    if subj is None or val is None:
        return state
    cur = state.get(subj)
    if val[0] == "byte":
        _, i, v = val
        base = [x for x in (cur or [("pat", None, ())]) if x[0] == "pat"] or [("pat", None, ())]
        nv = set()
        for p in base:
            d = dict(p[2])
            if i in d and d[i] != v:
                continue
            d[i] = v
            nv.add(mkpat(p[1], d))
        if not nv:
            return None
        ns = dict(state)
        ns[subj] = frozenset(nv)
        return ns
    if val[0] == "len":
        n = val[1]
        if cur and all(x[0] in ("pat", "str") for x in cur):
            nv = set()
            for p in cur:
                if p[0] == "str":
                    if len(p[1]) == n:
                        nv.add(p)
                elif p[1] is None or p[1] == n:
                    nv.add(mkpat(n, dict(p[2])))
            if not nv:
                return None
        else:
            nv = {mkpat(n, {})}
        ns = dict(state)
        ns[subj] = frozenset(nv)
        return ns
    if val[0] == "not":
        inner = val[1]
        if cur and inner in cur and not any(x[0] == "pat" for x in cur):
            nv = frozenset(x for x in cur if x != inner)
            if not nv:
                return None
            ns = dict(state)
            ns[subj] = nv
            return ns
        return state
    if val[0] == "set":
        nv = val[1]
        if cur and all(x[0] == "var" for x in cur):
            nv = nv & cur
            if not nv:
                return None
        ns = dict(state)
        ns[subj] = frozenset(nv)
        return ns
    if cur:
        if all(x[0] == val[0] for x in cur):
            if val not in cur:
                return None
        elif all(x[0] in ("pat", "str") for x in cur) and val[0] == "str":
            if not any(pat_ok(x, val[1]) for x in cur):
                return None
    ns = dict(state)
    ns[subj] = frozenset([val])
    return ns


def pat_ok(x, s):
    if x[0] == "str":
        return x[1] == s
    if x[1] is not None and x[1] != len(s):
        return False
    return all(i < len(s) and ord(s[i]) == v for i, v in x[2])


def mkpat(n, d):
    if n is not None and len(d) == n:
        return ("str", "".join(chr(d[i]) for i in range(n)))
    return ("pat", n, tuple(sorted(d.items())))


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    out = {}
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            continue
        u = v | w
        if v and w and {x[0] for x in u} == {"bool"} and len(u) == 2:
            continue
        if len(u) > MAXALT:
            continue
        out[k] = u
    return out


def killed_locals(t, out):
    if isinstance(t, tuple):
        if t and t[0] == "loop":
            out.add(t[1])
        for x in t:
            if isinstance(x, tuple):
                killed_locals(x, out)


def subj_has_multi(fn, subj):
    return False


def compute_facts(fn):
    """Forward dataflow of path restrictions. A subject whose value may be re-assigned (event of the
    next loop iteration, re-bound local) is dropped when one of its defining blocks is re-entered."""
    n = len(fn.bbs)
    # subjects are terms; record for every subject the set of call-result blocks/defs it depends on
    subj_defs = {}
    edges = {}
    subj_locals = {}
    for b in fn.reachable:
        if fn.bbs[b]["t"][0] == "sw":
            edges[b] = edge_refinements(fn, b)
    # locals read by a switch: (used to kill on redefinition)
    deps = {}
    for b in edges:
        t = fn.bbs[b]["t"]
        locs = deps_of_operand(fn, t[1])
        for (_, subj, _) in edges[b]:
            if subj is not None:
                deps.setdefault(subj, set()).update(locs)
    kill_at = defaultdict(set)  # block -> subjects killed on entry to block's defs
    for subj, locs in deps.items():
        for l in locs:
            ds = fn.defs[0].get(l, [])
            for d in ds:
                kill_at[d[0]].add(subj)
            for d in fn.defs[1].get(l, []):
                kill_at[d[0]].add(subj)
    # mutation through &mut borrow of a dependency (user variables passed to calls)
    instates = {0: {}}
    order = {b: i for i, b in enumerate(fn.rpo())}
    import heapq

    wl = [(0, 0)]
    inq = {0}
    iters = 0
    while wl:
        iters += 1
        if iters > 40 * n + 2000:
            break
        _, b = heapq.heappop(wl)
        inq.discard(b)
        st = instates[b]
        ks = kill_at.get(b)
        if ks:
            st = {k: v for k, v in st.items() if k not in ks}
        t = fn.bbs[b]["t"]
        outs = []
        if b in edges and edges[b]:
            per = {}
            for s, subj, val in edges[b]:
                r = refine(st, subj, val)
                if r is None:
                    continue
                per[s] = r if s not in per else join(per[s], r)
            outs = list(per.items())
            handled = {s for s, _, _ in edges[b]}
            for s in fn.succs(b):
                if s not in handled:
                    outs.append((s, st))
        else:
            outs = [(s, st) for s in fn.succs(b)]
        for s, ns in outs:
            if s not in instates:
                instates[s] = ns
                if s not in inq:
                    inq.add(s)
                    heapq.heappush(wl, (order.get(s, 0), s))
            else:
                j = join(instates[s], ns)
                if j != instates[s]:
                    instates[s] = j
                    if s not in inq:
                        inq.add(s)
                        heapq.heappush(wl, (order.get(s, 0), s))
    return instates


def deps_of_operand(fn, op, seen=None):
    """user-visible / multiply assigned locals an operand depends on (transitively)"""
    if seen is None:
        seen = set()
    if op[0] not in ("c", "m"):
        return seen
    _deps_place(fn, op[1], seen)
    return seen


def _deps_place(fn, pl, seen):
    l = pl[0]
    for p in pl[1:]:
        if p[0] == "[]":
            _deps_place(fn, [p[1]], seen)
    if l in seen:
        return
    seen.add(l)
    if len(seen) > 200:
        return
    for d in fn.defs[0].get(l, []):
        if d[2] == "r":
            _deps_rv(fn, d[3], seen)
        else:
            for a in d[3][2]:
                if a[0] in ("c", "m"):
                    _deps_place(fn, a[1], seen)


def _deps_rv(fn, rv, seen):
    k = rv[0]
    if k == "use":
        if rv[1][0] in ("c", "m"):
            _deps_place(fn, rv[1][1], seen)
    elif k in ("ref", "refm", "discr"):
        _deps_place(fn, rv[1], seen)
    elif k == "cast":
        if rv[2][0] in ("c", "m"):
            _deps_place(fn, rv[2][1], seen)
    elif k == "bin":
        for o in (rv[2], rv[3]):
            if o[0] in ("c", "m"):
                _deps_place(fn, o[1], seen)
    elif k == "un":
        if rv[2][0] in ("c", "m"):
            _deps_place(fn, rv[2][1], seen)
    elif k == "agg":
        for o in rv[2]:
            if o[0] in ("c", "m"):
                _deps_place(fn, o[1], seen)


# ---------------------------------------------------------------------- program
STD_ENUMS = {
    "std::option::Option": ["None", "Some"],
    "std::result::Result": ["Ok", "Err"],
    "std::ops::ControlFlow": ["Continue", "Break"],
    "std::borrow::Cow": ["Borrowed", "Owned"],
    "std::cmp::Ordering": {255: "Less", 0: "Equal", 1: "Greater"},
    "quick_xml::events::Event": ["Start", "End", "Empty", "Text", "CData", "Comment", "Decl", "PI", "DocType", "GeneralRef", "Eof"],
    "std::ops::Bound": ["Included", "Excluded", "Unbounded"],
}


class Program:
    def __init__(self, path):
        with open(path) as f:
            head = json.loads(f.readline())
            self.adts = head["adts"]
            self.xenums = {p: {int(k): n for k, n in v.items()} for p, v in head.get("xenums", {}).items()}
            self.fns = {}
            for line in f:
                d = json.loads(line)
                self.fns[d["id"]] = Fn(self, d)
        self.bypath = defaultdict(list)
        self.byname = defaultdict(list)
        for f in self.fns.values():
            self.bypath[f.path].append(f)
            self.byname[f.name].append(f)
        self._callers = None
        self._inl = {}

    def trait_impls(self, path):
        """implementations in this crate of a trait method given by its path"""
        r = self._inl.get(path)
        if r is None:
            r = []
            if "::" in path:
                tr, nm = path.rsplit("::", 1)
                r = sorted((g for g in self.byname.get(nm, []) if g.d.get("traitid") == tr), key=lambda g: g.id)
            self._inl[path] = r
        return r

    def fn(self, path):
        l = self.bypath.get(path)
        return l[0] if l else None

    def discr_names(self, fn, op):
        """variant names for a switch over a discriminant: need the type of the matched place"""
        if op[0] not in ("c", "m"):
            return None
        l = op[1][0]
        for d in fn.defs[0].get(l, []):
            if d[2] == "r" and d[3][0] == "discr":
                ty = self.place_ty(fn, d[3][1])
                return self.enum_names(ty)
        return None

    def enum_names(self, ty):
        if ty is None:
            return None
        base = ty.lstrip("&")
        for pre in ("mut ",):
            if base.startswith(pre):
                base = base[len(pre):]
        base = strip_generics(base)
        if base in self.adts:
            a = self.adts[base]
            if a["kind"] == "enum":
                return {v["discr"]: v["name"] for v in a["variants"]}
            return None
        e = STD_ENUMS.get(base)
        if isinstance(e, dict):
            return e
        if e:
            return dict(enumerate(e))
        return self.xenums.get(base)

    def place_ty(self, fn, pl):
        """type string of a place (best effort)"""
        ty = fn.locals[pl[0]][0]
        variant = None
        for p in pl[1:]:
            if p[0] == "*":
                ty = deref_ty(ty)
            elif p[0] == "as":
                variant = p[1]
            elif p[0] == ".":
                ty = self.field_ty(ty, p)
                if ty is None:
                    return None
            elif p[0] in ("[]", "ci"):
                ty = elem_ty(ty)
                if ty is None:
                    return None
        return ty

    def field_ty(self, ty, p):
        owner, variant, name = p[1], p[2], p[3]
        if owner == "(tuple)":
            parts = split_top(ty.strip()[1:-1])
            try:
                return parts[int(name)]
            except Exception:
                return None
        a = self.adts.get(owner)
        if a:
            for v in a["variants"]:
                if not variant or v["name"] == variant:
                    for f in v["fields"]:
                        if f[0] == name:
                            return subst_generics(f[1], ty, a)
        args = generic_args(ty)
        if owner == "std::option::Option" and args:
            return args[0]
        if owner == "std::result::Result" and len(args) > 1:
            return args[0] if variant == "Ok" else args[1]
        if owner == "std::ops::ControlFlow" and args:
            if variant == "Continue":
                return args[1] if len(args) > 1 else "()"
            return args[0]
        if owner == "std::borrow::Cow" and args:
            return args[-1]
        if owner == "quick_xml::events::Event":
            return {"Start": "quick_xml::events::BytesStart", "Empty": "quick_xml::events::BytesStart",
                    "End": "quick_xml::events::BytesEnd", "Text": "quick_xml::events::BytesText",
                    "GeneralRef": "quick_xml::events::BytesRef", "CData": "quick_xml::events::BytesCData"}.get(variant)
        if owner.startswith("std::boxed::Box"):
            return None
        return None

    # -------------------------------------------------------------- call graph
    @property
    def callers(self):
        if self._callers is None:
            c = defaultdict(list)
            for f in self.fns.values():
                for (b, p, i, a, t) in f.calls:
                    if i in self.fns:
                        c[i].append((f, b))
                    for cl in (t[1] or {}).get("cl", []) if isinstance(t[1], dict) else []:
                        if cl in self.fns:
                            c[cl].append((f, b))
            self._callers = c
        return self._callers

    def blanket(self, info):
        """local implementations behind std's blanket conversions (try_into, into, to_string, parse)"""
        fn = info.get("fn", "")
        g = info.get("g") or []
        nm = fn.rsplit("::", 1)[-1]
        want = None
        if nm == "try_into" and "TryInto" in fn and len(g) == 2:
            want = ("try_from", "TryFrom<", g[1], g[0])
        elif nm == "into" and "Into" in fn and len(g) == 2:
            want = ("from", "From<", g[1], g[0])
        elif nm == "to_string" and "ToString" in fn and g:
            want = ("fmt", "Display", g[0], None)
        elif nm == "parse" and g:
            want = ("from_str", "FromStr", g[0], None)
        if want is None:
            return []
        out = []
        for x in self.byname.get(want[0], []):
            if not x.trait or want[1] not in x.trait or not x.self_ty:
                continue
            if strip_generics(deref_ty(x.self_ty)) != strip_generics(deref_ty(want[2])):
                continue
            if want[3] is not None and notlt(x.locals[1][0]) != notlt(want[3]):
                continue
            out.append(x)
        return out

    def callees(self, f):
        r = getattr(f, "_callees", None)
        if r is None:
            r = f._callees = list(self._callees_of(f))
        return r

    def _callees_of(self, f):
        out = set()
        for (b, p, i, a, t) in f.calls:
            if isinstance(t[1], dict) and t[1].get("g"):
                for x in self.blanket(t[1]):
                    out.add(x.id)
        for (b, p, i, a, t) in f.calls:
            if i in self.fns:
                out.add(i)
            if isinstance(t[1], dict):
                for cl in t[1].get("cl", []):
                    if cl in self.fns:
                        out.add(cl)
                # unresolved trait method on a local trait: all impls
                if "r" not in t[1] and t[1].get("tr"):
                    for g in self.byname.get(t[1]["fn"].rsplit("::", 1)[-1], []):
                        if g.d.get("traitid") == t[1]["tr"]:
                            out.add(g.id)
                if "virt" in t[1]:
                    for g in self.byname.get(t[1]["fn"].rsplit("::", 1)[-1], []):
                        if g.d.get("traitid") == t[1].get("tr"):
                            out.add(g.id)
        for b in f.reachable:
            for s in f.bbs[b]["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                    if s[2][1][1] in self.fns:
                        out.add(s[2][1][1])
        return out

    def reach(self, roots):
        roots = list(roots)
        if len(roots) == 1:
            if not hasattr(self, "_r1"):
                self._r1 = {}
            k = roots[0].id if isinstance(roots[0], Fn) else roots[0]
            if k not in self._r1:
                self._r1[k] = frozenset(self._reach(roots))
            return self._r1[k]
        return self._reach(roots)

    def _reach(self, roots):
        seen = set()
        st = [r.id if isinstance(r, Fn) else r for r in roots]
        while st:
            i = st.pop()
            if i in seen or i not in self.fns:
                continue
            seen.add(i)
            st.extend(self.callees(self.fns[i]))
        return seen

    # -------------------------------------------------------------- inlining
    def norm(self, t, depth=8, opaque=()):
        """Normalise a term: inline calls to crate functions that are plain value computations,
        apply closures passed to Option/Iterator adapters, push field selections."""
        return Normalizer(self, depth, opaque).n(t)


def notlt(ty):
    """a type without lifetimes"""
    import re
    return re.sub(r"'[a-z_0-9]+ ?", "", ty)


def strip_generics(s):
    out = []
    d = 0
    for i, c in enumerate(s):
        if c == "<":
            d += 1
        elif c == ">" and not (i > 0 and s[i - 1] == "-"):
            d -= 1
        elif d == 0:
            out.append(c)
    r = "".join(out)
    return r.replace("::::", "::").rstrip(":") if r.endswith("::") else r.replace("::::", "::")


def split_top(s):
    out, cur, d = [], "", 0
    for i, c in enumerate(s):
        if c in "<([{":
            d += 1
        elif c in ")]}" or (c == ">" and not (i > 0 and s[i - 1] == "-")):
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def generic_args(ty):
    i = ty.find("<")
    if i < 0:
        return []
    return [x for x in split_top(ty[i + 1:-1]) if not x.startswith("'")]


def deref_ty(ty):
    ty = ty.strip()
    if ty.startswith("&"):
        ty = ty[1:]
        if ty.startswith("'"):
            ty = ty.split(" ", 1)[1] if " " in ty else ty
        if ty.startswith("mut "):
            ty = ty[4:]
        return ty
    if ty.startswith("std::boxed::Box<"):
        return generic_args(ty)[0]
    return ty


def elem_ty(ty):
    ty = ty.strip()
    if ty.startswith("["):
        inner = ty[1:-1]
        return inner.split(";")[0].strip()
    return None


def subst_generics(fty, ty, adt):
    return fty


class Normalizer:
    OPT_MAP = {"map", "and_then", "filter_map", "flat_map", "map_or", "map_or_else", "is_some_and"}

    def __init__(self, prog, depth=8, opaque=()):
        self.p = prog
        self.opaque = tuple(opaque)
        self.depth = depth
        self.memo = {}
        self.budget = 20000
        self.stack = []

    def n(self, t):
        if t in self.memo:
            return self.memo[t]
        self.budget -= 1
        if self.budget < 0:
            return t
        r = self._n(t)
        self.memo[t] = r
        return r

    def _n(self, t):
        k = t[0]
        if k in ("arg", "const", "loop", "undef", "rt", "other", "never"):
            return t
        if k == "field":
            return mkfield(t[1], t[2], t[3], self.n(t[4]))
        if k == "phi":
            return mkphi([self.n(a) for a in t[1]])
        if k == "under":
            return ("under", t[1], self.n(t[2]))
        if k == "agg":
            return ("agg", t[1], t[2], tuple((n, self.n(a)) for n, a in t[3]))
        if k == "bin":
            return ("bin", t[1], self.n(t[2]), self.n(t[3]))
        if k == "un":
            return ("un", t[1], self.n(t[2]))
        if k == "cast":
            return ("cast", t[1], self.n(t[2]))
        if k in ("discr", "slice"):
            return (k, self.n(t[1]))
        if k in ("idx", "eq", "gt"):
            return (k, self.n(t[1]), self.n(t[2]))
        if k == "call":
            args = tuple(self.n(a) for a in t[3])
            path, fid = t[1], t[2]
            nm = path.rsplit("::", 1)[-1]
            # closure application through Option/Iterator adapters
            if (nm in self.OPT_MAP or nm == "filter" and "option::Option" in path) and len(args) >= 2 and is_std(path):
                cl = args[-1]
                r = self.apply(cl, [payload(args[0])])
                if r is not None:
                    return ("call", path, fid, (args[0], r), t[4])
            if nm in ("call", "call_mut", "call_once") and "ops::Fn" in path and len(args) == 2:
                actual = args[1]
                if actual[0] == "agg":
                    r = self.apply(args[0], [a for _, a in actual[3]])
                    if r is not None:
                        return r
            f = self.p.fns.get(fid)
            if f is not None and fid not in self.stack and len(self.stack) < self.depth:
                r = self.inline(f, args)
                if r is not None:
                    return r
            if f is None and not is_std(path):
                impls = self.p.trait_impls(path)
                if impls and len(impls) <= 12:
                    rs = []
                    for g in impls:
                        if g.id in self.stack or len(self.stack) >= self.depth:
                            rs = None
                            break
                        r = self.inline(g, args)
                        if r is None:
                            rs = None
                            break
                        rs.append(r)
                    if rs:
                        return mkphi(rs)
            return ("call", path, fid, args, t[4])
        return t

    def inline(self, f, args):
        if len(f.bbs) > 60 or f.mutates or f.file.startswith(self.opaque):
            return None
        self.stack.append(f.id)
        try:
            rt = f.ret_term(False)
            if size(rt, 400) >= 400 or contains_loop(rt):
                return None
            return self.n(subst(rt, {i + 1: a for i, a in enumerate(args)}))
        finally:
            self.stack.pop()

    def pred(self, cl, actual):
        """conditions under which a predicate closure holds: [(subject, values)], None if they are no conjunction"""
        cl = strip(cl)
        if cl[0] != "agg" or not cl[1].startswith("(closure)"):
            return None
        f = self.p.fns.get(cl[1][len("(closure)"):])
        if f is None:
            return None
        env = {1: cl}
        for i, a in enumerate(actual):
            env[2 + i] = a
        live = []
        for d in f.defs[0].get(0, []):
            if d[0] not in f.reachable:
                continue
            t = f.term_def(d, False)
            if t == ("const", "bool", False):
                continue
            live.append((d[0], t))
        if len(live) != 1:
            return None
        b, t = live[0]
        out = [(self.n(subst(sj, env)), vals) for sj, vals in f.ctrl_guards(b).items()]
        if t != ("const", "bool", True):
            c, val = strip(self.n(subst(t, env))), True
            while c[0] == "un" and c[1] == "Not":
                c, val = strip(c[2]), not val
            if c[0] == "bin" and c[1] in ("Eq", "Ne"):
                a, e = strip(c[2]), strip(c[3])
                if a[0] == "discr" and e[0] == "discr":
                    a, e = strip(a[1]), strip(e[1])
                c, val = ("eq", a, e), (val == (c[1] == "Eq"))
            out.append((c, frozenset({("bool", val)})))
        return out

    def apply(self, cl, actual):
        """result term of applying a closure / fn item to arguments"""
        cl = strip(cl)
        if cl[0] == "agg" and cl[1].startswith("(closure)"):
            f = self.p.fns.get(cl[1][len("(closure)"):])
            if f is None or f.id in self.stack or len(self.stack) >= self.depth:
                return None
            env = {1: cl}
            for i, a in enumerate(actual):
                env[2 + i] = a
            self.stack.append(f.id)
            try:
                rt = f.ret_term(False)
                if size(rt, 600) >= 600:
                    return None
                return self.n(subst(rt, env))
            finally:
                self.stack.pop()
        if cl[0] == "const" and cl[1] == "z" and "closure" in str(cl[2]):
            return None
        if cl[0] == "const" and cl[1] == "fn":
            path, fid = cl[2]
            f = self.p.fns.get(fid)
            args = tuple(actual)
            if f is not None:
                r = self.inline(f, args)
                if r is not None:
                    return r
            return ("call", path, fid, args, ())
        return None


def payload(t):
    """element/payload of an Option/Iterator valued term"""
    if t[0] == "agg" and t[1] == "std::option::Option" and t[2] == "Some":
        return t[3][0][1]
    return ("field", "std::option::Option", "Some", "0", t)


def size(t, limit=10 ** 9):
    n = 0
    st = [t]
    while st:
        x = st.pop()
        n += 1
        if n >= limit:
            return n
        for y in x:
            if isinstance(y, tuple):
                st.append(y)
    return n


def literal_loops(f):
    """the elements of the arrays written out in the code that f loops over: [(name, {term of the item: element})]"""
    r = [("", {})]
    for (b, path, cid, args, t) in f.calls:
        if path.rsplit("::", 1)[-1] != "next" or b not in f.reachable or t[3] is None:
            continue
        n = strip(f.term_op(("c", t[3]), False))
        if n[0] != "call" or not n[3]:
            continue
        x = strip(n[3][0])
        while x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("into_iter", "iter", "iter_mut") and len(x[3]) == 1:
            x = strip(x[3][0])
        xs = list(x[3]) if x[0] == "agg" and x[1] == "(array)" else list(enumerate(x[2])) if x[0] == "const" and x[1] == "a" else []
        if 1 < len(xs) * len(r) <= 64:
            r = [("%s/%d.%s" % (k, b, i), {**m, ("field", "std::option::Option", "Some", "0", n): v}) for k, m in r for i, v in xs]
    return r


def subst(t, env):
    memo = {}

    def go(t):
        if not isinstance(t, tuple) or not t:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        k = t[0]
        if k == "arg":
            r = env.get(t[1], t)
        elif k in ("const", "loop", "undef", "rt"):
            r = t
        elif k == "field":
            r = env.get(t) if t[3] == "0" and t[2] == "Some" else None
            r = go(r) if r is not None else mkfield_cl(t[1], t[2], t[3], go(t[4]))
        elif k == "phi":
            r = mkphi([go(a) for a in t[1]])
        elif k == "under":
            r = ("under", tuple((go(s), v) for s, v in t[1]), go(t[2]))
        elif k == "agg":
            r = ("agg", t[1], t[2], tuple((n, go(a)) for n, a in t[3]))
        elif k == "call":
            r = ("call", t[1], t[2], tuple(go(a) for a in t[3]), t[4])
        else:
            r = tuple(go(x) if isinstance(x, tuple) else x for x in t)
        memo[t] = r
        return r

    return go(t)


def mkfield_cl(owner, variant, name, base):
    if owner.startswith("(closure)") and base[0] == "agg" and base[1] == owner:
        for n, t in base[3]:
            if n == name:
                return t
    return mkfield(owner, variant, name, base)


# ---------------------------------------------------------------------- queries on terms
def walk(t, f):
    """pre-order walk over sub-terms; f returns False to prune"""
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if isinstance(x[0], str) and x[0] in KINDS:
            if f(x) is False:
                continue
        for y in x:
            if isinstance(y, tuple):
                st.append(y)


KINDS = {"arg", "const", "field", "call", "agg", "phi", "under", "bin", "un", "cast", "discr", "idx", "slice", "loop", "undef", "rt", "other", "eq", "gt"}


def model_fields(prog, t, inner=False):
    """Outermost crate-ADT fields a value is taken from: {(owner, variant, name)}."""
    out = set()

    def go(t):
        k = t[0]
        if k == "field":
            if t[1] in prog.adts:
                out.add((t[1], t[2], t[3]))
                if inner:
                    go(t[4])
                return
            go(t[4])
            return
        if k == "under":
            go(t[2])
            return
        if k == "phi":
            for a in t[1]:
                go(a)
            return
        if k == "call":
            for a in t[3]:
                go(a)
            return
        if k == "agg":
            for _, a in t[3]:
                go(a)
            return
        for y in t[1:]:
            if isinstance(y, tuple) and y and isinstance(y[0], str) and y[0] in KINDS:
                go(y)

    go(t)
    return out


def const_strs(t):
    """possible constant strings of a term; None when it may be something else"""
    k = t[0]
    if k == "const" and t[1] in ("s", "b"):
        return {t[2]}
    if k == "phi":
        r = set()
        for a in t[1]:
            s = const_strs(a)
            if s is None:
                return None
            r |= s
        return r
    if k == "under":
        return const_strs(t[2])
    if k == "call" and len(t[3]) >= 1:
        nm = t[1].rsplit("::", 1)[-1]
        if nm in TRANSPARENT or nm in ("to_string", "into", "from", "as_ref", "into_boxed_str"):
            if is_std(t[1]):
                return const_strs(t[3][0])
    return None


def show(t, d=0):
    k = t[0]
    if d > 7:
        return "…"
    if k == "arg":
        return "arg%d" % t[1]
    if k == "const":
        return repr(t[2]) if t[1] != "fn" else "fn " + t[2][0]
    if k == "field":
        o = t[1].rsplit("::", 1)[-1]
        return "%s.%s%s" % (show(t[4], d + 1), (t[2] + "::") if t[2] else "", t[3]) if not t[1].startswith("std") else "%s?" % show(t[4], d + 1)
    if k == "call":
        return "%s(%s)" % (t[1].rsplit("::", 1)[-1], ", ".join(show(a, d + 1) for a in t[3]))
    if k == "agg":
        return "%s%s{%s}" % (t[1].rsplit("::", 1)[-1], ("::" + t[2]) if t[2] else "", ", ".join("%s:%s" % (n, show(a, d + 1)) for n, a in t[3]))
    if k == "phi":
        return "φ(%s)" % " | ".join(show(a, d + 1) for a in t[1])
    if k == "under":
        return "[%s ⇒ %s]" % (" & ".join("%s∈%s" % (show(s, d + 2), sorted(v[1] if len(v) > 1 else v for v in vs)) for s, vs in t[1]), show(t[2], d + 1))
    if k == "bin":
        return "(%s %s %s)" % (show(t[2], d + 1), t[1], show(t[3], d + 1))
    if k == "un":
        return "%s(%s)" % (t[1], show(t[2], d + 1))
    if k in ("eq", "gt"):
        return "(%s %s %s)" % (show(t[1], d + 1), k, show(t[2], d + 1))
    if k in ("discr", "slice"):
        return "%s(%s)" % (k, show(t[1], d + 1))
    if k == "idx":
        return "%s[%s]" % (show(t[1], d + 1), show(t[2], d + 1))
    if k == "cast":
        return "(%s as %s)" % (show(t[2], d + 1), t[1])
    return str(t)
