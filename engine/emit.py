"""Output summaries: which text a function appends to its string / byte / formatter buffers, per branch outcome.

A flow-sensitive abstract interpretation of MIR.  The abstract store maps locations to abstract values; strings and
byte buffers are sequences of pieces:
    ("lit", text)            fixed text
    ("val", v, spec)         the displayed form of an abstract value
    ("rep", alternatives)    zero or more iterations; each alternative is (conditions, {buffer: pieces})
Branches on unknown values split the state and are remembered as conditions (subject -> value), so a later branch on the
same subject follows the same way.  `?` error exits are dropped: summaries describe the non-error outcome.
"""
from mir import *


VARIANT_TEST = {"is_some": ("Some", "None"), "is_none": ("None", "Some"), "is_ok": ("Ok", "Err"), "is_err": ("Err", "Ok")}


class TooComplex(Exception):
    pass


APPEND_STR = {"push_str", "write_str", "write_all", "extend_from_slice", "write", "append", "extend"}
APPEND_CH = {"push", "write_char"}
IDENT = {"deref", "as_str", "as_ref", "as_bytes", "to_string", "to_owned", "clone", "into", "from", "borrow", "as_mut", "deref_mut",
         "from_utf8_unchecked", "as_slice", "into_bytes", "into_string", "from_utf8", "from_utf8_lossy", "as_mut_str", "to_vec",
         "into_owned", "as_mut_slice", "borrow_mut", "must_use", "new_display_ref", "copied", "cloned", "from_residual_ok", "into_boxed_str"}
ITERS = {"into_iter", "iter", "bytes", "chars", "iter_mut"}
OK = ("agg", "std::result::Result", "Ok", (("0", ("const", "z", "()")),))
UNIT = ("const", "z", "()")


def lit_of(v):
    """pieces of a value appended to a string"""
    if v[0] == "str":
        return v[1]
    if v[0] == "const":
        if v[1] in ("s", "b", "c"):
            return (("lit", v[2]),) if v[2] != "" else ()
        if v[1] == "i":
            return (("lit", str(v[2])),)
        if v[1] == "bool":
            return (("lit", "true" if v[2] else "false"),)
    return (("val", v, ""),)


def join_pieces(a, b):
    out = list(a)
    for x in b:
        if out and x[0] == "lit" and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + x[1])
        else:
            out.append(x)
    return tuple(out)


class St:
    __slots__ = ("mem", "cond", "n")

    def __init__(self, mem=None, cond=None):
        self.mem = mem if mem is not None else {}
        self.cond = cond if cond is not None else {}

    def copy(self):
        return St(dict(self.mem), dict(self.cond))


def store(v, segs, x):
    if v[0] != "agg":
        return v
    f = dict(v[3])
    nm = segs[0][1]
    if len(segs) == 1:
        f[nm] = x
    elif nm in f:
        f[nm] = store(f[nm], segs[1:], x)
    return ("agg", v[1], v[2], tuple(f.items()))


class Emit:
    def __init__(self, prog, max_states=6000, depth=14, inline=None):
        self.p = prog
        self.max_states = max_states
        self.maxdepth = depth
        self.nstates = 0
        self.frames = 0
        self.inline = inline or (lambda g: True)

    # ------------------------------------------------------------- memory
    def read(self, st, loc):
        root, path = loc
        n = len(path)
        v = st.mem.get(loc)
        if v is None:
            for i in range(n - 1, -1, -1):
                v = st.mem.get((root, path[:i]))
                if v is not None:
                    for seg in path[i:]:
                        v = self.proj(st, v, seg)
                    break
            else:
                v = root[1] if root[0] == "S" else ("sym", root)
                for seg in path:
                    v = self.proj(st, v, seg)
        if v[0] == "agg":
            # later stores to its fields
            sub = sorted(((k[1][n:], x) for k, x in st.mem.items() if k[0] == root and len(k[1]) > n and k[1][:n] == path), key=lambda x: len(x[0]))
            for segs, x in sub:
                v = store(v, segs, x)
        return v

    def proj(self, st, v, seg):
        while v[0] == "ref":
            v = self.read(st, v[1])
        if v[0] == "agg":
            for n, x in v[3]:
                if n == seg[1]:
                    return x
        if v[0] == "const" and v[1] == "adt":
            for n, x in v[2][1]:
                if n == seg[1]:
                    return x
        if v[0] == "const" and v[1] in ("t", "a"):
            try:
                return v[2][int(seg[1])]
            except Exception:
                pass
        return ("fld", v, seg)

    def write(self, st, loc, v):
        root, path = loc
        for k in [k for k in st.mem if k[0] == root and len(k[1]) > len(path) and k[1][:len(path)] == path]:
            del st.mem[k]
        st.mem[loc] = v

    def loc(self, st, fid, pl):
        loc = ((fid, pl[0]), ())
        for p in pl[1:]:
            k = p[0]
            if k == "*":
                v = self.read(st, loc)
                if v[0] == "ref":
                    loc = v[1]
                else:
                    loc = (("S", v), ()) if v[0] != "str" else loc
            elif k == "as":
                continue
            elif k == ".":
                loc = (loc[0], loc[1] + ((p[2], p[3]),))
            elif k in ("[]", "ci"):
                idx = p[1]
                if k == "[]":
                    iv = self.val(st, self.read(st, ((fid, idx), ()))) if isinstance(idx, int) else ("sym", "?")
                    idx = iv[2] if iv[0] == "const" and iv[1] == "i" else repr(iv)
                loc = (loc[0], loc[1] + (("[]", str(idx)),))
            elif k == "slice":
                loc = (("S", ("slice", self.val(st, self.read(st, loc)), repr(p[1:]))), ())
            else:
                continue
        return loc

    def val(self, st, v):
        n = 0
        while v[0] == "ref" and n < 20:
            v = self.read(st, v[1])
            n += 1
        return v

    def op(self, st, fid, op):
        if op[0] in ("c", "m"):
            return self.read(st, self.loc(st, fid, op[1]))
        if op[0] == "k":
            return const_term(op[1])
        return ("sym", "rt")

    def deepval(self, st, v, d=0):
        v = self.val(st, v)
        if v[0] == "agg" and d < 6:
            return ("agg", v[1], v[2], tuple((n, self.deepval(st, x, d + 1)) for n, x in v[3]))
        return v

    # ------------------------------------------------------------- rvalues
    def rvalue(self, st, f, fid, rv):
        k = rv[0]
        if k == "use":
            return self.op(st, fid, rv[1])
        if k in ("ref", "refm"):
            return ("ref", self.loc(st, fid, rv[1]))
        if k == "cast":
            v = self.op(st, fid, rv[2])
            if v[0] == "const" and v[1] in ("i", "bool", "c"):
                if rv[3] == "char" and v[1] == "i":
                    return ("const", "c", chr(v[2]))
                if v[1] == "c" and rv[3] != "char":
                    return ("const", "i", ord(v[2]))
                return v
            if v[0] in ("ref", "str", "agg"):
                return v
            if "Coercion" in rv[1] or "Transmute" in rv[1] or "PtrToPtr" in rv[1]:
                return v
            return ("cast", rv[3], self.val(st, v))
        if k == "bin":
            return self.binop(rv[1], self.val(st, self.op(st, fid, rv[2])), self.val(st, self.op(st, fid, rv[3])))
        if k == "un":
            v = self.val(st, self.op(st, fid, rv[2]))
            if rv[1] == "Not" and v[0] == "const" and v[1] == "bool":
                return ("const", "bool", not v[2])
            return ("un", rv[1], v)
        if k == "discr":
            v = self.val(st, self.read(st, self.loc(st, fid, rv[1])))
            return ("discr", v, self.p.place_ty(f, rv[1]))
        if k == "agg":
            kk = rv[1]
            ops = [self.op(st, fid, o) for o in rv[2]]
            if kk[0] == "adt":
                return ("agg", kk[1], kk[2], tuple(zip(kk[3], ops)))
            nm = {"tuple": "(tuple)", "closure": "(closure)" + (kk[1] if len(kk) > 1 else "")}.get(kk[0], "(array)")
            return ("agg", nm, "", tuple((str(i), o) for i, o in enumerate(ops)))
        if k == "rep":
            return ("agg", "(array)", "", (("0", self.op(st, fid, rv[1])),))
        return ("sym", "rv:" + k)

    def binop(self, op, a, b):
        if a[0] == "const" and b[0] == "const":
            x, y = a[2], b[2]
            try:
                r = {"Eq": lambda: x == y, "Ne": lambda: x != y, "Lt": lambda: x < y, "Le": lambda: x <= y, "Gt": lambda: x > y,
                     "Ge": lambda: x >= y}.get(op)
                if r:
                    return ("const", "bool", bool(r()))
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "AddUnchecked": lambda: x + y,
                     "BitAnd": lambda: x & y, "BitOr": lambda: x | y}.get(op)
                if r and isinstance(x, (int, bool)) and isinstance(y, (int, bool)):
                    return ("const", a[1], r())
            except Exception:
                pass
        return ("bin", op, a, b)

    # ------------------------------------------------------------- loops
    def loops(self, f):
        if hasattr(f, "_emloops"):
            return f._emloops
        # natural loops: back edge b->h with h dominating b
        order = f.rpo()
        idx = {b: i for i, b in enumerate(order)}
        dom = {order[0]: {order[0]}}
        ch = True
        allb = set(order)
        for b in order[1:]:
            dom[b] = allb
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[x] for x in f.preds[b] if x in dom]
                nd = (set.intersection(*ps) if ps else set()) | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        out = {}
        for b in order:
            for s in f.succs(b):
                if s in dom[b]:
                    body = out.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st += f.preds[x]
        f._emloops = out
        return out

    # ------------------------------------------------------------- interpreter
    def run(self, f, argv, st, depth=0, stack=()):
        """returns [(st, return value)]"""
        if depth > self.maxdepth:
            raise TooComplex("depth " + f.path)
        self.frames += 1
        fid = "%s#%d" % (f.id, self.frames)
        for i, v in enumerate(argv):
            st.mem[((fid, i + 1), ())] = v
        outs = []
        self.blocks(f, fid, 0, st, None, outs, None, depth, stack + (f.id,))
        res = []
        for s in outs:
            rv = self.read(s, ((fid, 0), ()))
            # drop dead frame locals unless the return value refers to them
            rv = self.detach(s, fid, rv)
            for k in [k for k in s.mem if k[0][0] == fid]:
                del s.mem[k]
            res.append((s, rv))
        return self.merge(res)

    def merge(self, res):
        seen = {}
        for s, rv in res:
            k = (frozenset(s.cond.items()), frozenset(s.mem.items()), rv)
            seen.setdefault(k, (s, rv))
        return list(seen.values())

    def detach(self, s, fid, v):
        if v[0] == "ref" and v[1][0][0] == fid:
            return self.deepval(s, v)
        if v[0] == "agg":
            return ("agg", v[1], v[2], tuple((n, self.detach(s, fid, x)) for n, x in v[3]))
        return v

    def blocks(self, f, fid, b, st, within, outs, backs, depth, stack):
        """depth-first over blocks.  within: set of blocks of the loop being summarised (or None); states that leave it go
        to outs as (block, st); states that return to the header go to backs."""
        work = [(b, st, True)]
        while work:
            b, st, first = work.pop()
            self.nstates += 1
            if self.nstates > self.max_states:
                raise TooComplex("states in " + f.path)
            loops = self.loops(f)
            if within is not None and not first:
                if b == within[0]:
                    backs.append(st)
                    continue
                if b not in within[1]:
                    outs.append((b, st))
                    continue
            if b in loops and not (within is not None and within[0] == b):
                for nb, ns in self.loop(f, fid, b, loops[b], st, depth, stack):
                    if within is not None and nb == within[0]:
                        backs.append(ns)
                    elif within is not None and nb not in within[1]:
                        outs.append((nb, ns))
                    else:
                        work.append((nb, ns, False))
                continue
            bb = f.bbs[b]
            for s in bb["s"]:
                if s[0] == "=":
                    self.write(st, self.loc(st, fid, s[1]), self.rvalue(st, f, fid, s[2]))
                elif s[0] == "dead":
                    pass
            t = bb["t"]
            k = t[0]
            if k == "goto":
                work.append((t[1], st, False))
            elif k == "drop":
                work.append((t[2], st, False))
            elif k == "assert":
                work.append((t[4], st, False))
            elif k == "ret":
                if within is not None:
                    outs.append(("ret", st))
                else:
                    outs.append(st)
            elif k == "sw":
                work += [(nb, ns, False) for nb, ns in self.switch(st, f, fid, t)]
            elif k == "call":
                if t[4] is None:
                    continue
                for ns, rv in self.call(st, f, fid, t, depth, stack):
                    if rv == "err":
                        continue
                    self.write(ns, self.loc(ns, fid, t[3]), rv)
                    work.append((t[4], ns, False))
        return

    def loop(self, f, fid, h, body, st, depth, stack):
        saved = st
        s0 = st.copy()
        # values assigned in the loop are unknown at its head; buffers start empty and are collected
        bufs = {}
        for k, v in list(s0.mem.items()):
            if v[0] == "const" and v[1] == "s" and k[1] == () and k[0][0] == fid and isinstance(k[0][1], int) and f.locals[k[0][1]][0] == "std::string::String":
                v = s0.mem[k] = ("str", lit_of(v))
            if v[0] == "str":
                bufs[k] = v[1]
        assigned = set()
        for b in body:
            for s in f.bbs[b]["s"]:
                if s[0] == "=":
                    assigned.add(s[1][0])
            t = f.bbs[b]["t"]
            if t[0] == "call":
                assigned.add(t[3][0])
        for l in assigned:
            for k in [k for k in s0.mem if k[0] == (fid, l)]:
                if s0.mem[k][0] == "str":
                    continue
                if s0.mem[k][0] == "ref":
                    continue
                del s0.mem[k]
            if ((fid, l), ()) not in s0.mem:
                s0.mem[((fid, l), ())] = ("loopvar", l)
        for k in bufs:
            s0.mem[k] = ("str", ())
        base = dict(s0.cond)
        exits, backs = [], []
        self.blocks(f, fid, h, s0, (h, body), exits, backs, depth, stack)
        alts = []
        for s in backs:
            c = {k: v for k, v in s.cond.items() if base.get(k) != v}
            d = {k: s.mem[k][1] for k in bufs if s.mem.get(k, ("?",))[0] == "str" and s.mem[k][1] != ()}
            a = (frozenset(c.items()), frozenset(d.items()))
            if a not in alts:
                alts.append(a)
        touched = {k for _, d in alts for k, _ in d}
        res = []
        for nb, s in exits:
            for k, pre in bufs.items():
                v = s.mem.get(k)
                if v is None or v[0] != "str":
                    continue
                mid = (("rep", frozenset((c, dict(d).get(k, ())) for c, d in alts)),) if k in touched else ()
                s.mem[k] = ("str", join_pieces(join_pieces(pre, mid), v[1]))
            # conditions about one iteration do not hold afterwards
            s.cond = {k: v for k, v in s.cond.items() if base.get(k) == v or not mentions_loop(k)}
            if nb == "ret":
                raise TooComplex("return inside a loop of " + f.path)
            res.append((nb, s))
        return res

    def switch(self, st, f, fid, t):
        v = self.val(st, self.op(st, fid, t[1]))
        targets = [(x, b) for x, b in t[2]]
        other = t[3]
        if v[0] == "discr":
            names = self.p.enum_names(v[2]) if v[2] else None
            x = v[1]
            if x[0] == "agg" and x[2]:
                for n, b in targets:
                    if names and names.get(n) == x[2]:
                        return [(b, st)]
                return [(other, st)]
            if x[0] == "const" and x[1] == "e":
                vn = x[2][1]
                for n, b in targets:
                    if names and names.get(n) == vn:
                        return [(b, st)]
                return [(other, st)]
            subj = x
            out = []
            known = st.cond.get(("var", subj))
            used = set()
            for n, b in targets:
                nm = names.get(n) if names else "#%d" % n
                used.add(nm)
                if known is not None and nm not in known:
                    continue
                ns = st.copy()
                ns.cond[("var", subj)] = frozenset([nm])
                out.append((b, ns))
            if f.bbs[other]["t"][0] != "unr":
                rest = (frozenset(names.values()) if names else frozenset(["?other"])) - used
                if known is not None:
                    rest = rest & known
                if rest:
                    ns = st.copy()
                    ns.cond[("var", subj)] = rest
                    out.append((other, ns))
            return out
        if v[0] == "const":
            n = v[2]
            if v[1] == "bool":
                n = 1 if n else 0
            elif v[1] == "c":
                n = ord(n)
            for x, b in targets:
                if x == n:
                    return [(b, st)]
            return [(other, st)]
        # boolean conditions
        if len(targets) == 1 and targets[0][0] == 0 and self.is_bool(f, t[1], v):
            subj, val, pol = self.boolsubj(v)
            if val is None:
                nm = subj[1].rsplit("::", 1)[-1] if subj[0] == "call" else ""
                if nm in VARIANT_TEST and len(subj[2]) == 1:
                    return self.variant_test(st, subj[2][0], nm, pol, other, targets[0][1])
                key, tv, fv = ("is", subj), pol, not pol
                out = []
                known = st.cond.get(key)
                for bval, b in ((True, other), (False, targets[0][1])):
                    w = bval == pol
                    if known is not None and known != w:
                        continue
                    ns = st.copy()
                    ns.cond[key] = w
                    out.append((b, ns))
                return out
            # equality with a constant
            out = []
            for bval, b in ((True, other), (False, targets[0][1])):
                eq = bval == pol
                ns = self.assume_eq(st, subj, val, eq)
                if ns is not None:
                    out.append((b, ns))
            return out
        out = []
        s = st
        for x, b in targets:
            if s is None:
                break
            c = ("const", "i", x)
            ns = self.assume_eq(s, v, c, True)
            if ns is not None:
                out.append((b, ns))
            s = self.assume_eq(s, v, c, False)
        if s is not None and f.bbs[other]["t"][0] != "unr":
            out.append((other, s))
        return out

    def variant_test(self, st, x, nm, pol, btrue, bfalse):
        """x.is_some() is a test of the variant of x"""
        yes, no = VARIANT_TEST[nm]
        if not pol:
            btrue, bfalse = bfalse, btrue
        if x[0] == "agg" and x[2] in (yes, no):
            return [(btrue if x[2] == yes else bfalse, st)]
        known = st.cond.get(("var", x))
        out = []
        for v, b in ((yes, btrue), (no, bfalse)):
            if known is not None and v not in known:
                continue
            ns = st.copy()
            ns.cond[("var", x)] = frozenset([v])
            out.append((b, ns))
        return out

    def is_bool(self, f, op, v):
        if v[0] in ("bin", "un"):
            return True
        if op[0] in ("c", "m"):
            return self.p.place_ty(f, op[1]) == "bool"
        return False

    def boolsubj(self, v):
        pol = True
        while True:
            if v[0] == "un" and v[1] == "Not":
                pol = not pol
                v = v[2]
                continue
            if v[0] == "bin" and v[1] in ("Eq", "Ne"):
                a, b = v[2], v[3]
                if a[0] == "const":
                    a, b = b, a
                if b[0] == "const":
                    if v[1] == "Ne":
                        pol = not pol
                    if b[1] == "bool":
                        if not b[2]:
                            pol = not pol
                        v = a
                        continue
                    return a, b, pol
            return v, None, pol

    def assume_eq(self, st, subj, c, eq):
        cv = c[2] if c[1] != "c" else ord(c[2])
        if isinstance(cv, tuple):
            cv = cv[1] if c[1] == "e" else repr(cv)
        known = st.cond.get(("eq", subj))     # ("is", v) or ("not", frozenset)
        if known is not None:
            if known[0] == "is":
                return st.copy() if (known[1] == cv) == eq else None
            if cv in known[1]:
                return None if eq else st.copy()
        ns = st.copy()
        if eq:
            ns.cond[("eq", subj)] = ("is", cv)
        else:
            ns.cond[("eq", subj)] = ("not", (known[1] if known else frozenset()) | {cv})
        return ns

    # ------------------------------------------------------------- calls
    def append(self, st, tgt, pieces):
        loc = self.bufloc(st, tgt)
        if loc is None:
            return
        v = self.read(st, loc)
        base = v[1] if v[0] == "str" else lit_of(v) if v[0] == "const" and v[1] in ("s", "c") else (("val", v, ""),)
        self.write(st, loc, ("str", join_pieces(base, pieces)))

    def bufloc(self, st, v):
        n = 0
        loc = None
        while v[0] == "ref" and n < 20:
            loc = v[1]
            v = self.read(st, loc)
            n += 1
        if v[0] != "str" and loc is None:
            loc = (("S", v), ())
        if v[0] == "sym" and loc is None:
            loc = (v[1], ())
        return loc

    def args_pieces(self, st, a):
        """pieces of a fmt::Arguments value"""
        a = self.val(st, a)
        if a[0] == "str":
            return a[1]
        return (("val", a, ""),)

    def template(self, st, tm, args):
        tm = self.val(st, tm)
        arr = self.val(st, args)
        items = [self.val(st, x) for _, x in arr[3]] if arr[0] == "agg" else []
        if tm[0] != "const":
            return (("val", tm, "?"),)
        b = tm[2]
        out = ()
        i, nxt = 0, 0
        while i < len(b):
            c = ord(b[i])
            i += 1
            if c == 0:
                break
            if c < 0x80:
                raw = b[i:i + c]
                i += c
            elif c == 0x80:
                n = ord(b[i]) | ord(b[i + 1]) << 8
                raw = b[i + 2:i + 2 + n]
                i += 2 + n
            else:
                spec = ""
                if c & 1:
                    spec += "f%x" % sum(ord(b[i + j]) << 8 * j for j in range(4))
                    i += 4
                if c & 2:
                    spec += "w%d%s" % (ord(b[i]) | ord(b[i + 1]) << 8, "*" if c & 16 else "")
                    i += 2
                if c & 4:
                    spec += "p%d%s" % (ord(b[i]) | ord(b[i + 1]) << 8, "*" if c & 32 else "")
                    i += 2
                if c & 8:
                    nxt = ord(b[i]) | ord(b[i + 1]) << 8
                    i += 2
                v = items[nxt] if nxt < len(items) else ("sym", "fmtarg")
                nxt += 1
                how = ""
                if v[0] == "fmtarg":
                    how, v = v[2], v[1]
                    v = self.val(st, v)
                if spec == "" and how == "display":
                    out = join_pieces(out, self.display(st, v))
                else:
                    out = join_pieces(out, (("val", v, spec + ("" if how == "display" else ":" + how)),))
                continue
            try:
                raw = raw.encode("latin-1").decode("utf-8")
            except Exception:
                pass
            out = join_pieces(out, (("lit", raw),))
        return out

    def display(self, st, v):
        if v[0] in ("str",) or (v[0] == "const" and v[1] in ("s", "c", "i", "bool")):
            return lit_of(v)
        return (("val", v, ""),)

    def call(self, st, f, fid, t, depth, stack):
        fx = t[1]
        if not isinstance(fx, dict) or "ind" in fx:
            return [(st, ("sym", "ind"))]
        path = fx.get("r") or fx["fn"]
        gid = fx.get("rid") or fx["id"]
        nm = path.rsplit("::", 1)[-1]
        a = [self.op(st, fid, x) for x in t[2]]
        if fx.get("ctor"):
            tm = mkctor(self.p, fx["fn"], fx["of"], tuple(a))
            return [(st, tm)]
        g = self.p.fns.get(gid)
        if g is not None and stack.count(gid) < 2 and self.inline(g):
            return self.run(g, a, st, depth + 1, stack)
        if nm in ("call", "call_mut", "call_once") and path.startswith("std::ops::Fn") and len(a) == 2:
            env, tup = self.val(st, a[0]), self.val(st, a[1])
            if env[0] == "agg" and env[1].startswith("(closure)") and tup[0] == "agg":
                g = self.p.fns.get(env[1][9:])
                if g is not None and stack.count(g.id) < 2 and g.argc == 1 + len(tup[3]):
                    return self.run(g, [a[0]] + [x for _, x in tup[3]], st, depth + 1, stack)
        if nm == "branch" and "Try" in path:
            v = self.val(st, a[0])
            if v[0] == "agg" and v[2] in ("Ok", "Some"):
                return [(st, ("agg", "std::ops::ControlFlow", "Continue", (("0", v[3][0][1]),)))]
            if v[0] == "agg" and v[2] in ("Err", "None"):
                return [(st, ("agg", "std::ops::ControlFlow", "Break", (("0", v),)))]
            return [(st, ("agg", "std::ops::ControlFlow", "Continue", (("0", ("fld", v, ("Ok", "0"))),)))]
        if nm == "from_residual":
            return [(st, "err")]
        if nm == "new" and "Arguments" in path:
            return [(st, ("str", self.template(st, a[0], a[1])))]
        if nm in ("from_str", "new_const", "from_str_nonconst") and "Arguments" in path:
            return [(st, ("str", lit_of(self.val(st, a[0]))))]
        if nm.startswith("new_") and "Argument" in path:
            return [(st, ("fmtarg", a[0], nm[4:]))]
        if nm == "format" and "fmt" in path:
            return [(st, ("str", self.args_pieces(st, a[0])))]
        if nm in ("write_fmt",):
            self.append(st, a[0], self.args_pieces(st, a[1]))
            return [(st, OK)]
        if nm in APPEND_STR and len(a) == 2:
            self.append(st, a[0], lit_of(self.val(st, a[1])))
            return [(st, OK)]
        if nm in APPEND_CH and len(a) == 2:
            v = self.val(st, a[1])
            if v[0] == "const" and v[1] == "i":
                v = ("const", "c", chr(v[2]))
            self.append(st, a[0], lit_of(v))
            return [(st, OK)]
        if nm == "clear" and len(a) == 1:
            loc = self.bufloc(st, a[0])
            if loc:
                self.write(st, loc, ("str", ()))
            return [(st, UNIT)]
        if nm in ("take", "replace") and "mem" in path:
            loc = self.bufloc(st, a[0])
            v = self.val(st, a[0])
            if loc:
                self.write(st, loc, ("str", ()) if nm == "take" else self.val(st, a[1]))
            return [(st, v)]
        if nm in ("new", "with_capacity", "default") and ("String" in path or "Vec" in path):
            return [(st, ("str", ()))]
        if nm == "new" and len(a) == 1 and ("boxed::Box" in path or "Rc" in path or "Arc" in path):
            return [(st, a[0])]
        if nm == "fmt" and len(a) == 2 and ("Display" in path or "Debug" in path):
            v = self.val(st, a[0])
            self.append(st, a[1], self.display(st, v) if "Display" in path else (("val", v, ":debug"),))
            return [(st, OK)]
        if nm == "pad" and len(a) == 2:
            self.append(st, a[0], lit_of(self.val(st, a[1])))
            return [(st, OK)]
        if nm in IDENT and a:
            return [(st, a[0])]
        if nm in ITERS and a:
            return [(st, ("iter", self.val(st, a[0]), nm))]
        if nm == "next" and len(a) == 1:
            it = self.val(st, a[0])
            s2 = st.copy()
            el = ("elem", it)
            for s_ in (st, s2):
                # a fresh element: what was known about the previous one no longer holds
                for k in [k for k in s_.cond if contains_v(k, el)]:
                    del s_.cond[k]
            return [(st, ("agg", "std::option::Option", "Some", (("0", el),))), (s2, ("agg", "std::option::Option", "None", ()))]
        if nm in ("eq", "ne") and len(a) == 2:
            x, y = self.deepval(st, a[0]), self.deepval(st, a[1])
            if x[0] == "agg" and y[0] == "agg" and x[2] and y[2] and not x[3] and not y[3]:
                return [(st, ("const", "bool", (x[2] == y[2]) == (nm == "eq")))]
            return [(st, self.binop("Eq" if nm == "eq" else "Ne", x, y))]
        vals = tuple(self.deepval(st, x) for x in a)
        # an unknown callee may write through mutable references
        return [(st, ("call", path, vals))]


def mentions_loop(k):
    return contains_kind(k, ("elem", "loopvar"))


def contains_kind(k, kinds):
    if isinstance(k, tuple):
        if k and k[0] in kinds:
            return True
        return any(contains_kind(x, kinds) for x in k if isinstance(x, tuple))
    return False


def contains_v(k, el):
    if k == el:
        return True
    if isinstance(k, tuple):
        return any(contains_v(x, el) for x in k if isinstance(x, tuple))
    return False


def showp(pieces):
    out = []
    for x in pieces:
        if x[0] == "lit":
            out.append(x[1])
        elif x[0] == "val":
            out.append("{%s%s}" % (showv(x[1]), "|" + x[2] if x[2] else ""))
        else:
            out.append("[" + " | ".join(sorted("%s=>%s" % (sorted((showc(k), str(v)) for k, v in c), showp(ps)) for c, ps in x[1])) + "]*")
    return "".join(out)


def showc(k):
    return k[0] + ":" + showv(k[1]) if len(k) > 1 and isinstance(k[1], tuple) else str(k)


def showv(v):
    if not isinstance(v, tuple):
        return str(v)
    if v[0] == "fld":
        return "%s.%s" % (showv(v[1]), (v[2][0] + "." if v[2][0] else "") + v[2][1])
    if v[0] == "sym":
        return str(v[1][-1] if isinstance(v[1], tuple) else v[1])
    if v[0] == "call":
        return "%s(%s)" % (v[1].rsplit("::", 1)[-1], ",".join(showv(x) for x in v[2]))
    if v[0] == "const":
        return repr(v[2])
    if v[0] == "str":
        return '"' + showp(v[1]) + '"'
    if v[0] in ("agg",):
        return "%s{%s}" % (v[2] or v[1].rsplit("::", 1)[-1], ",".join("%s:%s" % (n, showv(x)) for n, x in v[3]))
    return "(" + " ".join(showv(x) for x in v) + ")"
