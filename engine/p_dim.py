"""C16: rows stay rows and columns stay columns (dimension inference).

Every integer, flag, pair or range that flows through the functions of the model, reader and writer belongs to the row axis, the
column axis or none.  The axis is known for the fields of the model, for the parameters and results of the public API and for the keys of
the cell map; everything else is inferred per function by unification, and functions without known axis are summarised polymorphically."""
import re

from mir import *

INT = {"u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128", "bool"}
# axis is that of the variable holding it
POLY = {"sheet_::Header", "sheet_::Grouped"}
FIELDS = {("sheet_::SheetConfig", "cursor_x"): "C", ("sheet_::SheetConfig", "cursor_y"): "R", ("sheet_::SheetConfig", "hor_split_pos"): "C", ("sheet_::SheetConfig", "vert_split_pos"): "R",
          ("sheet_::SheetConfig", "position_left"): "C", ("sheet_::SheetConfig", "position_right"): "C", ("sheet_::SheetConfig", "position_top"): "R",
          ("sheet_::SheetConfig", "position_bottom"): "R", ("sheet_::RowHeader", "span"): "R", ("sheet_::ColHeader", "span"): "C",
          ("sheet_::RowHeader", "repeat"): "R", ("sheet_::ColHeader", "repeat"): "C", ("cell_::CellData", "repeat"): "C"}
# names of rows are numbers, names of columns are letters
NAMES = {"refs::format::fmt_row_name": {1: "R"}, "refs::format::fmt_col_name": {1: "C"}, "refs::parser::conv::try_u32_from_rowname": {0: "R"}, "refs::parser::conv::try_u32_from_colname": {0: "C"}}
# pixel positions, the parameter is called col in both
NOPARAM = {"sheet_::Sheet::split_horizontal", "sheet_::Sheet::split_vertical"}
# the axis of parameters called from/to
PARAMS = {"add_col_group": "C", "remove_col_group": "C", "set_col_group_displayed": "C", "add_row_group": "R", "remove_row_group": "R", "set_row_group_displayed": "R"}
PASS = {"next", "next_back", "peek", "peek_mut", "into_iter", "iter", "iter_mut", "keys", "into_keys", "clone", "copied", "cloned", "min", "max", "clamp", "unwrap", "unwrap_or", "unwrap_or_default",
        "unwrap_or_else", "expect", "ok_or", "ok_or_else", "as_ref", "as_mut", "as_deref", "take", "replace", "insert", "get", "get_mut", "remove", "contains_key", "entry", "range", "range_mut",
        "push", "last", "last_mut", "first", "pop", "deref", "deref_mut", "from", "into", "try_from", "try_into", "eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp", "checked_add", "checked_sub",
        "saturating_add", "saturating_sub", "wrapping_add", "wrapping_sub", "abs_diff", "contains", "rev", "filter", "skip", "skip_while", "take_while", "chain", "add", "sub", "add_assign",
        "sub_assign", "swap", "first_key_value", "last_key_value", "get_key_value", "split_off", "borrow", "borrow_mut", "to_owned", "or", "or_else", "filter_map", "find", "position", "retain",
        "branch", "from_output", "from_residual", "ok", "new", "as_slice", "as_mut_slice", "extend", "append", "index", "index_mut", "sort", "dedup", "inspect", "peekable", "enumerate_", "step_by",
        "max_by_key", "min_by_key", "nth", "from_iter", "collect", "get_or_insert", "get_or_insert_with", "is_some_and", "is_none_or", "then_some", "map_or", "fold", "map", "and_then", "for_each", "any", "all", "find_map"}


def axis(name):
    w = [x for x in re.split(r"[_\W]+", name.lower()) if x]
    r = any(x in ("row", "rows") for x in w)
    c = any(x in ("col", "cols", "column", "columns") for x in w)
    return "R" if r and not c else "C" if c and not r else None


def shape(ty, memo={}):
    """None | 'S' | tuple of shapes: where the axis-bearing scalars of a type are.  Wrappers are transparent."""
    if ty in memo:
        return memo[ty]
    memo[ty] = None
    r = _shape(ty.strip())
    memo[ty] = r
    return r


def _shape(ty):
    ty = notlt(ty) if False else ty
    while True:
        m = re.match(r"^(&('[\w_]+ )?(mut )?|\*const |\*mut )", ty)
        if not m:
            break
        ty = ty[m.end():].strip()
    if ty in INT:
        return "S"
    if ty in POLY:
        return "S"
    if ty.startswith("("):
        parts = [shape(x) for x in split_top(ty[1:-1])]
        parts = [x for x in parts if x is not None]
        if not parts:
            return None
        return parts[0] if len(parts) == 1 else tuple(parts)
    if ty.startswith("["):
        return shape(re.sub(r"; .*$", "", ty[1:-1]))
    if ty.startswith("{") or ty.startswith("dyn") or ty.startswith("impl") or ty.startswith("fn"):
        return None
    args = generic_args(ty)
    if not args or not re.match(r"^(std|core|alloc)::", ty):
        return None
    got = []
    for a in args:
        x = shape(a) if not a.startswith("'") else None
        if x is not None and x not in got:
            got.append(x)
    return got[0] if len(got) == 1 else None


def leaves(sh, pre=()):
    if sh is None:
        return []
    if sh == "S":
        return [pre]
    out = []
    for i, x in enumerate(sh):
        out += leaves(x, pre + (i,))
    return out


class Sum:
    def __init__(self):
        self.nodes = {}   # (slot, leaf) -> class id
        self.dim = {}     # class id -> axis

    def key(self):
        return (tuple(sorted(self.nodes.items(), key=repr)), tuple(sorted(self.dim.items())))


class Infer:
    def __init__(self, A, f):
        self.A, self.f, self.p = A, f, A.p
        self.par = {}
        self.dims = {}
        self.why = {}
        self.bad = []
        self.n = 0
        self.extra = 0

    def find(self, x):
        while self.par.setdefault(x, x) != x:
            self.par[x] = self.par[self.par[x]]
            x = self.par[x]
        return x

    def union(self, a, b, line, what):
        a, b = self.find(a), self.find(b)
        self.n += 1
        if a == b:
            return
        da, db = self.dims.get(a), self.dims.get(b)
        if da and db and da[0] != db[0]:
            self.bad.append((line, what, da, db))
            return
        self.par[a] = b
        if da:
            self.dims[b] = da

    def seed(self, a, d, why, line=None):
        a = self.find(a)
        self.n += 1
        x = self.dims.get(a)
        if x and x[0] != d:
            self.bad.append((line, why, x, (d, why)))
            return
        if not x:
            self.dims[a] = (d, why)

    # a place: (node prefix, shape, seed axis or None, why)
    def place(self, pl):
        f = self.f
        ty = f.locals[pl[0]][0]
        node, leaf, sd = ("l", pl[0]), (), None
        cur = [pl[0]]
        closure = "{closure@" in ty.split("<")[0] or "closure" in ty[:40]
        for pr in pl[1:]:
            k = pr[0]
            cur.append(pr)
            if k == "." and pr[1] == "(tuple)":
                before = self.p.place_ty(f, cur[:-1])
                parts = split_top(before.strip()[1:-1]) if before and before.strip().startswith("(") else None
                if parts is None or int(pr[3]) >= len(parts):
                    return None
                shs = [shape(x) for x in parts]
                if shs[int(pr[3])] is None:
                    return None
                bear = [i for i, x in enumerate(shs) if x is not None]
                if len(bear) > 1:
                    leaf = leaf + (bear.index(int(pr[3])),)
            elif k == ".":
                owner = pr[1]
                if owner.startswith("std::") or owner.startswith("core::"):
                    if owner.startswith("std::ops::ControlFlow") and pr[2] == "Break" or owner == "std::result::Result" and pr[2] == "Err":
                        return None
                    continue
                if owner in POLY:
                    fty = self.p.field_ty(owner, pr)
                    if fty is None or shape(fty) != "S" or fty == "bool":
                        return None
                    continue
                if closure and owner not in self.p.adts:
                    # captured variable
                    node, leaf = ("u", str(pr[3])), ()
                    continue
                if owner in self.p.adts:
                    fty = self.p.place_ty(f, cur) or self.p.field_ty(owner, pr)
                    if fty is None:
                        return None
                    node, leaf = ("f", owner, pr[3]), ()
                    continue
                return None
        ty = self.p.place_ty(f, pl)
        if node[0] == "u" and (ty is None):
            sh = self.A.upshape.get((f.id, node[1]))
        else:
            sh = shape(ty) if ty is not None else None
        if sh is None:
            return None
        return node, leaf, sh

    def nodes(self, pl):
        r = self.place(pl)
        if r is None:
            return {}
        node, leaf, sh = r
        out = {}
        for lf in leaves(sh):
            n = (node, leaf + lf)
            out[lf] = n
            if node[0] == "f":
                d = self.A.field_axis(node[1], node[2], leaf + lf)
                # fields are not inferred: every access is a node of its own
                self.extra += 1
                n = (("x", self.extra), lf)
                out[lf] = n
                if d:
                    self.seed(n, d, "%s.%s" % (node[1].rsplit("::", 1)[-1], node[2]))
        return out

    def opn(self, op):
        if op[0] in ("c", "m"):
            return self.nodes(op[1])
        return {}

    def meet(self, a, b, line, what):
        if a and b and set(a) == set(b):
            for k in a:
                self.union(a[k], b[k], line, what)

    def run(self):
        f, A = self.f, self.A
        for i, (kind, d, why) in A.api(f).items():
            for lf, ax in d.items():
                self.seed((("l", i), lf), ax, why, f.line)
        for b in sorted(f.reachable):
            bb = f.bbs[b]
            for st in bb["s"]:
                if st[0] == "=":
                    self.stmt(st)
            t = bb["t"]
            if t[0] == "call":
                self.call(t)
        return self

    def stmt(self, st):
        _, pl, rv, line = st[0], st[1], st[2], st[3]
        k = rv[0]
        if k == "use":
            self.meet(self.nodes(pl), self.opn(rv[1]), line, "assignment")
        elif k in ("ref", "refm"):
            self.meet(self.nodes(pl), self.nodes(rv[1]), line, "reference")
        elif k == "cast":
            self.meet(self.nodes(pl), self.opn(rv[2]), line, "conversion")
        elif k == "bin":
            a, b = self.opn(rv[2]), self.opn(rv[3])
            op = rv[1]
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
                if self.isnum(rv[2]):
                    self.meet(a, b, line, "comparison")
            elif op.startswith("Add") or op.startswith("Sub"):
                self.meet(a, b, line, "sum or difference")
                d = self.nodes(pl)
                if (0,) in d:
                    d = {(): d[(0,)]}
                self.meet(d, a or b, line, "sum or difference")
        elif k == "agg":
            kk = rv[1]
            if kk[0] == "tuple":
                d = self.place(pl)
                if d is None:
                    return
                node, leaf, sh = d
                if node[0] == "f":
                    return
                tys = [self.opty(o) for o in rv[2]]
                shs = [shape(x) if x else None for x in tys]
                bear = [i for i, x in enumerate(shs) if x is not None]
                for i, o in enumerate(rv[2]):
                    if i not in bear:
                        continue
                    a = self.opn(o)
                    pre = leaf + ((bear.index(i),) if len(bear) > 1 else ())
                    self.meet({lf: (node, pre + lf) for lf in leaves(shs[i])}, a, line, "tuple")
            elif kk[0] == "adt":
                owner = kk[1]
                if owner.startswith("std::"):
                    d = self.nodes(pl)
                    for o in rv[2]:
                        self.meet(d, self.opn(o), line, "value")
                elif owner in POLY:
                    d = self.nodes(pl)
                    for n, o in zip(kk[3], rv[2]):
                        if self.opty(o) != "bool":
                            self.meet(d, self.opn(o), line, n)
                else:
                    for n, o in zip(kk[3], rv[2]):
                        for lf, nd in self.opn(o).items():
                            ax = self.A.field_axis(owner, n, lf)
                            if ax:
                                self.seed(nd, ax, "%s.%s" % (owner.rsplit("::", 1)[-1], n), line)
            elif kk[0] == "closure":
                g = self.p.fns.get(kk[1])
                if g is not None:
                    s = self.A.sums.get(g.id)
                    if s:
                        self.inst(s, [(("u", str(i)), self.opn(o)) for i, o in enumerate(rv[2])], line, "closure")

    def opty(self, op):
        if op[0] in ("c", "m"):
            return self.p.place_ty(self.f, op[1])
        if op[0] == "k":
            return op[1].get("ty")
        return None

    def isnum(self, op):
        return True

    def inst(self, s, binds, line, what):
        """instantiate a summary: binds = [(slot, nodes of the actual)]"""
        ren = {}
        for slot, actual in binds:
            for lf, nd in actual.items():
                c = s.nodes.get((slot, lf))
                if c is None:
                    continue
                if c not in ren:
                    self.extra += 1
                    ren[c] = (("x", self.extra), ())
                    if c in s.dim:
                        self.seed(ren[c], s.dim[c], what, line)
                self.union(nd, ren[c], line, what)

    def call(self, t):
        fn, args, dest, line = t[1], t[2], t[3], t[5] if len(t) > 5 else None
        if fn is None or "ind" in fn:
            return
        path = fn.get("r") or fn["fn"]
        for o in args:
            # attributes that count rows or columns
            x = const_str(self.f.term_op(o, False)) if o[0] in ("k", "c", "m") and "str" in (self.opty(o) or "") else None
            m = re.match(r"^table:number-(matrix-)?(rows|columns)-", x) if x else None
            if m:
                for y in args:
                    for nd in self.opn(y).values():
                        self.seed(nd, "R" if m.group(2) == "rows" else "C", x, line)
        nm = path.rsplit("::", 1)[-1]
        if fn.get("ctor"):
            owner = fn["of"]
            owner = owner[0] if isinstance(owner, list) else owner
            if isinstance(owner, str) and owner.startswith("std::"):
                d = self.nodes(dest)
                for o in args:
                    self.meet(d, self.opn(o), line, nm)
            return
        g = self.p.fns.get(fn.get("rid") or fn["id"])
        if g is not None:
            s = self.A.sums.get(g.id)
            if s:
                binds = [(("p", i + 1), self.opn(o)) for i, o in enumerate(args)] + [(("p", 0), self.nodes(dest))]
                self.inst(s, binds, line, "%s()" % g.name)
            return
        if nm not in PASS or not re.match(r"^<?&?(mut )?(std|core|alloc|u32|usize|u64|i64|i32|\()", path) and not path.startswith("<"):
            return
        d = self.nodes(dest)
        ins = [self.opn(o) for o in args]
        if nm not in ("fold", "map", "map_or", "filter_map", "and_then", "find_map", "for_each", "any", "all", "is_some_and", "is_none_or", "insert", "replace", "new", "get"):
            for i in range(len(ins)):
                self.meet(ins[0] if i else {}, ins[i], line, nm)
        elif nm in ("insert", "get"):
            aty = self.opty(args[0]) or ""
            if "Map" in aty or "Set" in aty:
                self.meet(ins[0], ins[1], line, nm)
        if nm in ("map", "map_or", "filter_map", "and_then", "find_map", "any", "all", "cmp", "partial_cmp", "eq", "ne", "lt", "le", "gt", "ge", "contains", "contains_key", "position",
                  "is_some_and", "is_none_or", "for_each", "insert", "remove", "get", "get_mut", "len"):
            # the result is not of the receiver's axis, or not necessarily
            if nm in ("get", "get_mut", "remove") and d and ins and ("Vec" in (self.opty(args[0]) or "") or "[" in (self.opty(args[0]) or "")):
                self.meet(d, ins[0], line, nm)
        else:
            if nm == "unwrap_or" or nm not in ("fold",):
                for x in ins:
                    self.meet(d, x, line, nm)
            else:
                self.meet(d, ins[1] if len(ins) > 1 else {}, line, nm)
        for cid in fn.get("cl", ()):
            g = self.p.fns.get(cid)
            s = self.A.sums.get(cid)
            if g is None or s is None:
                continue
            binds = []
            if nm == "fold":
                binds = [(("p", 2), ins[1] if len(ins) > 1 else {}), (("p", 3), ins[0])]
            else:
                for i in range(2, g.argc + 1):
                    binds.append((("p", i), ins[0] if ins else {}))
            if nm in ("map", "map_or", "fold", "and_then", "filter_map", "unwrap_or_else", "find_map"):
                binds.append((("p", 0), d))
            # captured variables were bound where the closure was made
            self.inst(s, [(sl, a) for sl, a in binds if a], line, nm)

    def summary(self):
        s = Sum()
        f = self.f
        ids = {}
        slots = [(("p", i), ("l", i)) for i in range(0, f.argc + 1)]
        todo = []
        for slot, node in slots:
            sh = shape(f.locals[node[1]][0])
            for lf in leaves(sh):
                todo.append((slot, lf, (node, lf)))
        for n in list(self.par):
            if n[0][0] == "u":
                todo.append((n[0], n[1], n))
        for slot, lf, n in todo:
            r = self.find(n)
            c = ids.setdefault(r, len(ids))
            s.nodes[(slot, lf)] = c
            d = self.dims.get(r)
            if d:
                s.dim[c] = d[0]
        return s


class Axes:
    def __init__(self, p):
        self.p = p
        self.sums = {}
        self.upshape = {}
        self.fns = [f for f in p.fns.values() if not re.match(r"^(examples|tests|benches)", f.file) and self.interesting(f)]
        self.results = {}

    def interesting(self, f):
        return any(shape(l[0]) is not None for l in f.locals)

    def field_axis(self, owner, name, leaf):
        d = FIELDS.get((owner, name))
        if d:
            return d if leaf == () else None
        a = self.p.adts.get(owner)
        fty = None
        if a:
            for v in a["variants"]:
                for fl in v["fields"]:
                    if fl[0] == name:
                        fty = fl[1]
        sh = shape(fty) if fty else None
        if sh == ("S", "S") and "(u32, u32)" in fty and leaf in ((0,), (1,)):
            return "RC"[leaf[0]]
        if leaf != ():
            return None
        d = axis(name)
        if d and sh == "S":
            return d
        return None

    def api(self, f):
        """known axes of parameters and result of the public API"""
        out = {}
        for i, ax in NAMES.get(f.path, {}).items():
            if i <= f.argc:
                for j in range(1, f.argc + 1) if i else (0,):
                    if shape(f.locals[j][0]) == "S":
                        out[j] = ("api", {(): ax}, "%s()" % f.name)
        if f.vis not in ("pub", "Public", "public") or f.kind == "Closure" or f.path in NOPARAM or f.trait:
            return out
        for i in range(0, f.argc + 1):
            l = f.locals[i]
            sh = shape(l[0])
            if sh is None:
                continue
            d = {}
            if sh == ("S", "S") and "(u32, u32)" in l[0]:
                d = {(0,): "R", (1,): "C"}
            elif sh == "S":
                nm = l[1] if i and len(l) > 1 else f.name if not i else ""
                if i == 0 and ("bool" in l[0] or re.search(r"count|len|is_|has_|_group|try_", f.name)):
                    nm = ""
                if i and "bool" in l[0] and "abs" not in nm:
                    nm = ""
                ax = axis(nm) if nm else None
                if i and ax is None and nm in ("from", "to") and f.name in PARAMS:
                    ax = PARAMS[f.name]
                if ax:
                    d = {(): ax}
            if d:
                out[i] = ("api", d, "%s of %s()" % ("the result" if not i else "parameter %s" % (l[1] if len(l) > 1 else i), f.name))
        return out

    def run(self):
        for f in self.fns:
            for i, l in enumerate(f.locals):
                pass
        for rnd in range(8):
            changed = False
            for f in self.fns:
                r = Infer(self, f).run()
                s = r.summary()
                self.results[f.id] = r
                if f.id not in self.sums or self.sums[f.id].key() != s.key():
                    self.sums[f.id] = s
                    changed = True
            if not changed:
                break
        return self


NAME = {"R": "row", "C": "column"}


def check(s, rep):
    p = s.p
    rep.rule("axis inference: no value of the row axis is compared with, added to, stored as, passed as or returned as a value of the column axis, and vice versa")
    A = Axes(p).run()
    known = 0
    for f in A.fns:
        r = A.results[f.id]
        seen = set()
        for line, what, a, b in r.bad:
            k = "%s: %s/%s" % (f.path, a[1], b[1])
            if k in seen:
                continue
            seen.add(k)
            rep.bad("axis:%s" % f.path, "%s: a %s (%s) is used as a %s (%s)" % (what, NAME[a[0]], a[1], NAME[b[0]], b[1]), f.file, line or f.line, f.path, "axis inference")
        if not r.bad:
            rep.ok(n=r.n)
        known += sum(1 for x in r.dims.values())
    rep.count(functions=len(A.fns), constraints=sum(r.n for r in A.results.values()), classes_with_axis=known)


PROPS = {"C16": (check, "other", "unification based dimension inference over the MIR of all functions")}
