"""C22: cell references are written in ODF syntax and parsed back into the same fields.
C23: conditions are written in ODF syntax, with the comparison they are named after."""
import ast
import itertools
import os
import re

import facts
from effects import last
from emit import *
from p_attrs import syms

NAMES = ("fmt_col_name", "fmt_row_name")
SELF = ("A", "self")


class Ref(Emit):
    """the letters and digits of a column and row number stay abstract"""

    def call(self, st, f, fid, t, depth, stack):
        fx = t[1]
        if isinstance(fx, dict) and "ind" not in fx:
            nm = last(fx.get("r") or fx["fn"])
            if nm in NAMES and len(t[2]) == 2:
                a = [self.op(st, fid, x) for x in t[2]]
                self.append(st, a[0], (("val", ("call", nm, (self.deepval(st, a[1]),)), ""),))
                return [(st, OK)]
        return super().call(st, f, fid, t, depth, stack)


def path_of(v):
    """(root argument, field names) of a value that is a part of an argument"""
    segs = []
    while v[0] == "fld":
        if v[2][1] not in ("*",):
            segs.append(v[2][1])
        v = v[1]
    if v[0] == "sym" and isinstance(v[1], tuple):
        return v[1][1], tuple(reversed(segs))
    return None, ()


# the fields of each reference type in the order of the text
LAYOUT = {
    "CRow": [("row", "")],
    "CCol": [("col", "")],
    "CellRef": [("iri", "iri"), ("table", "table"), ("lit", "."), ("col", "col"), ("row", "row")],
    "CellRange": [("iri", "iri"), ("table", "from_table"), ("lit", "."), ("col", "from_col"), ("row", "from_row"), ("lit", ":"),
                  ("table", "to_table"), ("lit", "."), ("col", "to_col"), ("row", "to_row")],
    "ColRange": [("iri", "iri"), ("table", "from_table"), ("lit", "."), ("col", "from_col"), ("lit", ":"), ("table", "to_table"), ("lit", "."), ("col", "to_col")],
    "RowRange": [("iri", "iri"), ("table", "from_table"), ("lit", "."), ("row", "from_row"), ("lit", ":"), ("table", "to_table"), ("lit", "."), ("row", "to_row")],
}


def dot(a, b):
    return a + "." + b if a else b


class Mismatch(Exception):
    pass


class Unknown(Exception):
    pass


def flat(pieces):
    out = []
    for x in pieces:
        if x[0] == "lit":
            out.extend(x[1])
        elif x[0] == "val" and x[2] == "":
            out.append(x[1])
        else:
            raise Unknown()
    return out


class Match:
    """reads the pieces of one path against the layout of a reference"""

    def __init__(self, toks, know):
        self.t, self.i = toks, 0
        self.know = know
        self.raw = []           # tables written without quotes

    def lit(self, c):
        if self.i < len(self.t) and self.t[self.i] == c:
            self.i += 1
            return True
        return False

    def need(self, c, what):
        if not self.lit(c):
            raise Mismatch("%s is missing %s" % (c, what))

    def val(self, what):
        if self.i < len(self.t) and isinstance(self.t[self.i], tuple):
            self.i += 1
            return self.t[self.i - 1]
        raise Mismatch("%s is missing" % what)

    def quoted(self, field, what):
        v = self.val(what)
        if v[0] == "call" and last(v[1]) in ("replace", "replacen") and len(v[2]) == 3:
            a, b = (x[2] if x[0] == "const" else None for x in v[2][1:])
            if (a, b) != ("'", "''"):
                raise Mismatch("quotes in %s are not doubled" % what)
            v = v[2][0]
        elif self.know.field(v) == field + ".0":
            raise Mismatch("quotes in %s are not doubled" % what)
        else:
            raise Unknown()
        if self.know.field(v) != field + ".0":
            raise Mismatch("%s is written where %s belongs" % (self.know.field(v) or "something else", what))

    def run(self, layout):
        if len(self.t) == 1 and self.know.field(self.t[0]) == "" and isinstance(self.know, OfSelf):
            return
        if any(isinstance(x, tuple) and (x[0] == "agg" and x[1].rsplit("::", 1)[-1] not in ("CRow", "CCol") or self.know.field(x) == "") for x in self.t):
            raise Unknown()
        for kind, field in layout:
            if kind == "lit":
                self.need(field, "after %s" % last_field)
                continue
            last_field = field
            if kind in ("iri", "table"):
                some = self.know.some(field)
                if some is None:
                    raise Mismatch("%s does not matter for the text" % field)
                if not some:
                    continue
                if kind == "iri":
                    self.need("'", "before the iri")
                    self.quoted("iri", "the iri")
                    self.need("'", "after the iri")
                    self.need("#", "after the iri")
                else:
                    self.lit("$")
                    if self.lit("'"):
                        self.quoted(field, field)
                        self.need("'", "after %s" % field)
                    else:
                        v = self.val(field)
                        if self.know.field(v) != field + ".0":
                            raise Mismatch("%s is written where %s belongs" % (self.know.field(v) or "something else", field))
                        self.raw.append((field, v))
            else:
                if field and self.i < len(self.t) and isinstance(self.t[self.i], tuple) and self.know.part(self.t[self.i], field, kind):
                    # the column or row shown by its own Display, which is looked at by itself
                    self.i += 1
                    continue
                ab = self.know.flag(dot(field, kind + "_abs"))
                d = self.lit("$")
                if ab is None:
                    raise Mismatch("%s does not matter for the text" % dot(field, kind + "_abs"))
                if d != ab:
                    raise Mismatch("%s is written with%s $ if %s is %s" % (field or kind, "" if d else "out", dot(field, kind + "_abs"), str(ab).lower()))
                v = self.val(field or kind)
                if v[0] != "call" or last(v[1]) not in NAMES:
                    raise Unknown()
                if last(v[1]) != "fmt_%s_name" % kind or not self.know.number(v[2][0], dot(field, kind)):
                    raise Mismatch("%s is written where %s belongs" % (showv(v), field or kind))
        if self.i != len(self.t):
            if any(isinstance(x, tuple) and x[0] not in ("fld", "call", "sym") for x in self.t[self.i:]):
                raise Unknown()
            raise Mismatch("the reference is followed by further text")


class OfSelf:
    """facts about self from the conditions of a path"""

    def __init__(self, cond):
        self.cond = cond

    def field(self, v):
        r, p = path_of(v)
        return ".".join(x for x in p) if r == "self" else None

    def some(self, field):
        for k, v in self.cond.items():
            if k[0] == "var" and self.field(k[1]) == field:
                return v == frozenset(["Some"]) if len(v) == 1 else None
        return None

    def flag(self, field):
        for k, v in self.cond.items():
            if k[0] == "is" and self.field(k[1]) == field:
                return v
        return None

    def number(self, v, field):
        return self.field(v) == field

    def part(self, v, field, kind):
        return self.field(v) == field


class Given:
    """facts about a reference with known fields: {field: value}"""

    def __init__(self, fields):
        self.f = fields

    def field(self, v):
        r, p = path_of(v)
        for k, x in self.f.items():
            if x is not None and x == v:
                return k + ".0"
        return r

    def some(self, field):
        return self.f.get(field) is not None

    def flag(self, field):
        return self.f[field]

    def number(self, v, field):
        return v == self.f[field]

    def part(self, v, field, kind):
        if v[0] != "agg":
            return False
        d = dict(v[3])
        return d.get(kind) == self.f[dot(field, kind)] and d.get(kind + "_abs") == ("const", "bool", self.f[dot(field, kind + "_abs")])


def same_ref(v, ty, fields):
    """whether a reference has the given fields"""
    for fl in all_fields(ty):
        x, w = getf(v, fl), fields[fl]
        if fl in ("iri", "table", "from_table", "to_table"):
            w = NONE if w is None else ("agg", "std::option::Option", "Some", (("0", w),))
        elif isinstance(w, bool):
            w = ("const", "bool", w)
        if x != w:
            raise Mismatch("%s is %s" % (fl, showv(x)))


def refty(f):
    m = re.match(r"<(?:[\w:]*::)?(\w+) as std::fmt::Display>::fmt$", f.path)
    return m.group(1) if m and m.group(1) in LAYOUT else None


def check_refs(s, rep):
    p = s.p
    und = []
    unq = written(p, rep, und)
    charset(p, rep, und, unq)
    formulas(p, rep, und)
    parsed(p, rep, und)
    tokens(p, rep, und)
    whole(p, rep, und)
    ranges(p, rep, und)
    made(p, rep, und)
    geometry(p, rep, und)
    macros(p, rep, und)
    rep.count(undecided=len(und))


def written(p, rep, und):
    rep.rule("Display of a reference: 'iri'# and table if they are there, quotes doubled, then '.', column before row, each with $ exactly if it is absolute, the end of a range after ':'")
    n, unq = 0, []
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        ty = refty(f)
        if ty is None:
            continue
        E = Ref(p, max_states=60000)
        st = St()
        out = ("A", "f")
        st.mem[(out, ())] = ("str", ())
        try:
            res = E.run(f, [("ref", (SELF, ())), ("ref", (out, ()))], st)
        except (TooComplex, RecursionError):
            und.append(f.path)
            continue
        bad, known = None, 0
        for s2, rv in res:
            if rv == "err":
                continue
            v = E.read(s2, (out, ()))
            try:
                if v[0] != "str":
                    raise Unknown()
                m = Match(flat(v[1]), OfSelf(s2.cond))
                m.run(LAYOUT[ty])
                unq += [(f, fl, x, s2.cond) for fl, x in m.raw]
                known += 1
            except Mismatch as e:
                bad = bad or str(e)
            except Unknown:
                und.append(f.path)
        n += known
        if bad:
            rep.bad("text:%s" % ty, "the text of a %s: %s" % (ty, bad), f.file, f.line, f.path, "text of a reference")
        elif known:
            rep.ok("%s: %d forms" % (ty, known))
    rep.count(forms_of_references=n)
    return unq


# ------------------------------------------------------------------ character sets
NA = 128
CLASS = {
    "is_ascii_alphanumeric": lambda c: c < 128 and chr(c).isalnum(), "is_ascii_alphabetic": lambda c: c < 128 and chr(c).isalpha(),
    "is_ascii_digit": lambda c: 48 <= c < 58, "is_ascii_uppercase": lambda c: 65 <= c < 91, "is_ascii_lowercase": lambda c: 97 <= c < 123,
    "is_ascii": lambda c: c < 128, "is_ascii_punctuation": lambda c: c < 128 and 32 < c < 127 and not chr(c).isalnum(),
    "is_ascii_whitespace": lambda c: c in (32, 9, 10, 12, 13), "is_ascii_control": lambda c: c < 32 or c == 127,
    "is_ascii_graphic": lambda c: 32 < c < 127,
}
# for characters that are not ASCII these hold for some only
SOME = {"is_alphanumeric": lambda c: chr(c).isalnum(), "is_alphabetic": lambda c: chr(c).isalpha(), "is_numeric": lambda c: 48 <= c < 58,
        "is_whitespace": lambda c: chr(c).isspace() and c < 128 and c not in (28, 29, 30, 31), "is_control": lambda c: c < 32 or c == 127,
        "is_uppercase": lambda c: 65 <= c < 91, "is_lowercase": lambda c: 97 <= c < 123}


def peel(v):
    while True:
        if v[0] == "cast":
            v = v[-1] if isinstance(v[-1], tuple) else v[1]
            continue
        if v[0] == "fld" and v[2][1] in ("*",):
            v = v[1]
            continue
        return v


def truth_of(v, arg, c, may):
    """value of a predicate over a character for c; c = NA stands for all others, may: what to say if it differs among them"""
    v = peel(v)
    if v == arg:
        return c
    if v[0] == "const":
        return ord(v[2]) if v[1] == "c" or isinstance(v[2], str) and len(v[2]) == 1 else int(v[2])
    if v[0] == "un" and v[1] == "Not":
        return 1 - truth_of(v[2], arg, c, not may)
    if v[0] == "bin" and v[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        a, b = truth_of(v[2], arg, c, may), truth_of(v[3], arg, c, may)
        if c == NA and NA in (a, b) and max(x for x in (a, b)) > NA:
            raise Unknown()
        return int({"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[v[1]])
    if v[0] == "bin" and v[1] in ("BitAnd", "BitOr"):
        a, b = truth_of(v[2], arg, c, may), truth_of(v[3], arg, c, may)
        return a & b if v[1] == "BitAnd" else a | b
    if v[0] == "call" and last(v[1]) in CLASS and len(v[2]) == 1 and peel(v[2][0]) == arg:
        return int(CLASS[last(v[1])](c))
    if v[0] == "call" and last(v[1]) in SOME and len(v[2]) == 1 and peel(v[2][0]) == arg:
        return int(may) if c == NA else int(SOME[last(v[1])](c))
    if v[0] == "fld" and v[2][0] == "[]" and v[1][0] == "const" and v[1][1] == "a":
        try:
            if peel(ast.literal_eval(v[2][1])) != arg:
                raise Unknown()
        except (ValueError, SyntaxError):
            raise Unknown()
        items = v[1][2]
        if c == NA or c >= len(items):
            raise Unknown()
        return truth_of(items[c], arg, c, may)
    raise Unknown()


def closure_set(p, g, may):
    """characters for which a closure over one character says true"""
    E = Emit(p, max_states=2000)
    arg = ("sym", ("A", "c"))
    try:
        res = E.run(g, [("sym", ("A", "env")), arg], St())
    except (TooComplex, RecursionError):
        raise Unknown()
    out = set()
    for c in range(129):
        for st, rv in res:
            live = True
            for k, v in st.cond.items():
                if k[0] == "is":
                    live = live and bool(truth_of(k[1], arg, c, may)) == v
                elif k[0] == "eq" and peel(k[1]) == arg:
                    live = live and ((c == v[1]) if v[0] == "is" else c not in v[1])
                else:
                    raise Unknown()
            if live:
                rv = E.deepval(st, rv)
                if rv[0] == "const":
                    ok = bool(rv[2])
                else:
                    ok = bool(truth_of(rv, arg, c, may))
                if ok:
                    out.add(c)
    return out


def closure_of(p, v):
    if v[0] == "agg" and v[1].startswith("(closure)"):
        return p.fns.get(v[1][9:])
    if v[0] == "const" and isinstance(v[2], tuple) and len(v[2]) == 2:
        return p.fns.get(v[2][1])
    return None


def pattern_set(p, v, may):
    """characters a str pattern matches"""
    if v[0] == "const" and v[1] in ("c", "s") and len(v[2]) == 1:
        return {ord(v[2])}
    if v[0] == "agg" and v[1] == "(array)":
        return set().union(*(pattern_set(p, x, may) for _, x in v[3]))
    g = closure_of(p, v)
    if g is not None and g.argc == 2:
        return closure_set(p, g, may)
    if g is not None and g.argc == 1:
        raise Unknown()
    raise Unknown()


def raw_set(p, v, cond):
    """characters a name can have on a path that writes it without quotes"""
    ok = set(range(129))
    seen = False
    for k, b in cond.items():
        if k[0] != "is" or not contains_v(k[1], v):
            continue
        x = k[1]
        if x[0] == "call" and last(x[1]) == "contains" and len(x[2]) == 2 and x[2][0] == v:
            if not b:
                ok -= pattern_set(p, x[2][1], False)
            seen = True
        elif x[0] == "call" and last(x[1]) in ("all", "any") and len(x[2]) == 2 and x[2][0][0] == "iter" and x[2][0][1] == v and x[2][0][2] == "chars":
            g = closure_of(p, x[2][1])
            if g is None:
                raise Unknown()
            if last(x[1]) == "all" and b:
                ok &= closure_set(p, g, True)
            elif last(x[1]) == "any" and not b:
                ok -= closure_set(p, g, False)
            seen = True
        elif x[0] == "call" and last(x[1]) in ("is_empty",):
            continue
        else:
            raise Unknown()
    return ok


def charset(p, rep, und, unq):
    rep.rule("a table name is written without quotes only if all its characters can be parsed without quotes")
    acc = None
    f = next((f for f in p.fns.values() if f.name == "unquoted_sheet_name"), None)
    if f is not None:
        for g in p.fns.values():
            if g.path.startswith(f.path + "::{closure") and g.argc == 2 and g.locals[2][0] == "char":
                try:
                    acc = closure_set(p, g, False)
                except Unknown:
                    pass
    if acc is None:
        und.append("characters of a sheet name")
        return
    done = set()
    for g, fl, v, cond in unq:
        try:
            got = raw_set(p, v, cond)
        except Unknown:
            und.append(g.path)
            continue
        miss = sorted(got - acc)
        key = (refty(g), fl)
        if miss and key not in done:
            done.add(key)
            rep.bad("quotes:%s:%s" % key, "a %s with one of the characters %s is written without quotes and cannot be parsed" % (
                fl, " ".join("non-ASCII" if c == NA else repr(chr(c)) for c in miss if c == NA or 32 < c < 127)), g.file, g.line, g.path, "quotes of table names")
        elif not miss:
            done.add(key)
    if done:
        rep.ok("characters that are parsed without quotes: %d of 128, non-ASCII %s" % (len([c for c in acc if c < NA]), NA in acc))
    rep.count(unquoted_forms=len(unq))


# ------------------------------------------------------------------ formulas
def formulas(p, rep, und):
    rep.rule("to_formula() is the text in brackets; fcellref and frangeref functions give the reference to the given cells, row absolute with r, column with c, both with a")
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        m = re.match(r"(?:[\w:]*::)?(\w+)::to_formula$", f.path)
        g = re.match(r"f(cell|range)ref([rca]?)(_table)?$", f.name) if "formula::" in f.path else None
        if not (m and m.group(1) in LAYOUT) and not g:
            continue
        E = Ref(p, max_states=60000)
        argv = [("ref", (SELF, ()))] if m else [("sym", ("A", f.locals[i][1])) for i in range(1, f.argc + 1)]
        try:
            res = E.run(f, argv, St())
        except (TooComplex, RecursionError):
            und.append(f.path)
            continue
        bad = None
        for s2, rv in res:
            if rv == "err":
                continue
            v = E.deepval(s2, rv)
            try:
                if v[0] != "str":
                    raise Unknown()
                t = flat(v[1])
                if not t or t[0] != "[" or t[-1] != "]":
                    raise Mismatch("it is not enclosed in [ ]")
                if m:
                    Match(t[1:-1], OfSelf(s2.cond)).run(LAYOUT[m.group(1)])
                else:
                    a = {f.locals[i][1]: argv[i - 1] for i in range(1, f.argc + 1)}
                    r, c = g.group(2) in ("r", "a"), g.group(2) in ("c", "a")
                    if g.group(1) == "cell":
                        fields = {"iri": None, "table": a.get("table"), "row.row": a["row"], "col.col": a["col"], "row.row_abs": r, "col.col_abs": c}
                        lay = LAYOUT["CellRef"]
                    else:
                        fields = {"iri": None, "from_table": a.get("table"), "to_table": None, "from_row.row": a["row"], "from_col.col": a["col"], "to_row.row": a["row_to"],
                                  "to_col.col": a["col_to"], "from_row.row_abs": r, "to_row.row_abs": r, "from_col.col_abs": c, "to_col.col_abs": c}
                        lay = LAYOUT["CellRange"]
                    if len(t) == 3 and isinstance(t[1], tuple) and t[1][0] == "agg":
                        same_ref(t[1], "CellRef" if g.group(1) == "cell" else "CellRange", fields)
                    else:
                        Match(t[1:-1], Given(fields)).run(lay)
                n += 1
            except Mismatch as e:
                bad = bad or str(e)
            except (Unknown, KeyError):
                und.append(f.path)
        if bad:
            rep.bad("formula:%s" % f.path.rsplit("::", 2)[-2 if m else -1], "the formula text of %s: %s" % (f.path, bad), f.file, f.line, f.path, "formula text of a reference")
        else:
            rep.ok("%s" % f.path)
    rep.count(formula_texts=n)


# ------------------------------------------------------------------ parsing
TERMS = {"#": "iri", ".": "sheet", ":": "colon"}


def terminals(p, v, seen=None, out=None):
    """literals and character classes a parser value is made of"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if not isinstance(v, tuple):
        return out
    if v and v[0] == "const" and isinstance(v[2] if len(v) > 2 else None, tuple):
        path, gid = v[2] if len(v[2]) == 2 else (v[2][0], None)
        if isinstance(path, str) and last(path) in ("alpha1", "digit1", "multispace1", "multispace0", "space1"):
            out.add(last(path))
        g = p.fns.get(gid)
        if g is not None and gid not in seen:
            seen.add(gid)
            for x in retvals(p, g):
                terminals(p, x, seen, out)
        return out
    if v and v[0] == "agg" and isinstance(v[1], str) and v[1].startswith("(closure)"):
        return out
    if v and v[0] == "const" and len(v) > 2 and isinstance(v[2], str) and v[1] in ("s", "c"):
        out.add(v[2])
    for x in v:
        if isinstance(x, tuple):
            terminals(p, x, seen, out)
    return out


_ret = {}


def retvals(p, g):
    k = (id(p), g.id)
    if k not in _ret:
        E = Emit(p, max_states=3000)
        try:
            res = E.run(g, [("sym", ("A", g.locals[i][1] if len(g.locals[i]) > 1 else "#%d" % i)) for i in range(1, g.argc + 1)], St())
            _ret[k] = [E.deepval(st, rv) for st, rv in res if rv != "err"]
        except (TooComplex, RecursionError):
            _ret[k] = []
    return _ret[k]


def kind_of(p, v):
    t = terminals(p, v)
    if "#" in t and "'" in t:
        return "iri"
    if "." in t:
        return "table"
    if t == {":"}:
        return "lit"
    if "alpha1" in t and "digit1" not in t:
        return "col"
    if "digit1" in t and "alpha1" not in t:
        return "row"
    return None


def source(p, v):
    """(position in the text, kind, rest of the path) of a parsed value"""
    segs = []
    while v[0] == "fld":
        segs.append(v[2][1])
        v = v[1]
    segs.reverse()
    # the result is Ok((rest, value))
    base = v
    tup = None
    w = v
    stack = [w]
    while stack:
        w = stack.pop()
        if w[0] == "call" and last(w[1]) == "tuple" and len(w[2]) == 1 and w[2][0][0] == "agg":
            tup = w[2][0]
            break
        if w[0] == "call":
            stack.extend(x for x in w[2] if x[0] == "call" and last(x[1]) in ("tuple", "all_consuming", "track", "terminated", "with_code", "{closure#0}", "parse", "complete"))
            if "{closure" in w[1] or last(w[1]) in ("parse", "call_mut", "call", "track"):
                stack.extend(x for x in w[2] if x[0] == "call")
    if tup is None or segs[:2] != ["0", "1"] or len(segs) < 3:
        raise Unknown()
    k = int(segs[2])
    el = dict(tup[3]).get(str(k))
    if el is None:
        raise Unknown()
    order = [kind_of(p, x) for _, x in tup[3]]
    return k, order, segs[3:]


def parts_in(v, out=None):
    """parsed values in an expression"""
    out = [] if out is None else out
    if isinstance(v, tuple):
        if v and v[0] == "fld":
            try:
                return out if source_ok(v, out) else out
            except Unknown:
                pass
        for x in v:
            parts_in(x, out)
    return out


def source_ok(v, out):
    w, n = v, []
    while w[0] == "fld":
        n.append(w[2][1])
        w = w[1]
    n.reverse()
    if w[0] == "call" and n[:2] == ["0", "1"] and len(n) >= 3:
        out.append(v)
        return True
    raise Unknown()


def find_agg(v, ty):
    if isinstance(v, tuple):
        if v and v[0] == "agg" and isinstance(v[1], str) and v[1].rsplit("::", 1)[-1] == ty:
            return v
        for x in v:
            r = find_agg(x, ty)
            if r is not None:
                return r
    return None


def leaves(v, pre=""):
    if v[0] == "agg" and v[1].rsplit("::", 1)[-1] in LAYOUT:
        out = {}
        for n, x in v[3]:
            out.update(leaves(x, pre + n + "."))
        return out
    return {pre[:-1]: v}


def parsed(p, rep, und):
    rep.rule("the parser of a reference takes the parts in the order they are written and puts each into the field it is written from")
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        m = re.search(r"refs::parser::parse_(cell_ref|cell_range|col_range|row_range)$", f.path)
        if not m:
            continue
        ty = "".join(w.capitalize() for w in m.group(1).split("_"))
        lay = [x for x in LAYOUT[ty] if x != ("lit", ".")]
        want = {}
        for i, (kind, field) in enumerate(lay):
            if kind in ("iri", "table"):
                want[field] = (i, [])
            elif kind in ("col", "row"):
                want[dot(field, kind + "_abs")] = (i, ["0"])
                want[dot(field, kind)] = (i, ["1"])
        kinds = [k for k, _ in lay]
        bad = None
        got = False
        for v in retvals(p, f):
            a = find_agg(v, ty)
            if a is None:
                continue
            try:
                for field, x in sorted(leaves(a).items()):
                    if x[0] == "call":
                        mix = {tuple(map(str, source(p, y)[::2])) for y in parts_in(x)}
                        if len(mix) > 1 or mix and want.get(field) and mix != {(str(want[field][0]), str(want[field][1]))}:
                            raise Mismatch("%s is not just what was parsed for it" % field)
                        raise Unknown()
                    k, order, rest = source(p, x)
                    if None in order:
                        raise Unknown()
                    if order != kinds:
                        raise Mismatch("the parts are expected in the order %s" % " ".join(order))
                    if (k, rest) != want.get(field):
                        raise Mismatch("%s gets what was parsed as part %d%s of the text" % (field, k + 1, {"0": " ($)", "1": " (name)"}.get("".join(rest), "")))
                    n += 1
                got = True
            except Mismatch as e:
                bad = bad or str(e)
            except Unknown:
                und.append(f.path)
        if bad:
            rep.bad("parse:%s" % ty, "parsing a %s: %s" % (ty, bad), f.file, f.line, f.path, "parts of a reference")
        elif got:
            rep.ok("%s: %d fields" % (f.path, len(want)))
        else:
            und.append(f.path)
    rep.count(parsed_fields=n)


def tokens(p, rep, und):
    rep.rule("a column or row part is [$]name: absolute exactly if there is a $; the row number is the parsed number less one; doubled quotes in quoted names are undone; no iri is no error")
    n = 0
    for kind in ("col", "row"):
        f = next((f for f in p.fns.values() if f.path.endswith("refs::parser::parser::parse_" + kind)), None)
        if f is None:
            und.append(kind)
            continue
        bad = None
        for g in p.fns.values():
            if not g.path.startswith(f.path + "::{closure") or g.argc != 2:
                continue
            E = Emit(p, max_states=3000)
            arg = ("sym", ("A", "part"))
            try:
                res = E.run(g, [("sym", ("A", "env")), arg], St())
            except (TooComplex, RecursionError):
                und.append(g.path)
                continue
            for st, rv in res:
                if rv == "err":
                    continue
                v = E.deepval(st, rv)
                if v[0] == "agg" and v[2] == "Err":
                    continue
                if v[0] != "agg" or v[2] != "Ok":
                    und.append(g.path)
                    continue
                tp = dict(v[3])["0"]
                if tp[0] != "agg" or len(tp[3]) != 2:
                    und.append(g.path)
                    continue
                ab, num = tp[3][0][1], tp[3][1][1]
                some = next((c for k, c in st.cond.items() if k[0] == "var" and path_of(k[1]) == ("part", ("0",))), None)
                if some == frozenset(["None"]) and ab != ("const", "bool", False):
                    bad = bad or "a %s without $ is %s" % (kind, "absolute" if ab == ("const", "bool", True) else "not known to be relative")
                elif some == frozenset(["Some"]):
                    if ab == ("const", "bool", False) or ab[0] == "bin" and ab[1] == "Ne":
                        bad = bad or "a %s with $ is not absolute" % kind
                if kind == "row" and contains_v(num, ("fld", arg, ("", "0"))):
                    bad = bad or "the row number comes from the $"
                if kind == "row" and last_call(num) == "from_str":
                    if not minus_one(num):
                        bad = bad or "the row number is not the parsed number less one"
                n += 1
        if bad:
            rep.bad("part:%s" % kind, bad, f.file, f.line, f.path, "parts of a reference")
        else:
            rep.ok("parse_%s" % kind)
    f = next((f for f in p.fns.values() if f.name == "unquote_single"), None)
    if f is not None:
        bad = None
        for v in retvals(p, f):
            rs = calls_in(v, ("replace", "replacen", "trim_matches", "trim_start_matches", "trim_end_matches"))
            rp = [x for x in rs if last(x[1]).startswith("replace")]
            if any(last(x[1]).startswith("trim") for x in rs):
                bad = "all quotes at the ends are removed, doubled ones too"
            elif not rp:
                if v[0] in ("fld", "call", "sym"):
                    bad = "doubled quotes are not undone"
            elif [y[2] if y[0] == "const" else None for y in rp[0][2][1:3]] != ["''", "'"] or last(rp[0][1]) != "replace":
                bad = "doubled quotes are not undone"
            n += 1
        if bad:
            rep.bad("unquote", "quoted names: " + bad, f.file, f.line, f.path, "quoted names")
        else:
            rep.ok("quoted names")
    f = next((f for f in p.fns.values() if f.name == "parse_iri"), None)
    if f is not None:
        iri(p, rep, f, und)
    rep.count(token_paths=n)


def iri(p, rep, f, und):
    """an iri is Some only if it was parsed, and without one the text is not consumed"""
    E = Emit(p, max_states=3000)
    inp = ("sym", ("A", "input"))
    try:
        res = E.run(f, [inp], St())
    except (TooComplex, RecursionError):
        und.append(f.path)
        return
    bad, none, some = None, 0, 0
    for st, rv in res:
        if rv == "err":
            continue
        v = E.deepval(st, rv)
        if v[0] != "agg" or v[2] != "Ok":
            continue
        tp = dict(v[3])["0"]
        if tp[0] != "agg" or len(tp[3]) != 2:
            und.append(f.path)
            return
        rest, val = tp[3][0][1], tp[3][1][1]
        if val[0] == "agg" and val[2] == "None":
            none += 1
            if rest != inp:
                bad = "text is consumed though there is no iri"
            if any(c == frozenset(["Ok"]) for k, c in st.cond.items() if k[0] == "var"):
                bad = "an iri is dropped"
        elif val[0] == "agg" and val[2] == "Some":
            some += 1
            if rest == inp:
                bad = "the iri is not consumed"
    codes = set()
    free = False
    for st, rv in res:
        v = E.deepval(st, rv) if rv != "err" else None
        if v is None or v[0] != "agg" or v[2] != "Ok" or not find_none(v):
            continue
        on = {x for k, b in st.cond.items() if k[0] == "is" and b and k[1][0] == "bin" and k[1][1] == "Eq" for x in variants(k[1])}
        on |= {x for k, b in st.cond.items() if k[0] == "var" and len(b) <= 3 for x in b if x.startswith("CR")}
        codes |= on
        free = free or not on
    if none and not free:
        for c, what in (("CRSingleQuoteStart", "a quote"), ("CRHash", "#")):
            if c not in codes and any(c in str(x) for x in retvals_all(p)):
                bad = bad or "a reference without iri is rejected if there is no %s" % what
    if some and not none:
        bad = bad or "a reference without iri is rejected"
    if none and not some:
        bad = bad or "an iri is dropped"
    if bad:
        rep.bad("iri", bad, f.file, f.line, f.path, "iri of a reference")
    elif some:
        rep.ok("iri: %d paths" % (none + some))
    else:
        und.append(f.path)


def find_none(v):
    tp = dict(v[3])["0"]
    return tp[0] == "agg" and len(tp[3]) == 2 and tp[3][1][1][0] == "agg" and tp[3][1][1][2] == "None"


def variants(v):
    """names of error codes in a value"""
    if isinstance(v, tuple):
        for x in v:
            yield from variants(x)
    elif isinstance(v, str) and re.match(r"CR[A-Z]\w+$", v):
        yield v


def retvals_all(p):
    """results of the token parsers"""
    return [v for g in p.fns.values() if "refs::parser::tokens::" in g.path and "{closure" not in g.path for v in retvals(p, g)]


def calls_in(v, names, out=None):
    out = [] if out is None else out
    if isinstance(v, tuple):
        if v and v[0] == "call" and last(v[1]) in names:
            out.append(v)
        for x in v:
            calls_in(x, names, out)
    return out


def last_call(v):
    r = calls_in(v, ("from_str", "parse"))
    return last(r[0][1]) if r else None


def minus_one(v):
    while v[0] == "fld" and v[2][1] == "0" and v[1][0] == "bin":
        v = v[1]
    if v[0] == "bin":
        return v[1].startswith("Sub") and v[3][0] == "const" and v[3][2] == 1
    if v[0] == "call" and last(v[1]) in ("wrapping_sub", "saturating_sub"):
        return v[2][1][0] == "const" and v[2][1][2] == 1
    return not (v[0] == "fld")


def whole(p, rep, und):
    rep.rule("a text that is not a reference as a whole is rejected; Display and TryFrom<&str> use the functions of their own type")
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if not re.search(r"refs::parse_(cellref|cellrange|colrange|rowrange)$", f.path):
            continue
        E = Emit(p, max_states=3000, inline=lambda g: "refs::parser" not in g.path)
        try:
            res = E.run(f, [("sym", ("A", "buf"))], St())
        except (TooComplex, RecursionError):
            und.append(f.path)
            continue
        bad = None
        for st, rv in res:
            if rv == "err":
                continue
            v = E.deepval(st, rv)
            if v[0] == "agg" and v[2] == "Err":
                continue
            # rest.len() > 0 must be known to be false, or the parser consumes everything
            tests = [(k, c) for k, c in st.cond.items() if k[0] in ("is", "eq") and calls_in(k[1], ("len", "is_empty", "fragment"))]
            ok = False
            for k, c in tests:
                x = k[1]
                if k[0] == "eq" and c == ("is", 0):
                    ok = True
                elif x[0] == "bin" and x[3][0] == "const":
                    for_len0 = {"Gt": 0 > x[3][2], "Ge": 0 >= x[3][2], "Ne": x[3][2] != 0, "Eq": x[3][2] == 0, "Lt": 0 < x[3][2], "Le": 0 <= x[3][2]}.get(x[1])
                    for_len1 = {"Gt": 1 > x[3][2], "Ge": 1 >= x[3][2], "Ne": x[3][2] != 1, "Eq": x[3][2] == 1, "Lt": 1 < x[3][2], "Le": 1 <= x[3][2]}.get(x[1])
                    ok = ok or for_len0 == c and for_len1 != c
                    if for_len0 != c:
                        bad = "a complete reference is rejected"
                elif x[0] == "call" and last(x[1]) == "is_empty":
                    ok = ok or c is True
            if not ok:
                pf = next((g for g in p.fns.values() if any(last(y[1]) == g.name for y in calls_in(v, ("parse_cell_ref", "parse_cell_range", "parse_col_range", "parse_row_range")))), None)
                cons = pf is not None and any(calls_in(x, ("all_consuming",)) for x in retvals(p, pf))
                if tests:
                    bad = bad or "text after the reference is ignored"
                elif not cons and v[0] in ("agg", "fld", "call"):
                    bad = bad or "text after the reference is ignored"
            n += 1
        if bad:
            rep.bad("whole:%s" % f.name, bad, f.file, f.line, f.path, "whole text")
        else:
            rep.ok(f.path)
    rep.count(whole_texts=n)


def idx_of(k):
    """an index of enumerate() in a condition"""
    if isinstance(k, tuple):
        if k and k[0] == "fld" and k[2][1] == "0" and k[1][0] == "elem" and calls_in(k[1], ("enumerate",)):
            return k
        for x in k:
            r = idx_of(x)
            if r is not None:
                return r
    return None


def separated(alts, und, f, sep, q):
    """elements of a list, each written once with a separator between: what is wrong"""
    alts = [(dict(c), ps) for c, ps in alts]
    texts = set()
    for c, ps in alts:
        vals = [y for y in ps if y[0] == "val"]
        if any(y[0] == "val" and y[1][0] in ("loopvar", "call") or y[0] == "rep" for y in ps):
            und.append(f.path)
            return None
        if len(vals) != 1:
            return "not every element is written once"
        texts.add("".join(y[1] for y in ps if y[0] == "lit"))
    if texts - {"", sep} or sep not in texts:
        return "the elements are separated by %s" % sorted(texts)
    for i in range(4):
        got = set()
        for c, ps in alts:
            live = True
            for k, b in c.items():
                ix = idx_of(k)
                if ix is None:
                    return None
                try:
                    x = num(subst(k[1], ix, ("const", "i", i)), {})
                except Unknown:
                    return None
                live = live and ((bool(x) == b) if k[0] == "is" else (x == b[1]) if b[0] == "is" else x not in b[1])
            if live:
                got.add("".join(y[1] for y in ps if y[0] == "lit"))
        if got != {sep if i else ""}:
            return "element %d of the list is %s by %r" % (i + 1, "preceded", sep) if not i else "there is no %r before element %d of the list" % (sep, i + 1)
    return None


def subst(v, a, b):
    if v == a:
        return b
    return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in v) if isinstance(v, tuple) else v


def ranges(p, rep, und):
    rep.rule("a list of ranges is written with one blank between, none before the first, and parsed as a list separated by blanks")
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if "format_cellranges" in f.path and f.name == "fmt":
            E = Emit(p, max_states=3000)
            st = St()
            out = ("A", "f")
            st.mem[(out, ())] = ("str", ())
            try:
                res = E.run(f, [("ref", (SELF, ())), ("ref", (out, ()))], st)
            except (TooComplex, RecursionError):
                und.append(f.path)
                continue
            bad = None
            for s2, rv in res:
                v = E.read(s2, (out, ())) if rv != "err" else ("str", ())
                if v[0] != "str":
                    und.append(f.path)
                    continue
                for x in v[1]:
                    if x[0] in ("lit", "val"):
                        bad = bad or (None if x[0] == "val" else "the list starts or ends with %r" % x[1])
                        continue
                    bad = bad or separated(x[1], und, f, " ", "")
            if bad:
                rep.bad("list:text", bad, f.file, f.line, f.path, "list of ranges")
            else:
                rep.ok("list of ranges")
        if f.path.endswith("refs::parser::parse_cell_range_list"):
            bad = None
            for v in retvals(p, f):
                for x in calls_in(v, ("separated_list0", "separated_list1")):
                    t = terminals(p, x[2][0])
                    if not t & {"multispace1", "space1", " "}:
                        bad = "the list is separated by %s" % sorted(t)
            if bad:
                rep.bad("list:parse", bad, f.file, f.line, f.path, "list of ranges")
            else:
                rep.ok("parsed list of ranges")


# ------------------------------------------------------------------ constructors
ALL = {"local": {}, "remote": {}, "new": {}, "new_all": {}, "origin_span": {}}


def made(p, rep, und):
    rep.rule("constructors put their arguments into the fields of that name, relative and without iri unless told otherwise; absolute...() sets the flags it is named after and nothing else")
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        m = re.match(r"refs::(\w+)::(new_all|new|local|remote|origin_span|absolute\w*)$", f.path)
        if not m or m.group(1) not in LAYOUT:
            continue
        ty, nm = m.groups()
        E = Emit(p, max_states=3000)
        arg = {f.locals[i][1]: ("sym", ("A", f.locals[i][1])) for i in range(1, f.argc + 1) if len(f.locals[i]) > 1}
        try:
            argv = [whole_self(ty) if nm.startswith("absolute") and i == 1 else ("sym", ("A", f.locals[i][1] if len(f.locals[i]) > 1 else "#%d" % i)) for i in range(1, f.argc + 1)]
            res = E.run(f, argv, St())
        except (TooComplex, RecursionError):
            und.append(f.path)
            continue
        fields = all_fields(ty)
        for st, rv in res:
            if rv == "err":
                continue
            v = E.deepval(st, rv)
            bad = None
            if nm.startswith("absolute"):
                which = {"absolute": ("row", "col"), "absolute_row": ("row",), "absolute_rows": ("row",), "absolute_col": ("col",), "absolute_cols": ("col",)}.get(nm)
                if which is None:
                    und.append(f.path)
                    continue
                try:
                    for fl in fields:
                        x = getf(v, fl)
                        want = any(fl.endswith(w + "_abs") for w in which)
                        if want and x != ("const", "bool", True):
                            bad = bad or "%s is not set" % fl
                        if not want and path_of(x) != ("self", tuple(fl.split("."))):
                            bad = bad or "%s is changed" % fl
                        n += 1
                except Unknown:
                    und.append(f.path)
                    continue
            elif nm == "new" and not f.argc:
                continue
            else:
                try:
                    for fl in fields:
                        x = getf(v, fl)
                        w = wanted(ty, nm, fl, arg)
                        if w is None:
                            raise Unknown()
                        if x != w:
                            if nm == "origin_span" and isinstance(w, str):
                                if not span_end(x, w, arg):
                                    bad = bad or "%s is not the last row or column of the span" % fl
                            else:
                                bad = bad or "%s is %s" % (fl, showv(x))
                        n += 1
                except Unknown:
                    und.append(f.path)
                    continue
            if bad:
                rep.bad("make:%s:%s" % (ty, nm), "%s::%s(): %s" % (ty, nm, bad), f.file, f.line, f.path, "constructors of references")
            else:
                rep.ok("%s::%s" % (ty, nm))
    rep.count(constructed_fields=n)


def whole_self(ty):
    """self, field by field"""
    top = {}
    for fl in all_fields(ty):
        v = ("sym", SELF)
        segs = fl.split(".")
        for s in segs:
            v = ("fld", v, ("", s))
        if len(segs) == 2:
            top.setdefault(segs[0], []).append((segs[1], v))
        else:
            top[segs[0]] = v
    out = []
    for k, v in top.items():
        if isinstance(v, list):
            ty2 = "refs::CRow" if v[0][0].startswith("row") else "refs::CCol"
            v = ("agg", ty2, "", tuple(v))
        out.append((k, v))
    return ("agg", "refs::" + ty, "", tuple(out))


def all_fields(ty):
    out = []
    for kind, field in LAYOUT[ty]:
        if kind in ("iri", "table"):
            out.append(field)
        elif kind in ("col", "row"):
            out += [dot(field, kind), dot(field, kind + "_abs")]
    return out


def getf(v, fl):
    for seg in fl.split("."):
        if v[0] == "agg":
            v = dict(v[3]).get(seg)
            if v is None:
                raise Unknown()
        elif v[0] in ("sym", "fld"):
            v = ("fld", v, ("", seg))
        elif v[0] == "upd":
            raise Unknown()
        else:
            raise Unknown()
    return v


NONE = ("agg", "std::option::Option", "None", ())
FALSE = ("const", "bool", False)


def wanted(ty, nm, fl, arg):
    base, _, sub = fl.partition(".")
    if nm == "new_all":
        if fl in ("iri", "table", "from_table", "to_table"):
            return arg.get(fl)
        pre = {"from": "from_", "to": "to_"}.get(base.split("_")[0], "")
        return arg.get(pre + {"row_abs": "row_abs", "col_abs": "col_abs", "row": "row", "col": "col"}[sub or base])
    if fl == "iri" or fl == "to_table":
        return NONE
    if fl in ("table", "from_table"):
        return ("agg", "std::option::Option", "Some", (("0", arg["table"]),)) if nm == "remote" and "table" in arg else NONE
    if (sub or base).endswith("_abs"):
        return FALSE
    k = sub or base
    to = base.startswith("to_")
    if nm == "origin_span" and to:
        return k
    for cand in (["to_" + k, k + "_to"] if to else [k, "from_" + k]):
        if cand in arg:
            return arg[cand]
    return None


def span_end(x, k, arg):
    """row + span.0 - 1 in any order"""
    i = "0" if k == "row" else "1"
    want = {arg[k]: 1, ("fld", arg["span"], ("", i)): 1, 1: -1}
    got = {}

    def lin(v, sg):
        while v[0] == "fld" and v[2][1] == "0" and v[1][0] == "bin":
            v = v[1]
        if v[0] == "bin" and v[1].startswith("Add"):
            lin(v[2], sg)
            lin(v[3], sg)
        elif v[0] == "bin" and v[1].startswith("Sub"):
            lin(v[2], sg)
            lin(v[3], -sg)
        elif v[0] == "const":
            got[1] = got.get(1, 0) + sg * v[2]
        else:
            got[v] = got.get(v, 0) + sg
    lin(x, 1)
    if any(v != 1 and path_of(v)[0] is None for v in got):
        raise Unknown()
    return {k: v for k, v in got.items() if v} == want


# ------------------------------------------------------------------ geometry
def num(v, env):
    """value of an expression over the numbers of a reference"""
    while v[0] == "cast":
        v = v[-1] if isinstance(v[-1], tuple) else v[1]
    if v[0] == "const":
        return int(v[2])
    if v[0] == "un" and v[1] == "Not":
        return int(not num(v[2], env))
    if v[0] == "bin":
        a, b = num(v[2], env), num(v[3], env)
        op = v[1]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return int({"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op])
        if op in ("BitAnd", "BitOr"):
            return a & b if op == "BitAnd" else a | b
        raise Unknown()
    if v[0] == "call" and last(v[1]) == "contains" and len(v[2]) == 2:
        r = v[2][0]
        x = num(v[2][1], env)
        if r[0] == "agg" and r[1].rsplit("::", 1)[-1] in ("Range", "RangeInclusive"):
            d = dict(r[3])
            lo, hi = num(d["start"], env), num(d["end"], env)
            return int(lo <= x < hi) if r[1].endswith("Range") else int(lo <= x <= hi)
        if r[0] == "call" and "RangeInclusive" in r[1] and last(r[1]) == "new":
            return int(num(r[2][0], env) <= x <= num(r[2][1], env))
        raise Unknown()
    if v[0] == "call" and last(v[1]) in ("max", "min") and len(v[2]) == 2:
        return {"max": max, "min": min}[last(v[1])](num(v[2][0], env), num(v[2][1], env))
    r, path = path_of(v)
    if r == "self":
        return env[".".join(path)] if ".".join(path) in env else unknown()
    if r is not None and not path and r in env:
        return env[r]
    raise Unknown()


def unknown():
    raise Unknown()


def holds(p, f, env_list, want):
    """first environment in which the function does not give what is wanted"""
    E = Emit(p, max_states=3000)
    try:
        res = E.run(f, [("ref", (SELF, ()))] + [("sym", ("A", f.locals[i][1])) for i in range(2, f.argc + 1)], St())
    except (TooComplex, RecursionError):
        raise Unknown()
    res = [(st, E.deepval(st, rv)) for st, rv in res if rv != "err"]
    for env in env_list:
        got = None
        for st, rv in res:
            live = True
            for k, c in st.cond.items():
                if k[0] == "is":
                    live = live and bool(num(k[1], env)) == c
                elif k[0] == "eq":
                    x = num(k[1], env)
                    live = live and (x == c[1] if c[0] == "is" else x not in c[1])
                else:
                    raise Unknown()
            if live:
                got = bool(num(rv, env))
        if got is None:
            raise Unknown()
        if got != want(env):
            return env
    return None


def geometry(p, rep, und):
    rep.rule("contains() is true exactly for cells between the first and last row and column, both included; out_looped() exactly for cells after the last one")
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        m = re.match(r"refs::(\w+)::(contains|out_looped)$", f.path)
        if not m or m.group(1) not in LAYOUT:
            continue
        ty = m.group(1)
        dims = [k for k, _ in LAYOUT[ty] if k in ("row", "col")]
        dims = sorted(set(dims))
        # only comparisons matter: all orders of the numbers involved
        one = [(1, 3, x) for x in range(5)] + [(2, 2, x) for x in (1, 2, 3)]
        envs = []
        for combo in itertools.product(one, repeat=len(dims)):
            env = {}
            for d, (lo, hi, x) in zip(dims, combo):
                env["from_%s.%s" % (d, d)] = lo
                env["to_%s.%s" % (d, d)] = hi
                env[d] = x
            envs.append(env)
        if m.group(2) == "contains":
            def want(e):
                return all(e["from_%s.%s" % (d, d)] <= e[d] <= e["to_%s.%s" % (d, d)] for d in dims)
        else:
            def want(e):
                return (e["row"], e["col"]) > (e["to_row.row"], e["to_col.col"])
        try:
            e = holds(p, f, envs, want)
        except (Unknown, KeyError):
            und.append(f.path)
            continue
        n += len(envs)
        if e is not None:
            where = ", ".join("%s %s the %s" % (d, "before" if e[d] < e["from_%s.%s" % (d, d)] else "at the start of" if e[d] == e["from_%s.%s" % (d, d)] else
                                                "at the end of" if e[d] == e["to_%s.%s" % (d, d)] else "after" if e[d] > e["to_%s.%s" % (d, d)] else "inside", "range") for d in dims)
            rep.bad("geometry:%s:%s" % (ty, f.name), "%s::%s() is %s for a cell with %s" % (ty, f.name, str(not want(e)).lower(), where), f.file, f.line, f.path, "cells of a range")
        else:
            rep.ok("%s::%s: %d orders" % (ty, f.name, len(envs)))
    rep.count(orders=n)


# ------------------------------------------------------------------ macros
def macros(p, rep, und):
    rep.rule("each arm of cell!() passes its rows, columns and table to the reference, absolute exactly if abs is given")
    src = os.path.join(facts.REPO, "src", "formula.rs")
    try:
        text = open(src).read()
    except OSError:
        und.append("cell!")
        return
    m = re.search(r"macro_rules!\s+cell\s*\{", text)
    if not m:
        und.append("cell!")
        return
    i, depth = m.end(), 1
    while i < len(text) and depth:
        depth += {"{": 1, "}": -1}.get(text[i], 0)
        i += 1
    body = re.sub(r"//[^\n]*", "", text[m.end():i - 1])
    n = 0
    pos = 0
    for a in re.finditer(r"\(([^()]*)\)\s*=>\s*\{(.*?)\n    \};?", body, re.S):
        pat, code = a.group(1), " ".join(a.group(2).split())
        line = text[:m.end()].count("\n") + 1 + text[m.end():i - 1][:0].count("\n")
        c = re.match(r"^[\w:$]*\b(CellRef|CellRange)::new_all\((.*?),?\s*\)$", code)
        head, _, cells = pat.rpartition("=>")
        vs = re.findall(r"(abs\s+)?\$(\w+)\s*:\s*expr", cells)
        tab = re.findall(r"\$(\w+)\s*:\s*expr", head)
        if not c or "(" in c.group(2).replace("$table.into()", "").replace("Some()", "") or len(vs) not in (2, 4):
            und.append("cell!(%s)" % " ".join(pat.split()))
            continue
        args = [x.strip() for x in c.group(2).split(",")]
        t = "Some($%s.into())" % tab[0] if tab else "None"
        want = ["None", t]
        for j, (ab, v) in enumerate(vs):
            if j == 2:
                want.append("None")
            want += ["true" if ab else "false", "$" + v]
        n += 1
        if args != want:
            rep.bad("macro:%s" % "".join(pat.split()).replace(":expr", ""), "cell!(%s) makes the reference %s" % (" ".join(pat.replace(":expr", "").split()), ", ".join(args)),
                    "src/formula.rs", text[:text.find(a.group(0))].count("\n") + 1, "cell!", "macro arms")
        else:
            rep.ok("cell!(%s)" % " ".join(pat.split()))
    rep.count(macro_arms=n)


# ------------------------------------------------------------------ conditions
OPS = {"eq": "=", "ne": "!=", "lt": "<", "gt": ">", "le": "<=", "ge": ">="}


def expected(ty, nm):
    """text of a condition: literals and argument positions"""
    m = re.match(r"value_(\w\w)$", nm)
    if ty == "ValueCondition" and m and m.group(1) in OPS:
        return ["value()" + OPS[m.group(1)], 0]
    if ty != "Condition":
        return None
    m = re.match(r"content_(text_length_)?(\w\w)$", nm)
    if m and m.group(2) in OPS:
        return ["cell-content%s()%s" % ("-text-length" if m.group(1) else "", OPS[m.group(2)]), 0]
    m = re.match(r"content_text_length_is_(not_)?between$", nm)
    if m:
        return ["cell-content-text-length-is-%sbetween(" % ("not-" if m.group(1) else ""), 0, ",", 1, ")"]
    m = re.match(r"content_is_(date|time|decimal_number|whole_number)_and$", nm)
    if m:
        return ["cell-content-is-%s()and" % m.group(1).replace("_", "-"), 0]
    if nm == "is_true_formula":
        return ["is-true-formula(", 0, ")"]
    return None


class Cond(Emit):
    def call(self, st, f, fid, t, depth, stack):
        fx = t[1]
        if isinstance(fx, dict) and "ind" not in fx and last(fx.get("r") or fx["fn"]) == "to_formula":
            return [(st, ("call", fx.get("r") or fx["fn"], tuple(self.deepval(st, self.op(st, fid, x)) for x in t[2])))]
        return super().call(st, f, fid, t, depth, stack)


def check_conditions(s, rep):
    p = s.p
    und = []
    texts(p, rep, und)
    lists(p, rep, und)
    quotes(p, rep, und)
    rep.count(undecided=len(und))


def cond_fns(p):
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        m = re.match(r"condition::(Condition|ValueCondition)::(\w+)$", f.path)
        if m and m.group(2) != "new":
            yield f, m.group(1), m.group(2)


def texts(p, rep, und):
    rep.rule("a condition is the ODF expression its function is named after: the tested property, the comparison operator, the given value or condition")
    n = 0
    for f, ty, nm in cond_fns(p):
        want = expected(ty, nm)
        if want is None:
            continue
        E = Cond(p, max_states=3000)
        argv = [("sym", ("A", f.locals[i][1])) for i in range(1, f.argc + 1)]
        try:
            res = E.run(f, argv, St())
        except (TooComplex, RecursionError):
            und.append(f.path)
            continue
        bad, got = None, 0
        for st, rv in res:
            if rv == "err":
                continue
            v = E.deepval(st, rv)
            v = dict(v[3]).get("cond") if v[0] == "agg" else None
            if v is None or v[0] != "str":
                und.append(f.path)
                continue
            seq = []
            ok = True
            for x in v[1]:
                if x[0] == "lit":
                    t = re.sub(r"\s+", "", x[1])
                    if t and seq and isinstance(seq[-1], str):
                        seq[-1] += t
                    elif t:
                        seq.append(t)
                elif x[0] == "val" and x[2] == "":
                    y = x[1]
                    while y[0] == "fld" and y[2][1] in ("val", "cond", "0", "*"):
                        y = y[1]
                    while y[0] == "call" and len(y[2]) == 1 and last(y[1]) in ("into", "to_string", "as_ref", "as_str", "from", "deref"):
                        y = y[2][0]
                    if y in argv:
                        seq.append(argv.index(y))
                    else:
                        ok = False
                else:
                    ok = False
            if not ok:
                und.append(f.path)
                continue
            if seq != want:
                bad = "".join(x if isinstance(x, str) else "{%s}" % f.locals[x + 1][1] for x in seq)
            got += 1
        n += got
        if bad is not None:
            rep.bad("condition:%s:%s" % (ty, nm), "%s::%s() gives the condition %s" % (ty, nm, bad), f.file, f.line, f.path, "text of a condition")
        elif got:
            rep.ok("%s::%s" % (ty, nm))
    rep.count(conditions=n)


def lists(p, rep, und):
    rep.rule("a list condition has every element of the list, in quotes, separated by ;, and a range condition the formula text of its range")
    for f, ty, nm in cond_fns(p):
        if nm not in ("content_is_in_list", "content_is_in_cellrange"):
            continue
        E = Cond(p, max_states=3000)
        argv = [("sym", ("A", f.locals[i][1])) for i in range(1, f.argc + 1)]
        try:
            res = E.run(f, argv, St())
        except (TooComplex, RecursionError):
            und.append(f.path)
            continue
        for st, rv in res:
            if rv == "err":
                continue
            v = E.deepval(st, rv)
            v = dict(v[3]).get("cond") if v[0] == "agg" else None
            if v is None or v[0] != "str":
                und.append(f.path)
                continue
            ps = v[1]
            bad = None
            if not ps or ps[0][0] != "lit" or ps[-1][0] != "lit":
                und.append(f.path)
                continue
            if ps[0][1].strip() != "cell-content-is-in-list(" or ps[-1][1].strip() != ")":
                bad = "the list is enclosed in %s %s" % (ps[0][1], ps[-1][1])
            mid = ps[1:-1]
            if nm == "content_is_in_cellrange":
                if len(mid) != 1 or mid[0][0] != "val":
                    bad = bad or "it is not the formula text of the range"
                elif not (mid[0][1][0] == "call" and last(mid[0][1][1]) == "to_formula" and mid[0][1][2] == (argv[0],)):
                    if contains_v(mid[0][1], argv[0]):
                        bad = bad or "it is not the formula text of the range"
                    else:
                        und.append(f.path)
            else:
                if len(mid) != 1 or mid[0][0] != "rep":
                    und.append(f.path)
                    if not bad:
                        continue
                else:
                    lits = set()
                    for c, xs in mid[0][1]:
                        vals = [x for x in xs if x[0] == "val"]
                        if len(vals) != 1 or any(x[0] == "rep" for x in xs):
                            bad = bad or "not every element is in the condition once"
                            continue
                        if vals[0][2]:
                            bad = bad or "the elements are formatted as %s" % vals[0][2]
                        k = xs.index(vals[0])
                        pre = "".join(x[1] for x in xs[:k])
                        suf = "".join(x[1] for x in xs[k + 1:])
                        isq = next((b for kk, b in c if kk[0] == "is" and kk[1][0] == "call" and last(kk[1][1]) == "starts_with"), None)
                        q = '"' if isq is False else ""
                        lits.add(pre.replace('"', "").strip() + "|" + suf.replace('"', "").strip())
                        if isq is not None and (pre.count('"') != len(q) or suf.count('"') != len(q)):
                            bad = bad or "elements are not enclosed in one pair of quotes"
                    if not bad and lits not in ({"|", ";|"}, {"|;", "|"}):
                        bad = "the elements are separated by %s" % " or ".join(sorted(x.replace("|", "") or "nothing" for x in lits))
            if bad:
                rep.bad("condition:%s:%s" % (ty, nm), "%s::%s(): %s" % (ty, nm, bad), f.file, f.line, f.path, "text of a condition")
            else:
                rep.ok("%s::%s" % (ty, nm))


def quotes(p, rep, und):
    rep.rule('a text in a condition is enclosed in " with every " in it doubled; other values are their plain text')
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        m = re.match(r"<condition::Value as std::convert::From<&*([\w:]+)>>::from$", f.path)
        if not m:
            continue
        text = m.group(1) in ("str", "std::string::String", "char")
        E = Cond(p, max_states=3000)
        arg = ("sym", ("A", "v"))
        try:
            res = E.run(f, [arg], St())
        except (TooComplex, RecursionError):
            und.append(f.path)
            continue
        for st, rv in res:
            if rv == "err":
                continue
            v = E.deepval(st, rv)
            v = dict(v[3]).get("val") if v[0] == "agg" else None
            if v is None:
                und.append(f.path)
                continue
            if not text:
                if v == arg or v[0] == "str" and v[1] == (("val", arg, ""),):
                    n += 1
                    rep.ok(f.path)
                elif v[0] == "str" or v[0] in ("const", "bin", "cast"):
                    rep.bad("value:%s" % m.group(1), "a %s is written as %s" % (m.group(1), showv(v)), f.file, f.line, f.path, "values in conditions")
                else:
                    und.append(f.path)
                continue
            if v[0] != "str":
                und.append(f.path)
                continue
            ps = v[1]
            bad = None
            if not ps or ps[0][0] != "lit" or not ps[0][1] == '"' or ps[-1][0] != "lit" or ps[-1][1] != '"':
                bad = 'it is not enclosed in "'
            mid = ps[1:-1]
            if not bad and len(mid) == 1 and mid[0][0] == "rep":
                for c, xs in mid[0][1]:
                    q = [b for kk, b in c if kk[0] == "eq"]
                    vals = [x for x in xs if x[0] == "val"]
                    lit = "".join(x[1] for x in xs if x[0] == "lit")
                    if ("is", 34) in q:
                        if lit + '"' * len(vals) != '""':
                            bad = '" in the text is not doubled'
                    elif any(b[0] == "is" for b in q):
                        ch = chr(next(b for b in q if b[0] == "is")[1])
                        if lit + ch * len(vals) != ch:
                            bad = "%r in the text is written as %r" % (ch, lit)
                    elif len(vals) != 1 or lit:
                        bad = "a character is not written as it is"
                    elif not any(b[0] == "not" and 34 in b[1] for b in q):
                        bad = '" in the text is not doubled'
            elif not bad and len(mid) == 1 and mid[0][0] == "val":
                x = mid[0][1]
                if x == arg:
                    bad = '" in the text is not doubled'
                elif x[0] == "call" and last(x[1]) == "replace":
                    if [y[2] if y[0] == "const" else None for y in x[2][1:]] != ['"', '""']:
                        bad = '" in the text is not doubled'
                else:
                    und.append(f.path)
            elif not bad:
                und.append(f.path)
            n += 1
            if bad:
                rep.bad("value:%s" % m.group(1), "a text value in a condition: %s" % bad, f.file, f.line, f.path, "values in conditions")
            else:
                rep.ok(f.path)
    rep.count(value_conversions=n)


PROPS = {"C22": (check_refs, "other", "path summaries of the text of references over MIR against the layout of the reference; symbolic results of the parsers"),
         "C23": (check_conditions, "other", "path summaries of the text of conditions over MIR, compared with the ODF expression each function is named after")}
