"""Output summaries of the XML writer primitives, and the XML they must produce."""
import html
from emit import Emit, St, TooComplex, join_pieces, showp, UNIT
from mir import *

RAW = {"attr", "attr_str", "text", "text_str", "elem_text"}
ESC = {"attr_esc", "text_esc", "elem_text_esc"}
NAMES = {"elem", "empty", "elem_if", "end_elem", "end_elem_if"} | RAW | ESC
ENT = {"quot": '"', "apos": "'", "amp": "&", "lt": "<", "gt": ">"}


def decode(text):
    """decode XML entity/character references; None when there is a bare special or an unknown entity"""
    out, i = "", 0
    while i < len(text):
        c = text[i]
        if c == "&":
            j = text.find(";", i)
            if j < 0:
                return None
            n = text[i + 1:j]
            if n in ENT:
                out += ENT[n]
            elif n.startswith("#"):
                try:
                    out += chr(int(n[2:], 16) if n[1:2] in "xX" else int(n[1:]))
                except ValueError:
                    return None
            else:
                return None
            i = j + 1
        else:
            out += c
            i += 1
    return out


def classify(pieces, arg):
    """replace occurrences of the value `arg` by markers: \x01 raw, \x02 escaped ok, \x03 escaped wrongly; returns (text, notes)"""
    out, notes = "", []
    for x in pieces:
        if x[0] == "lit":
            out += x[1].replace("\n", "")
        elif x[0] == "val":
            v, esc = x[1], None
            while v[0] == "call" and len(v[2]) == 1:
                nm = v[1].rsplit("::", 1)[-1]
                if nm in ("escape", "partial_escape", "minimal_escape"):
                    esc = nm
                v = v[2][0]
            v = unwrap_str(v)
            k = arg.get(v)
            if k is None:
                out += "\x04"
                notes.append("unknown value %s" % (x[1],))
            else:
                out += k[0] if esc is None else k[1]
                if x[2] not in ("",):
                    notes.append("value formatted with %s" % x[2])
                    out += "\x05"
        else:
            m = rep_table(x)
            if m is None:
                out += "\x04"
                notes.append("loop output not understood")
                continue
            src, table, default = m
            k = arg.get(unwrap_str(src))
            if k is None:
                out += "\x04"
                notes.append("loop over unknown value")
                continue
            bad = []
            if default != "same":
                bad.append("ordinary characters are not copied")
            for ch, txt in table.items():
                d = decode(txt)
                if d != ch and not (k[2] == "name" and ch == "\\"):
                    bad.append("%r is written as %r" % (ch, txt))
                elif d is not None and txt == ch and ch in "&<>\"":
                    bad.append("%r is not escaped" % ch)
            for ch in "&<>\"":
                if ch not in table and not (ch == ">" and "value" != k[2]):
                    bad.append("%r is not escaped" % ch)
            if bad and k[2] != "name":
                out += "\x03"
                notes += bad
            else:
                out += k[1]
    return out, notes


def unwrap_str(v):
    while True:
        if v[0] == "str" and len(v[1]) == 1 and v[1][0][0] == "val" and v[1][0][2] == "":
            v = v[1][0][1]
        elif v[0] == "elem":
            return v
        else:
            return v


def rep_table(piece):
    """a per-character loop: (source value, {char: text}, 'same' or None)"""
    src, table, default = None, {}, None
    for conds, ps in piece[1]:
        key = None
        for k, v in conds:
            if k[0] == "eq" and k[1][0] == "elem":
                key = v
                src = k[1][1][1]
        if key is None:
            # no condition: copies every element unchanged?
            if len(ps) == 1 and ps[0][0] == "val" and ps[0][1][0] == "elem":
                src = ps[0][1][1][1]
                default = "same"
                continue
            return None
        if key[0] == "is":
            if all(p[0] == "lit" for p in ps):
                table[chr(key[1]) if isinstance(key[1], int) else key[1]] = "".join(p[1] for p in ps)
            elif len(ps) == 1 and ps[0][0] == "val" and ps[0][1][0] == "elem":
                c = chr(key[1]) if isinstance(key[1], int) else key[1]
                table[c] = c
            else:
                return None
        else:
            if len(ps) == 1 and ps[0][0] == "val" and ps[0][1][0] == "elem":
                default = "same"
            else:
                default = "other"
    if src is None:
        return None
    return src, table, default


class Prims:
    """runs primitives in sequence on a fresh writer and gives the complete output text"""

    def __init__(self, prog):
        self.p = prog
        self.fns = {}
        for f in prog.fns.values():
            parts = f.path.split("::")
            if len(parts) >= 2 and parts[-2] == "<W>" and parts[-3] == "XmlWriter":
                self.fns[f.name] = f
        self.runs = 0

    def start(self):
        E = Emit(self.p)
        st = St()
        root = ("A", "self")
        out = ("A", "sink")
        st.mem[(out, ())] = ("str", ())
        res = E.run(self.fns["new"], [("ref", (out, ()))], st)
        states = []
        for s, v in res:
            if "line_break" in self.fns and self.fns["line_break"].argc == 2:
                for s2, v2 in E.run(self.fns["line_break"], [v, ("sym", ("A", "nl"))], s):
                    self.put(s2, root, (), v2)
                    states.append(s2)
            else:
                self.put(s, root, (), v)
                states.append(s)
        return E, root, out, states

    def put(self, s, root, path, v):
        s.mem[(root, path)] = v
        if v[0] == "agg" and not v[2]:
            for n, x in v[3]:
                self.put(s, root, path + (("", n),), x)

    def seq(self, steps):
        """steps: [(primitive, extra args)]; -> set of complete outputs as piece tuples"""
        E, root, out, states = self.start()
        for nm, args in steps:
            f = self.fns[nm]
            nxt = []
            for s in states:
                for s2, rv in E.run(f, [("ref", (root, ()))] + list(args), s.copy()):
                    nxt.append(s2)
            states = nxt
        self.runs += 1
        res = set()
        for s in states:
            res.add(E.read(s, (out, ()))[1])
        return res


def sym(n):
    return ("sym", ("A", n))


T, F = ("const", "bool", True), ("const", "bool", False)
A, B, K, V = sym("a"), sym("b"), sym("k"), sym("v")
MARK = {A: ("A", "A", "name"), B: ("B", "B", "name"), K: ("K", "K", "name"), V: ("\x01", "\x02", "value")}

# sequences of primitives (after declaring element a) and the document text they must yield (\x01 raw value, \x02 escaped value)
SEQS = []


def _mk():
    opens = [("elem", (A,), "<A", ">", "</A>"), ("elem_if", (T, A), "<A", ">", "</A>")]
    empties = [("empty", (B,), "<B"), ("elem_if", (F, B), "<B")]
    ends = [("end_elem", (A,)), ("end_elem_if", (T, A))]
    for o in opens:
        for e in ends:
            SEQS.append(([(o[0], o[1]), e], "<A></A>"))
        for x in empties:
            SEQS.append(([(o[0], o[1]), (x[0], x[1]), ends[0]], "<A><B/></A>"))
            SEQS.append(([(o[0], o[1]), (x[0], x[1]), ("end_elem_if", (F, B)), ends[0]], "<A><B/></A>"))
            SEQS.append(([(o[0], o[1]), (x[0], x[1]), ("attr_esc", (K, V)), ends[0]], "<A><B K=\"\x02\"/></A>"))
            SEQS.append(([(o[0], o[1]), (x[0], x[1]), (x[0], x[1]), ends[0]], "<A><B/><B/></A>"))
            SEQS.append(([(o[0], o[1]), (x[0], x[1]), ("text_esc", (V,)), ends[0]], "<A><B/>\x02</A>"))
        SEQS.append(([(o[0], o[1]), ("elem", (B,)), ("end_elem", (B,)), ends[0]], "<A><B></B></A>"))
        SEQS.append(([(o[0], o[1]), ("elem", (B,)), ("text_esc", (V,)), ("end_elem", (B,)), ("empty", (B,)), ends[0]], "<A><B>\x02</B><B/></A>"))
    for a, m in (("attr", "\x01"), ("attr_esc", "\x02"), ("attr_str", "\x01")):
        SEQS.append(([("elem", (A,)), (a, (K, V)), ("end_elem", (A,))], "<A K=\"%s\"></A>" % m))
        SEQS.append(([("elem", (A,)), (a, (K, V)), (a, (B, V)), ("end_elem", (A,))], "<A K=\"%s\" B=\"%s\"></A>" % (m, m)))
    for t, m in (("text", "\x01"), ("text_esc", "\x02"), ("text_str", "\x01")):
        SEQS.append(([("elem", (A,)), (t, (V,)), ("end_elem", (A,))], "<A>%s</A>" % m))
        SEQS.append(([("elem", (A,)), (t, (V,)), (t, (V,)), ("end_elem", (A,))], "<A>%s%s</A>" % (m, m)))
        SEQS.append(([("elem", (A,)), ("empty", (B,)), (t, (V,)), ("elem", (B,)), ("end_elem", (B,)), ("end_elem", (A,))], "<A><B/>%s<B></B></A>" % m))
    for t, m in (("elem_text", "\x01"), ("elem_text_esc", "\x02")):
        SEQS.append(([("elem", (A,)), (t, (B, V)), ("end_elem", (A,))], "<A><B>%s</B></A>" % m))
        SEQS.append(([("elem", (A,)), ("attr_esc", (K, V)), (t, (B, V)), (t, (B, V)), ("end_elem", (A,))],
                     "<A K=\"\x02\"><B>%s</B><B>%s</B></A>" % (m, m)))
        SEQS.append(([("elem", (A,)), ("empty", (B,)), (t, (B, V)), ("empty", (B,)), ("end_elem", (A,))], "<A><B/><B>%s</B><B/></A>" % m))


_mk()


def check_prims(s):
    """[(ok, sequence text, expected, got, notes)]"""
    P = Prims(s.p)
    missing = sorted((NAMES | {"new", "close", "dtd"}) - set(P.fns))
    res = []
    if missing:
        return P, missing, res
    for steps, exp in SEQS:
        names = ",".join(n for n, _ in steps)
        used = {n for n, _ in steps}
        try:
            outs = P.seq([("dtd", (("const", "s", "UTF-8"),))] + steps + [("close", ())])
        except TooComplex as e:
            res.append((False, names, exp, None, ["not analysable: %s" % e], used))
            continue
        if not outs:
            res.append((False, names, exp, None, ["no normal exit"], used))
        for o in outs:
            got, notes = classify(o, MARK)
            body = got
            okdecl = got.startswith("<?xml") and "?>" in got
            if okdecl:
                body = got[got.index("?>") + 2:]
            if not okdecl:
                notes = notes + ["no XML declaration"]
            res.append((okdecl and body == exp, names, exp, body, notes, used))
    return P, missing, res
