"""Provenance: which leaves (attribute values, event text, constants, parameters, model fields, calls) can flow
into a place of a function.  Demand driven backward reachability over the def-use graph of one body; calls to
other crate functions go through summaries of what they return / store."""
from collections import defaultdict
from mir import *

DECODE = {"decode_and_unescape_value", "unescape_value", "decoded_and_normalized_value", "normalized_value",
          "decode_and_unescape_value_with"}
MUTATORS = {"push", "insert", "push_str", "extend", "replace", "append", "push_back", "or_insert", "or_insert_with",
            "get_or_insert_with", "get_or_insert", "or_default", "write_str", "write_fmt", "write_char",
            "extend_from_slice", "write_all", "write", "insert_with", "entry", "put", "add_assign", "set", "swap"}


ARITH = {"Div", "Rem", "Mul", "MulWithOverflow", "Add", "AddWithOverflow", "Sub", "SubWithOverflow", "Shl", "Shr", "BitXor"}


def site(f, b):
    return (f.id, b)


class Body:
    """def-use view of one function"""

    def __init__(self, prog, f):
        self.p = prog
        self.f = f
        self.alias = self._aliases()
        self.mutdefs = self._mutdefs()

    def _aliases(self):
        """local -> place it mutably borrows / copies (reborrow chains)"""
        al = {}
        for l, ds in self.f.defs[0].items():
            if len(ds) == 1 and ds[0][2] == "r":
                rv = ds[0][3]
                if rv[0] == "refm":
                    al[l] = rv[1]
                elif rv[0] == "use" and rv[1][0] in ("c", "m") and self.f.locals[l][0].startswith("&"):
                    al[l] = rv[1][1]
        return al

    def root_place(self, pl, depth=0):
        """resolve a (reborrowed) place to the storage it denotes: (local, projs)"""
        l, projs = pl[0], list(pl[1:])
        while depth < 20 and l in self.alias and not (1 <= l <= self.f.argc):
            a = self.alias[l]
            l, projs = a[0], list(a[1:]) + projs
            depth += 1
        return l, projs

    def _mutdefs(self):
        md = defaultdict(list)
        for (b, path, fid, args, t) in self.f.calls:
            for i, a in enumerate(args):
                if a[0] not in ("c", "m"):
                    continue
                ty = self.f.locals[a[1][0]][0]
                if not (ty.startswith("&") and "mut " in ty[:24]) or len(a[1]) > 1:
                    continue
                l, projs = self.root_place(a[1])
                md[l].append((b, projs, i, args, t))
        return md


def fkey(projs):
    return tuple((p[1], p[2], p[3]) for p in projs if p[0] == ".")


class Prov:
    def __init__(self, prog):
        self.p = prog
        self._bodies = {}
        self._ret = {}

    def body(self, f):
        b = self._bodies.get(f.id)
        if b is None:
            b = self._bodies[f.id] = Body(self.p, f)
        return b

    # ------------------------------------------------------------------ leaves of an operand / place
    def leaves(self, f, op, block, stop=None, key0=()):
        """[(leaf, path of def blocks ctx)] ; leaf kinds:
        ('arg', i, proj)  ('const', kind, v)  ('decode', block, op)  ('attrfield', block, place, name)
        ('event', variant, block, place) ('field', owner, variant, name) ('call', path, fid, block) """
        out = {}
        seen = set()
        st = []

        def push(op, key, ctx):
            if op[0] == "k":
                t = const_term(op[1])
                if not key:
                    out.setdefault(("const", t[1], t[2]), set()).add(ctx)
                else:
                    tt = t
                    out.setdefault(("const", tt[1], tt[2]), set()).add(ctx)
                return
            if op[0] in ("c", "m"):
                pl = op[1]
                st.append((pl[0], fkey(pl[1:]) + key, ctx))

        B = self.body(f)
        push(op, key0, (block,))
        n = 0
        while st:
            l, key, ctx = st.pop()
            if (l, key, ctx[-1]) in seen:
                continue
            seen.add((l, key, ctx[-1]))
            n += 1
            if n > 4000:
                out.setdefault(("overflow",), set()).add(ctx)
                break
            # model field leaf: the place itself names a crate field
            mf = [k for k in key if k[0] in self.p.adts]
            ds = f.defs[0].get(l, [])
            pds = f.defs[1].get(l, [])
            if 1 <= l <= f.argc:
                out.setdefault(("arg", l, key), set()).add(ctx)
            if mf:
                out.setdefault(("field",) + mf[-1], set()).add(ctx)
            ev = [k for k in key if k[0] == "quick_xml::events::Event"]
            if ev:
                out.setdefault(("event", ev[0][1], ctx[-1]), set()).add(ctx)
                continue
            at = [k for k in key if "Attribute" in k[0] and k[2] in ("value", "key")]
            if at:
                out.setdefault(("attrfield", at[0][2], ctx[-1]), set()).add(ctx)
                continue
            for d in pds:
                dk = fkey(d[4])
                m = min(len(dk), len(key))
                if tuple((x[0], x[2]) for x in dk[:m]) == tuple((x[0], x[2]) for x in key[:m]):
                    rest = key[len(dk):]
                    self._def(f, d, rest, ctx, push, out, stop)
            for d in ds:
                self._def(f, d, key, ctx, push, out, stop)
            for (b, projs, i, args, t) in B.mutdefs.get(l, ()):
                dk = fkey(projs)
                m = min(len(dk), len(key))
                if tuple((x[0], x[2]) for x in dk[:m]) != tuple((x[0], x[2]) for x in key[:m]):
                    continue
                fx = t[1]
                path = (fx.get("r") or fx["fn"]) if isinstance(fx, dict) and "ind" not in fx else "?"
                nm = path.rsplit("::", 1)[-1]
                if nm in MUTATORS:
                    for j, a in enumerate(args):
                        if j != i:
                            push(a, (), ctx + (b,))
        return out

    def _def(self, f, d, key, ctx, push, out, stop):
        b = d[0]
        c2 = ctx if ctx[-1] == b else (ctx + (b,))[-12:]
        if d[2] == "r":
            rv = d[3]
            k = rv[0]
            if k == "use":
                push(rv[1], key, c2)
            elif k in ("ref", "refm"):
                push(("c", rv[1]), key, c2)
            elif k == "discr":
                push(("c", rv[1]), (), c2)
            elif k == "cast":
                if rv[1] in ("FloatToInt", "FloatToFloat", "IntToInt") and rv[3] in ("f32", "u8", "i8", "u16", "i16") or rv[1] == "FloatToInt":
                    out.setdefault(("via", "op:cast:" + rv[3], "", b), set()).add(c2)
                push(rv[2], key if ("Pointer" in rv[1] or "Transmute" in rv[1] or "PtrToPtr" in rv[1]) else (), c2)
            elif k == "bin":
                if rv[1] in ARITH:
                    out.setdefault(("via", "op:" + rv[1], "", b), set()).add(c2)
                push(rv[2], (), c2)
                push(rv[3], (), c2)
            elif k == "un":
                if rv[1] in ("Neg", "Not"):
                    out.setdefault(("via", "op:" + rv[1], "", b), set()).add(c2)
                push(rv[2], (), c2)
            elif k == "agg":
                kk = rv[1]
                owner, var, names = ("(tuple)", "", None)
                if kk[0] == "adt":
                    owner, var, names = kk[1], kk[2], kk[3]
                    if not names:
                        out.setdefault(("const", "e", (owner, var)), set()).add(c2)
                elif kk[0] == "closure":
                    owner = "(closure)" + kk[1]
                for i, o in enumerate(rv[2]):
                    n = names[i] if names else str(i)
                    if key:
                        k0 = key[0]
                        if k0[0] == owner or (owner == "(tuple)" and k0[0].startswith("(tuple)")):
                            if k0[1] and var and k0[1] != var:
                                continue
                            if k0[2] != n:
                                continue
                            push(o, key[1:], c2)
                            continue
                    push(o, key, c2)
            elif k == "rep":
                push(rv[1], (), c2)
            return
        t = d[3]
        fx = t[1]
        if not isinstance(fx, dict) or "ind" in fx:
            for a in t[2]:
                push(a, (), c2)
            return
        path = fx.get("r") or fx["fn"]
        fid = fx.get("rid") or fx["id"]
        nm = path.rsplit("::", 1)[-1]
        if fx.get("ctor"):
            of = fx["of"]
            owner, var = (of, "") if of in self.p.adts else (of.rsplit("::", 1) + [""])[:2] if "::" in of else (of, "")
            if key and key[0][0] == owner:
                if key[0][1] and var and key[0][1] != var:
                    return
                for i, a in enumerate(t[2]):
                    if str(i) == key[0][2]:
                        push(a, key[1:], c2)
                return
            for a in t[2]:
                push(a, key, c2)
            return
        if nm in DECODE:
            out.setdefault(("decode", nm, b), set()).add(c2)
            return
        if nm in ("read_event_into", "read_event"):
            ev = [k for k in key if k[0] == "quick_xml::events::Event"]
            out.setdefault(("event", ev[0][1] if ev else "?", b), set()).add(c2)
            return
        if stop is not None and stop(path, fid):
            out.setdefault(("call", path, fid, b, key), set()).add(c2)
            return
        if nm == "branch" and "Try" in path:
            # ControlFlow::Continue.0 -> Ok.0 / Some.0
            if key and key[0][0] == "std::ops::ControlFlow":
                if key[0][1] == "Continue":
                    ty = f.locals[t[2][0][1][0]][0] if t[2][0][0] in ("c", "m") else ""
                    if ty.startswith("std::option::Option"):
                        push(t[2][0], (("std::option::Option", "Some", "0"),) + key[1:], c2)
                    else:
                        push(t[2][0], (("std::result::Result", "Ok", "0"),) + key[1:], c2)
                return
            push(t[2][0], (), c2)
            return
        if nm in TRANSPARENT and is_std(path):
            if t[2]:
                push(t[2][0], key, c2)
            return
        out.setdefault(("via", path, fid, b), set()).add(c2)
        if nm == "from_residual":
            return
        g = self.p.fns.get(fid)
        for i, a in enumerate(t[2]):
            push(a, (), c2)
