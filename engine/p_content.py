"""C24: text content and foreign XML is kept whole and in order.

An ownership and typestate analysis of the functions that build text content from XML events (and of those that combine
such content): per event, every way through the function back to the next event (or to a successful return) is followed
over the control flow graph with the values of the drop flags and the variants known there.
"""
import roundtrip
import tables
from mir import *
from readrules import event, last, structural, flag

CONTENT = ("io::read::TextContent", "xmltree::XmlTag", "xmltree::XmlContent")
# conversions that keep the text
KEEP = {"decode", "as_ref", "deref", "borrow", "branch", "into", "from", "to_string", "to_owned", "into_owned", "clone", "from_utf8", "as_str", "as_bytes", "into_inner", "to_vec", "unwrap",
        "xml_content", "xml10_content", "xml11_content", "as_deref", "into_string", "into_bytes", "expect", "map_err", "from_utf8_unchecked", "as_slice", "into_boxed_str", "ok_or", "ok_or_else", "unwrap_or_default", "format", "must_use", "new_display", "new_v1", "new"}
SINKS = {"push_str", "extend_from_slice", "extend", "add_text", "text", "push", "write_str", "write_all", "append", "push_all", "add", "add_assign", "concat", "write_fmt"}
# changes to content that lose or reorder it
DENY = {"insert", "insert_str", "remove", "swap_remove", "truncate", "clear", "drain", "retain", "retain_mut", "dedup", "dedup_by", "dedup_by_key", "reverse", "sort", "sort_by", "sort_by_key", "sort_unstable", "swap",
        "split_off", "rotate_left", "rotate_right", "resize", "replace_range", "fill", "splice"}


def base_ty(p, ty):
    for pre in ("&", "mut "):
        while ty.startswith(pre):
            ty = ty[len(pre):]
    return ty


def content_ty(p, ty, deep=True):
    """a type that owns content"""
    ty = ty.strip()
    if ty.startswith("&"):
        return False
    if ty in p.content_types:
        return True
    for w in ("std::option::Option<", "std::vec::Vec<", "std::boxed::Box<"):
        if ty.startswith(w) and ty.endswith(">"):
            return content_ty(p, ty[len(w):-1].split(", std::alloc")[0])
    return False


def mentions(t, pred):
    r = [False]

    def v(y):
        if pred(y):
            r[0] = True
    walk(t, v)
    return r[0]


def vkey(pl):
    return tuple(x if isinstance(x, int) else tuple(x) for x in pl)


class Flow:
    """ways through a function from a block to the next event or a successful return"""

    def __init__(self, p, f):
        self.p, self.f = p, f
        self.heads = {b for (b, path, cid, args, t) in f.calls if last(path) == "read_event_into"}
        self.bools = {i for i, l in enumerate(f.locals) if l[0] == "bool"}

    def names(self, pl):
        return self.p.enum_names(self.p.place_ty(self.f, pl)) if len(pl) > 1 else self.p.enum_names(self.f.locals[pl[0]][0])

    def run(self, start, sinks=(), bools=None, variants=None, cap=60000):
        """yield (end block, drops on the way, whether a sink was passed, state) for every way that ends well"""
        f = self.f
        out = set()
        first = (start, tuple(sorted((bools or {}).items())), tuple(sorted((variants or {}).items())), (), (), False, False, frozenset())
        seen, st, n = {first}, [first], 0
        self.truncated = False
        while st:
            b, bo, va, disc, drops, hit, err, used = st.pop()
            n += 1
            if n > cap:
                self.truncated = True
                break
            bo, va, disc = dict(bo), dict(va), dict(disc)
            if b in sinks:
                hit = True
            bb = f.bbs[b]
            for s in bb["s"]:
                if s[0] != "=":
                    continue
                pl, rv = s[1], s[2]
                if len(pl) == 1:
                    l = pl[0]
                    for k in [k for k in va if k[0] == l]:
                        del va[k]
                    disc.pop(l, None)
                    bo.pop(l, None)
                    if l in self.bools:
                        if rv[0] == "use" and rv[1][0] == "k":
                            c = strip(f.term_op(rv[1], False))
                            if c[0] == "const" and c[1] == "bool":
                                bo[l] = c[2]
                        elif rv[0] == "use" and rv[1][0] in ("c", "m") and len(rv[1][1]) == 1 and rv[1][1][0] in bo:
                            bo[l] = bo[rv[1][1][0]]
                    if rv[0] == "discr":
                        disc[l] = vkey(rv[1])
                    if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][2]:
                        va[(l,)] = (rv[1][2],)
                        if l == 0 and rv[1][2] == "Err":
                            err = True
                    if rv[0] == "use" and rv[1][0] in ("c", "m"):
                        src = vkey(rv[1][1])
                        for k in list(va):
                            if k[:len(src)] == src:
                                va[(l,) + k[len(src):]] = va[k]
                        if rv[1][0] == "m" and len(src) == 1:
                            for k in [k for k in va if k[0] == src[0] and src[0] != l]:
                                del va[k]
                else:
                    k0 = vkey(pl)
                    for k in [k for k in va if k[:len(k0)] == k0]:
                        del va[k]
                    if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][2]:
                        va[k0] = (rv[1][2],)
            t = bb["t"]
            if t[0] == "call":
                d = t[3]
                if b in self.anyread():
                    used = used | {b}
                if (t[1] or {}).get("fn", "") in ("std::mem::drop", "core::mem::drop", "std::mem::forget", "core::mem::forget") and t[2] and t[2][0][0] == "m":
                    l = t[2][0][1][0]
                    if content_ty(self.p, f.locals[l][0]) or any(x in f.locals[l][0] for x in self.p.content_types):
                        drops = tuple(sorted(set(drops) | {((l,), va.get((l,), ()) or ("explicitly",))}, key=str))
                if len(d) == 1:
                    for k in [k for k in va if k[0] == d[0]]:
                        del va[k]
                    bo.pop(d[0], None)
                    disc.pop(d[0], None)
                    if d[0] == 0 and "from_residual" in (t[1] or {}).get("fn", ""):
                        err = True
            if t[0] == "drop":
                k = vkey(t[1])
                ty = self.p.place_ty(f, t[1]) if len(t[1]) > 1 else f.locals[t[1][0]][0]
                if len(k) > 1 and any(isinstance(x, tuple) and x[0] == "as" for x in k):
                    i = max(i for i, x in enumerate(k) if isinstance(x, tuple) and x[0] == "as")
                    if va.get(k[:i]) == (k[i][1],) and (content_ty(self.p, ty or "") or ty and ty.endswith("String")) and k[i][1] not in ("Some", "Ok", "Continue"):
                        drops = tuple(sorted(set(drops) | {(k, (k[i][1],))}, key=str))
                elif ty and content_ty(self.p, ty) or k in self.strings(b) and not used & self.reads(k):
                    drops = tuple(sorted(set(drops) | {(k, va.get(k, ()))}, key=str))
            if t[0] == "ret":
                if not err:
                    out.add((b, drops, hit, va.get((0,), ())))
                continue
            nxt = []
            if t[0] == "sw":
                op = t[1]
                l = op[1][0] if op[0] in ("c", "m") and len(op[1]) == 1 else None
                if l in bo:
                    want = 1 if bo[l] else 0
                    tgt = next((s for v, s in t[2] if v == want), t[3])
                    nxt = [(tgt, None)]
                elif l in disc:
                    k = disc[l]
                    names = self.p.discr_names(f, op) or {}
                    poss = va.get(k) or tuple(names.values())
                    left = set(poss)
                    for v, s in t[2]:
                        nm = names.get(v)
                        left.discard(nm)
                        if nm in poss or not names:
                            nxt.append((s, (k, (nm,)) if nm else None))
                    if (left or not names) and f.bbs[t[3]]["t"][0] != "unr":
                        nxt.append((t[3], (k, tuple(sorted(left))) if left else None))
                else:
                    for v, s in t[2]:
                        nxt.append((s, ("b", l, bool(v)) if l in self.bools else None))
                    nxt.append((t[3], ("b", l, True) if l in self.bools else None))
            else:
                nxt = [(s, None) for s in f.succs(b)]
            oks = set(f.ok_succs(b))
            for s, ref in nxt:
                if s not in oks or f.bbs[s]["t"][0] == "unr":
                    continue
                if s in self.heads or s == start and start in self.heads:
                    if not err:
                        out.add((s, drops, hit, ()))
                    continue
                b2, v2 = dict(bo), dict(va)
                if ref and ref[0] == "b":
                    if ref[1] is not None:
                        b2[ref[1]] = ref[2]
                elif ref and (ref[0] in va or not self.ladder(s)):
                    v2[ref[0]] = ref[1]
                z = (s, tuple(sorted(b2.items())), tuple(sorted(v2.items(), key=str)), tuple(sorted(disc.items(), key=str)), drops, hit, err, used)
                if z not in seen:
                    seen.add(z)
                    st.append(z)
        return out

    def ladder(self, s):
        """a block that only leads to the drop of a part"""
        n = 0
        while n < 4:
            n += 1
            bb = self.f.bbs[s]
            if bb["s"]:
                return False
            t = bb["t"]
            if t[0] == "drop":
                return True
            if t[0] == "sw" and t[1][0] in ("c", "m") and t[1][1][0] in self.bools:
                return any(self.f.bbs[x]["t"][0] == "drop" and not self.f.bbs[x]["s"] for x in [t[3]] + [y for v, y in t[2]])
            if t[0] == "goto":
                s = t[1]
                continue
            return False
        return False

    def anyread(self):
        if not hasattr(self, "_any"):
            self._any = set()
            for k in self.strings(0):
                self._any |= self.reads(k)
        return self._any

    def reads(self, k):
        """blocks whose call copies the text of a local into something else"""
        if not hasattr(self, "_reads"):
            self._reads = {}
        r = self._reads.get(k)
        if r is None:
            r = set()
            f = self.f
            refs = {k[0]}
            grow = True
            while grow:
                grow = False
                for bb in f.bbs:
                    for s in bb["s"]:
                        if s[0] == "=" and len(s[1]) == 1 and s[1][0] not in refs and (s[2][0] in ("ref",) and s[2][1][0] in refs or s[2][0] == "agg" and any(o[0] in ("c", "m") and o[1][0] in refs for o in s[2][2])
                                                                                      or s[2][0] in ("use", "cast") and s[2][-1 if s[2][0] == "use" else 2][0] in ("c", "m") and s[2][-1 if s[2][0] == "use" else 2][1][0] in refs and s[1][0] != 0):
                            refs.add(s[1][0])
                            grow = True
                    t = bb["t"]
                    if t[0] == "call" and last((t[1] or {}).get("fn", "")) in ("deref", "as_str", "as_ref", "as_bytes", "borrow") and any(o[0] in ("c", "m") and o[1][0] in refs for o in t[2]) and t[3][0] not in refs:
                        refs.add(t[3][0])
                        grow = True
            for i, bb in enumerate(f.bbs):
                t = bb["t"]
                if t[0] == "call":
                    nm = last((t[1] or {}).get("fn", ""))
                    for j, o in enumerate(t[2]):
                        if o[0] in ("c", "m") and o[1][0] in refs and (nm in SINKS and j > 0 or nm in ("new_display", "to_string", "to_owned", "clone", "into", "from", "to_vec")):
                            r.add(i)
            self._reads[k] = r
        return r

    def strings(self, b):
        """locals that hold a text taken out of content"""
        if hasattr(self, "_str"):
            return self._str
        r = set()
        f = self.f
        for bb in f.bbs:
            for s in bb["s"]:
                if s[0] == "=" and len(s[1]) == 1 and s[2][0] == "use" and s[2][1][0] == "m" and len(s[2][1][1]) > 1 and f.locals[s[1][0]][0].endswith("String"):
                    root = s[2][1][1][0]
                    if content_ty(self.p, f.locals[root][0]):
                        r.add((s[1][0],))
        self._str = r
        return r


def flag_state(f):
    return {}


VARIANT = [None]


def payload(x):
    """the part of a term that is (a part of) the payload of the current event"""
    x = strip(x)
    n = 0
    while n < 30:
        n += 1
        if x[0] == "field" and x[1].endswith("events::Event") and event(x[4]):
            return VARIANT[0] in (None, x[2])
        if x[0] in ("field",):
            x = strip(x[4])
        elif x[0] == "under":
            x = strip(x[2])
        else:
            return False
    return False


def chain(p, x, depth=0):
    """conversions between a value and the payload of the event: (list of names, found)"""
    x = strip(x)
    out = []
    n = 0
    while n < 40:
        n += 1
        if payload(x):
            return out, True
        if x[0] == "call" and x[3]:
            nm = last(x[1])
            # the argument that leads to the payload
            nx = None
            for a in x[3]:
                if chain(p, a, depth + 1)[1] if depth < 8 else False:
                    nx = a
                    break
            if nx is None:
                return out, False
            out.append((nm, x))
            x = strip(nx)
        elif x[0] == "field":
            x = strip(x[4])
        elif x[0] == "under":
            x = strip(x[2])
        elif x[0] == "cast":
            x = strip(x[2])
        elif x[0] == "agg" and x[3]:
            nx = next((v for _, v in x[3] if depth < 8 and chain(p, v, depth + 1)[1]), None)
            if nx is None:
                return out, False
            x = strip(nx)
        elif x[0] == "phi":
            nx = next((v for v in x[1] if depth < 8 and chain(p, v, depth + 1)[1]), None)
            if nx is None:
                return out, False
            x = strip(nx)
        else:
            return out, False
    return out, False


def arms(p, f):
    """(variant, entry block) of the arms that handle an event; the nearest switch counts"""
    out = []
    for b in f.reachable:
        if f.bbs[b]["t"][0] != "sw":
            continue
        for s, sj, v in f.edges_of(b):
            if sj is None or not event(sj):
                continue
            x = strip(sj)
            # the event itself, not a part of its payload
            if x[0] == "field" and payload(x):
                continue
            for y in (v[1] if v[0] == "set" else [v]):
                if y[0] == "var":
                    out.append((y[1], s, b))
    return out


def sites(p, f, variant, region):
    """calls (and aggregates) in the region that take the payload of the event into content"""
    out = {}
    VARIANT[0] = variant
    for (b, path, cid, args, t) in f.calls:
        if b not in region:
            continue
        nm = last(path)
        g = p.fns.get(cid)
        for i, a in enumerate(args):
            ch, ok = chain(p, f.term_op(a, False))
            if not ok:
                continue
            if nm in SINKS and i > 0 or g is not None and nm not in KEEP and takes(p, g):
                out.setdefault(b, []).append((nm, ch, t[5], g))
    for b in region:
        for s in f.bbs[b]["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] in p.content_types:
                ch, ok = chain(p, f.term_rv(s[2], False))
                if ok:
                    out.setdefault(b, []).append(("new", ch, f.line, None))
            elif s[0] == "=" and s[2][0] == "use":
                ch, ok = chain(p, f.term_rv(s[2], False))
                if ok and f.locals[s[1][0]][0].endswith("String") and len(s[1]) > 1:
                    out.setdefault(b, []).append(("set", ch, f.line, None))
    VARIANT[0] = None
    return out


def takes(p, g):
    """a function of this crate that is given the payload and content to put it into, or makes content of it"""
    r = g.locals[0][0]
    if any(x in r for x in p.content_types):
        return True
    return any("&mut" in g.locals[i][0] and "OdsContext" not in g.locals[i][0] and "Reader" not in g.locals[i][0] for i in range(1, g.d["argc"] + 1))


def region(f, start, heads):
    seen, st = set(), [start]
    while st:
        b = st.pop()
        if b in seen or b in heads:
            continue
        seen.add(b)
        st.extend(f.ok_succs(b))
    return seen


def elsewhere(f, start, heads):
    """blocks that are reached from the entry or the next event without passing the start"""
    seen, st = set(), [0] + [x for h in heads for x in f.ok_succs(h)]
    while st:
        b = st.pop()
        if b in seen or b == start:
            continue
        seen.add(b)
        st.extend(f.ok_succs(b))
    return seen


def setup(p):
    if not hasattr(p, "content_types"):
        p.content_types = {x for x in p.adts if x.rsplit("::", 1)[-1] in ("TextContent", "XmlTag", "XmlContent") and not x.startswith("std")}


def texts(p, rep, sel=None):
    """what is found between the tags is appended, whatever it is"""
    rep.rule("where a reader takes text from an XML event, it takes every text and every character reference of that place, unaltered, on every way to the next event")
    n = 0
    used = {}
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if not f.file.endswith("io/read.rs") or f.kind == "closure" or sel and not sel(f):
            continue
        fl = Flow(p, f)
        if not fl.heads:
            continue
        got = {}
        for v, s, b in arms(p, f):
            if v not in ("Text", "GeneralRef"):
                continue
            reg = region(f, s, fl.heads)
            # only what belongs to this event
            reg -= elsewhere(f, s, fl.heads)
            ss = sites(p, f, v, reg)
            if not ss:
                continue
            got.setdefault(v, []).append((s, ss))
        for v, lst in sorted(got.items()):
            for s, ss in lst:
                n += 1
                for b, l in ss.items():
                    for nm, ch, line, g in l:
                        if g is not None:
                            used[g.id] = g
                        odd = [c for c, x in ch if c not in KEEP and c not in SINKS and x[2] not in p.fns]
                        if odd:
                            rep.bad("altered:%s:%s" % (f.name, v), "%s alters the text it reads: %s()" % (f.name, odd[0]), f.file, line, f.path, "text is kept")
                        else:
                            rep.ok()
                lost = [1 for end, drops, hit, va in fl.run(s, set(ss)) if not hit and end in fl.heads]
                # a flag that says where in the document the reader is may leave the text out
                if lost and not any(flag(k) for k, vs in f.ctrl_guards(next(iter(ss))).items() if not structural(f, k, vs)):
                    rep.bad("lost:%s:%s" % (f.name, v), "%s does not keep every %s: there is a way to the next event without it being stored" % (f.name, "text" if v == "Text" else "character reference"),
                            f.file, f.bbs[s]["t"][-1] if isinstance(f.bbs[s]["t"][-1], int) and f.bbs[s]["t"][0] in ("sw", "call") else f.line, f.path, "text is kept")
                else:
                    rep.ok("%s: every %s is stored" % (f.name, v))
        if len(got) == 1:
            v = "GeneralRef" if "Text" in got else "Text"
            rep.bad("lost:%s:%s" % (f.name, v), "%s keeps text, but not %s" % (f.name, "character references" if v == "GeneralRef" else "the text between character references"), f.file, f.line, f.path, "text is kept")
    rep.count(text_arms=n)
    for f in p.fns.values():
        if f.path.endswith(("XmlTag::add_tag", "XmlTag::add_text", "XmlTag::text", "XmlTag::tag")):
            used[f.id] = f
        elif f.kind == "AssocFn" and not f.trait and f.name.startswith(("push_", "add_")) and f.argc > 1 and not f.file.startswith("src/io") and f.locals[f.argc][0] in p.content_types:
            used[f.id] = f
    rep.rule("the functions content is added with append it, unaltered, whatever it is")
    for g in sorted(used.values(), key=lambda g: g.path):
        appends(p, rep, g)


def appends(p, rep, g):
    if any(last(path) == "read_event_into" for (b, path, c, a, t) in g.calls):
        return
    sk = set()
    for (b, path, cid, args, t) in g.calls:
        nm = last(path)
        if b in g.reachable and (nm in DENY and args and any(y[0] in ("arg", "field") for y in subterms(strip(g.term_op(args[0], False)))) or nm in LOSSY):
            rep.bad("append:" + g.path, "%s does not append what it is given as it is: %s()" % (g.path, nm), g.file, t[5], g.path, "append")
            return
        if nm == "insert" and "Vec" in path and b in g.reachable and len(args) == 3 and not str(strip(g.term_op(args[1], False))).count("len"):
            rep.bad("append:" + g.path, "%s does not add at the end" % g.path, g.file, t[5], g.path, "append")
            return
        if (nm in SINKS or nm in ("add_tag", "add_text", "append_content", "insert", "get_or_insert_with")) and len(args) > 1 and any(y[0] == "arg" and y[1] > 1 for y in subterms(g.term_op(args[-1], False))):
            sk.add(b)
    for b in g.reachable:
        for st in g.bbs[b]["s"]:
            if st[0] == "=" and len(st[1]) > 1:
                ys = subterms(g.term_rv(st[2], False))
                if any(y[0] == "arg" and y[1] > 1 for y in ys):
                    sk.add(b)
                    if not any(y[0] == "field" and subterms(y)[-1][:2] == ("arg", 1) for y in ys) and not any(v & {("var", "None"), ("bool", True)} and len(v) == 1 for k, v in g.ctrl_guards(b).items()):
                        rep.bad("append:" + g.path, "%s replaces what is there" % g.path, g.file, g.line, g.path, "append")
                        return
    if not sk:
        return
    if any(not hit for end, d, hit, va in Flow(p, g).run(0, sk)):
        rep.bad("append:" + g.path, "%s does not always store what it is given" % g.path, g.file, g.line, g.path, "append")
    else:
        rep.ok("%s appends" % g.path)


def owned(p, rep):
    """content is never dropped"""
    rep.rule("text content that a reader owns (what was read before, a tag taken from the stack, a tag just made) is moved on, never dropped, on every way to the next event or to a successful return")
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if not f.file.endswith("io/read.rs") or f.kind == "closure":
            continue
        if not any(content_ty(p, l[0]) for l in f.locals):
            continue
        fl = Flow(p, f)
        carried = bool(fl.heads) and any(l[0] in p.content_types and l[0].endswith("TextContent") and len(l) > 1 and l[1] for l in f.locals)
        starts = [("", 0)]
        if fl.heads:
            starts = sorted({(v, s) for v, s, b in arms(p, f)})
            # one way back to the head for all other events
        n += 1
        bad = {}
        for v, s in starts:
            for end, drops, hit, va in fl.run(s):
                for k, vs in drops:
                    if vs and not set(vs) - {"Empty", "None"}:
                        continue
                    ty = p.place_ty(f, list(k)) if len(k) > 1 else f.locals[k[0]][0]
                    if not vs and not loses(p, f, k, ty):
                        continue
                    bad[(v, k)] = vs
        for (v, k), vs in sorted(bad.items(), key=str):
            rep.bad("dropped:%s:%s" % (f.name, v or "-"), "%s drops content%s%s" % (f.name, " (%s)" % "/".join(vs) if vs else "", " when it finds a %s" % v if v else ""), f.file, f.line, f.path, "content is kept")
        if not bad:
            rep.ok("%s never drops content" % f.name)
    rep.count(content_functions=n)


def loses(p, f, k, ty):
    """a drop of something whose variant is not known: content for sure, if it is not a buffer"""
    if len(k) != 1:
        return any(isinstance(x, tuple) and x[0] == "as" and x[1] not in ("Empty", "None", "Some") for x in k[1:])
    if k in Flow(p, f).strings(0):
        return True
    return ty.endswith("XmlTag") or ty.endswith("TextContent") and any(last(path) == "read_event_into" for (b, path, c, a, t) in f.calls) and len(f.locals[k[0]]) > 1 and bool(f.locals[k[0]][1])


def order(p, rep):
    rep.rule("content is only appended to: nothing is inserted, removed, sorted or cut")
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if not f.file.endswith("io/read.rs"):
            continue
        loop = any(last(path) == "read_event_into" for (b, path, cid, args, t) in f.calls)
        for (b, path, cid, args, t) in f.calls:
            if b not in f.reachable or not args:
                continue
            g = " ".join((t[1] or {}).get("g", []))
            if loop and last(path) in ("first_mut", "first", "split_first_mut", "index_mut") and any(x in g for x in p.content_types):
                if last(path) != "index_mut" or len(args) > 1 and strip(f.term_op(args[1], False))[:3] == ("const", "i", 0):
                    rep.bad("order:%s:%s" % (f.name, last(path)), "%s adds content to the outermost element, not to the open one: %s()" % (f.name, last(path)), f.file, t[5], f.path, "order")
            if last(path) not in DENY:
                continue
            if "Vec" in path and any(x in g for x in p.content_types):
                nm = last(path)
                a = strip(f.term_op(args[0], False))
                if nm == "clear" and "Context" in f.path:
                    continue
                rep.bad("order:%s:%s" % (f.name, nm), "%s changes content with %s()" % (f.name, nm), f.file, t[5], f.path, "order")
            elif "String" in path and any(y[0] == "field" and y[1] in p.content_types for y in subterms(f.term_op(args[0], False))):
                rep.bad("order:%s:%s" % (f.name, last(path)), "%s changes content with %s()" % (f.name, last(path)), f.file, t[5], f.path, "order")


def subterms(t):
    out = []
    walk(t, lambda y: out.append(y) and False)
    return out


def tags(p, rep):
    """a tag is made with the name and all attributes of the event it is made for"""
    rep.rule("every tag made for an XML element gets its name and, on every way on, all its attributes")
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if not f.file.endswith("io/read.rs"):
            continue
        fl = Flow(p, f)
        news = []
        copies = {}
        for (b, path, cid, args, t) in f.calls:
            if b not in f.reachable:
                continue
            if path.endswith("XmlTag::new") and args:
                src = named_after(f.term_op(args[0], False))
                if src is not None:
                    news.append((b, src, t))
            g = p.fns.get(cid)
            if g is not None and copies_attrs(p, g):
                for a in args:
                    copies.setdefault(b, []).append(strip(f.term_op(a, False)))
            if last(path) == "attributes" and args:
                copies.setdefault(b, []).append(strip(f.term_op(args[0], False)))
        for b, src, t in news:
            n += 1
            sk = {c for c, l in copies.items() if any(same(y, src) for y in l)}
            if t[4] is None:
                continue
            res = fl.run(t[4], sk)
            if any(not hit for end, d, hit, va in res):
                rep.bad("attrs:%s" % f.name, "%s makes a tag without copying the attributes of its element" % f.name, f.file, t[5], f.path, "attributes are kept")
            else:
                rep.ok("%s: name and attributes" % f.name)
    rep.count(tags=n)


def named_after(x):
    """the event whose name a term is"""
    x = strip(x)
    n = 0
    while n < 20:
        n += 1
        if x[0] == "call" and last(x[1]) == "name" and x[3]:
            return strip(x[3][0])
        if x[0] == "call" and x[3]:
            x = strip(x[3][0])
        elif x[0] == "field":
            x = strip(x[4])
        elif x[0] == "under":
            x = strip(x[2])
        elif x[0] == "agg" and x[3]:
            x = strip(x[3][0][1])
        else:
            return None
    return None


def same(a, b):
    a, b = strip(a), strip(b)
    return a == b or show(a) == show(b)


def copies_attrs(p, g):
    return g.file.endswith("io/read.rs") and any(last(path) == "attributes" for (b, path, c, a, t) in g.calls) and any("AttrMap" in l[0] for l in g.locals[1:g.d["argc"] + 1])


def attributes(p, rep):
    """all attributes are copied"""
    rep.rule("where all attributes of an element are copied, none is left out and none altered")
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if not copies_attrs(p, f) or f.kind == "closure" or any(v[0] == "str" for b in f.reachable for x, sj, v in f.edges_of(b) if sj is not None):
            continue
        nx = {b for (b, path, c, a, t) in f.calls if last(path) == "next"}
        st = {}
        for (b, path, c, a, t) in f.calls:
            if b in f.reachable and last(path) in ("set_attr", "push_attr", "insert", "entry", "push", "add_all") and len(a) >= 2:
                st[b] = (a, t)
        if not nx or not st:
            continue
        fl = Flow(p, f)
        fl.heads = nx
        for h in nx:
            t = f.bbs[h]["t"]
            for end, d, hit, va in fl.run(t[4], set(st)):
                if end in nx and not hit:
                    rep.bad("attributes:%s" % f.name, "%s does not copy every attribute" % f.name, f.file, t[5], f.path, "attributes are kept")
                    break
            else:
                rep.ok("%s copies every attribute" % f.name)
        for b, (a, t) in st.items():
            for x in a[1:]:
                names = []
                walk(f.term_op(x, False), lambda y: names.append(last(y[1])) and False if y[0] == "call" else False)
                odd = [m for m in names if m in LOSSY]
                if odd:
                    rep.bad("attributes:%s" % f.name, "%s alters attributes with %s()" % (f.name, odd[0]), f.file, t[5], f.path, "attributes are kept")
                else:
                    rep.ok()


LOSSY = {"trim", "trim_start", "trim_end", "trim_matches", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen", "split", "split_once", "strip_prefix", "strip_suffix",
         "chars", "truncate", "filter", "take", "skip", "split_whitespace", "lines", "rev", "local_name", "trim_ascii"}


def entities(p, rep):
    rep.rule("the five predefined entities are the characters XML has for them")
    want = {"lt": "<", "gt": ">", "amp": "&", "apos": "'", "quot": '"'}
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if not f.file.endswith("io/read.rs") or f.kind == "closure":
            continue
        if not any("BytesRef" in l[0] for l in f.locals[1:f.d["argc"] + 1]):
            continue
        got = {}
        for b in f.reachable:
            if f.bbs[b]["t"][0] != "sw":
                continue
            for x, sj, v in f.edges_of(b):
                if sj is None or v[0] != "str":
                    continue
                for r in region(f, x, ()) - elsewhere(f, x, ()):
                    for st in f.bbs[r]["s"]:
                        if st[0] == "=":
                            for y in subterms(f.term_rv(st[2], False)):
                                c = const_str(y)
                                if c is not None:
                                    got.setdefault(v[1], set()).add(c)
                    t = f.bbs[r]["t"]
                    for a in t[2] if t[0] == "call" else ():
                        c = const_str(strip(f.term_op(a, False)))
                        if c is not None:
                            got.setdefault(v[1], set()).add(c)
        if not got:
            continue
        n += 1
        for e, c in want.items():
            g = got.get(e)
            if g is None:
                rep.bad("entity:" + e, "%s does not know &%s;" % (f.name, e), f.file, f.line, f.path, "entities")
            elif c not in g:
                rep.bad("entity:" + e, "%s reads &%s; as %s" % (f.name, e, "/".join(sorted(g))), f.file, f.line, f.path, "entities")
            else:
                rep.ok("&%s;" % e)
    rep.count(entity_tables=n)


def paragraphs(p, rep):
    rep.rule("adding a paragraph to content gives content, also for an empty paragraph")
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if not f.file.endswith("io/read.rs") or f.kind == "closure":
            continue
        tc = next((x for x in p.content_types if x.endswith("TextContent")), None)
        if tc is None or sum(1 for i in range(1, f.d["argc"] + 1) if f.locals[i][0] == tc) < 2 or f.locals[0][0] != tc:
            continue
        fl = Flow(p, f)
        bad = False
        names = set((p.enum_names(tc) or {}).values())
        for end, d, hit, va in fl.run(0):
            if "Empty" in (va or names):
                bad = True
        if bad:
            rep.bad("blank:%s" % f.name, "%s gives no content for an empty paragraph" % f.name, f.file, f.line, f.path, "empty paragraphs")
        else:
            rep.ok("%s keeps empty paragraphs" % f.name)


ADAPT = {"filter", "skip", "take", "rev", "step_by", "take_while", "skip_while", "filter_map", "map_while", "nth", "last", "dedup", "chain", "zip", "find", "peekable", "flat_map"}


def written(p, rep):
    """all content is written, in order"""
    rep.rule("writers go through all content, in order, and write every part of it")
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if not f.file.endswith("io/write.rs"):
            continue
        for (b, path, cid, args, t) in f.calls:
            if b not in f.reachable or last(path) != "next" or not args:
                continue
            l = t[3][0] if t[3] else None
            ty = f.locals[l][0] if l is not None else ""
            m = [x for x in p.content_types if ty.startswith("std::option::Option<&") and ty.rstrip(">").endswith(x)]
            attrs = "AttrMap" in show_types(p, f, args[0]) and any(f.locals[i][0].endswith("XmlTag") for i in range(1, f.d["argc"] + 1))
            if not m and not attrs:
                continue
            x = strip(f.term_op(args[0], False))
            odd = []
            k = 0
            while x[0] == "call" and x[3] and k < 12:
                k += 1
                if last(x[1]) in ADAPT:
                    odd.append(last(x[1]))
                x = strip(x[3][0])
            n += 1
            if odd:
                rep.bad("written:%s:%s" % (f.name, odd[0]), "%s does not write all content in order: %s()" % (f.name, odd[0]), f.file, t[5], f.path, "content is written")
                continue
            # on every way to the next item something of this item is written
            fl = Flow(p, f)
            fl.heads = {b}
            sk = set()
            for (b2, path2, c2, args2, t2) in f.calls:
                g = p.fns.get(c2)
                if last(path2) == "branch" or len(args2) < 2:
                    continue
                if any("XmlWriter" in f.locals[a[1][0]][0] for a in args2 if a[0] in ("c", "m")) and any(uses_next(f, a, t[3]) for a in args2):
                    sk.add(b2)
            if not sk or any(y[0] == "field" and y[3] == "extra" for y in subterms(x)):
                continue
            ways = fl.run(t[4], sk)
            if any(end == b and not hit for end, d, hit, va in ways):
                rep.bad("written:%s" % f.name, "%s does not write every part of the content" % f.name, f.file, t[5], f.path, "content is written")
            else:
                rep.ok("%s writes all content" % f.name)
    rep.count(content_loops=n)
    conditions(p, rep)


def conditions(p, rep):
    """whether content is written does not depend on another part of the same thing"""
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if not f.file.endswith("io/write.rs"):
            continue
        for (b, path, cid, args, t) in f.calls:
            g = p.fns.get(cid)
            if g is None or b not in f.reachable or not any("XmlWriter<" in g.locals[i][0] for i in range(1, g.argc + 1)):
                continue
            for i, a in enumerate(args):
                ty = g.locals[i + 1][0].lstrip("&").rsplit("::", 1)[-1] if i + 1 <= g.argc else ""
                if ty not in ("XmlTag", "XmlContent") or a[0] not in ("c", "m"):
                    continue
                own = [x for x in tables.value_paths(p, p.norm(f.term_op(a, False))) if x[-1][0] not in ("XmlTag", "XmlContent")]
                if not own:
                    continue
                n += 1
                bad = set()
                for s, v in f.ctrl_guards(b).items():
                    s = strip(p.norm(s))
                    if roundtrip.is_iter_guard(s, v) or frozenset(v) in tables.FULLSETS:
                        continue
                    for gp in tables.value_paths(p, s):
                        o, _, fl = gp[-1]
                        if any(o == x[0] and fl != x[2] for w in own for x in w) and not any(o == x[0] and fl == x[2] for w in own for x in w) and fl not in ("origin", "styleuse"):
                            bad.add("%s.%s" % (o, fl))
                if bad:
                    rep.bad("written-if:%s:%s" % (f.name, ",".join(sorted(bad))), "%s is written only under a condition on %s" % (
                        ".".join(x[2] for x in own[0]), ", ".join(sorted(bad))), f.file, t[5], f.path, "content is written")
                else:
                    rep.ok("%s: the content of %s is written whatever else there is" % (f.name, ".".join(x[2] for x in own[0])))
    rep.count(content_calls=n)


def show_types(p, f, a):
    return f.locals[a[1][0]][0] if a[0] in ("c", "m") else ""


def uses_next(f, a, dest):
    """the operand is (a part of) the item"""
    for y in subterms(f.term_op(a, False)):
        if y[0] == "call" and last(y[1]) == "next":
            return True
    return False


# elements that are only passed through, by the owner of the list they are kept in (ODF 1.3, 9.1, 3.7; LibreOffice's extension)
PASSED = {
    "WorkBook": ("office:spreadsheet", {
        "table:calculation-settings", "table:label-ranges", "table:tracked-changes", "text:alphabetical-index-auto-mark-file", "text:dde-connection-decls", "text:sequence-decls", "text:user-field-decls",
        "text:variable-decls", "table:consolidation", "table:data-pilot-tables", "table:database-ranges", "table:dde-links", "table:named-expressions", "calcext:conditional-formats"}),
    "Sheet": ("table:table", {
        "table:title", "table:desc", "table:table-source", "office:dde-source", "table:scenario", "office:forms", "table:shapes", "table:named-expressions", "calcext:conditional-formats"}),
}


def names_written(f, head, start, writes, name):
    """ways an item of this name takes through the loop: {(it is written, it depends on something else)}"""
    seen, st = set(), [(start, False, False, ())]
    res = set()
    while st:
        z = st.pop()
        if z in seen:
            continue
        seen.add(z)
        b, hit, oth, env = z
        if b == head:
            res.add((hit, oth))
            continue
        env = dict(env)
        for q in f.bbs[b]["s"]:
            if q[0] == "=" and len(q[1]) == 1 and f.locals[q[1][0]][0] == "bool":
                env.pop(q[1][0], None)
                if q[2][0] == "use":
                    c = strip(f.term_op(q[2][1], False))
                    if q[2][1][0] == "k" and c[0] == "const" and c[1] == "bool":
                        env[q[1][0]] = c[2]
                    elif q[2][1][0] in ("c", "m") and len(q[2][1][1]) == 1 and q[2][1][1][0] in env:
                        env[q[1][0]] = env[q[2][1][1][0]]
                elif q[2][0] == "un" and q[2][1] == "Not" and q[2][2][0] in ("c", "m") and q[2][2][1][0] in env:
                    env[q[1][0]] = not env[q[2][2][1][0]]
        hit = hit or b in writes
        ss = f.ok_succs(b)
        t = f.bbs[b]["t"]
        es = [(x, v) for x, sj, v in f.edges_of(b) if sj is not None and strip(sj)[0] in ("call", "field") and (v[0] == "str" or v[0] == "not" and v[1][0] == "str")]
        if t[0] == "sw" and t[1][0] in ("c", "m") and len(t[1][1]) == 1 and t[1][1][0] in env:
            want = 1 if env[t[1][1][0]] else 0
            ss = [next((x for v, x in t[2] if v == want), t[3])]
        elif es:
            keep = set()
            for x, v in es:
                if v[0] == "str" and v[1] == name or v[0] == "not" and v[1][1] != name:
                    keep.add(x)
            ss = [x for x in ss if x in keep] or [x for x in ss if x not in {y for y, _ in es}] or ss
        elif len(ss) > 1 and not hit:
            sj = next((sj for x, sj, v in f.edges_of(b) if sj is not None), None)
            if sj is not None and not any(y[0] == "call" and last(y[1]) == "name" for y in subterms(sj)) and any(y[0] == "call" and last(y[1]) == "next" for y in subterms(sj)):
                oth = True
        st.extend((x, hit, oth, tuple(sorted(env.items()))) for x in ss)
    return res


def passed(s, rep):
    """elements the library does not know in detail"""
    import tables
    p = s.p
    rep.rule("the elements the library only passes through are kept by the reader in the list of the workbook or the sheet they were found in, and each is written from this list once, inside the same element")
    read = {}
    where = {}
    for e in s.reader.effects:
        if e.path and e.path[-1][-1] == "extra" and e.path[-1][0].rsplit("::", 1)[-1] in PASSED:
            o = e.path[-1][0].rsplit("::", 1)[-1]
            read.setdefault(o, set()).update(e.elems or ())
            where.setdefault(o, e)
    loops = {}
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if not f.file.endswith("io/write.rs"):
            continue
        for (b, path, cid, args, t) in f.calls:
            if b not in f.reachable or last(path) != "next" or not args:
                continue
            own = [y[1].rsplit("::", 1)[-1] for y in subterms(f.term_op(args[0], False)) if y[0] == "field" and y[3] == "extra"]
            if not own or own[0] not in PASSED:
                continue
            w = {b2 for (b2, path2, c2, a2, t2) in f.calls if c2 in p.fns and any(uses_next(f, a, None) for a in a2) and any("XmlWriter" in f.locals[a[1][0]][0] for a in a2 if a[0] in ("c", "m"))}
            loops.setdefault(own[0], []).append((f, b, t, w))
    for o, (parent, want) in PASSED.items():
        got = read.get(o, set())
        e = where.get(o)
        if e is None:
            continue
        for n in sorted(want):
            if n not in got:
                rep.bad("passed:read:%s:%s" % (o, n), "%s in a %s is not kept by the reader" % (n, parent), e.fn.file, e.line, e.fn.path, "passed through")
            else:
                rep.ok()
        for n in sorted(got & want):
            cnt, unsure = 0, False
            for f, b, t, w in loops.get(o, ()):
                r = names_written(f, b, t[4], w, n)
                if not any(h for h, _ in r):
                    continue
                cnt += 1
                if any(not h and not ot for h, ot in r):
                    unsure = True
                elif any(not h for h, _ in r):
                    rep.bad("passed:written:%s:%s" % (o, n), "%s of a %s is only written under a condition" % (n, o), f.file, t[5], f.path, "passed through")
            if unsure or not loops.get(o):
                continue
            f, b, t, w = loops[o][0]
            if cnt == 0:
                rep.bad("passed:written:%s:%s" % (o, n), "%s of a %s is read, but not written" % (n, o), f.file, t[5], f.path, "passed through")
            elif cnt > 1:
                rep.bad("passed:twice:%s:%s" % (o, n), "%s of a %s is written %d times" % (n, o, cnt), f.file, t[5], f.path, "passed through")
            else:
                rep.ok("%s of a %s" % (n, o))
    for r in tables.writer_table(s):
        for x in r.paths or ():
            if x[-1][0] != "AttrMap2":
                continue
            for y in x:
                if y[2] == "extra" and y[0] in PASSED:
                    parent = PASSED[y[0]][0]
                    st = [z for z in r.stack if not str(z).startswith("?")]
                    if st and st[-1] != parent:
                        rep.bad("passed:place:%s" % y[0], "the elements passed through for a %s are written in %s, not in %s" % (y[0], st[-1], parent), r.fn.file, r.line, "/".join(r.chain[-3:]), "passed through")
                    else:
                        rep.ok()


def common(s, rep):
    """character data is read whole: what other properties build on"""
    setup(s.p)
    texts(s.p, rep)
    entities(s.p, rep)


def content(s, rep):
    """the same for text content with elements in it"""
    p = s.p
    common(s, rep)
    written(p, rep)
    owned(p, rep)
    order(p, rep)
    tags(p, rep)
    attributes(p, rep)
    paragraphs(p, rep)


def check(s, rep):
    p = s.p
    setup(p)
    passed(s, rep)
    content(s, rep)


PROPS = {"C24": (check, "other", "ownership and typestate analysis of text content")}
