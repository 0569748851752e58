"""C10: layout of the saved package, and the reader's view of it."""
import re
from collections import defaultdict

import p_rt
import roundtrip
import tables
from mir import *
from roundtrip import Check

MIME = "application/vnd.oasis.opendocument.spreadsheet"
PARTS = {"META-INF/manifest.xml": "manifest:manifest", "meta.xml": "office:document-meta", "settings.xml": "office:document-settings",
         "styles.xml": "office:document-styles", "content.xml": "office:document-content"}


class Ev:
    __slots__ = ("kind", "name", "opts", "fn", "line", "must", "loop", "excl", "val")

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


def zip_call(path):
    nm = path.rsplit("::", 1)[-1]
    if "ZipWriter" in path and nm in ("start_file", "start_file_from_path", "add_directory", "finish", "add_symlink", "raw_copy_file", "start_file_aligned"):
        return nm
    return None


def must_pass(f, b):
    """every successful execution of f goes through block b"""
    if b == 0:
        return True
    seen, st = {0}, [0]
    while st:
        x = st.pop()
        if f.bbs[x]["t"][0] == "ret":
            return False
        for y in f.ok_succs(x):
            if y != b and y not in seen:
                seen.add(y)
                st.append(y)
    return True


def in_loop(f, b):
    seen, st = set(), list(f.succs(b))
    while st:
        x = st.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x)
            st.extend(f.succs(x))
    return False


class Trace:
    def __init__(self, p):
        self.p = p
        self._z = {}

    def has_zip(self, f):
        r = self._z.get(f.id)
        if r is None:
            self._z[f.id] = False
            r = any(zip_call(c[1]) or (c[2] in self.p.fns and self.has_zip(self.p.fns[c[2]])) for c in f.calls if c[0] in f.reachable)
            self._z[f.id] = r
        return r

    def run(self, f, env, must=True, loop=False, depth=0):
        p = self.p
        out = []
        order = {b: i for i, b in enumerate(f.rpo())}
        for (b, path, cid, args, t) in sorted((c for c in f.calls if c[0] in f.reachable), key=lambda c: order.get(c[0], 0)):
            m = lambda: must and must_pass(f, b)
            l = lambda: loop or in_loop(f, b)
            z = zip_call(path)
            T = lambda a: strip(p.norm(subst(f.term_op(a, False), env)))
            if z:
                out.append(Ev(kind=z, name=T(args[1]) if len(args) > 1 else None, opts=T(args[2]) if len(args) > 2 else None, fn=f, line=t[5], must=m(), loop=l(),
                              excl=(f, b)))
                continue
            nm = path.rsplit("::", 1)[-1]
            g = p.fns.get(cid)
            if g is not None and self.has_zip(g) and depth < 6:
                e2 = {i + 1: T(a) for i, a in enumerate(args)}
                out += self.run(g, e2, m(), l(), depth + 1)
            elif nm in ("write_all", "write", "write_fmt"):
                out.append(Ev(kind="write", val=T(args[1]) if len(args) > 1 else None, name=nm, fn=f, line=t[5], must=m(), loop=l()))
            elif g is not None and any("XmlWriter" in f.locals[a[1][0]][0] or "dyn std::io::Write" in f.locals[a[1][0]][0] or "ZipWriter" in f.locals[a[1][0]][0]
                                       for a in args if a[0] in ("c", "m")):
                out.append(Ev(kind="payload", name=g, fn=f, line=t[5], must=m(), loop=l()))
                if not any("XmlWriter" in x[0] for x in g.locals):
                    # raw bytes
                    e2 = {i + 1: T(a) for i, a in enumerate(args)}
                    out += [e for e in self.run(g, e2, m(), l(), depth + 1) if e.kind == "write"]
        return out


def option_of(t, which):
    """argument of the outermost FileOptions::<which>(..) in an options term"""
    st = [t]
    n = 0
    while st and n < 400:
        x = st.pop(0)
        n += 1
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == "call" and x[1].endswith("::" + which) and len(x[3]) == 2:
            return strip(x[3][1])
        st.extend(y for y in x if isinstance(y, tuple))
    return None


CUTS = {"rsplit", "split", "rsplit_once", "split_once", "split_at", "trim", "trim_start", "trim_end", "trim_start_matches", "trim_end_matches", "trim_matches", "strip_prefix",
        "strip_suffix", "file_name", "file_stem", "extension", "parent", "to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase", "get", "index", "chars",
        "splitn", "rsplitn", "split_terminator", "rsplit_terminator"}


class StrSim:
    """control flow of a function for one fixed value of a string it inspects"""

    def __init__(self, p):
        self.p = p
        self.memo = {}

    def consts(self, f, depth=0):
        out = set()
        for b in f.reachable:
            if len(f.succs(b)) > 1:
                for _, sj, v in f.edges_of(b):
                    if v[0] == "str":
                        out.add(v[1])
        for (b, path, cid, args, t) in f.calls:
            g = self.p.fns.get(cid)
            if g is not None and depth < 3 and (g.locals[0][0] == "bool"):
                out |= self.consts(g, depth + 1)
        for g in self.closures(f):
            out |= self.consts(g, depth + 1) if depth < 3 else set()
        return out

    def partial(self, f, depth=0, seen=None):
        """tests that look at a part of the string only: [(what, fn, line)]"""
        seen = set() if seen is None else seen
        if f.id in seen or depth > 3:
            return []
        seen.add(f.id)
        out = []
        for b in sorted(f.reachable):
            if len(f.succs(b)) > 1:
                for _, sj, v in f.edges_of(b):
                    if v[0] == "str" and sj is not None:
                        cut = {c.rsplit("::", 1)[-1] for c in tables.value_calls(self.p.norm(sj), self.p)} & CUTS
                        if cut:
                            out.append((", ".join(sorted(cut)), f, f.bbs[b]["t"][-1]))
        for (b, path, cid, args, t) in f.calls:
            nm = path.rsplit("::", 1)[-1]
            if b in f.reachable and nm in ("ends_with", "starts_with", "contains", "eq_ignore_ascii_case") and "str" in path and len(args) == 2:
                c = const_str(strip(self.p.norm(f.term_op(args[1], False))))
                if c is not None and c != "/":
                    out.append(("%s(%r)" % (nm, c), f, t[5]))
            g = self.p.fns.get(cid)
            if g is not None and g.locals[0][0] == "bool":
                out += self.partial(g, depth + 1, seen)
        for g in self.closures(f):
            out += self.partial(g, depth + 1, seen)
        return out

    def closures(self, f):
        for b in f.reachable:
            for st in f.bbs[b]["s"]:
                if st[0] == "=" and st[2][0] == "agg" and st[2][1][0] == "closure":
                    g = self.p.fns.get(st[2][1][1])
                    if g is not None:
                        yield g

    def bools(self, f, c, depth=0):
        k = (f.id, c)
        if k not in self.memo:
            self.memo[k] = {True, False}
            out = set()
            for b, known in self.states(f, c, depth + 1):
                if f.bbs[b]["t"][0] == "ret":
                    v = dict(known).get(0)
                    out |= {True, False} if v is None else {v}
            self.memo[k] = out
        return self.memo[k]

    def states(self, f, c, depth=0):
        seen = set()
        st = [(0, frozenset())]
        while st:
            x = st.pop()
            if x in seen or len(seen) > 20000:
                continue
            seen.add(x)
            b, known = x
            k = dict(known)
            for s in f.bbs[b]["s"]:
                if s[0] != "=":
                    continue
                l = s[1][0]
                if len(s[1]) > 1:
                    continue
                rv, val = s[2], None
                if rv[0] == "use" and rv[1][0] == "k":
                    ct = const_term(rv[1][1])
                    val = ct[2] if ct[1] == "bool" else None
                elif rv[0] == "use" and len(rv[1][1]) == 1:
                    val = k.get(rv[1][1][0])
                elif rv[0] == "un" and rv[1] == "Not" and rv[2][0] in ("c", "m") and len(rv[2][1]) == 1:
                    val = k.get(rv[2][1][0])
                    val = None if val is None else not val
                if val is None:
                    k.pop(l, None)
                else:
                    k[l] = val
            t = f.bbs[b]["t"]
            if t[0] == "call":
                fx = t[1]
                g = self.p.fns.get((fx.get("rid") or fx.get("id")) if isinstance(fx, dict) else None)
                d = t[3] if isinstance(t[3], (list, tuple)) else None
                if d and len(d) == 1:
                    k.pop(d[0], None)
                    if g is not None and g.locals[0][0] == "bool" and depth < 4:
                        r = self.bools(g, c, depth)
                        if len(r) == 1:
                            k[d[0]] = next(iter(r))
            nk = frozenset(k.items())
            succ = f.succs(b)
            if len(succ) > 1:
                op = switch_local(f, b)
                allowed = None
                if op is not None and op in k:
                    want = ("bool", k[op])
                    allowed = {s for s, sj, v in f.edges_of(b) if v == want}
                else:
                    es = f.edges_of(b)
                    if any(v[0] == "str" for _, _, v in es):
                        allowed = {s for s, sj, v in es if (v == ("str", c)) or (v[0] == "not" and v[1] != ("str", c)) or v[0] not in ("str", "not")}
                    elif any(v == ("var", "Some") for _, _, v in es):
                        sj = next(sj for _, sj, v in es if v == ("var", "Some"))
                        if self.filtered(sj, c, depth):
                            allowed = {s for s, _, v in es if v != ("var", "Some")}
                if allowed:
                    succ = [s for s in succ if s in allowed]
            for s in succ:
                st.append((s, nk))
        return seen

    def filtered(self, t, c, depth):
        st, n = [t], 0
        while st and n < 400:
            x = st.pop()
            n += 1
            if not isinstance(x, tuple) or not x:
                continue
            if x[0] == "call" and x[1].endswith("::filter") and len(x[3]) == 2:
                cl = strip(x[3][1])
                if cl[0] == "agg" and cl[1].startswith("(closure)"):
                    g = self.p.fns.get(cl[1][len("(closure)"):])
                    if g is not None and depth < 4 and self.bools(g, c, depth) == {False}:
                        return True
            st.extend(y for y in x if isinstance(y, tuple))
        return False

    def excluded(self, f, b):
        """constants for which block b is never reached"""
        return {c for c in self.consts(f) if not any(x[0] == b for x in self.states(f, c))}


def switch_local(f, b):
    t = f.bbs[b]["t"]
    for x in t[1:]:
        if isinstance(x, (list, tuple)) and len(x) == 2 and x[0] in ("c", "m") and len(x[1]) == 1:
            return x[1][0]
    return None


def check_package(s, rep):
    p = s.p
    tr = Trace(p)
    rep.rule("the sequence of zip entries on every successful path of the writer: mimetype first, stored, followed by its fixed content; every fixed part exactly once, "
             "unconditionally, with the document root belonging to its name; archive finished")
    roots = []
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.file.startswith("src/") and tr.has_zip(f) and not any(tr.has_zip(p.fns[g[0].id]) for g in p.callers.get(f.id, ()) if g[0].id in p.fns):
            roots.append(f)
    # innermost function that covers the whole archive
    done = set()
    cand = []
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if tr.has_zip(f):
            evs = tr.run(f, {})
            ks = {e.kind for e in evs}
            if "finish" in ks and "start_file" in ks:
                inner = [g for g in cand if g.id in p.reach([f])]
                cand.append(f)
    inner = [f for f in cand if not any(g is not f and g.id in p.reach([f]) for g in cand)]
    if not rep.need(bool(inner), "zip-writer", "a function that writes entries to a zip archive and finishes it"):
        return None
    explicit = set()
    for root in inner:
        evs = tr.run(root, {})
        ent = [e for e in evs if e.kind.startswith(("start_file", "add_"))]
        first = ent[0]
        if const_str(first.name) != "mimetype" or not first.must:
            rep.bad_at("mimetype-first", "the first entry of the archive is %s, not an unconditional mimetype" % (const_str(first.name) or show(first.name)[:60]), first.fn, first.line, "first")
        else:
            rep.ok("mimetype is the first entry")
            mth = option_of(first.opts, "compression_method")
            if mth is None or mth[0] != "agg" or mth[2] != "Stored":
                rep.bad_at("mimetype-stored", "the mimetype entry is not always stored uncompressed", first.fn, first.line, "stored")
            else:
                rep.ok("mimetype is stored")
        # what follows each entry
        cont = defaultdict(list)
        cur = None
        names = defaultdict(list)
        for e in evs:
            if e in ent:
                cur = e
                c = const_str(e.name)
                if c is not None:
                    names[c].append(e)
            elif e.kind in ("write", "payload") and cur is not None:
                cont[cur].append(e)
        for e in names.get("mimetype", ()):
            ws = [w for w in cont[e] if w.kind == "write"]
            vals = [const_str(w.val) or bytes_str(w.val) for w in ws]
            if vals == [MIME] and ws[0].must:
                rep.ok("mimetype content")
            else:
                rep.bad_at("mimetype-content", "the content of the mimetype entry is %s" % vals, e.fn, e.line, "mimetype")
        for c, es in sorted(names.items()):
            if len(es) > 1:
                rep.bad_at("twice:" + c, "%s is written more than once" % c, es[1].fn, es[1].line, "once")
        vague = [e for e in ent if const_str(e.name) is None and not roundtrip.value_paths(p, e.name)]
        for part, rootel in sorted(PARTS.items()):
            es = names.get(part)
            if not es and vague:
                # names taken from a table: not decided here
                explicit.add(part)
                continue
            if not es:
                rep.bad_at("missing:" + part, "%s is not written" % part, root, rule="part")
                continue
            e = es[0]
            explicit.add(part)
            if not e.must or e.loop:
                rep.bad_at("conditional:" + part, "%s is not written on every successful path" % part, e.fn, e.line, "part")
            else:
                rep.ok("%s is always written" % part)
            pl = [x for x in cont[e] if x.kind == "payload"]
            els = set()
            for x in pl:
                els |= {ev.name for ev in s.walker.events.values() if ev.kind == "elem" and not ev.stack and x.name.name in ev.chain}
            if els == {rootel}:
                rep.ok("%s has root %s" % (part, rootel))
            elif els or not pl:
                rep.bad_at("root:" + part, "%s is filled with %s instead of %s" % (part, sorted(els) or "nothing", rootel), e.fn, e.line, "root")
            if not all(x.must for x in pl):
                rep.bad_at("conditional:" + part, "the content of %s is not written on every successful path" % part, e.fn, e.line, "part")
        fin = [e for e in evs if e.kind == "finish"]
        if fin and fin[-1].must and evs.index(fin[-1]) > evs.index(ent[-1]):
            rep.ok("the archive is finished on every successful path")
        else:
            rep.bad_at("finish", "the archive is not finished on every successful path after the last entry", root, rule="finish")
        # compression as configured
        for e in ent:
            if not e.kind.startswith("start_file") or const_str(e.name) == "mimetype":
                continue
            for which, field in (("compression_method", "method"), ("compression_level", "level")):
                o = option_of(e.opts, which)
                nm = const_str(e.name) or "other entries"
                if o is not None and o[0] == "field" and o[3] == field:
                    rep.ok()
                else:
                    rep.bad_at("option:%s:%s" % (nm, which), "%s is not written with the %s of the write options" % (nm, which), e.fn, e.line, "options")
        # entries from the manifest
        dyn = [e for e in ent if const_str(e.name) is None and e.kind.startswith("start_file") and e not in vague]
        for e in dyn:
            f, b = e.excl
            for what, g, ln in StrSim(p).partial(f):
                rep.bad_at("partial-name:write", "whether a file of the manifest is written depends on a part of its path only: " + what, g, ln, "extra-write")
            ex = StrSim(p).excluded(f, b)
            nonmanifest = {"META-INF/manifest.xml", "mimetype"}
            dup = explicit - ex - nonmanifest
            lost = ex - explicit - {"/", "mimetype"}
            for x in sorted(dup):
                rep.bad_at("duplicate:" + x, "%s is written again with the extra files of the manifest" % x, e.fn, e.line, "extra")
            for x in sorted(lost):
                rep.bad_at("lost:" + x, "%s is left out of the extra files but not written elsewhere" % x, e.fn, e.line, "extra")
            rep.ok("extra files except %s" % sorted(ex), n=len(ex) + 1)
            for x in tested(p, f, b):
                rep.bad_at("extra-if:" + x, "whether a file of the manifest is written depends on %s" % x, e.fn, e.line, "extra")
            if "Manifest" not in {x[-1][0] for x in roundtrip.value_paths(p, e.name)}:
                rep.bad_at("extra-name", "the extra files are not named by the manifest", e.fn, e.line, "extra")
            ws = [w for w in cont[e] if w.kind == "write"]
            if not any("Manifest.buffer" == roundtrip.fld(x) for w in ws for x in roundtrip.value_paths(p, w.val)):
                rep.bad_at("extra-content", "the buffer of a manifest entry is not written to its file", e.fn, e.line, "extra")
            else:
                rep.ok("extra files are written from Manifest.buffer")
        if not dyn:
            rep.bad_at("extra", "the extra files of the manifest are not written", root, rule="extra")
        rep.count(entries=[const_str(e.name) or "(manifest entry)" for e in ent], root=root.path)
    return explicit


def tested(p, f, b):
    """what, apart from the path and the presence of the content, decides whether a block is reached for an entry of the manifest"""
    out = set()

    def v(x):
        if x[0] == "field" and q_(x[1]) == "Manifest" and x[3] not in ("full_path", "buffer"):
            out.add("Manifest." + x[3])
    for subj in f.ctrl_guards(b):
        walk(p.norm(subj), v)
    return sorted(out)


def bytes_str(t):
    if t is None:
        return None
    for x in const_strs(t):
        return x
    if t[0] == "const" and t[1] in ("b", "bytes"):
        v = t[2]
        return v.decode("utf8", "replace") if isinstance(v, bytes) else v
    return None


def check_reader(s, rep, explicit):
    p, rd = s.p, s.reader
    rep.rule("each part is looked up under the name it is written to, and handed to the reader of its root element; all other files of the manifest are kept")
    found = defaultdict(list)
    dyn = []
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        for (b, path, cid, args, t) in f.calls:
            if "ZipArchive" in path and path.rsplit("::", 1)[-1].startswith("by_") and b in f.reachable:
                n = strip(p.norm(f.term_op(args[1], False)))
                alts = [n] if n[0] != "phi" else list(n[1])
                for a in alts:
                    c = const_str(a)
                    if c is not None:
                        found[c].append((f, b, t))
                    elif a[0] == "arg":
                        # a helper: names come from its callers
                        for (g, gb) in p.callers.get(f.id, ()):
                            tt = g.bbs[gb]["t"]
                            c = const_str(strip(p.norm(g.term_op(tt[2][a[1] - 1], False))))
                            if c is not None:
                                found[c].append((g, gb, tt))
                    else:
                        dyn.append((f, b, t, a))
    roots = {x: e for x, e in PARTS.items()}
    for part, rootel in sorted(roots.items()):
        fs = found.get(part)
        if not fs and any(not roundtrip.value_paths(p, x[3]) for x in dyn):
            continue
        if not fs:
            rep.bad("unread:" + part, "%s is never looked up by the reader" % part, rule="part-read")
            continue
        for f, b, t in fs:
            # the reader functions behind this lookup, up to the next one
            others = {x[1] for n, ys in found.items() for x in ys if x[0] is f and x[1] != b}
            hit = set()
            for (cb, cp, cid, a, tt) in f.calls:
                g = p.fns.get(cid)
                if g is None or not rd.is_reader(g) or cb not in f.reachable or not f.dominates(b, cb):
                    continue
                if any(f.dominates(b, o) and f.dominates(o, cb) for o in others):
                    continue
                # not part of the next lookup's region
                hit.add(g)
            nxt = [o for o in others if f.dominates(b, o)]
            names = set()
            for g in hit:
                names |= {el for (i, el) in names_of(s) if i == g.id}
            known = names & set(roots.values())
            if known == {rootel}:
                rep.ok("%s -> %s" % (part, rootel))
            elif known and rootel not in known:
                rep.bad_at("wrong-reader:" + part, "%s is read with the reader for %s" % (part, sorted(known)), f, t[5], "part-read")
            elif not hit:
                rep.bad_at("no-reader:" + part, "%s is looked up but not read" % part, f, t[5], "part-read")
    dyn = [x for x in dyn if roundtrip.value_paths(p, x[3])]
    for f, b, t, a in dyn:
        for what, g, ln in StrSim(p).partial(f):
            rep.bad_at("partial-name:read", "whether a file of the manifest is kept depends on a part of its path only: " + what, g, ln, "extra-read")
        ex = StrSim(p).excluded(f, b)
        lost = ex - explicit - {"/"}
        for x in tested(p, f, b):
            rep.bad_at("kept-if:" + x, "whether a file of the manifest is kept depends on %s" % x, f, t[5], "extra-read")
        for x in sorted(lost):
            rep.bad_at("not-kept:" + x, "%s is neither read as a part nor kept as an extra file" % x, f, t[5], "extra-read")
        for x in sorted(ex & explicit):
            if x in found:
                rep.ok()
            else:
                rep.bad_at("not-kept:" + x, "%s is not kept as an extra file and not read otherwise" % x, f, t[5], "extra-read")
        if not any(roundtrip.fld(x) == "Manifest.full_path" for x in roundtrip.value_paths(p, a)):
            rep.bad_at("extra-lookup", "extra files are not looked up by their manifest path", f, t[5], "extra-read")
        else:
            rep.ok("extra files are looked up by Manifest.full_path")
    kept = [e for e in rd.effects if roundtrip.fld(tuple((q_(o), v, n) for o, v, n in e.path)) == "Manifest.buffer"] if rd.effects else []
    stores = []
    for f, b, t, a in dyn:
        for bb in f.rpo():
            for st in f.bbs[bb]["s"]:
                if st[0] == "=" and any(x[0] == "." and x[3] == "buffer" and x[1].endswith("Manifest") for x in st[1][1:]) and f.dominates(b, bb):
                    stores.append((f, st))
    if dyn and not stores:
        f, b, t, a = dyn[0]
        rep.bad_at("extra-store", "the content of an extra file is not stored in its manifest entry", f, t[5], "extra-read")
    elif dyn:
        rep.ok("extra files are kept in Manifest.buffer")
    rep.count(looked_up=sorted(found))


def q_(o):
    return o.rsplit("::", 1)[-1]


_names = {}


def names_of(s):
    """(function, element name) pairs a reader function distinguishes"""
    r = _names.get(id(s))
    if r is None:
        r = set()
        rd = s.reader
        for i in s.p.reach(rd.roots):
            f = s.p.fns[i]
            if rd.is_reader(f):
                for b in f.reachable:
                    ns = rd.bfacts(f, b)[0]
                    for x in ns or ():
                        r.add((i, x))
        _names[id(s)] = r
    return r


def check_manifest(s, rep, explicit):
    """the manifest lists the document and all parts"""
    p = s.p
    rep.rule("the manifest lists the document itself with the media type of the mimetype entry and every XML part; an entry is only added when its own path is missing")
    added = {}
    open_ = False  # an entry whose path is not a constant
    wr = p.reach([f for f in entry_points(p) if f.name.startswith("write_")])
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if not f.file.startswith("src/io"):
            continue
        for (b, path, cid, args, t) in f.calls:
            g = p.fns.get(cid)
            if g is None or b not in f.reachable:
                continue
            for a in args:
                if a[0] in ("c", "m") and f.locals[a[1][0]][0].endswith("manifest::Manifest") and "&" not in f.locals[a[1][0]][0]:
                    for env in contexts(p, f):
                        v = strip(p.norm(subst(f.term_op(a, False), env)))
                        fp = agg_field(v, "full_path")
                        mt = agg_field(v, "media_type")
                        if fp is None:
                            open_ = open_ or f.id in wr
                            continue
                        added[fp] = (f, b, t, mt, env)
    if not rep.need(bool(added), "manifest-entries", "standard manifest entries with constant paths"):
        return
    want = {"/": MIME}
    want.update({x: "text/xml" for x in explicit if not x.startswith("META-INF")})
    for x, m in sorted(want.items()):
        if x not in added and open_:
            continue
        if x not in added:
            rep.bad("unlisted:" + x, "%s is not added to the manifest" % x, rule="manifest")
            continue
        f, b, t, mt, env = added[x]
        if mt is not None and mt != m:
            rep.bad_at("media-type:" + x, "%s is listed with the media type %s" % (x, mt), f, t[5], "manifest")
        # guard: only when this path is missing
        gs = set()
        for subj, vals in f.ctrl_guards(b).items():
            sj = strip(p.norm(subst(subj, env)))
            if sj[0] == "call" and sj[1].rsplit("::", 1)[-1] in ("contains_key", "get", "is_none") and len(sj[3]) >= 2:
                gs.add(const_str(strip(sj[3][1])))
        gs.discard(None)
        if gs and gs != {x}:
            rep.bad_at("manifest-guard:" + x, "%s is listed depending on the presence of %s" % (x, sorted(gs)), f, t[5], "manifest")
        else:
            rep.ok("%s is listed" % x)
    rep.count(listed=sorted(added))


def contexts(p, f, depth=2):
    """what the parameters of f and the items of its loops over arrays can stand for: [{parameter or item: term}]"""
    envs = []
    cs = [(g, gb) for (g, gb) in p.callers.get(f.id, ()) if g is not f]
    if cs and depth and f.kind != "closure":
        for g, gb in cs:
            args = g.bbs[gb]["t"][2]
            for e in contexts(p, g, depth - 1)[:40]:
                envs.append({i + 1: subst(g.term_op(a, False), e) for i, a in enumerate(args)})
    return [{**e, **m} for e in (envs or [{}])[:200] for _, m in literal_loops(f)]


def agg_field(v, name):
    if v[0] == "agg":
        for n, a in v[3]:
            if n == name:
                a = strip(a)
                while a[0] == "call" and a[3] and a[1].rsplit("::", 1)[-1] in ("to_string", "into", "from", "to_owned", "new", "as_ref"):
                    a = strip(a[3][0])
                return const_str(a)
    return None


# ---------------------------------------------------------------------------------------------- C11
PASS = {"branch", "map", "map_err", "and_then", "expect", "unwrap", "expect_err", "unwrap_err", "from_residual", "into", "from", "clone", "as_ref", "as_mut", "inspect_err",
        "with_code", "track", "track_as", "err_into", "transpose", "copied", "cloned", "fmt", "or_else"}
MEMORY = ("std::vec::Vec<u8", "std::string::String", "fmt::Formatter")


def err_type(ty):
    if ty.startswith("std::result::Result<"):
        a = split_top(ty[len("std::result::Result<"):-1])
        return a[-1].strip() if len(a) == 2 else "?"
    return None


def entry_points(p):
    """the public functions that read or write files"""
    out = []
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.file.startswith("src/io/") and f.name.startswith(("read_ods", "read_fods", "write_ods", "write_fods")) and f.vis == "pub":
            out.append(f)
    return out


def aliases(f, l):
    """locals the value of l is moved / borrowed into, and what consumes it"""
    ls, uses = {l}, []
    changed = True
    while changed:
        changed = False
        for b in f.reachable:
            for st in f.bbs[b]["s"]:
                if st[0] != "=":
                    continue
                rv = st[2]
                src = None
                if rv[0] == "use" and rv[1][0] in ("c", "m"):
                    src = rv[1][1]
                elif rv[0] in ("ref", "refm"):
                    src = rv[1]
                if src is not None and src[0] in ls and all(x[0] == "*" for x in src[1:]) and len(st[1]) == 1 and st[1][0] not in ls:
                    ls.add(st[1][0])
                    changed = True
    return ls


def aliases_of(f, l):
    """locals l is a copy of / a borrow of"""
    ls = {l}
    todo = [l]
    while todo:
        x = todo.pop()
        for d in f.defs[0].get(x, []):
            if d[2] == "r" and d[3][0] in ("use", "ref", "refm"):
                pl = d[3][1]
                if d[3][0] == "use":
                    if pl[0] not in ("c", "m"):
                        continue
                    pl = pl[1]
                if pl[0] not in ls:
                    ls.add(pl[0])
                    todo.append(pl[0])
    return ls


def consumers(f, l):
    ls = aliases(f, l)
    uses = set()
    if 0 in ls:
        uses.add("return")
    for b in f.reachable:
        for st in f.bbs[b]["s"]:
            if st[0] != "=":
                continue
            rv = st[2]
            if rv[0] == "discr" and rv[1][0] in ls:
                uses.add("match")
            elif rv[0] in ("agg",) and any(o[0] in ("c", "m") and o[1][0] in ls for o in rv[2]):
                uses.add("stored")
            elif rv[0] == "use" and rv[1][0] in ("c", "m") and rv[1][1][0] in ls and len(st[1]) > 1 and len(rv[1][1]) == 1:
                uses.add("stored")
        t = f.bbs[b]["t"]
        if t[0] == "call":
            for i, a in enumerate(t[2]):
                if a[0] in ("c", "m") and a[1][0] in ls:
                    fx = t[1]
                    uses.add("call:" + ((fx.get("r") or fx.get("fn") or "?") if isinstance(fx, dict) else "?"))
    return uses


def ok_after_err(f, b0, rl):
    """can f return successfully after taking the Err edge into block b0?  returns the line of the return value or None"""
    seen = set()
    st = [(b0, None, 0)]
    fails = f.locals[0][0].startswith("std::result::Result<") or f.locals[0][0].startswith("nom::IResult")
    while st:
        b, state, line = st.pop()
        if (b, state) in seen:
            continue
        seen.add((b, state))
        for s in f.bbs[b]["s"]:
            if s[0] == "=" and s[1] == [0]:
                rv = s[2]
                if rv[0] == "agg" and rv[1][0] == "adt":
                    state, line = ("err" if rv[1][2] == "Err" else "ok"), s[3]
                elif rv[0] == "use" and rv[1][0] in ("c", "m") and rv[1][1][0] in rl:
                    state, line = "err", s[3]
                else:
                    state, line = "ok", s[3]
        t = f.bbs[b]["t"]
        if t[0] == "ret":
            if state != "err" and fails and state is not None:
                return line or f.line
            if not fails:
                return line or f.line
            continue
        if t[0] == "call" and t[3] == [0]:
            fx = t[1]
            nm = ((fx.get("r") or fx.get("fn") or "") if isinstance(fx, dict) else "").rsplit("::", 1)[-1]
            g = None
            if nm in ("from_residual", "Err", "map_err", "err"):
                state = "err"
            else:
                state = "err" if always_err(f, t) else "ok"
            line = t[5]
        es = {}
        if t[0] == "sw":
            for s, sj, v in f.edges_of(b):
                es.setdefault(s, []).append(v)
        for s in f.succs(b):
            vs = es.get(s)
            if vs and all(v is not None and (v in (("var", "FileNotFound"), ("var", "Break")) or code_test(f, b, v)) for v in vs):
                continue        # a missing part; a parser tries its next alternative
            if f.bbs[s]["t"][0] == "unr":
                continue
            st.append((s, state, line))
    return None


def code_test(f, b, v):
    """the edge is taken for one particular code of a tokenizer error: a parser tries its next alternative"""
    if v[0] != "var":
        return False
    for s, sj, w in f.edges_of(b):
        x = strip(sj)
        if x[0] == "field" and x[1].endswith("TokenizerError") and x[3] == "code":
            return True
    return False


def always_err(f, t):
    fx = t[1]
    if not isinstance(fx, dict):
        return False
    g = f.prog.fns.get(fx.get("rid") or fx.get("id"))
    if g is None:
        return False
    for d in g.defs[0].get(0, []):
        if d[2] == "r" and d[3][0] == "agg" and d[3][1][0] == "adt" and d[3][1][2] == "Err":
            continue
        return False
    return True


def c11(s, rep):
    p = s.p
    rep.rule("every Result of an I/O, archive, XML, conversion or library call reachable from a read/write entry point is propagated: passed to `?`, returned, converted, or "
             "matched so that the Err side cannot end in a successful return (a missing optional part of the archive excepted)")
    roots = entry_points(p)
    if not rep.need(len(roots) >= 6, "entry-points", "public read/write functions"):
        return
    reach = p.reach(roots)
    n = m = 0
    for i in sorted(reach, key=str):
        f = p.fns[i]
        if f.trait and f.trait.split("<")[0].rsplit("::", 1)[-1] in ("Display", "Debug", "Error"):
            continue
        if f.trait and f.trait.split("<")[0].endswith("convert::From") and "OdsError" in (f.self_ty or ""):
            continue        # makes an error out of an error
        for (b, path, cid, args, t) in f.calls:
            if b not in f.reachable or not t[3]:
                continue
            nm = path.rsplit("::", 1)[-1]
            if any(re.search(r"result::Result.*::(ok|unwrap_or_default|is_ok|is_err|err|unwrap_or)\b", str(a[1])) for a in args if a[0] == "k") or (
                    nm in ("flatten", "flat_map") and args and args[0][0] in ("c", "m") and re.search("Attributes|io::Lines", f.locals[args[0][1][0]][0])):
                rep.bad_at("filtered:%s:%s" % (f.name, nm), "%s drops the failures of an iterator of results" % nm, f, t[5], "propagate")
            if f.kind == "Closure" and args and args[0][0] in ("c", "m") and nm not in PASS and "result::Result" in path:
                e = err_type(deref_all(f.locals[args[0][1][0]][0]))
                srcs = aliases_of(f, args[0][1][0])
                if e not in (None, "std::fmt::Error", "std::convert::Infallible") and any(0 < x <= f.argc for x in srcs):
                    rep.bad_at("filtered:%s:%s" % (f.name, nm), "a closure turns the failure it is handed into a value by %s" % nm, f, t[5], "propagate")
            d = t[3]
            ty = f.locals[d[0]][0] if len(d) == 1 else p.place_ty(f, d) or "?"
            e = err_type(ty)
            if e is None or e in ("std::fmt::Error", "std::convert::Infallible"):
                continue
            nm = path.rsplit("::", 1)[-1]
            if e == "std::io::Error" and nm in ("write_fmt", "write_all", "write_str") and args and args[0][0] in ("c", "m") and any(
                    x in deref_all(f.locals[args[0][1][0]][0]) for x in MEMORY):
                continue
            n += 1
            if len(d) > 1 or d[0] == 0:
                rep.ok()
                continue
            us = consumers(f, d[0])
            bad = sorted(u for u in us if u.startswith("call:") and u[5:].rsplit("::", 1)[-1] not in PASS and ("result::Result" in u or u.endswith(("::flatten", "::into_iter"))))
            if not us:
                rep.bad_at("dropped:%s:%s" % (f.name, nm), "the result of %s is ignored" % nm, f, t[5], "propagate")
            elif bad:
                rep.bad_at("swallowed:%s:%s" % (f.name, nm), "a failure of %s is turned into a value by %s" % (nm, ", ".join(x[5:].rsplit("::", 1)[-1] for x in bad)), f, t[5], "propagate")
            else:
                rep.ok()
        # matches
        for b in f.reachable:
            if f.bbs[b]["t"][0] != "sw":
                continue
            for sx, sj, v in f.edges_of(b):
                if v != ("var", "Err") and v != ("set", frozenset({("var", "Err")})):
                    continue
                m += 1
                rl = set()
                op = f.bbs[b]["t"][1]
                l = discr_local(f, op)
                if l is not None:
                    e = err_type(deref_all(f.locals[l][0]))
                    if e in ("std::fmt::Error", "std::convert::Infallible") or e is None:
                        continue
                    rl = aliases(f, l)
                ln = ok_after_err(f, sx, rl)
                if ln is not None:
                    src = strip(p.norm(sj))
                    nm = src[1].rsplit("::", 1)[-1] if src[0] == "call" else src[0]
                    key = "swallowed:%s" % nm if src[0] == "call" and nm != "parse" else "swallowed:%s:%s" % (f.name, nm)
                    if src[0] == "call" and src[3] and len(src[3]) > 1 and const_str(strip(src[3][1])):
                        key += ":" + const_str(strip(src[3][1]))
                    rep.bad_at(key, "a failure of %s can end in a successful return" % nm, f, f.bbs[b]["t"][-1], "propagate")
                else:
                    rep.ok()
    rep.count(functions=len(reach), results=n, matches=m, entry_points=[f.name for f in roots])
    # buffered output is flushed, short writes
    rep.rule("buffered output made here is flushed on every successful path; no call writes only a part of a buffer")
    for i in sorted(reach, key=str):
        f = p.fns[i]
        for (b, path, cid, args, t) in f.calls:
            nm = path.rsplit("::", 1)[-1]
            if "io::Write" in path and nm in ("write", "write_vectored"):
                rep.bad_at("short-write:" + f.name, "write() may write only a part of the buffer", f, t[5], "short-write")
            if "BufWriter" in path and nm in ("new", "with_capacity") and b in f.reachable:
                fl = [c for c in f.calls if c[1].rsplit("::", 1)[-1] in ("flush", "into_inner", "sync_all") and c[0] in f.reachable and must_pass(f, c[0])]
                last = [c for c in f.calls if c[2] in p.fns and c[0] in f.reachable]
                ok = any(all(f.dominates(c[0], x[0]) or not f.dominates(b, c[0]) for c in last if c[0] != x[0]) for x in fl)
                if d_returned(f, t[3]):
                    ok = True
                if ok:
                    rep.ok("%s flushes its buffer" % f.name)
                else:
                    rep.bad_at("unflushed:" + f.name, "%s returns success without flushing its buffered writer: a failing last write goes unnoticed" % f.name, f, t[5], "flush")


def d_returned(f, d):
    return bool(d) and 0 in aliases(f, d[0])


def deref_all(ty):
    while ty.startswith("&"):
        ty = deref_ty(ty)
    return ty


def discr_local(f, op):
    if op[0] not in ("c", "m"):
        return None
    for d in f.defs[0].get(op[1][0], []):
        if d[2] == "r" and d[3][0] == "discr":
            return d[3][1][0]
    return None


SEL = lambda el: (el or "").startswith("manifest:")
SPECIAL = {("manifest:manifest", "manifest:version"): 1}


def c10(s, rep):
    ex = check_package(s, rep)
    if ex is None:
        return
    check_reader(s, rep, ex)
    check_manifest(s, rep, ex)
    c = Check(s, rep, SEL, p_rt.SPEC.get("C10", {}), SPECIAL)
    c.run()


PROPS = {"C11": (c11, "other", "error propagation over MIR"), "C10": (c10, "other", "archive typestate")}
