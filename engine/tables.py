"""Writer table and reader table: which model field is written to / read from which attribute or element text."""
from collections import defaultdict
from mir import *
from reader import q


def is_ref(owner):
    return owner.rsplit("::", 1)[-1].endswith("Ref") or owner == "(Ref)"


MAPS = {"map", "and_then", "filter_map", "flat_map"}


def mapped(t):
    """Option/Iterator adapter whose closure has been applied to the payload (Normalizer)"""
    if len(t[3]) == 2 and t[1].rsplit("::", 1)[-1] in MAPS:
        r = t[3][1]
        return not (r[0] == "agg" and r[1].startswith("(closure)")) and r[0] != "const"
    return False


def opt_filter(t):
    """Option::filter whose predicate has been applied to the payload"""
    return t[0] == "call" and len(t[3]) == 2 and t[1].endswith("::filter") and "option::Option" in t[1] and not (t[3][1][0] == "agg" and t[3][1][1].startswith("(closure)"))


def value_paths(p, t, limit=60, maxlen=3):
    """outermost model fields a value is taken from, as access paths of at most two fields
    (reference newtypes are skipped)"""
    out = set()

    def chain(t, acc, budget):
        # t: base of a field; collect further fields inward
        n = 0
        while n < 60:
            n += 1
            k = t[0]
            if k == "under":
                t = t[2]
            elif k == "field":
                if t[1] in p.adts and not t[1].startswith("io::"):
                    if not is_ref(t[1]):
                        acc = ((q(t[1]), t[2], t[3]),) + acc
                        if len(acc) >= maxlen:
                            out.add(acc)
                            return
                t = t[4]
            elif k == "call":
                if not t[3]:
                    break
                t = t[3][1] if mapped(t) else t[3][0]
            elif k in ("cast",):
                t = t[2]
            elif k in ("idx", "slice"):
                t = t[1]
            elif k == "phi":
                if budget <= 0:
                    break
                for a in t[1]:
                    chain(a, acc, budget - 1)
                return
            else:
                break
        if acc:
            out.add(acc)

    def go(t, d=0):
        if d > 40 or len(out) > limit:
            return
        k = t[0]
        if k == "field":
            if t[1] in p.adts and not t[1].startswith("io::"):
                if is_ref(t[1]):
                    go(t[4], d + 1)
                else:
                    chain(t[4], ((q(t[1]), t[2], t[3]),), 3)
                return
            go(t[4], d + 1)
            return
        if k == "under":
            go(t[2], d + 1)
        elif k == "phi":
            for a in t[1]:
                go(a, d + 1)
        elif k == "call":
            for a in (t[3][1:] if mapped(t) else t[3][:1] if opt_filter(t) else t[3]):
                go(a, d + 1)
        elif k == "agg":
            for _, a in t[3]:
                go(a, d + 1)
        elif k in ("const", "arg", "loop", "undef", "rt"):
            return
        else:
            for y in t[1:]:
                if isinstance(y, tuple) and y and isinstance(y[0], str) and y[0] in KINDS:
                    go(y, d + 1)

    go(t)
    return out


def value_calls(t, p=None):
    """functions / operators a value passes through after it has been taken from the model"""
    out = set()

    def v(x):
        if x[0] == "call":
            out.add(x[1])
        elif x[0] in ("bin", "un"):
            out.add("op:" + x[1])
        elif x[0] == "under":
            pass
    # do not look into guards of 'under'
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == "under":
            st.append(x[2])
            continue
        if opt_filter(x):
            st.append(x[3][0])
            continue
        if x[0] in KINDS:
            v(x)
        if p is not None and x[0] == "field" and x[1] in p.adts and not x[1].startswith("io::") and not is_ref(x[1]):
            continue
        for y in x:
            if isinstance(y, tuple):
                st.append(y)
    return out


def elem_alts(e):
    if isinstance(e, str) and e.startswith("\u00ab"):
        return e[1:-1].split("|")
    return [e]


FULLSETS = [frozenset({("var", "None"), ("var", "Some")}), frozenset({("bool", True), ("bool", False)})]


class WRow:
    __slots__ = ("elem", "attr", "kind", "paths", "value", "guards", "fn", "line", "stack", "chain", "calls", "esc", "choices", "either")

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


def guard_rows(p, guards):
    """[(subject, paths, values)] dropping non-restrictions"""
    out = []
    for s, v in guards:
        if frozenset(v) in FULLSETS:
            continue
        while opt_filter(strip(s)) and frozenset(v) == frozenset({("var", "Some")}):
            s = strip(s)
            c = strip(s[3][1])
            val = True
            while c[0] == "un" and c[1] == "Not":
                c, val = strip(c[2]), not val
            out.append((c, frozenset({("bool", val)})))
            s = s[3][0]
        if s[0] == "call" and s[1].rsplit("::", 1)[-1] in ("next", "next_back") and frozenset(v) == frozenset({("var", "Some")}):
            out += iter_conds(p, s)
        out.append((s, v))
    return out


def iter_conds(p, s):
    """conditions the filters of an iterator put on its items"""
    k = ("ic", s)
    memo = p.__dict__.setdefault("_iter_conds", {})
    r = memo.get(k)
    if r is not None:
        return r
    r = memo[k] = []
    item = ("field", "std::option::Option", "Some", "0", s)
    x, n = s, 0
    while x[0] == "call" and x[3] and n < 12:
        n += 1
        nm = x[1].rsplit("::", 1)[-1]
        if nm in ("filter", "skip_while", "take_while") and "Iterator" in x[1] and len(x[3]) == 2:
            # the item as it comes out of the iterator below the filter
            it = strip(x[3][0])
            c = Normalizer(p, 8).pred(x[3][1], [item])
            if c:
                r += [(a, frozenset(b)) for a, b in c]
        elif nm in ("filter_map", "flat_map", "map", "map_while"):
            break
        x = strip(x[3][0])
    return r


def writer_table(s):
    if getattr(s, "_wt", None) is not None:
        return s._wt
    p = s.p
    rows = []
    memo = {}
    for e in s.walker.events.values():
        if e.kind in ("end", "close"):
            continue
        if e.value is not None:
            k = id(e.value)
            r = memo.get(k)
            if r is None:
                r = memo[k] = (value_paths(p, e.value), value_calls(e.value, p), e.value)
            paths, calls = r[0], r[1]
        else:
            paths, calls = set(), set()
        if e.kind == "elem":
            attr, kind = None, ("start" if e.value[2] else "empty")
            elems = elem_alts(e.name)
        elif e.kind in ("attr", "attr_esc", "attr_str"):
            attr, kind = e.name, "attr"
            elems = elem_alts(e.elem)
        else:
            attr, kind = "", ("etext" if e.kind.startswith("elem_text") else "text")
            elems = elem_alts(e.elem)
        for el in elems:
            rows.append(WRow(elem=el, attr=attr, kind=kind, paths=paths, value=e.value, guards=guard_rows(p, e.guards), fn=e.fn, line=e.line,
                             stack=e.stack, chain=e.chain, calls=calls, esc=e.kind, choices=e.choices, either=e.either))
    s._wt = rows
    return rows


def rpath(e):
    """normalised target path of a reader effect"""
    pth = tuple((q(o), v, n) for o, v, n in e.path if not is_ref(o))
    return pth


def match(wp, rp):
    """same field, same parent where both sides know it"""
    if not wp or not rp:
        return False
    if wp[-1][0] != rp[-1][0] or wp[-1][2] != rp[-1][2]:
        return False
    if wp[-1][1] and rp[-1][1] and wp[-1][1] != rp[-1][1]:
        return False
    if len(wp) > 1 and len(rp) > 1:
        a, b = wp[-2], rp[-2]
        if a[0] == b[0] and a[2] != b[2]:
            return False
    return True


class RRow:
    __slots__ = ("elem", "attr", "path", "src", "e", "deep", "kinds", "mode", "via")

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


def reader_table(s):
    """rows (element, attribute|''|'*', target path); attr '' = character data of the element, '<' = the element itself
    (child structure), '*' = every attribute (attribute map)"""
    if getattr(s, "_rt", None) is not None:
        return s._rt
    rows = []
    for e in s.reader.effects:
        rp = rpath(e)
        if not rp or rp[-1][0] in ("OdsError",):
            continue
        for x in e.srcs:
            deep = x[0] == "deep"
            y = x[1] if deep else x
            if y[0] == "attr":
                rows.append(RRow(elem=y[1], attr=y[2], path=rp, src=y, e=e, deep=deep, kinds=set(y[4]), mode=y[3], via=e.via))
            elif y[0] == "evtext":
                rows.append(RRow(elem=y[2], attr="", path=rp, src=y, e=e, deep=deep, kinds=set(), mode=y[1], via=e.via))
            elif y[0] == "read":
                rows.append(RRow(elem=y[2], attr="<", path=rp, src=y, e=e, deep=deep, kinds=set(y[3]), mode=y[1], via=e.via))
    s._rt = rows
    return rows


def own(gp, wp):
    """a guard about the written field itself or about something it is contained in / contains"""
    names = {(x[0], x[2]) for x in wp}
    return any((x[0], x[2]) in names for x in gp[-1:])


def openers(s):
    """(elem, stack at content, kind) -> opening rows"""
    if getattr(s, "_op", None) is not None:
        return s._op
    d = defaultdict(list)
    for r in writer_table(s):
        if r.kind in ("start", "empty"):
            d[r.elem].append(r)
    s._op = d
    return d


def local_guards(s, r):
    """guards of an attribute/text row beyond those of the start tag it belongs to"""
    gs = [(k, frozenset(v)) for k, v in r.guards]
    best = None
    for o in openers(s).get(r.elem, ()):
        st = tuple(o.stack) + ((r.elem,) if o.kind == "start" else ())
        stk = tuple(r.stack)
        if o.kind == "start" and len(stk) != len(o.stack) + 1 and r.elem not in ("table:table-row-group", "table:table-column-group"):
            continue
        if o.kind == "empty" and stk != tuple(o.stack):
            continue
        if not (o.chain[:len(r.chain)] == r.chain or r.chain[:len(o.chain)] == o.chain):
            continue
        og = {(k, frozenset(v)) for k, v in o.guards}
        rest = [g for g in gs if g not in og]
        if best is None or len(rest) < len(best):
            best = rest
    return gs if best is None else best


def outer_guards(s, r):
    """guards of an element beyond those of the element it lies in"""
    gs = [(k, frozenset(v)) for k, v in r.guards]
    par = r.stack[-1] if r.stack else None
    best = None
    for pe in elem_alts(par) if par else ():
        for o in openers(s).get(pe, ()):
            if o.kind != "start" or tuple(o.stack) != tuple(r.stack[:-1]):
                continue
            if not (o.chain[:len(r.chain)] == r.chain or r.chain[:len(o.chain)] == o.chain):
                continue
            og = {(k, frozenset(v)) for k, v in o.guards}
            rest = [g for g in gs if g not in og]
            if best is None or len(rest) < len(best):
                best = rest
    return gs if best is None else best
