"""Effects of functions in context: calls and field assignments with their terms, callees expanded with the caller's arguments."""
from mir import *


def last(x):
    return x.rsplit("::", 1)[-1]


class Effects:
    """want(f): f itself holds something of interest; only functions that lead to one are entered"""

    def __init__(self, p, want, depth=6, opaque=()):
        self.p, self.want, self.depth, self.opaque = p, want, depth, opaque
        self.nz = Normalizer(p, 6, opaque)
        self.memo = {}
        self.leads = {}
        self.stack = []  # [(function, block of the call)] of the effect being reported

    def lead(self, f):
        r = self.leads.get(f.id)
        if r is None:
            r = self.leads[f.id] = any(self.want(self.p.fns[i]) for i in self.p.reach([f]))
        return r

    def assigns(self, f):
        """(block, line, place, value term) of assignments through at least one field"""
        for b in f.rpo():
            bb = f.bbs[b]
            for s in bb["s"]:
                if s[0] == "=" and any(x[0] == "." for x in s[1][1:]):
                    yield b, s[-1] if isinstance(s[-1], int) else None, s[1], f.term_rv(s[2], False)
            t = bb["t"]
            if t[0] == "call" and any(x[0] == "." for x in t[3][1:]):
                yield b, t[5], t[3], f.term_call(t, False)

    def norm(self, t):
        self.nz.budget = 3000
        return self.nz.n(t)

    def lval(self, f, pl):
        return f.apply_projs(f.term_local(pl[0], False), pl[1:], False)

    def run(self, f, env=None, guards=(), chain=(), depth=0):
        """yields ('call', f, b, line, path, args, guards, t, chain) and ('set', f, b, line, lvalue, value, guards, chain)"""
        env = env or {}
        p = self.p
        if self.want(f):
            for b, line, pl, v in self.assigns(f):
                yield "set", f, b, line, self.norm(subst(self.lval(f, pl), env)), self.norm(subst(v, env)), guards + self.guards(f, b, env), chain
        for (b, path, cid, args, t) in f.calls:
            g = p.fns.get(cid)
            sub = g is not None and g.id not in chain and depth < self.depth and self.lead(g)
            if not sub and not self.want(f):
                continue
            at = tuple(subst(f.term_op(a, False), env) for a in args)
            gs = guards + self.guards(f, b, env)
            if self.want(f):
                yield "call", f, b, t[5], path, tuple(self.norm(a) for a in at), gs, t, chain
            if sub:
                self.stack.append((f, b))
                yield from self.run(g, {i + 1: a if size(a, 150) < 150 else ("rt",) for i, a in enumerate(at)}, gs, chain + (f.id,), depth + 1)
                self.stack.pop()

    def guards(self, f, b, env):
        return tuple((self.norm(subst(s, env)), v) for s, v in f.ctrl_guards(b).items())
