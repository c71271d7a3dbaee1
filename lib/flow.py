"""Interprocedural finite-state (typestate) dataflow over the IR: every path of the flow graph, callee summaries
computed on demand, recursion by fixpoint.  No path conditions are evaluated."""
from ai import base


def callee(i):
    """name of the directly called function, or None"""
    return i.x[1] if i.op == 'call' and i.x[0] == 'g' else None


class Flow:
    """event(flow, f, ins, state) -> None: no effect; otherwise an iterable of successor states (empty: path ends)"""

    def __init__(self, m, event, relevant, stop=()):
        self.m, self.event = m, event
        self.stop = set(stop)
        # functions from which an event instruction can be reached through direct calls
        rel = {f.name for f in m.functions.values() if not f.decl and any(relevant(f, i) for i in f.instrs())}
        callers = {}
        for f in m.functions.values():
            if not f.decl:
                for i in f.instrs():
                    c = callee(i)
                    if c:
                        callers.setdefault(c, set()).add(f.name)
        work = list(rel)
        while work:
            for c in callers.get(work.pop(), ()):
                if c not in rel:
                    rel.add(c)
                    work.append(c)
        self.rel = rel
        self.memo = {}
        self.changed = False
        self.visited = set()
        self.active = []

    def summary(self, f, st):
        """fixpoint summary: the states in which f can return when entered in st"""
        while True:
            self.changed = False
            self.visited = set()
            r = self._sum(f, st)
            if not self.changed:
                return r

    def _sum(self, f, st):
        key = (f.name, st)
        if key in self.visited:
            return self.memo.get(key, frozenset())
        self.visited.add(key)
        r = self._body(f, st)
        if r != self.memo.get(key, frozenset()):
            self.memo[key] = r | self.memo.get(key, frozenset())
            self.changed = True
        return self.memo.get(key, frozenset())

    def _body(self, f, st):
        m = self.m
        seen = {(f.entry.name, st)}
        work = [(f.entry.name, st)]
        exits = set()
        while work:
            bn, s = work.pop()
            b = f.blocks[bn]
            cur = {s}
            for i in b.ins:
                nxt = set()
                for x in cur:
                    r = self.event(self, f, i, x)
                    if r is None:
                        c = callee(i)
                        g = m.functions.get(c) if c else None
                        if c in m.noreturn and (g is None or g.decl):
                            continue
                        if g is not None and not g.decl and c in self.rel and c not in self.stop:
                            nxt |= self._sum(g, x)
                        elif c in m.noreturn:
                            continue
                        else:
                            nxt.add(x)
                    else:
                        nxt |= set(r)
                cur = nxt
                if not cur:
                    break
            if not cur:
                continue
            if b.ins[-1].op == 'ret':
                exits |= cur
            for sn in b.succ:
                for x in cur:
                    if (sn, x) not in seen:
                        seen.add((sn, x))
                        work.append((sn, x))
        return frozenset(exits)


def reachable(m, roots, skip=()):
    """functions reachable through direct calls and address-taken references; returns {name: caller}"""
    par = {r: None for r in roots if r in m.functions}
    work = list(par)
    while work:
        n = work.pop()
        f = m.functions[n]
        if f.decl or n in skip:
            continue
        for t in refs(m, f):
            if t not in par:
                par[t] = n
                work.append(t)
    return par


def vrefs(m, v, out, seen):
    if not isinstance(v, tuple):
        return
    if v and v[0] == 'g':
        n = v[1]
        if n in m.functions:
            out.add(n)
        elif n in m.globals and n not in seen:
            seen.add(n)
            vrefs(m, m.globals[n]['init'], out, seen)
    else:
        for x in v:
            if isinstance(x, tuple):
                vrefs(m, x, out, seen)


def refs(m, f):
    """functions called or referenced by f"""
    c = getattr(f, '_refs', None)
    if c is None:
        c = set()
        for i in f.instrs():
            if i.op == 'call':
                vrefs(m, i.x, c, set())
            for a in i.args:
                vrefs(m, a[1], c, set())
        f._refs = c
    return c


def path(par, n):
    out = []
    while n is not None:
        out.append(base(n))
        n = par[n]
    return ' <- '.join(out)
