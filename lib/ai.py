"""Abstract interpreter over the IR (ir.py).

Domain: every integer/pointer is a linear form  const + sum(coef*atom)  over opaque atoms; memory is a map from
addresses (linear forms) to values with class-based havoc; path facts are linear inequalities and per-form
value sets.  Calls are followed into their bodies (virtual inlining) up to a depth; recursion and unknown callees
are replaced by an effect summary.  Loops are handled by widening at loop headers (a cell or register that changes
becomes a fresh loop atom), so the analysis terminates without unrolling.  No solver is involved."""
import sys
from math import gcd
from ir import AnalysisBroken, Ty

sys.setrecursionlimit(20000)

S32 = 1 << 31


class Atoms:
    def __init__(self):
        self.tab = []
        self.idx = {}

    def get(self, key):
        i = self.idx.get(key)
        if i is None:
            i = len(self.tab)
            self.tab.append(key)
            self.idx[key] = i
        return i


A = Atoms()


def atom(*key):
    return (0, ((A.get(key), 1),))


def const(c):
    return (c, ())


ZERO = const(0)
UNDEF = atom('undef')


def isconst(v):
    return not v[1]


def add(a, b, k=1):
    """a + k*b"""
    if not b[1]:
        return (a[0] + k * b[0], a[1])
    if not a[1] and k == 1:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for t, c in b[1]:
        n = d.get(t, 0) + k * c
        if n:
            d[t] = n
        else:
            d.pop(t, None)
    return (a[0] + k * b[0], tuple(sorted(d.items())))


def scale(a, k):
    if k == 0:
        return ZERO
    return (a[0] * k, tuple((t, c * k) for t, c in a[1]))


def subst(v, tid, by):
    if isinstance(v[0], str):
        return v
    for t, c in v[1]:
        if t == tid:
            return add((v[0], tuple(x for x in v[1] if x[0] != tid)), by, c)
    return v


def mentions(v, tid):
    return not isinstance(v[0], str) and any(t == tid for t, c in v[1])


def single(v):
    """atom key if v is exactly one atom (coef 1, const 0)"""
    if v[0] == 0 and len(v[1]) == 1 and v[1][0][1] == 1:
        return A.tab[v[1][0][0]]
    return None


def baseatom(v):
    """the pointer base atom id of an address: the atom with coef 1 which is a pointer-like atom"""
    for t, c in v[1]:
        if c == 1 and A.tab[t][0] in PTRKINDS:
            return t
    for t, c in v[1]:
        if c == 1:
            return t
    return None


PTRKINDS = {'alloca', 'glob', 'arg', 'malloc'}


def show(v, depth=0):
    if v is None:
        return '?'
    parts = []
    for t, c in v[1]:
        k = A.tab[t]
        s = showatom(k, depth)
        parts.append(s if c == 1 else '%d*%s' % (c, s))
    if v[0] or not parts:
        parts.append(str(v[0]))
    return '+'.join(parts)


def showatom(k, depth=0):
    if depth > 4:
        return '..'
    if k[0] == 'ld':
        return '[%s]%s' % (show(k[1], depth + 1), '' if not k[2] else '@%s' % (k[2],))
    if k[0] == 'op':
        return '%s(%s)' % (k[1], ','.join(show(x, depth + 1) for x in k[2:]))
    if k[0] in ('call',):
        return '%s()' % (k[2],)
    return ':'.join(str(x) for x in k)


class State:
    __slots__ = ('env', 'mem', 'ep', 'ge', 'vs', 'p', 'tr')
    # env: reg -> value (current frame); mem: addr -> value; ep: class -> epoch;
    # ge: frozenset of linear forms known >= 0; vs: form(no const) -> (frozenset allowed or None, frozenset excluded)
    # p: dict of property state (values hashable); tr: trace (tuple linked list of locations) for reports

    def __init__(self):
        self.env = {}; self.mem = {}; self.ep = {}; self.ge = frozenset(); self.vs = {}; self.p = {}; self.tr = None

    def copy(self):
        s = State()
        s.env = dict(self.env); s.mem = dict(self.mem); s.ep = dict(self.ep); s.ge = self.ge; s.vs = dict(self.vs)
        s.p = dict(self.p); s.tr = self.tr
        return s

    # ---- facts
    def norm(self, v):
        """canonical sign (first coef positive), const removed: returns (form, sign, const)"""
        if not v[1]:
            return None, 1, v[0]
        if v[1][0][1] < 0:
            return tuple((t, -c) for t, c in v[1]), -1, v[0]
        return v[1], 1, v[0]

    def values(self, v):
        f, s, c = self.norm(v)
        if f is None:
            return frozenset([c])
        r = self.vs.get(f)
        if r and r[0] is not None:
            return frozenset(s * x + c for x in r[0])
        return None

    def excluded(self, v):
        f, s, c = self.norm(v)
        if f is None:
            return frozenset()
        r = self.vs.get(f)
        if r:
            return frozenset(s * x + c for x in r[1])
        return frozenset()

    def nonneg(self, v, depth=2):
        """prove v >= 0"""
        if not v[1]:
            return v[0] >= 0
        g = v[1][0][1]
        if g != 1 and g != -1:
            for t, c in v[1][1:]:
                g = gcd(g, c)
            g = abs(g)
            if g > 1:
                v = (v[0] // g, tuple((t, c // g) for t, c in v[1]))
        if v[0] >= 0 and all(c > 0 and NONNEG(A.tab[t]) for t, c in v[1]):
            return True
        vals = self.values(v)
        if vals is not None:
            return all(x >= 0 for x in vals)
        ids = {t for t, c in v[1]}
        cand = []
        vt, v0 = v[1], v[0]
        for f in self.ge:
            if f[1] == vt:
                if v0 >= f[0]:
                    return True
            elif depth:
                for t, c in f[1]:
                    if t in ids:
                        cand.append(f)
                        break
        if v[0] < 0:
            pass
        # sum of nonneg atoms part
        pos = [(t, c) for t, c in v[1] if not (c > 0 and NONNEG(A.tab[t]))]
        if len(pos) < len(v[1]) and pos:
            if self.nonneg((v[0], tuple(pos)), depth and depth - 1):
                return True
        if depth:
            for f in cand:
                d = add(v, f, -1)
                if len(d[1]) <= len(v[1]) and self.nonneg(d, depth - 1):
                    return True
        return False

    def add_ge(self, v):
        if not v[1]:
            return v[0] >= 0
        # contradiction?
        neg = add(const(-1), v, -1)
        if self.nonneg(neg, 1):
            return False
        f, s, c = self.norm(v)
        r = self.vs.get(f)
        if r and r[0] is not None:
            al = frozenset(x for x in r[0] if s * x + c >= 0)
            if not al:
                return False
            self.vs[f] = (al, r[1])
        if not self.nonneg(v, 0):
            self.ge = self.ge | {v}
        return True

    def add_eq(self, v, k):
        """v == k (k int)"""
        if not v[1]:
            return v[0] == k
        f, s, c = self.norm(v)
        x = (k - c) * s
        r = self.vs.get(f)
        if r:
            if r[0] is not None and x not in r[0]:
                return False
            if x in r[1]:
                return False
        d = add(v, const(k), -1)
        if self.nonneg(add(const(-1), d), 1) or self.nonneg(add(const(-1), d, -1), 1):
            return False
        self.vs[f] = (frozenset([x]), frozenset())
        self.ge = self.ge | {d, scale(d, -1)}
        return True

    def add_ne(self, v, k):
        if not v[1]:
            return v[0] != k
        f, s, c = self.norm(v)
        x = (k - c) * s
        al, ex = self.vs.get(f, (None, frozenset()))
        if al is not None:
            al = al - {x}
            if not al:
                return False
            self.vs[f] = (al, frozenset())
        else:
            self.vs[f] = (None, ex | {x})
            # sharpen: v>=k and v!=k  => v>=k+1
            d = add(v, const(k), -1)
            if self.nonneg(d, 1):
                self.ge = self.ge | {add(d, const(-1))}
            elif self.nonneg(scale(d, -1), 1):
                self.ge = self.ge | {add(scale(d, -1), const(-1))}
        return True

    def eq(self, v, k):
        """True/False/None for v == k"""
        if not v[1]:
            return v[0] == k
        vals = self.values(v)
        if vals is not None:
            if k not in vals:
                return False
            if len(vals) == 1:
                return True
        if k in self.excluded(v):
            return False
        if k == 0 and len(v[1]) == 1 and v[0] >= 0 and v[1][0][1] == 1 and A.tab[v[1][0][0]][0] in ('alloca', 'glob', 'malloc', 'obj', 'heap', 'name', 'str'):
            return False
        d = add(v, const(k), -1)
        if self.nonneg(add(d, const(-1)), 1) or self.nonneg(add(scale(d, -1), const(-1)), 1):
            return False
        return None


NN = {'call:strlen', 'call:YASL_String_len'}
UNSIGNED_FIELDS = set()   # filled by Engine: atoms of loads from unsigned fields


def NONNEG(k):
    if k[0] == 'ld':
        return len(k) > 3 and k[3] == 'u'
    if k[0] == 'call':
        return k[2] in ('strlen', 'YASL_String_len')
    if k[0] == 'op' and k[1] == 'zext':
        return True
    return False


FLIP = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq'}


class Engine:
    MAXSTATES = 32
    MAXDEPTH = 14

    def __init__(self, m, hooks):
        self.m = m
        self.h = hooks
        self.ctxs = {}
        self.loops = {}
        self.live = {}
        self.rpo = {}
        self.steps = 0
        self.maxsteps = 3000000
        self.effcache = {}
        self.stats = {'functions': set(), 'calls': 0, 'states': 0}

    # ------------------------------------------------------------ per-function precomputation
    def prep(self, f):
        if f.name in self.rpo:
            return
        seen = set(); post = []
        st = [(f.entry, iter([f.blocks[s] for s in f.entry.succ]))]
        seen.add(f.entry.name)
        onstack = {f.entry.name}
        back = set()
        while st:
            b, it = st[-1]
            nx = next(it, None)
            if nx is None:
                st.pop(); post.append(b.name); onstack.discard(b.name)
            elif nx.name not in seen:
                seen.add(nx.name); onstack.add(nx.name)
                st.append((nx, iter([f.blocks[s] for s in nx.succ])))
            elif nx.name in onstack:
                back.add((b.name, nx.name))
        order = {b: i for i, b in enumerate(reversed(post))}
        self.rpo[f.name] = order
        self.loops[f.name] = {h for _, h in back}
        # liveness
        use = {}; de = {}
        phiuse = {}
        for b in f.blocks.values():
            u = set(); d = set()
            for i in b.ins:
                if i.op == 'phi':
                    for (t, v), pb in zip(i.args, i.x):
                        if v[0] == 'l':
                            phiuse.setdefault((pb, b.name), set()).add(v[1])
                else:
                    for t, v in i.args:
                        if v[0] == 'l' and v[1] not in d:
                            u.add(v[1])
                    if i.op == 'call' and i.x[0] == 'l' and i.x[1] not in d:
                        u.add(i.x[1])
                if i.res:
                    d.add(i.res)
            use[b.name], de[b.name] = u, d
        live = {b: set(use[b]) for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                out = set()
                for s in f.blocks[b].succ:
                    out |= live[s] | phiuse.get((b, s), set())
                n = use[b] | (out - de[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live[f.name] = live
        self.phiuse = getattr(self, 'phiuse', {})

    # ------------------------------------------------------------ values
    def val(self, s, v, ctx=None):
        k = v[0]
        if k == 'l':
            r = s.env.get(v[1])
            if r is None:
                r = atom('unk', ctx, v[1])
            return r
        if k == 'c':
            return (v[1], ())
        if k == 'null':
            return ZERO
        if k == 'g':
            return atom('glob', v[1])
        if k == 'f':
            return atom('float', v[1])
        if k == 'gep':
            r = self.m.gepoff(v)
            if r:
                return add(self.val(s, r[0]), const(r[1]))
            return atom('cexpr', v)
        if k == 'cast':
            return self.val(s, v[2])
        if k == 'agg':
            return ('agg', tuple(self.val(s, x) for x in v[1]))
        if k in ('undef', 'poison'):
            return UNDEF
        if k == 'zeroinitializer':
            return ZERO
        return atom('const', v)

    # ------------------------------------------------------------ memory
    def cls(self, s, a):
        """alias class of address a"""
        r = self.h.classify(self, s, a)
        if r is not None:
            return r
        b = baseatom(a)
        if b is None:
            return ('abs',)
        k = A.tab[b]
        if k[0] == 'alloca' or k[0] == 'malloc':
            return ('A', b)
        if k[0] == 'glob':
            return ('G', k[1])
        return ('H', a[0])

    def load(self, s, a, ty, ins=None):
        v = s.mem.get(a)
        if v is not None:
            return v
        c = self.cls(s, a)
        v = self.h.initval(self, s, a, ty, c)
        if v is None:
            b = baseatom(a)
            if c[0] == 'G' and not a[1][1:]:
                v = self.globload(c[1], a[0], ty)
            if v is None and c[0] == 'A' and s.ep.get(c) is None and A.tab[b][0] == 'alloca':
                v = UNDEF
            if v is None:
                v = (0, ((A.get(('ld', a, s.ep.get(c, s.ep.get('*', 0)), 'u' if self.unsigned(ins) else 's')), 1),))
        s.mem[a] = v
        return v

    def unsigned(self, ins):
        """is the loaded C field of an unsigned type (debug info on the struct field)?"""
        if ins is None or ins.op != 'load':
            return False
        c = getattr(self, '_us', None)
        if c is None:
            c = self._us = {}
        key = id(ins)
        r = c.get(key)
        if r is None:
            r = self._unsigned(ins)
            c[key] = r
        return r

    def _unsigned(self, ins):
        v = ins.args[0][1]
        if v[0] != 'l':
            return False
        d = ins.fn.defs.get(v[1])
        if d is None or d.op != 'getelementptr' or d.x.k != 'struct' or not d.x.name:
            return False
        n = d.x.name.split('.')[1] if '.' in d.x.name else d.x.name
        fl = self.m.fields.get(n)
        if not fl or len(d.args) < 3 or d.args[2][1][0] != 'c':
            return False
        off = self.m.offset(d.x, d.args[2][1][1])
        for o, name, t, sz in fl:
            if o == off:
                while t is not None:
                    dd = self.m.mdk(t)
                    if dd.get('_') == 'DIBasicType':
                        return 'unsigned' in dd.get('encoding', '')
                    t = self.m.mdref(dd.get('baseType'))
        return False

    def globload(self, g, off, ty):
        gl = self.m.globals.get(g)
        if not gl or not gl['const'] or gl['init'] is None:
            return None
        t, v = gl['ty'], gl['init']
        while True:
            if v[0] == 'zeroinitializer':
                return ZERO
            if v[0] == 'bytes':
                return const(ord(v[1][off])) if off < len(v[1]) else None
            if v[0] == 'agg':
                if t.k == 'struct':
                    for i in range(len(t.e) - 1, -1, -1):
                        o = self.m.offset(t, i)
                        if o <= off:
                            t, v, off = t.e[i], v[1][i], off - o
                            break
                else:
                    sz = self.m.size(t.e)
                    i = off // sz
                    if i >= len(v[1]):
                        return None
                    t, v, off = t.e, v[1][i], off - i * sz
                continue
            return self.val(State(), v) if off == 0 else None

    def mayalias(self, s, a, b, ca, cb):
        if ca[0] != cb[0]:
            return False
        if ca[0] in ('A', 'G') and ca != cb:
            return False
        d = add(a, b, -1)
        if not d[1]:
            return d[0] == 0
        if ca[0] == 'H':
            return a[0] == b[0]
        return self.h.mayalias(self, s, a, b, d, ca)

    def store(self, s, a, v):
        c = self.cls(s, a)
        if c[0] != 'A' or len(a[1]) > 1:
            for b in list(s.mem):
                if b != a and self.mayalias(s, a, b, c, self.cls(s, b)):
                    del s.mem[b]
        if c[0] == 'A' and c not in s.ep:
            pass
        s.mem[a] = v

    def havoc(self, s, c, why):
        """forget everything of class c (or of class kind, if c is a string)"""
        for b in list(s.mem):
            cb = self.cls(s, b)
            if cb == c or cb[0] == c:
                del s.mem[b]
        if isinstance(c, tuple):
            s.ep[c] = why
        else:
            # bump the default epoch for the kind
            for k in list(s.ep):
                if isinstance(k, tuple) and k[0] == c:
                    del s.ep[k]
            s.ep['*'] = why

    # ------------------------------------------------------------ conditions
    def cmp(self, s, pred, a, b):
        """evaluate; returns True/False/None"""
        if a == UNDEF or b == UNDEF:
            return None
        d = add(a, b, -1)
        if pred in ('eq', 'ne'):
            r = s.eq(d, 0)
            if r is None:
                ka, kb = single(a), single(b)
                if ka and kb and ka[0] in ('glob', 'obj', 'heap') and kb[0] in ('glob', 'obj', 'heap') and ka != kb:
                    r = False
            return r if r is None or pred == 'eq' else not r
        if pred[0] == 'u':
            if not (s.nonneg(a) and s.nonneg(b)):
                if not d[1] and d[0] == 0:
                    return pred in ('uge', 'ule')
                if isconst(a) and isconst(b):
                    x, y = a[0] & (1 << 64) - 1, b[0] & (1 << 64) - 1
                    return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
                if not (not d[1] and len(a[1]) == 1 and a[1][0][1] == 1 and A.tab[a[1][0][0]][0] in ('obj', 'heap')):     # two addresses in one object
                    return None
        p = pred[1:]
        if p in ('lt', 'ge'):
            if s.nonneg(d):
                return p == 'ge'
            if s.nonneg(add(scale(d, -1), const(-1))):
                return p == 'lt'
        else:
            if s.nonneg(scale(d, -1)):
                return p == 'le'
            if s.nonneg(add(d, const(-1))):
                return p == 'gt'
        return None

    def assume_cmp(self, s, pred, a, b, truth):
        if not truth:
            pred = FLIP[pred]
        d = add(a, b, -1)
        if pred == 'eq':
            ok = s.add_eq(d, 0)
            if ok:
                self.h.on_eq(self, s, a, b)
            return ok
        if pred == 'ne':
            return s.add_ne(d, 0)
        if pred[0] == 'u':
            na, nb = s.nonneg(a), s.nonneg(b)
            if pred in ('ult', 'ule') and nb and not na:
                if not s.add_ge(a):
                    return False
            elif pred in ('ugt', 'uge') and na and not nb:
                if not s.add_ge(b):
                    return False
            elif not (na and nb):
                for x, y, strict in ((a, b, pred == 'ugt'), (b, a, pred == 'ult')):
                    # x at least (above) the constant y, unsigned: none of the numbers below
                    if pred in (('ugt', 'uge') if x is a else ('ult', 'ule')) and isconst(y) and 0 <= y[0] <= 16:
                        for c in range(y[0] + strict):
                            if not s.add_ne(x, c):
                                return False
                return True
        p = pred[1:]
        v = {'lt': add(scale(d, -1), const(-1)), 'ge': d, 'gt': add(d, const(-1)), 'le': scale(d, -1)}[p]
        return s.add_ge(v)

    def truth(self, s, v):
        if not v[1]:
            return v[0] != 0
        k = single(v)
        if k and k[0] == 'cmp':
            r = self.cmp(s, k[1], k[2], k[3])
            if r is not None:
                return r
        if k and k[0] == 'not':
            r = self.truth(s, k[1])
            return None if r is None else not r
        r = s.eq(v, 0)
        return None if r is None else not r

    def assume(self, s, v, truth):
        if not v[1]:
            return (v[0] != 0) == truth
        k = single(v)
        if k and k[0] == 'cmp':
            if not self.assume_cmp(s, k[1], k[2], k[3], truth):
                return False
        elif k and k[0] == 'not':
            return self.assume(s, k[1], not truth)
        if truth:
            if k and (k[0] in ('cmp', 'bool')):
                return s.add_eq(v, 1)
            return s.add_ne(v, 0)
        return s.add_eq(v, 0)

    # ------------------------------------------------------------ running
    def run(self, f, args, s, ctx=0, depth=0, stack=()):
        """abstractly execute f; returns list of (retval, state) at returns"""
        self.prep(f)
        self.stats['functions'].add(f.name)
        m = self.m
        outer_env = s.env
        s0 = s.copy()
        s0.env = {}
        for p, a in zip(f.params, args):
            s0.env[p] = a
        order = self.rpo[f.name]
        loops = self.loops[f.name]
        live = self.live[f.name]
        import heapq
        pending = {f.entry.name: [(None, s0)]}
        heap = [(0, f.entry.name)]
        inheap = {f.entry.name}
        seen = {}
        loopst = {}
        exits = []
        while heap:
            _, bn = heapq.heappop(heap)
            inheap.discard(bn)
            b = f.blocks[bn]
            inc = pending.pop(bn, [])
            states = []
            for pb, st in inc:
                # phis
                upd = {}
                for i in b.ins:
                    if i.op != 'phi':
                        break
                    for (t, v), x in zip(i.args, i.x):
                        if x == pb:
                            upd[i.res] = self.val(st, v, ctx)
                            break
                lv = live[bn]
                ne = {k: v for k, v in st.env.items() if k in lv}
                ne.update(upd)
                st.env = ne
                states.append(st)
            if bn in loops:
                states = self.loophead(f, b, ctx, states, loopst)
            elif len(b.pred) > 1:
                states = self.dedupe(states)
                if len(states) > self.MAXSTATES:
                    states = self.merge(states, (ctx, f.name, bn))
            for st in states:
                self.stats['states'] += 1
                for nb, ns in self.block(f, b, st, ctx, depth, stack, exits):
                    pending.setdefault(nb, []).append((bn, ns))
                    if nb not in inheap:
                        heapq.heappush(heap, (order.get(nb, 1 << 30), nb))
                        inheap.add(nb)
        res = []
        for rv, st in exits:
            st.env = outer_env
            res.append((rv, st))
        if len(res) > 1:
            d = {}
            for rv, st in res:
                d.setdefault((rv,) + self.skey(st, False), (rv, st))
            res = list(d.values())
            if len(res) > self.MAXSTATES and depth > 0:
                res = self.merge_exits(res, (ctx, f.name))
        return res

    def skey(self, st, env=True):
        return (tuple(sorted(st.env.items())) if env else None, frozenset(st.mem.items()), frozenset(st.p.items()), st.ge, frozenset(st.vs.items()))

    def dedupe(self, states):
        if len(states) < 2:
            return states
        d = {}
        for st in states:
            self.prune(st)
            d.setdefault(self.skey(st), st)
        return list(d.values())

    def prune(self, st):
        return

    def merge(self, states, where):
        """merge states having the same property state"""
        g = {}
        for st in states:
            g.setdefault(self.h.joinkey(self, st), []).append(st)
        return [self.join(l, where) for l in g.values()]

    def merge_exits(self, res, where):
        g = {}
        for rv, st in res:
            k = rv if rv is not None and isinstance(rv[0], int) and isconst(rv) else None
            g.setdefault((k, self.h.joinkey(self, st)), []).append((rv, st))
        out = []
        for (k, _), l in g.items():
            st = self.join([x[1] for x in l], where)
            rvs = {x[0] for x in l}
            rv = rvs.pop() if len(rvs) == 1 else atom('join', where, 'ret')
            out.append((rv, st))
        return out

    def join(self, l, where):
        if len(l) == 1:
            return l[0]
        r = l[0].copy()
        jf = set()
        for k in list(r.env):
            v = r.env[k]
            if any(o.env.get(k) != v for o in l[1:]):
                vs = [o.env.get(k) for o in l]
                r.env[k] = a = atom('join', where, k)
                self.joinvals(r, a, l, vs, jf)
        for k in list(r.mem):
            v = r.mem[k]
            if any(o.mem.get(k) != v for o in l[1:]):
                if all(k in o.mem for o in l):
                    r.mem[k] = a = atom('join', where, k)
                    self.joinvals(r, a, l, [o.mem[k] for o in l], jf)
                else:
                    del r.mem[k]
        ge = r.ge
        for o in l[1:]:
            ge = ge & o.ge
        # facts of one state that are provable in all the others
        for f in r.ge - ge:
            if all(o.nonneg(f) for o in l[1:]):
                ge = ge | {f}
        r.ge = ge | jf
        vs = {}
        for k, (al, ex) in r.vs.items():
            ok = True
            for o in l[1:]:
                if k not in o.vs:
                    ok = False
                    break
                al2, ex2 = o.vs[k]
                if al is not None and al2 is not None:
                    al = al | al2
                    ex = frozenset()
                elif al is None and al2 is None:
                    ex = ex & ex2
                elif al is None:
                    ex = ex - al2
                else:
                    ex = ex2 - al
                    al = None
            if ok and (al is not None or ex):
                vs[k] = (al, ex)
        r.vs.update(vs)
        for k in list(r.vs):
            if k not in vs and k not in getattr(r, '_keep', ()):
                if not (len(k) == 1 and A.tab[k[0][0]][0] == 'join' and A.tab[k[0][0]][1] == where):
                    del r.vs[k]
        for k in set(l[0].ep) | {x for o in l for x in o.ep}:
            if any(o.ep.get(k) != l[0].ep.get(k) for o in l):
                r.ep[k] = ('j', where)
                # cells of that class known in all states stay, others are reloaded under the new epoch
        return r

    def joinvals(self, r, a, l, vals, jf):
        """record the value set / nonnegativity of a joined cell"""
        allv = set()
        for o, v in zip(l, vals):
            if v is None or isinstance(v[0], str):
                return
            x = o.values(v)
            if x is None or len(x) > 24:
                allv = None
                break
            allv |= x
        if allv is not None and len(allv) <= 24:
            r.vs[a[1]] = (frozenset(allv), frozenset())
        elif all(v is not None and o.nonneg(v) for o, v in zip(l, vals)):
            jf.add(a)
            if self.h.loopfacts and all(o.nonneg(add(v, const(-1))) for o, v in zip(l, vals)):
                jf.add(add(a, const(-1)))

    def loophead(self, f, b, ctx, states, loopst):
        out = []
        g = {}
        part = ('part', f.name, b.name, ctx)
        keys = loopst.setdefault(('part', b.name), [])
        for st in states:
            # entry states with different partition keys are kept apart
            if part not in st.p:
                k = self.h.partkey(self, st)
                if k is not None:
                    if k not in keys:
                        keys.append(k)
                    k = min(keys.index(k), 3)
                    if k:
                        st.p[part] = k
            g.setdefault((self.h.mergekey(self, st), self.h.loopkey(self, st, f, b)), []).append(st)
        for mk, l in g.items():
            key = (b.name, mk)
            where = (ctx, f.name, b.name, 'loop') + ((l[0].p[part],) if part in l[0].p else ())
            new = self.join(l, where)
            old = loopst.get(key)
            if old is None:
                loopst[key] = new.copy()
                out.append(new)
                continue
            old, n = old if isinstance(old, tuple) else (old, 0)
            w = self.widen(old, new, where, n)
            if w is None:
                continue
            loopst[key] = (w.copy(), n + 1)
            out.append(w)
            if n > (40 if self.h.loopfacts else 12):
                raise AnalysisBroken('no fixpoint at loop %s/%s' % (f.name, b.name))
        return out

    def covered(self, old, new, where, tid, sub):
        for k in set(old.env) | set(new.env):
            a, c = old.env.get(k), new.env.get(k)
            if self.h.loopfacts and a is not None and c is not None and not isinstance(a[0], str):
                o = self.loopvar(a, where)
                if o is not None:
                    if o != k and new.env.get(o) != c:
                        return False
                    for d in (1, 0):
                        x = add(a, const(-d))
                        if x in old.ge and not (not isinstance(c[0], str) and new.nonneg(add(c, const(-d)))):
                            return False
                    continue
            if a != c:
                if a == atom('loop', where, k):
                    continue
                if a is None or c is None or subst(a, tid, sub) != c:
                    return False
            elif a is not None and mentions(a, tid) and sub == ZERO:
                return False
        for k in set(old.mem) | set(new.mem):
            a, c = old.mem.get(k), new.mem.get(k)
            if a != c:
                if a == atom('loop', where, k):
                    continue
                if a is None:
                    kk = single(c)
                    if kk and kk[0] == 'ld' and kk[1] == k:
                        continue
                    return False
                if c is None or subst(a, tid, sub) != c:
                    return False
            elif a is not None and mentions(a, tid):
                return False
        for f in old.ge:
            if f not in new.ge or mentions(f, tid):
                if not new.nonneg(subst(f, tid, sub)):
                    return False
        for k, (al, ex) in old.vs.items():
            x = new.vs.get(k)
            if x is None:
                return False
            al2, ex2 = x
            if al is not None:
                if al2 is None or not al2 <= al:
                    return False
            elif al2 is not None:
                if ex & al2:
                    return False
            elif not ex <= ex2:
                return False
        for k in set(old.ep) | set(new.ep):
            if old.ep.get(k) != new.ep.get(k) and old.ep.get(k) != ('w', where):
                return False
        return True

    def loopvar(self, a, where):
        """the variable a loop atom of this loop was introduced for"""
        k = single(a)
        return k[2] if k and k[0] == 'loop' and k[1] == where else None

    def widen(self, old, new, where, n):
        """returns None when new is covered by old"""
        t = atom('iter', where)
        tid = t[1][0][0]
        if n > 0:
            # covered by the next (t+1) or the first (t = 0) iteration of the recorded induction?
            for sub in ((1, ((tid, 1),)), ZERO):
                if self.covered(old, new, where, tid, sub):
                    return None
        r = old.copy()
        changed = False

        def induct(a, c):
            """a (value at entry) and c (after one iteration) differ by a constant"""
            if n or a is None or c is None or isinstance(a[0], str) or isinstance(c[0], str):
                return None
            d = add(c, a, -1)
            if d[1] or abs(d[0]) > 1 << 20:
                return None
            return add(a, scale(t, d[0]))

        def stable(a, c):
            """recorded induction form still describes the new value (next or first iteration)"""
            if isinstance(a[0], str) or not any(x == tid for x, _ in a[1]) or c is None:
                return False
            return c in (subst(a, tid, (1, ((tid, 1),))), subst(a, tid, ZERO))
        steps = set()
        if n == 0:
            r.ge = r.ge | {t}
        pairs, dropped = {}, set()
        for k in sorted(set(old.env) | set(new.env)) if self.h.loopfacts else set(old.env) | set(new.env):
            a, c = old.env.get(k), new.env.get(k)
            if self.h.loopfacts and a is not None and c is not None and not isinstance(a[0], str) and not isinstance(c[0], str):
                o = self.loopvar(a, where)
                w = atom('loop', where, k)
                if o is not None:
                    if o != k and new.env.get(o) != c:
                        r.env[k] = a = w
                        changed = True
                    for d in (1, 0):
                        x = add(a, const(-d))
                        if x in r.ge and not new.nonneg(add(c, const(-d))):
                            dropped.add(x)
                            changed = True
                    continue
                if a != c and not stable(a, c) and induct(a, c) is None:
                    if (a, c) in pairs:
                        r.env[k] = pairs[a, c]
                    else:
                        r.env[k] = pairs[a, c] = w
                        for d in (1, 0):
                            if old.nonneg(add(a, const(-d))) and new.nonneg(add(c, const(-d))):
                                r.ge = r.ge | {add(w, const(-d))}
                                break
                    changed = True
                    continue
            if a != c:
                w = atom('loop', where, k)
                if a == w or a is not None and stable(a, c):
                    continue
                iv = induct(a, c)
                if iv is not None:
                    steps.add(abs(c[0] - a[0]))
                r.env[k] = w if iv is None else iv
                changed = True
        for k in set(old.mem) | set(new.mem):
            a, c = old.mem.get(k), new.mem.get(k)
            if a != c:
                w = atom('loop', where, k)
                if a == w or a is not None and stable(a, c):
                    continue
                iv = induct(a, c)
                if iv is not None:
                    steps.add(abs(c[0] - a[0]))
                    r.mem[k] = iv
                    changed = True
                    continue
                if a is None:
                    # the cell was not read before: reloaded value differs from initial only if it was written
                    kk = single(c)
                    if kk and kk[0] == 'ld' and kk[1] == k:
                        continue
                    r.mem[k] = w
                    changed = True
                    continue
                if c is None:
                    # forgotten on the way
                    w2 = atom('loop', where, k)
                    if a == w2:
                        continue
                r.mem[k] = w
                changed = True
        # facts
        ge = set()
        for f in r.ge:
            if f in dropped:
                continue
            if f == t:
                ge.add(f)
                continue
            if self.h.loopfacts and len(f[1]) == 1 and f[1][0][1] == 1 and f[0] in (0, -1) and self.loopvar((0, f[1]), where) is not None:
                ge.add(f)
                continue
            if mentions(f, tid):
                # must hold again for the next iteration
                if not new.nonneg(subst(f, tid, (1, ((tid, 1),)))):
                    changed = True
                    continue
            elif f in old.ge and not (f in new.ge or new.nonneg(f)):
                # fact about an unchanged value no longer known
                changed = True
                continue
            ge.add(f)
        # candidates: what the first iteration established, shifted along with the induction (verified on the next arrival)
        if n == 0 and steps:
            for f in sorted((x for x in new.ge - old.ge if len(x[1]) < 3), key=repr)[:12] + sorted(x for x in new.ge & old.ge if x[0] == -1 and len(x[1]) == 1 and x[1][0][1] == 1)[:4]:
                if mentions(f, tid):
                    continue
                for d in sorted(steps)[:3]:
                    if d and old.nonneg(add(f, const(d))):
                        ge.add(add(add(f, const(d)), t, -d))
        r.ge = frozenset(ge)
        for k in list(r.vs):
            al, ex = r.vs[k]
            if k not in new.vs:
                del r.vs[k]
                changed = True
                continue
            al2, ex2 = new.vs[k]
            if al is not None:
                if al2 is None:
                    n_ = (None, ex2 - al)
                elif al2 <= al:
                    continue
                else:
                    n_ = (al | al2, frozenset())
            else:
                n_ = (None, (ex & ex2) if al2 is None else ex - al2)
            if n_ != (al, ex):
                changed = True
                if n_[0] is None and not n_[1] or n_[0] is not None and len(n_[0]) > 40:
                    del r.vs[k]
                else:
                    r.vs[k] = n_
        for k in set(old.ep) | set(new.ep):
            if old.ep.get(k) != new.ep.get(k):
                e = ('w', where)
                if old.ep.get(k) != e:
                    r.ep[k] = e
                    changed = True
        return r if changed else None

    def block(self, f, b, st, ctx, depth, stack, exits):
        """returns list of (succ block name, state)"""
        work = [(st, 0)]
        out = []
        while work:
            s, i = work.pop()
            n = len(b.ins)
            while i < n:
                ins = b.ins[i]
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise AnalysisBroken('step budget exhausted in %s' % f.name)
                op = ins.op
                if op == 'phi':
                    i += 1
                    continue
                if op == 'call':
                    res = self.call(f, ins, s, ctx, depth, stack)
                    i += 1
                    if not res:
                        s = None
                        break
                    for rv, ns in res[1:]:
                        if ins.res:
                            ns.env = dict(ns.env)
                            ns.env[ins.res] = rv if rv is not None else UNDEF
                        else:
                            ns.env = dict(ns.env)
                        work.append((ns, i))
                    rv, s = res[0]
                    s.env = dict(s.env)
                    if ins.res:
                        s.env[ins.res] = rv if rv is not None else UNDEF
                    continue
                if op == 'br':
                    if not ins.args:
                        out.append((ins.x[0], s))
                    else:
                        c = self.val(s, ins.args[0][1], ctx)
                        t = self.truth(s, c)
                        if t is None:
                            s2 = s.copy()
                            if self.assume(s, c, True):
                                self.h.on_branch(self, s, f, ins, c, True)
                                out.append((ins.x[0], s))
                            if self.assume(s2, c, False):
                                self.h.on_branch(self, s2, f, ins, c, False)
                                out.append((ins.x[1], s2))
                        else:
                            out.append((ins.x[0 if t else 1], s))
                    s = None
                    break
                if op == 'switch':
                    c = self.val(s, ins.args[0][1], ctx)
                    dflt, cases = ins.x
                    vals = s.values(c)
                    bits = ins.args[0][0].n
                    bytgt = {}
                    for k, t in cases:
                        bytgt.setdefault(t, []).append(k)
                    if vals is not None:
                        cset = {k for k, _ in cases}
                        for t, ks in bytgt.items():
                            hit = [k for k in ks if k in vals]
                            if hit:
                                s2 = s.copy()
                                self.restrict(s2, c, hit)
                                out.append((t, s2))
                        rest = [v for v in vals if v not in cset]
                        if rest:
                            s2 = s.copy()
                            self.restrict(s2, c, rest)
                            out.append((dflt, s2))
                    else:
                        s2 = s.copy()
                        ok = True
                        for k, t in cases:
                            if not s2.add_ne(c, k):
                                ok = False
                                break
                        if ok:
                            out.append((dflt, s2))
                        ex = s.excluded(c)
                        for t, ks in bytgt.items():
                            ks = [k for k in ks if k not in ex and s.eq(c, k) is not False]
                            if not ks:
                                continue
                            s2 = s.copy()
                            self.restrict(s2, c, ks)
                            if len(ks) == 1:
                                self.assume_cmp(s2, 'eq', c, const(ks[0]), True)
                            out.append((t, s2))
                    s = None
                    break
                if op == 'ret':
                    rv = self.val(s, ins.args[0][1], ctx) if ins.args else None
                    self.h.on_ret(self, s, f, ins, rv, depth)
                    exits.append((rv, s))
                    s = None
                    break
                if op == 'unreachable':
                    s = None
                    break
                forks = self.step(f, ins, s, ctx)
                i += 1
                if forks:
                    for s2 in forks:
                        work.append((s2, i))
        return out

    def restrict(self, s, c, vals):
        f, sg, k = s.norm(c)
        if f is None:
            return
        s.vs[f] = (frozenset((v - k) * sg for v in vals), frozenset())

    SCALAR = {'add', 'sub', 'mul', 'icmp', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem', 'sitofp', 'uitofp',
              'fptosi', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fcmp', 'trunc'}

    def step(self, f, ins, s, ctx):
        op = ins.op
        env = s.env
        if op in self.SCALAR:
            self.h.on_scalar(self, s, f, ins, [self.val(s, a[1], ctx) for a in ins.args])
        if op == 'load':
            a = self.val(s, ins.args[0][1], ctx)
            v = self.load(s, a, ins.ty, ins)
            r = self.h.on_load(self, s, f, ins, a, v)
            env[ins.res] = v if r is None else r
        elif op == 'store':
            v = self.val(s, ins.args[0][1], ctx)
            a = self.val(s, ins.args[1][1], ctx)
            self.h.on_store(self, s, f, ins, a, v)
            self.store(s, a, v)
        elif op == 'getelementptr':
            v = self.val(s, ins.args[0][1], ctx)
            t = ins.x
            for k, (tt, x) in enumerate(ins.args[1:]):
                xv = self.val(s, x, ctx)
                if k == 0:
                    v = add(v, scale(xv, self.m.size(t)))
                elif t.k == 'struct':
                    v = add(v, const(self.m.offset(t, x[1])))
                    t = t.e[x[1]]
                else:
                    t = t.e
                    v = add(v, scale(xv, self.m.size(t)))
            self.h.on_gep(self, s, f, ins, self.val(s, ins.args[0][1], ctx), v, t)
            env[ins.res] = v
        elif op == 'alloca':
            env[ins.res] = atom('alloca', ctx, f.name, ins.res)
            c = self.cls(s, env[ins.res])
            # fresh per activation
            for b in list(s.mem):
                if b[1] == env[ins.res][1]:
                    del s.mem[b]
            s.ep.pop(c, None)
        elif op == 'add':
            env[ins.res] = add(self.val(s, ins.args[0][1], ctx), self.val(s, ins.args[1][1], ctx))
        elif op == 'sub':
            env[ins.res] = add(self.val(s, ins.args[0][1], ctx), self.val(s, ins.args[1][1], ctx), -1)
        elif op == 'mul':
            a, b = self.val(s, ins.args[0][1], ctx), self.val(s, ins.args[1][1], ctx)
            if isconst(a):
                env[ins.res] = scale(b, a[0])
            elif isconst(b):
                env[ins.res] = scale(a, b[0])
            else:
                if b < a:
                    a, b = b, a
                env[ins.res] = atom('op', 'mul', a, b)
        elif op == 'icmp':
            a, b = self.val(s, ins.args[0][1], ctx), self.val(s, ins.args[1][1], ctx)
            r = self.cmp(s, ins.x, a, b)
            if r is None:
                # bool-ish compare with 0: reuse
                if isconst(b) and b[0] == 0 and ins.x in ('ne', 'eq'):
                    k = single(a)
                    if k and k[0] in ('cmp', 'not', 'bool'):
                        env[ins.res] = a if ins.x == 'ne' else (k[1] if k[0] == 'not' else atom('not', a))
                        return
                env[ins.res] = atom('cmp', ins.x, a, b)
            else:
                env[ins.res] = const(int(r))
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            a = self.val(s, ins.args[0][1], ctx)
            src = ins.args[0][0]
            if op == 'sext' and src.k == 'i' and src.n == 8:
                if isconst(a):
                    a = const((a[0] & 255) - 256 if a[0] & 128 else a[0] & 255)
                else:
                    vals = s.values(a)
                    if vals is not None and len(vals) == 1:
                        x = min(vals)
                        a = const((x & 255) - 256 if x & 128 else x & 255)
                    else:
                        a = self.sext8(s, a)
            elif op == 'zext' and src.k == 'i' and src.n == 8:
                if isconst(a):
                    a = const(a[0] & 255)
                else:
                    a = self.zext8(s, a)
            elif op == 'trunc' and ins.ty.n == 8 and isconst(a):
                a = const(a[0] & 255)
            elif op == 'trunc' and ins.ty.n == 1:
                if isconst(a):
                    a = const(a[0] & 1)
            elif op == 'sext' and src.n == 1:
                a = const(-a[0]) if isconst(a) else scale(a, -1)
            env[ins.res] = a
        elif op == 'select':
            c = self.val(s, ins.args[0][1], ctx)
            t = self.truth(s, c)
            a, b = self.val(s, ins.args[1][1], ctx), self.val(s, ins.args[2][1], ctx)
            if t is None:
                if a == b:
                    env[ins.res] = a
                else:
                    s2 = s.copy()
                    ok = self.assume(s, c, True)
                    ok2 = self.assume(s2, c, False)
                    if ok2:
                        s2.env[ins.res] = b
                    if ok:
                        env[ins.res] = a
                        return [s2] if ok2 else None
                    # only the false branch is possible: turn s into it
                    s.env = dict(s2.env); s.ge = s2.ge; s.vs = s2.vs
            else:
                env[ins.res] = a if t else b
        elif op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            a, b = self.val(s, ins.args[0][1], ctx), self.val(s, ins.args[1][1], ctx)
            self.h.on_arith(self, s, f, ins, a, b)
            env[ins.res] = self.binop(s, op, a, b, ins.ty)
        elif op in ('extractvalue',):
            a = self.val(s, ins.args[0][1], ctx)
            for k in ins.x:
                if isinstance(a[0], str) and a[0] == 'agg':
                    a = a[1][k]
                else:
                    a = atom('fld', a, k)
            env[ins.res] = a
        elif op == 'insertvalue':
            a = self.val(s, ins.args[0][1], ctx)
            v = self.val(s, ins.args[1][1], ctx)
            if isinstance(a[0], str) and a[0] == 'agg':
                l = list(a[1])
            else:
                l = [UNDEF] * len(ins.args[0][0].e)
            l[ins.x[0]] = v
            env[ins.res] = ('agg', tuple(l))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fcmp', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            vs = [self.val(s, a[1], ctx) for a in ins.args]
            if op == 'fcmp':
                env[ins.res] = atom('bool', 'fcmp', ins.x, *vs)
            else:
                env[ins.res] = atom('op', op, *vs)
        elif op == 'va_arg':
            env[ins.res] = atom('unk', ctx, ins.res)
        else:
            raise AnalysisBroken('ai: %s' % op)

    def sext8(self, s, a):
        return atom('op', 'sext', a)

    def zext8(self, s, a):
        return atom('op', 'zext', a)

    def binop(self, s, op, a, b, ty):
        if isconst(a) and isconst(b):
            x, y = a[0], b[0]
            n = ty.n
            mask = (1 << n) - 1

            def sg(v):
                v &= mask
                return v - (1 << n) if v >> (n - 1) and n > 1 else v
            if op in ('udiv', 'urem') and (x < 0 or y < 0):
                x, y = x & mask, y & mask
            try:
                if op == 'and':
                    return const(sg(x & y))
                if op == 'or':
                    return const(sg(x | y))
                if op == 'xor':
                    r = sg(x ^ y)
                    return const(r & 1 if n == 1 else r)
                if op == 'shl':
                    return const(sg(x << y))
                if op in ('ashr', 'lshr'):
                    return const(x >> y) if op == 'ashr' or x >= 0 else const((x & mask) >> y)
                if op in ('sdiv', 'udiv') and y:
                    q = abs(x) // abs(y)
                    return const(q if (x < 0) == (y < 0) else -q)
                if op in ('srem', 'urem') and y:
                    r = abs(x) % abs(y)
                    return const(-r if x < 0 else r)
            except (ValueError, OverflowError):
                pass
        if op == 'xor' and isconst(b) and b[0] == -1:
            return add(const(-1), a, -1)      # ~a == -1 - a
        if op == 'xor' and ty.n == 1 and isconst(b) and b[0] in (1, -1):
            return atom('not', a)
        if op == 'shl' and isconst(b) and 0 <= b[0] < 63:
            return scale(a, 1 << b[0])
        if op in ('and', 'or', 'xor', 'mul') and b < a:
            a, b = b, a
        return atom('op', op, a, b)

    # ------------------------------------------------------------ calls
    def call(self, f, ins, s, ctx, depth, stack):
        """returns list of (retval, state); empty if the call does not return"""
        self.stats['calls'] += 1
        args = [self.val(s, a[1], ctx) for a in ins.args]
        if ins.x[0] == 'g':
            name = ins.x[1]
        elif ins.x[0] == 'l':
            k = single(self.val(s, ins.x, ctx))
            name = k[1] if k and k[0] == 'glob' else None
        else:
            name = None
        r = self.h.on_call(self, s, f, ins, name, args, ctx, depth, stack)
        if r is not None:
            return r
        g = self.m.functions.get(name) if name else None
        if name and name.startswith('llvm.'):
            return self.intrinsic(f, ins, s, name, args, ctx)
        if g is not None and not g.decl and depth < self.MAXDEPTH and name not in stack and self.h.inline(self, g, depth):
            nctx = self.newctx(ctx, f, ins)
            res = self.run(g, args, s, nctx, depth + 1, stack + (name,))
            return self.h.after_call(self, f, ins, name, args, res)
        # opaque
        if name in self.m.noreturn:
            self.h.on_noreturn(self, s, f, ins, name, args)
            return []
        self.opaque(f, ins, s, name, args, ctx)
        if name in ('malloc', 'calloc', 'realloc'):
            return [(atom('malloc', ctx, f.name, ins.res), s)]
        if ins.ty.k == 'void':
            return [(None, s)]
        if ins.ty.k == 'i' and ins.ty.n == 1:
            return [(atom('bool', 'call', ctx, f.name, name, ins.res), s)]
        return [(atom('call', (ctx, f.name, ins.res), base(name)), s)]

    def newctx(self, ctx, f, ins):
        key = (ctx, f.name, ins.bb.name, ins.idx)
        c = self.ctxs.get(key)
        if c is None:
            c = len(self.ctxs) + 1
            self.ctxs[key] = c
        return c

    def opaque(self, f, ins, s, name, args, ctx):
        why = (ctx, f.name, ins.bb.name, ins.idx)
        for a in args:
            if isinstance(a[0], str):
                continue
            b = baseatom(a)
            if b is not None and A.tab[b][0] in ('alloca', 'malloc'):
                g = self.m.functions.get(name)
                if g is not None and g.decl and name in PUREREAD:
                    continue
                self.havoc(s, ('A', b), why)
        self.h.opaque_effect(self, s, f, ins, name, args, why)

    def intrinsic(self, f, ins, s, name, args, ctx):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            dst, src, n = args[:3]
            self.h.on_memcpy(self, s, f, ins, dst, src, n)
            if isconst(n) and n[0] <= 64 and n[0] % 4 == 0:
                cells = []
                # copy 16-byte objects as (i32 @0, i64 @8), others as 8-byte words
                if n[0] == 16 and self.h.objcopy(self, s, dst, src):
                    offs = [(0, Ty('i', 32)), (8, Ty('i', 64))]
                elif n[0] % 8 == 0:
                    offs = [(k, Ty('i', 64)) for k in range(0, n[0], 8)]
                else:
                    offs = [(k, Ty('i', 32)) for k in range(0, n[0], 4)]
                for o, t in offs:
                    cells.append((o, self.load(s, add(src, const(o)), t)))
                for o, v in cells:
                    self.store(s, add(dst, const(o)), v)
            else:
                c = self.cls(s, dst)
                self.havoc(s, c if c[0] in ('A', 'G') else c, (ctx, f.name, ins.bb.name, ins.idx))
        elif name.startswith('llvm.memset'):
            c = self.cls(s, args[0])
            self.havoc(s, c, (ctx, f.name, ins.bb.name, ins.idx))
        if ins.ty.k == 'void':
            return [(None, s)]
        return [(atom('op', name, *args), s)]


PUREREAD = {'printf', 'fprintf', 'strlen', 'strcmp', 'memcmp', 'strncmp', 'fwrite', 'puts', 'pow', 'free'}


def base(name):
    """source name of a linked function (llvm-link renames clashing statics to name.N)"""
    if name is None:
        return None
    i = name.find('.')
    return name[:i] if i > 0 and name[i + 1:].isdigit() else name


class Hooks:
    """default behaviour; checks subclass it"""
    def classify(self, e, s, a): return None
    def initval(self, e, s, a, ty, c): return None
    def mayalias(self, e, s, a, b, d, c): return True
    def mergekey(self, e, s): return tuple(sorted(s.p.items(), key=repr))
    def joinkey(self, e, s): return self.mergekey(e, s)
    def partkey(self, e, s): return None
    loopfacts = False       # keep equalities and signs of the variables a loop changes
    def loopkey(self, e, s, f, b): return None
    def on_call(self, e, s, f, ins, name, args, ctx, depth, stack): return None
    def after_call(self, e, f, ins, name, args, res): return res
    def on_noreturn(self, e, s, f, ins, name, args): pass
    def on_load(self, e, s, f, ins, a, v): return None
    def on_store(self, e, s, f, ins, a, v): pass
    def on_gep(self, e, s, f, ins, base, res, t): pass
    def on_scalar(self, e, s, f, ins, vals): pass
    def on_memcpy(self, e, s, f, ins, dst, src, n): pass
    def objcopy(self, e, s, dst, src): return True
    def on_arith(self, e, s, f, ins, a, b): pass
    def on_branch(self, e, s, f, ins, c, t): pass
    def on_eq(self, e, s, a, b): pass
    def on_ret(self, e, s, f, ins, rv, depth): pass
    def inline(self, e, g, depth): return True
    def opaque_effect(self, e, s, f, ins, name, args, why): pass
