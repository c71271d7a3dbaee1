"""Reference counts: every owner of a value is counted, and a value is not used once its last owner has let go of it (M06)."""
import cvm, instr
from ai import *
from ir import AnalysisBroken
from instr import Bench, where

BORROWED = ('const', 'ld', 'fld', 'objv', 'objt', 'loop')      # values held by a container, the constants, ...


class Owners:
    """who owns what in a state of the machine"""
    def __init__(self, m, h):
        self.m, self.h = m, h
        self.types = {}
        self.prims = {m.enum(x) for x in ('Y_END', 'Y_UNDEF', 'Y_BOOL', 'Y_INT', 'Y_FLOAT', 'Y_FN', 'Y_USERPTR')}

    def counted(self, s, v):
        t, x = v
        if isinstance(t[0], str) or isinstance(x[0], str):
            return False
        vs = s.values(t)
        if vs is not None and vs <= self.prims:
            return False
        return not isconst(x)

    def cells(self, e, s, nslots, nloops):
        h, m = self.h, self.m
        for i in range(nslots):
            yield h.slot(i)
        for i in range(nloops):
            yield h.loop(i, 'iterable')
        cl, lo = m.field('Upvalue', 'closed'), m.field('Upvalue', 'location')
        for a, v in list(s.mem.items()):
            if isinstance(v[0], str):
                continue
            u = add(a, const(-lo))
            if v == add(u, const(cl)) and u[1]:
                yield v
            b = cvm.objbase(a)
            k = A.tab[b] if b is not None else None
            if k and k[0] == 'obj' and k[1] in ('items', 'litems') and a[0] % 16 == 0:
                yield a

    def tally(self, e, s, nslots, nloops):
        n = {}
        for a in set(self.cells(e, s, nslots, nloops)):
            v = self.h.obj(e, s, a)
            if self.counted(s, v):
                self.types.setdefault(v[1], set()).add(v[0])
                n[v[1]] = n.get(v[1], 0) + 1
        return n


class Counting:
    """mixed into the hooks of a case: keeps the balance of counts along each path"""
    def begin(self, e, s, nslots, nloops):
        self.own = Owners(self.m, self)
        self.refs = True
        self.nslots = nslots
        self.before = self.own.tally(e, s, nslots, nloops)

    def start(self, x):
        k = single(x)
        return self.before.get(x, 0) or (1 if k and k[0] in BORROWED else 0)

    def bump(self, e, s, v, d, ins):
        x = v[1]
        if not self.own.counted(s, v) and x not in dict(s.p.get('rc', ())):
            return
        self.own.types.setdefault(x, set()).add(v[0])
        rc = dict(s.p.get('rc', ()))
        if d > 0 and x in s.p.get('dead', ()):
            self.problems.append(('takes a reference to a value whose last owner has let go of it', self.m.loc(ins) if ins is not None else ''))
        rc[x] = rc.get(x, 0) + d
        if d < 0 and self.start(x) + rc[x] <= 0:
            if self.start(x) + rc[x] < 0:
                self.problems.append(('lets go of a value it does not own', self.m.loc(ins) if ins is not None else ''))
            s.p['dead'] = s.p.get('dead', frozenset()) | {x}
        if not rc[x]:
            del rc[x]
        s.p['rc'] = tuple(sorted(rc.items()))

    def count(self, e, s, p, d, ins):
        self.bump(e, s, self.obj(e, s, p), d, ins)

    def replace(self, e, s, a, v, ins):
        """a callee puts v where another value was"""
        self.bump(e, s, v, 1, None)
        self.bump(e, s, self.obj(e, s, a), -1, ins)

    def clobber(self, e, s):
        """whoever was called has used the stack above what it left"""
        sp = self.get(e, s, 'sp')
        if isconst(sp) and 'run' in s.p:
            for i in range(sp[0] + 1, self.nslots):
                self.put(s, self.slot(i), (const(self.m.enum('Y_UNDEF')), ZERO))

    def model_call(self, e, s, ins, b):
        r = super().model_call(e, s, ins, b)
        for rv, st in r:
            self.clobber(e, st)
        return r

    def opaque_effect(self, e, s, f, ins, name, args, why):
        super().opaque_effect(e, s, f, ins, name, args, why)
        if base(name) == 'vm_stringify_top':
            self.clobber(e, s)

    def put(self, s, a, v):
        if getattr(self, 'own', None) is not None and 'run' in s.p:
            self.replace(self.engine, s, a, v, None)
        super().put(s, a, v)

    def fresh(self, e, s, ins, b, args):
        # a new object: nobody owns it yet; what it does with its metatable is checked by itself
        if b == 'ud_setmt':
            for v in args:
                self.use(s, v, ins, 'changes')
            return [(None, s)]
        n = s.p.get('heap', 0)
        s.p['heap'] = n + 1
        u = atom('heap', n)
        s.mem[add(u, const(self.m.field('RC_UserData', 'data')))] = atom('heap', n, 'data')
        s.mem[add(u, const(self.m.field('RC_UserData', 'mt')))] = ZERO
        return [(u, s)]

    def on_load(self, e, s, f, ins, a, v):
        self.use(s, a, ins, 'reads')
        return super().on_load(e, s, f, ins, a, v)

    def use(self, s, a, ins, how):
        dead = s.p.get('dead')
        if dead and a[1] and any((0, ((t, 1),)) in dead for t, c in a[1]):
            self.problems.append(('%s a value whose last owner has let go of it' % how, self.m.loc(ins)))

    def on_store(self, e, s, f, ins, a, v):
        self.use(s, a, ins, 'changes')
        return super().on_store(e, s, f, ins, a, v)

    def on_call(self, e, s, f, ins, name, args, ctx, depth, stack):
        b = base(name)
        if b in ('rcls_new', 'rcls_new_sized', 'rcht_new', 'rcht_new_sized', 'ud_new', 'ud_setmt'):
            r = self.fresh(e, s, ins, b, args)
            if r is not None:
                return r
        if b not in ('dec_ref', 'inc_ref', 'free') and not (name or '').startswith('llvm.'):
            for v in args:
                if not isinstance(v[0], str):
                    self.use(s, v, ins, 'passes on (to %s)' % b)
        r = super().on_call(e, s, f, ins, name, args, ctx, depth, stack)
        if name is None and self.VM in args:
            for rv, st in r or ():
                self.clobber(e, st)
        return r


class RBench(Bench):
    """the shapes of the instruction checks, looked at for reference counts"""
    after = None

    def run(self, name, label, operands, L, T, expect, types=None, setup=None, cls=instr.HI, refs=False, check=None, noreturn=False, fp=instr.FP, fnum=1, lnum=0, mayfail=False):
        m = self.m
        if cls not in self.classes:
            self.classes[cls] = type('R' + cls.__name__, (Counting, cls), {})
        h = self.classes[cls](m)
        e = h.engine = Engine(m, h)
        sp = fp + L + T
        s = h.state(fp, sp, types or {}, fnum, lnum)
        opc = m.enum(name)
        end = h.code(s, opc, *operands)
        if setup:
            setup(h, s)
        if expect:
            expect(h.stack(e, s), h, s, end)
        nslots = max(cvm.NSTACK, sp + 8)
        s0 = s.copy()
        h.begin(e, s, nslots, lnum + 1)
        s.p['run'] = True
        try:
            res = e.run(m.fn('vm_executenext'), [h.VM], s)
        except AnalysisBroken as x:
            raise AnalysisBroken('%s (%s): %s' % (name, label, x))
        self.steps += e.steps
        self.n += 1
        loc = where(m, opc)
        for p, l in h.problems:
            if 'owner' in p or 'own' in p:
                self.rep.bad('uses', '%s: %s' % (name, p), l or loc, '%s %s, with %s' % (name, p, label))
        if not h.problems:
            self.rep.ok('uses', '%s with %s' % (name, label))
        if self.after:
            for rv, st in res:
                self.after(h, e, s0, st, label, loc)
        for st, err in [(st, False) for rv, st in res] + [(x[3], True) for x in h.errors]:
            self.paths += 1
            ln = h.get(e, st, 'loopframe_num')
            if not isconst(ln):
                continue
            after = h.own.tally(e, st, nslots, ln[0] + 1)
            rc = dict(st.p.get('rc', ()))
            for x in set(after) | set(h.before) | set(rc):
                d = after.get(x, 0) - h.before.get(x, 0)
                n = rc.get(x, 0)
                if any(self.held(h, st, x)):
                    continue
                rule = 'safe' if n < d else 'leaks'
                if n < d or (n > d and not err):
                    self.rep.bad(rule, '%s: %s' % (name, 'owner without a count' if n < d else 'count without an owner'), loc,
                                 '%s with %s%s leaves %s with %+d owners and %+d counted references' % (name, label, ' (failing)' if err else '', show(x), d, n))
                else:
                    self.rep.ok('safe', name)
                    if not err:
                        self.rep.ok('leaks', '%s with %s: %s' % (name, label, show(x)))
        return h, e, s0, res

    def held(self, h, st, x):
        # values that need no counting on this path
        for t in h.own.types.get(x, ()):
            vs = st.values(t)
            if vs is not None and vs <= h.own.prims:
                yield True

    def check(self, *a):
        pass


def bench(m, rep):
    B = RBench(m, rep, 'refs')
    B.classes = {}
    B.paths = 0
    return B


# ------------------------------------------------------------------ counting itself
class HF(cvm.CVM):
    """records what is freed, destroyed and let go of"""
    def __init__(self, m):
        super().__init__(m)
        self.refs = True

    def event(self, s, *x):
        s.p['events'] = s.p.get('events', ()) + (x,)

    def count(self, e, s, p, d, ins):
        self.event(s, 'inc' if d > 0 else 'dec', self.obj(e, s, p))

    def inline(self, e, g, depth):
        return not g.name.startswith('YASL_') or self.m.fnloc(g).startswith('data-structures/YASL_String')

    def on_call(self, e, s, f, ins, name, args, ctx, depth, stack):
        if name is None:
            self.event(s, 'call', tuple(args))
            return [(None, s)]
        if name == 'free':
            self.event(s, 'free', args[0])
            return [(None, s)]
        return super().on_call(e, s, f, ins, name, args, ctx, depth, stack)


STRONG = {'Y_STR': 'YASL_String', 'Y_LIST': 'RC_UserData', 'Y_TABLE': 'RC_UserData', 'Y_USERDATA': 'RC_UserData', 'Y_CFN': 'CFunction', 'Y_CLOSURE': 'Closure'}
WEAK = {'Y_STR_W': 'YASL_String', 'Y_LIST_W': 'RC_UserData', 'Y_TABLE_W': 'RC_UserData'}
PLAIN = ('Y_END', 'Y_UNDEF', 'Y_BOOL', 'Y_INT', 'Y_FLOAT', 'Y_FN', 'Y_USERPTR')


def counting(m, rep):
    rep.rule('counting: inc_ref and dec_ref change the count of exactly the object given by exactly one, whatever its type; the last reference to go frees what the object '
             'holds once, and the object itself unless weak references are left')
    cell, p = atom('obj', 'cell'), atom('obj', 'p')
    R = m.field('RC', 'refs'), m.field('RC', 'weak_refs')

    def prepare(T, refs, weak, extra=()):
        h = HF(m)
        e = Engine(m, h)
        s = State()
        h.put(s, cell, (const(m.enum(T)), p))
        st = {**STRONG, **WEAK}.get(T)
        if st:
            rc = m.field(st, 'rc')
            s.mem[add(p, const(rc + R[0]))] = refs
            s.mem[add(p, const(rc + R[1]))] = weak
        for n, v in extra:
            s.mem[add(p, const(m.field(st, n)))] = v
        return h, e, s

    def verdict(fn, label, h, e, s, refs, weak, events, T):
        st = {**STRONG, **WEAK}.get(T)
        loc = m.fnloc(m.fn(fn))
        before = dict(s.mem)
        res = e.run(m.fn(fn), [cell], s)
        if not res:
            rep.bad('counting', '%s: %s' % (fn, T), loc, '%s of %s does not come back' % (fn, label))
        for rv, t in res:
            bad = []
            if st and not any(x[0] == 'free' and x[1] == p for x in t.p.get('events', ())):
                rc = m.field(st, 'rc')
                for o, w, n in ((R[0], refs, 'references'), (R[1], weak, 'weak references')):
                    v = e.load(t, add(p, const(rc + o)), None)
                    if v != w:
                        bad.append('leaves %s as %s, expected %s' % (n, show(v), show(w)))
            ev = t.p.get('events', ())
            if list(ev) != events:
                bad.append('does %s, expected %s' % ([showev(x) for x in ev], [showev(x) for x in events]))
            if bad:
                rep.bad('counting', '%s: %s' % (fn, T), loc, '%s of %s %s' % (fn, label, '; '.join(bad)))
            else:
                rep.ok('counting', '%s of %s' % (fn, label))
    n, k = atom('refs'), atom('weak')
    for T in PLAIN:
        for fn in ('inc_ref', 'dec_ref'):
            h, e, s = prepare(T, None, None)
            verdict(fn, T, h, e, s, None, None, [], T)
    for T in STRONG:
        h, e, s = prepare(T, n, k)
        verdict('inc_ref', T, h, e, s, add(n, const(1)), k, [], T)
    for T in WEAK:
        h, e, s = prepare(T, n, k)
        verdict('inc_ref', T, h, e, s, n, add(k, const(1)), [], T)
        for r in (0, 1, 3):
            for w in (1, 2):
                h, e, s = prepare(T, const(r), const(w))
                verdict('dec_ref', '%s with %d references and %d weak ones' % (T, r, w), h, e, s, const(r), const(w - 1), [('free', p)] if not r and w == 1 else [], T)
    for T in STRONG:
        for r in (1, 2, 5):
            for w in (0, 2):
                extras = [((), [])]
                if T == 'Y_STR':
                    extras = [((('on_heap', const(b)), ('str', atom('chars'))), [('free', atom('chars'))] if b else []) for b in (0, 1)]
                elif STRONG[T] == 'RC_UserData':
                    D, M, X = atom('dtor'), atom('obj', 'mt'), atom('data')
                    extras = [((('destructor', d), ('mt', t), ('data', X)), ([('dec', (const(m.enum('Y_TABLE')), t))] if t != ZERO else []) + ([('call', (X,))] if d != ZERO else []))
                              for d in (ZERO, D) for t in (ZERO, M)]
                elif T == 'Y_CLOSURE':
                    extras = [((('num_upvalues', ZERO),), [])]
                for x, ev in extras:
                    h, e, s = prepare(T, const(r), const(w), x)
                    s.ge = s.ge | {add(v, const(-1)) for n_, v in x if not isconst(v)}
                    ev = ev + ([('free', p)] if not w else []) if r == 1 else []
                    verdict('dec_ref', '%s with %d references and %d weak ones%s' % (T, r, w, ''.join(', %s %s' % (n_, show(v)) for n_, v in x)), h, e, s, const(r - 1), const(w), ev, T)
    # what a closure holds
    U = lambda u, n_: add(u, const(m.field('Upvalue', n_)))
    import itertools
    for kinds in [()] + [x for l in (1, 2) for x in itertools.product([(o, c) for o in (0, 1) for c in (1, 2)], repeat=l)]:
        h, e, s = prepare('Y_CLOSURE', const(1), ZERO, (('num_upvalues', const(len(kinds))),))
        ev = []
        for i, (open_, c) in enumerate(kinds):
            u = atom('obj', 'up', i)
            s.mem[add(p, const(m.field('Closure', 'upvalues') + 8 * i))] = u
            s.mem[U(u, 'rc')] = const(c)
            s.mem[U(u, 'location')] = atom('obj', 'slot', i) if open_ else U(u, 'closed')
            h.put(s, U(u, 'closed'), (atom('t', i), atom('v', i)))
            if open_:
                s.add_ne(add(atom('obj', 'slot', i), U(u, 'closed'), -1), 0)
            if c == 1 and not open_:
                ev += [('dec', (atom('t', i), atom('v', i))), ('free', u)]
        lab = 'a closure with %s' % (['%s variable captured %d times' % ('open' if o else 'closed', c) for o, c in kinds] or 'nothing captured')
        verdict('dec_ref', lab, h, e, s, ZERO, ZERO, ev + [('free', p)], 'Y_CLOSURE')
    # leaving the scope of captured variables
    for counts in [x for l in (1, 2, 3) for x in itertools.product((0, 1), repeat=l)]:
        h = HF(m)
        e = Engine(m, h)
        s = h.state(2, 8)
        ups = [atom('obj', 'up', i) for i in range(len(counts))]
        ev = []
        for i, (u, c) in enumerate(zip(ups, counts)):
            s.mem[U(u, 'rc')] = const(c)
            s.mem[U(u, 'location')] = h.slot(8 - i)
            s.mem[U(u, 'next')] = ups[i + 1] if i + 1 < len(ups) else ZERO
            ev.append(('inc', h.obj(e, s, h.slot(8 - i))) if c else ('free', u))
        s.mem[h.vm('pending')] = ups[0]
        loc = m.fnloc(m.fn('vm_close_all'))
        for rv, t in e.run(m.fn('vm_close_all'), [h.VM], s):
            got = list(t.p.get('events', ()))
            cl = [e.load(t, U(u, 'location'), None) == U(u, 'closed') and h.obj(e, t, U(u, 'closed')) == h.obj(e, t, h.slot(8 - i)) for i, (u, c) in enumerate(zip(ups, counts)) if c]
            if sorted(map(repr, got)) != sorted(map(repr, ev)) or not all(cl) or h.get(e, t, 'pending') != ZERO:
                rep.bad('counting', 'vm_close_all', loc, 'leaving the scope of variables captured by %s closures does %s, expected %s' % (list(counts), [showev(x) for x in got], [showev(x) for x in ev]))
            else:
                rep.ok('counting', 'leaving the scope of variables captured by %s closures' % list(counts))
    # metatables
    for fn in ('ud_setmt', 'ud_new'):
        for old in (ZERO, atom('obj', 'oldmt')):
            for new in (ZERO, atom('obj', 'mt')):
                h = HF(m)
                e = Engine(m, h)
                s = State()
                M = add(new, const(m.field('RC_UserData', 'rc') + R[0]))
                if new != ZERO:
                    s.mem[M] = n
                s.mem[add(p, const(m.field('RC_UserData', 'mt')))] = old
                if fn == 'ud_new' and old != ZERO:
                    continue
                loc = m.fnloc(m.fn(fn))
                args = [p, new] if fn == 'ud_setmt' else [atom('data'), atom('tag'), new, atom('dtor')]
                for rv, t in e.run(m.fn(fn), args, s):
                    u = p if fn == 'ud_setmt' else rv
                    ok = e.load(t, add(u, const(m.field('RC_UserData', 'mt'))), None) == new
                    ok = ok and (new == ZERO or e.load(t, M, None) == add(n, const(1)))
                    ok = ok and list(t.p.get('events', ())) == ([('dec', (const(m.enum('Y_TABLE')), old))] if old != ZERO else [])
                    if fn == 'ud_new':
                        for o in R:
                            ok = ok and e.load(t, add(u, const(m.field('RC_UserData', 'rc') + o)), None) == ZERO
                    if ok:
                        rep.ok('counting', '%s with metatable %s, before %s' % (fn, show(new), show(old)))
                    else:
                        rep.bad('counting', fn, loc, '%s with metatable %s (before: %s) does not count the reference it takes and the one it gives up: %s' % (
                            fn, show(new), show(old), [showev(x) for x in t.p.get('events', ())]))
    rep.floor('counting', 100)


def showev(x):
    return x[0] + ' ' + ' '.join(show(y) if isinstance(y[0], int) else '(%s)' % ', '.join(show(z) for z in y) for y in x[1:])


def upvalue_counts(B):
    """every closure that holds a captured variable is counted by it"""
    m = B.m
    F = lambda n: m.field('Closure', n)

    def check(h, e, s0, st, label, loc):
        c = [v[1] for v in h.stack(e, st)][-1]
        n = e.load(st, add(c, const(F('num_upvalues'))), None)
        if not isconst(n):
            return
        ups = [e.load(st, add(c, const(F('upvalues') + 8 * i)), None) for i in range(n[0])]
        for u in set(ups):
            fresh = single(u) and single(u)[0] == 'heap'
            was = ZERO if fresh else e.load(s0, add(u, const(m.field('Upvalue', 'rc'))), None)
            now = e.load(st, add(u, const(m.field('Upvalue', 'rc'))), None)
            if now == add(was, const(ups.count(u))):
                B.rep.ok('safe', label)
            else:
                B.rep.bad('safe', 'O_CCONST: captured variable', loc, 'O_CCONST (%s) makes a closure hold a captured variable %d times and counts it as %s, before %s' % (label, ups.count(u), show(now), show(was)))
        if e.load(st, add(c, const(m.field('Closure', 'rc'))), None) != ZERO:
            B.rep.bad('safe', 'O_CCONST: closure', loc, 'a new closure does not start without references')
    B.after = check
    instr.captures(B)
    B.after = None


def check_M06(m, rep):
    rep.rule('safe: on every stack shape listed an instruction counts every owner it adds: no value ends up with more owners (stack slots, also those above the top, loops, captured '
             'variables, containers) than counted references')
    rep.rule('leaks: and it stops counting every owner it takes away')
    rep.rule('uses: a value is not used after its last known owner has let go of it')
    counting(m, rep)
    B = bench(m, rep)
    upvalue_counts(B)
    instr.simple_instructions(B)
    instr.loops(B)
    instr.collections(B)
    instr.calls(B)
    instr.matching(B, lambda p: 'P_BIND' in str(p) and len(str(p)) < 120)
    rep.cov['shapes'] = B.n
    rep.cov['steps'] = B.steps
    rep.cov['paths'] = B.paths
    for r in ('safe', 'leaks', 'uses'):
        rep.floor(r, 1500)
