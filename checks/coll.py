"""Containers: what lists, tables and sets hold after every operation (C01..C03)."""
import itertools
import nvm, cvm
from ai import *
from ir import AnalysisBroken
from nvm import NVM, Table, Set, Lst

FP = 2
ONE = const(1)


class HN(NVM):
    pass


class CBench:
    MAXSTEPS = 40000

    def __init__(self, m, rep, rule, mem):
        self.m, self.rep, self.rule, self.mem = m, rep, rule, mem
        self.n = self.steps = 0
        self.endless = set()

    def T(self, n):
        return const(self.m.enum(n))

    def ok(self, cond, key, loc, msg, label):
        if cond:
            self.rep.ok(self.rule, key + ': ' + label)
        else:
            self.rep.bad(self.rule, key, loc, msg)

    def begin(self, sp=FP):
        h = HN(self.m)
        e = h.engine = Engine(self.m, h)
        s = h.state(FP, sp, {i: 'Y_UNDEF' for i in range(cvm.NSTACK)})
        for i in range(cvm.NSTACK):
            h.put(s, h.slot(i), (self.T('Y_UNDEF'), ZERO))
        return h, e, s

    def key(self, h, i, T='Y_INT', cls=None):
        a = atom('obj', 'k', i)
        h.cls[a] = ('key', i) if cls is None else cls
        return (self.T(T), a)

    def val(self, i, T='Y_STR'):
        return (self.T(T), atom('obj', 'v', i))

    def run(self, fn, label, h, e, s, args, expect_none=False):
        """[(rv, state)]; memory and counting problems are reported"""
        m = self.m
        h.before = h.owners(e, s)
        self.n += 1
        f = m.fn(fn)
        if fn in self.endless:
            return []
        e.maxsteps = self.MAXSTEPS
        try:
            res = e.run(f, args, s)
        except AnalysisBroken as x:
            if e.steps >= e.maxsteps:
                # a few dozen elements and characters: it runs in circles
                self.endless.add(fn)
                self.rep.bad(self.rule, fn + ' ends', m.fnloc(f), '%s does not end within %d steps (%s)' % (fn, e.maxsteps, label))
                return []
            raise AnalysisBroken('%s (%s): %s' % (fn, label, x))
        self.steps += e.steps
        loc = m.fnloc(f)
        for p, l in h.problems:
            self.rep.bad(self.mem, '%s: %s' % (fn, p), l or loc, '%s %s: %s' % (fn, p, label))
        if not h.problems:
            self.rep.ok(self.mem, '%s: %s' % (fn, label))
        return res

    def balance(self, fn, label, h, e, st, err=False, gone=()):
        after = h.owners(e, st)
        rc = dict(st.p.get('rc', ()))
        loc = self.m.fnloc(self.m.fn(fn))
        for x in set(after) | set(h.before) | set(rc):
            d, n = after.get(x, 0) - h.before.get(x, 0), rc.get(x, 0)
            if n < d:
                self.rep.bad(self.mem, '%s: owner without a count' % fn, loc, '%s leaves %s with %+d owners and %+d counted references (%s)' % (fn, show(x), d, n, label))
            elif n > d and not err and x not in gone:
                self.rep.bad(self.mem, '%s: count without an owner' % fn, loc, '%s leaves %s with %+d owners and %+d counted references (%s)' % (fn, show(x), d, n, label))
            else:
                self.rep.ok(self.mem, fn)

    # -------------------------------------------------- tables
    def wf(self, fn, label, h, e, st, d, kind, real):
        """the representation is in order; returns the slots"""
        m = self.m
        loc = m.fnloc(m.fn(fn))
        sn = 'YASL_Table' if kind == 'Y_TABLE' else 'YASL_Set'
        sl = h.read(e, st, d, kind)
        if sl is None:
            self.ok(False, fn + ' size', loc, '%s leaves a table of unknown size (%s)' % (fn, label), label)
            return []
        g = {n: e.load(st, add(d, const(m.field(sn, n))), None) for n in ('size', 'count', 'tombstones')}
        it = e.load(st, add(d, const(m.field(sn, 'items'))), None)
        full = sum(isinstance(x, tuple) for x in sl)
        dead = sum(x == 'x' for x in sl)
        self.ok(g['count'] == const(full), fn + ' count', loc, '%s leaves count %s in a table with %d entries (%s)' % (fn, show(g['count']), full, label), label)
        self.ok(isconst(g['tombstones']) and g['tombstones'][0] >= dead, fn + ' removed slots', loc,
                '%s counts %s removed slots where there are %d (%s)' % (fn, show(g['tombstones']), dead, label), label)
        if real:
            self.ok(full + dead < len(sl), fn + ' free slot', loc, '%s leaves no free slot: searching for an absent key never ends (%s)' % (fn, label), label)
        size = dict(st.p.get('sizes', ())).get(cvm.objbase(it), h.sizes.get(it))
        w = 32 if kind == 'Y_TABLE' else 16
        self.ok(size == w * len(sl), fn + ' capacity', loc, '%s leaves %d slots in a block of %s bytes (%s)' % (fn, len(sl), size, label), label)
        n = len(sl)
        for i, x in enumerate(sl):
            if not isinstance(x, tuple):
                continue
            k = x[0] if kind == 'Y_TABLE' else x
            for j in range(n):
                p = h.hash(k, n, j)
                if p == i:
                    break
                if sl[p] is None:
                    j = n
                    break
            else:
                j = n
            self.ok(j < n, fn + ' reachable', loc, '%s leaves a key where looking it up does not find it (%s)' % (fn, label), label)
        return sl


def shapes(n):
    """slots of a table of n slots in the order in which the key operated on is looked for: '.' free, 'x' removed, 'o' another key, 'K' that key; at least one free, K before it"""
    for w in itertools.product('.xoK', repeat=n):
        if w.count('K') > 1 or '.' not in w:
            continue
        if 'K' in w and '.' in w[:w.index('K')]:
            continue
        yield ''.join(w)


def entries(sl, kind):
    return sorted([x for x in sl if isinstance(x, tuple)], key=repr)


def build(B, h, word, kind, KT='Y_INT', base=120):
    K = B.key(h, 'K', KT)
    h.hashes[h.key(K)] = (0, 1)
    sl = []
    for i, c in enumerate(word):
        if c in '.x':
            sl.append({'.': None, 'x': 'x'}[c])
            continue
        k = (K[0], atom('obj', 'k', 'K2') if KT == 'Y_STR' else K[1]) if c == 'K' else B.key(h, i, 'Y_STR' if i % 2 else 'Y_FLOAT' if i == 2 else 'Y_INT')
        if c == 'K':
            h.cls[k[1]] = h.cls[K[1]]
        else:
            if i == 2:
                # an equal number of another type: another key
                h.cls[k[1]] = h.cls[K[1]]
            h.hashes[h.key(k)] = (i, 1)
        sl.append((k, B.val(i)) if kind == 'Y_TABLE' else k)
    return K, (Table if kind == 'Y_TABLE' else Set)(sl, base)


def tables(B):
    m = B.m
    for kind, P in (('Y_TABLE', 'YASL_Table_'), ('Y_USERDATA', 'YASL_Set_')):
        tab = kind == 'Y_TABLE'
        for word in shapes(4):
            for op in ('search', 'insert', 'rm') + (('insert_undef',) if tab else ()):
                for KT in ('Y_INT', 'Y_STR'):
                    table_op(B, kind, P, word, op, KT, 120 if op != 'insert' else 30)
        # the sizes tables really have
        for full in range(0, 31):
            for dead in {0, (30 - full) // 2, max(0, 22 - full), max(0, 23 - full), 30 - full}:
                if full + dead < 31:
                    table_op(B, kind, P, 'o' * full + 'x' * dead + '.' * (31 - full - dead), 'insert', 'Y_STR', 30)
        for full in range(0, 8):
            table_op(B, kind, P, 'o' * full + 'x' * 5 + '.' * (61 - full - 5), 'rm', 'Y_STR', 60)
            if full:
                table_op(B, kind, P, 'K' + 'o' * (full - 1) + 'x' * 5 + '.' * (61 - full - 5), 'rm', 'Y_STR', 60)
        for KT in ('Y_LIST', 'Y_TABLE', 'Y_USERDATA', 'Y_FN', 'Y_CFN', 'Y_CLOSURE', 'Y_UNDEF'):
            for op in ('search', 'insert', 'rm'):
                if tab or op != 'search':
                    table_op(B, kind, P, 'ox.', op, KT, 30, hashable=False)
        for KT in ('Y_BOOL', 'Y_INT', 'Y_FLOAT', 'Y_STR', 'Y_USERPTR'):
            for op in ('search', 'insert', 'rm'):
                for word in ('...', 'K..', 'xK.'):
                    table_op(B, kind, P, word, op, KT, 30)


def table_op(B, kind, P, word, op, KT, base, hashable=True):
    m = B.m
    tab = kind == 'Y_TABLE'
    h, e, s = B.begin()
    K, c = build(B, h, word, kind, KT, base)
    if KT == 'Y_UNDEF':
        K = (B.T(KT), ZERO)
    (_, _), d = h.place(e, s, 'T', c, wrap=False)
    new = B.val('new')
    if op == 'insert_undef':
        new = (B.T('Y_UNDEF'), ZERO)
    # the key and the value are held by whoever calls
    h.put(s, h.slot(0), K)
    h.put(s, h.slot(1), new)
    fn = P + op.split('_')[0]
    args = [d] + list(K)
    if op.startswith('insert') and tab:
        args += list(new)
    label = '%s of a key of type %s in %s' % (op, KT, word)
    res = B.run(fn, label, h, e, s, args)
    loc = m.fnloc(m.fn(fn))
    B.ok(bool(res), fn + ' ends', loc, '%s does not come back (%s)' % (fn, label), label)
    old = [x for x in c.slots if isinstance(x, tuple)]
    mine = [x for i, x in enumerate(c.slots) if word[i] == 'K']
    others = [x for i, x in enumerate(c.slots) if isinstance(x, tuple) and word[i] != 'K']
    for rv, st in res:
        real = len(word) >= 31
        sl = B.wf(fn, label, h, e, st, d, kind, real)
        got = entries(sl, kind)
        if not hashable:
            want = sorted(old, key=repr)
            if op == 'insert':
                B.ok(rv == ZERO, fn + ' rejects', loc, '%s accepts a key of type %s' % (fn, KT), label)
        elif op == 'search':
            want = sorted(old, key=repr)
            if tab:
                v = rv[1] if rv and rv[0] == 'agg' else None
                w = mine[0][1] if mine else None
                B.ok(v is not None and (v[0] == B.T('Y_END') if w is None else tuple(v) == w), fn + ' result', loc,
                     '%s yields %s, expected %s (%s)' % (fn, v and [show(x) for x in v], w and [show(x) for x in w], label), label)
            else:
                B.ok(rv == const(int(bool(mine))), fn + ' result', loc, '%s yields %s, expected %d (%s)' % (fn, show(rv), bool(mine), label), label)
        elif op == 'insert':
            if tab:
                want = sorted(others + [(K, new)], key=repr)
                alt = sorted(others + [(x[0], new) for x in mine], key=repr) if mine else want
            else:
                want = sorted(others + [K], key=repr)
                alt = sorted(old, key=repr) if mine else want
            B.ok(rv == ONE, fn + ' accepts', loc, '%s rejects a key of type %s' % (fn, KT), label)
            if got == alt:
                want = alt
        else:
            want = sorted(others, key=repr)
            if op == 'insert_undef':
                B.ok(rv == ONE, fn + ' accepts', loc, '%s rejects the value undef' % fn, label)
        B.ok(got == want, fn + ' contents', loc, '%s leaves %s, expected %s (%s)' % (fn, showc(got), showc(want), label), label)
        B.balance(fn, label, h, e, st)


def showc(c):
    f = lambda v: show(v[1])
    return [': '.join(f(y) for y in x) if isinstance(x[0][0], tuple) else f(x) for x in c]


def check_C01(m, rep):
    rep.rule('contents: after an operation a table or set holds exactly what it should, on every arrangement of free, removed and occupied slots, and everything in it is found')
    rep.rule('memory: and it stays within its memory blocks, frees each once, and counts every reference it takes or gives up')
    B = CBench(m, rep, 'contents', 'memory')
    tables(B)
    tablefns(B)
    setfns(B)
    constructors(B)
    api(B)
    rep.cov['cases'] = B.n
    rep.cov['steps'] = B.steps
    rep.floor('contents', 1000)
    rep.floor('memory', 1000)


# ------------------------------------------------------------------ library functions
SETMT = atom('obj', 'mt', 'collections.set')


class Fresh:
    def __init__(self, kind, items, mt=True):
        self.kind, self.items, self.mt = kind, items, mt


class Err:
    def __init__(self, *codes):
        self.codes = codes


def native(B, fn, label, build, expect, arity=None):
    """build(h, e, s) -> arguments; expect(args, h) -> Err or (results or None, {container: contents})"""
    m = B.m
    h, e, s = B.begin()
    args = build(h, e, s)
    h.put(s, h.slot(FP), (B.T('Y_CFN'), atom('obj', 'fn')))
    s.mem[add(atom('obj', 'fn'), const(m.field('CFunction', 'num_args')))] = const(len(args) if arity is None else arity)
    for i, a in enumerate(args):
        h.put(s, h.slot(FP + 1 + i), a)
    s.mem[h.vm('sp')] = const(FP + len(args))
    for i, k in enumerate(('Y_LIST', 'Y_TABLE')):
        s.mem[h.vm('builtins_htable')] = atom('obj', 'builtins')
        s.mem[add(atom('obj', 'builtins'), const(8 * m.enum(k)))] = atom('obj', 'mt', k)
    want = expect(args, h)
    res = B.run(fn, label, h, e, s, [h.VM])
    loc = m.fnloc(m.fn(fn))
    for b, code, l, st in h.errors:
        B.ok(isinstance(want, Err) and code in [const(m.enum(c)) for c in want.codes], fn + ' fails', l, '%s raises %s (%s)' % (fn, show(code), label), label)
        B.balance(fn, label, h, e, st, err=True)
    if isinstance(want, Err):
        B.ok(not res, fn + ' goes on', loc, '%s does not raise an error (%s)' % (fn, label), label)
        return
    B.ok(bool(res), fn + ' ends', loc, '%s never returns (%s)' % (fn, label), label)
    wres, wconts = want
    for rv, st in res:
        vs = h.stack(e, st)
        if vs is None or not isconst(rv) or not 0 <= rv[0] <= len(vs) - FP:
            B.ok(False, fn + ' results', loc, '%s returns %s values where it left %s (%s)' % (fn, show(rv), vs and len(vs) - FP, label), label)
            continue
        got = vs[len(vs) - rv[0]:]
        if wres is not None:
            # fewer results than values asked for read as undef
            B.ok(len(got) == len(wres), fn + ' results', loc, '%s returns %d values, expected %d (%s)' % (fn, len(got), len(wres), label), label)
            for i, (w, g) in enumerate(zip(wres, got)):
                compare(B, fn, h, e, st, w, g, args, loc, label)
        for name, w in wconts.items():
            k, ud, d = h.conts[name]
            contents(B, fn, h, e, st, d, k, w, loc, label, 'argument')
        B.balance(fn, label, h, e, st)


def compare(B, fn, h, e, st, w, g, args, loc, label):
    if isinstance(w, Fresh):
        k = single(g[1])
        if g[0] != B.T(w.kind) or not k or k[0] != 'heap':
            B.ok(False, fn + ' result', loc, '%s yields %s, expected a new %s (%s)' % (fn, h.showv(g), w.kind, label), label)
            return
        d = e.load(st, add(g[1], const(B.m.field('RC_UserData', 'data'))), None)
        contents(B, fn, h, e, st, d, w.kind, w.items, loc, label, 'result')
        kk = h.kindof(e, st, g[1])
        B.ok(kk == w.kind, fn + ' result kind', loc, '%s yields an object that is not freed as a %s (%s)' % (fn, w.kind, label), label)
        if w.mt is not None:
            mt = e.load(st, add(g[1], const(B.m.field('RC_UserData', 'mt'))), None)
            B.ok(mt == (atom('obj', 'mt', w.kind) if w.mt is True else w.mt), fn + ' methods', loc, '%s yields a value without its methods (%s)' % (fn, label), label)
    elif callable(w):
        B.ok(w(g), fn + ' result', loc, '%s yields %s (%s)' % (fn, h.showv(g), label), label)
    else:
        B.ok(g[0] == w[0] and (g[1] == w[1] or w[0] == B.T('Y_UNDEF')), fn + ' result', loc, '%s yields %s, expected %s (%s)' % (fn, h.showv(g), h.showv(w), label), label)


def contents(B, fn, h, e, st, d, kind, want, loc, label, what):
    if kind == 'Y_LIST':
        got = h.read(e, st, d, kind)
        n = e.load(st, add(d, const(B.m.field('YASL_List', 'size'))), None)
        it = e.load(st, add(d, const(B.m.field('YASL_List', 'items'))), None)
        size = dict(st.p.get('sizes', ())).get(cvm.objbase(it), h.sizes.get(it))
        B.ok(isconst(n) and size is not None and 16 * n[0] <= size and (got is None or len(got) <= n[0]), fn + ' capacity', loc,
             '%s leaves a list of capacity %s in a block of %s bytes (%s)' % (fn, show(n), size, label), label)
        B.ok(got is not None and (want(got) if callable(want) else got == list(want)), fn + ' ' + what, loc, '%s: the %s holds %s, expected %s (%s)' % (
            fn, what, got and [show(x[1]) for x in got], '' if callable(want) else [show(x[1]) for x in want], label), label)
    else:
        sl = B.wf(fn, label, h, e, st, d, kind, True)
        got = entries(sl, kind)
        if callable(want):
            B.ok(want(got), fn + ' ' + what, loc, '%s: the %s holds %s (%s)' % (fn, what, showc(got), label), label)
            return
        B.ok(got == sorted(want, key=repr), fn + ' ' + what, loc, '%s: the %s holds %s, expected %s (%s)' % (fn, what, showc(got), showc(sorted(want, key=repr)), label), label)


def elems(B, h, n, pattern=None):
    """n values; equal ones where the pattern says so"""
    out = []
    for i in range(n):
        a = atom('obj', 'el', i)
        h.cls[a] = ('el', pattern[i] if pattern else i)
        out.append((B.T('Y_STR'), a))
    return out


def lists(B):
    T = B.T
    I = lambda i: (T('Y_INT'), const(i))
    F, U = (lambda b: (T('Y_BOOL'), const(int(b)))), (T('Y_UNDEF'), ZERO)
    x = (T('Y_STR'), atom('obj', 'x'))

    def L(n, cap=None, extra=(), pattern=None):
        def build(h, e, s):
            h.E = elems(B, h, n, pattern)
            v, d = h.place(e, s, 'L', Lst(h.E, n if cap is None else cap))
            return [v] + [y(h) if callable(y) else y for y in extra]
        return build
    for n in range(5):
        for cap in (n, n + 2):
            lab = 'list of %d in %d' % (n, cap)
            native(B, 'list___len', lab, L(n, cap), lambda a, h: ([I(n)], {'L': h.E}))
            native(B, 'list_push', lab, L(n, cap, [x]), lambda a, h: ([a[0]], {'L': h.E + [x]}))
            native(B, 'list_copy', lab, L(n, cap), lambda a, h: ([Fresh('Y_LIST', h.E)], {'L': h.E}))
            native(B, 'list_reverse', lab, L(n, cap), lambda a, h: (None, {'L': h.E[::-1]}))
            native(B, 'list_clear', lab, L(n, cap), lambda a, h: (None, {'L': []}))
            native(B, 'list_spread', lab, L(n, cap), lambda a, h: (h.E, {'L': h.E}))
            native(B, 'list_pop', lab, L(n, cap), lambda a, h: ([h.E[-1]], {'L': h.E[:-1]}) if n else Err('YASL_VALUE_ERROR'))
            for i in range(-n - 2, n + 3):
                ok = -n <= i < n
                il = '%s, index %d' % (lab, i)
                native(B, 'list___get', il, L(n, cap, [I(i)]), lambda a, h: ([h.E[i]], {'L': h.E}) if ok else Err('YASL_VALUE_ERROR'))

                def setted(h):
                    r = list(h.E)
                    r[i] = x
                    return r
                native(B, 'list___set', il, L(n, cap, [I(i), x]), lambda a, h: (None, {'L': setted(h)}) if ok else Err('YASL_VALUE_ERROR'))

                def inserted(h):
                    r = list(h.E)
                    r.insert(i, x)
                    return r
                native(B, 'list_insert', il, L(n, cap, [I(i), x]), lambda a, h: ([a[0]], {'L': inserted(h)}) if -n <= i <= n else Err('YASL_VALUE_ERROR'))
        for p in itertools.product(range(2), repeat=n):
            lab = 'list %s' % (p,)

            def needle(h):
                h.cls[x[1]] = ('el', 0)
                return x
            hits = [i for i in range(n) if p[i] == 0]
            native(B, 'list_search', lab, L(n, None, [needle], p), lambda a, h: ([(lambda g: g[0] == T('Y_UNDEF')) if not hits else lambda g: g in [I(i) for i in hits]], {'L': h.E}))
            native(B, 'list_count', lab, L(n, None, [needle], p), lambda a, h: ([I(len(hits))], {'L': h.E}))

            def two(k, q):
                def build(h, e, s):
                    h.E = elems(B, h, n, p)
                    r = []
                    for j in range(k):
                        a = atom('obj', 'er', j)
                        h.cls[a] = ('el', q[j])
                        r.append((T('Y_STR'), a))
                    h.R = r
                    return [h.place(e, s, 'L', Lst(h.E))[0], h.place(e, s, 'R', Lst(r))[0]]
                return build
            if n <= 3:
                for k in range(max(0, n - 1), n + 2):
                    for q in itertools.product(range(2), repeat=k):
                        native(B, 'list___eq', 'lists %s and %s' % (p, q), two(k, q), lambda a, h: ([F(p == q)], {'L': h.E, 'R': h.R}))
        for k in range(4):
            def two2(h, e, s):
                h.E = elems(B, h, n)
                h.R = [(T('Y_STR'), atom('obj', 'er', j)) for j in range(k)]
                return [h.place(e, s, 'L', Lst(h.E))[0], h.place(e, s, 'R', Lst(h.R, k + 1))[0]]
            native(B, 'list___add', 'lists of %d and %d' % (n, k), two2, lambda a, h: ([Fresh('Y_LIST', h.E + h.R)], {'L': h.E, 'R': h.R}))

        def itself(h, e, s):
            h.E = elems(B, h, n)
            v = h.place(e, s, 'L', Lst(h.E))[0]
            return [v, v]
        native(B, 'list___add', 'list of %d and itself' % n, itself, lambda a, h: ([Fresh('Y_LIST', h.E + h.E)], {'L': h.E}))
    sorting(B)


def sorting(B):
    T = B.T
    for n in range(5):
        for p in sorted(set(itertools.product(range(min(n, 3) or 1), repeat=n))):
            for kinds in (('Y_INT',), ('Y_FLOAT', 'Y_INT'), ('Y_STR',)) if n < 4 else (('Y_INT',),):
                def build(h, e, s):
                    h.E = []
                    for i in range(n):
                        a = atom('obj', 'el', i)
                        h.cls[a] = ('el', i)
                        h.rank[a] = p[i]
                        h.E.append((T(kinds[i % len(kinds)]), a))
                    return [h.place(e, s, 'L', Lst(h.E, n + 1))[0]]

                def good(h):
                    return lambda got: sorted(got, key=repr) == sorted(h.E, key=repr) and [h.rank[g[1]] for g in got] == sorted(p)
                native(B, 'list_sort', 'list of %s ordered like %s' % (kinds, p), build, lambda a, h: (None, {'L': good(h)}))
    for kinds in (('Y_STR', 'Y_INT'), ('Y_INT', 'Y_STR'), ('Y_LIST',), ('Y_INT', 'Y_UNDEF'), ('Y_BOOL', 'Y_BOOL'), ('Y_INT', 'Y_INT', 'Y_STR')):
        def build(h, e, s):
            h.E = [(T(k), atom('obj', 'el', i)) for i, k in enumerate(kinds)]
            return [h.place(e, s, 'L', Lst(h.E))[0]]
        native(B, 'list_sort', 'list of %s' % (kinds,), build, lambda a, h: Err('YASL_VALUE_ERROR', 'YASL_TYPE_ERROR'))


def slices(B):
    T = B.T
    I = lambda i: (T('Y_INT'), const(i))
    U = (T('Y_UNDEF'), ZERO)
    m = B.m
    BIG = 1 << 62
    for n in range(4):
        for a, b in itertools.product([None, -BIG] + list(range(-n - 2, n + 3)) + [BIG], repeat=2):
            for kind in ('Y_LIST', 'Y_STR'):
                h, e, s = B.begin()
                label = 'slice %s:%s of %d' % (a, b, n)
                if kind == 'Y_LIST':
                    h.E = elems(B, h, n)
                    v = h.place(e, s, 'L', Lst(h.E, n + 1))[0]
                    w = Fresh('Y_LIST', h.E[a:b])
                else:
                    v = string(h, s, 's', n, 5)
                    lo, hi, _ = slice(a, b).indices(n)
                    w = (n, lo, hi)
                s.mem[h.vm('builtins_htable')] = atom('obj', 'builtins')
                s.mem[add(atom('obj', 'builtins'), const(8 * m.enum('Y_LIST')))] = atom('obj', 'mt', 'Y_LIST')
                for j, x in enumerate((v, U if a is None else I(a), U if b is None else I(b))):
                    h.put(s, h.slot(FP + 1 + j), x)
                s.mem[h.vm('sp')] = const(FP + 3)
                end = h.code(s, m.enum('O_SLICE'))
                s0 = s.copy()
                res = B.run('vm_executenext', label, h, e, s, [h.VM])
                loc = m.fnloc(m.fn('vm_SLICE')) if 'vm_SLICE' in m.functions else m.fnloc(m.fn('vm_executenext'))
                fn = 'O_SLICE'
                B.ok(bool(res), fn + ' ends', loc, '%s never completes' % label, label)
                for rv, st in res:
                    vs = h.stack(e, st)
                    if not vs or len(vs) != FP + 2:
                        B.ok(False, fn + ' height', loc, '%s leaves %s values' % (label, vs and len(vs)), label)
                        continue
                    if kind == 'Y_LIST':
                        compare(B, fn, h, e, st, w, vs[-1], [v], loc, label)
                        contents(B, fn, h, e, st, h.conts['L'][2], 'Y_LIST', h.E, loc, label, 'argument')
                    else:
                        g = vs[-1]
                        want = tuple(atom('char', 's', 5 + i) for i in range(w[1], max(w[1], w[2])))
                        got = text(h, e, st, g[1])
                        B.ok(g[0] == T('Y_STR') and got == want, fn + ' string', loc, '%s of a string is %s, expected %s' % (
                            label, got if got is None else [show(x) for x in got], [show(x) for x in want]), label)
                    B.balance('vm_executenext', label, h, e, st, gone=[v[1]])


def string(h, s, name, n, start=0, chars=None):
    """a string of n characters that begins start characters into its buffer"""
    m = h.m
    p, buf = atom('obj', 'str', name), atom('obj', 'chars', name)
    f = lambda x: add(p, const(m.field('YASL_String', x)))
    s.mem[f('start')] = const(start)
    s.mem[f('end')] = const(start + n)
    s.mem[f('str')] = buf
    for x in ('on_heap', 'interned', 'immortal'):
        if any(y[1] == x for y in m.fields['YASL_String']):
            s.mem[f(x)] = ONE if x == 'on_heap' else ZERO
    for i in range(start + n + 1):
        s.mem[add(buf, const(i))] = atom('char', name, i) if chars is None or i < start or i - start >= len(chars) else chars[i - start]
    h.sizes[buf] = start + n + 1
    return (const(m.enum('Y_STR')), p)


def text(h, e, s, p):
    """the characters of a string"""
    m = h.m
    f = lambda x: e.load(s, add(p, const(m.field('YASL_String', x))), None)
    a, b, buf = f('start'), f('end'), f('str')
    if not isconst(a) or not isconst(b):
        return None
    return tuple(e.load(s, add(buf, const(i)), 'i8') for i in range(a[0], b[0]))


def fill(h, kind, items, n=31, base=30, removed=(), collide=False):
    """a table or set that holds items [(key, value)] or [key], put in one after the other; removed: keys that were there once"""
    sl = [None] * n
    for it in list(removed) + list(items):
        k = it[0] if isinstance(it[0], tuple) and isinstance(it[0][0], tuple) else it
        if collide:
            h.hashes[h.key(k)] = (3, 1)
        for j in range(n):
            p = h.hash(k, n, j)
            if sl[p] is None:
                break
        sl[p] = 'x' if it in removed else it
    return (Table if kind == 'Y_TABLE' else Set)(sl, base)


def tablefns(B):
    T = B.T
    U = (T('Y_UNDEF'), ZERO)
    F = lambda b: (T('Y_BOOL'), const(int(b)))
    I = lambda i: (T('Y_INT'), const(i))

    def kv(h, i, tag=''):
        return (B.key(h, i, ('Y_STR', 'Y_INT', 'Y_FLOAT')[i % 3]), B.val(str(i) + tag))

    def tab(n, extra=(), dead=0, collide=False, mt=None):
        def build(h, e, s):
            h.E = [kv(h, i) for i in range(n)]
            D = [kv(h, 100 + i) for i in range(dead)]
            v, d = h.place(e, s, 'T', fill(h, 'Y_TABLE', h.E, removed=D, collide=collide))
            if mt:
                s.mem[add(v[1], const(B.m.field('RC_UserData', 'mt')))] = mt
            return [v] + [x(h) if callable(x) else x for x in extra]
        return build
    other = (T('Y_STR'), atom('obj', 'k', 'other'))
    new = B.val('new')
    for n in range(4):
        for dead in (0, 2):
            for collide in (False, True):
                lab = 'table of %d entries, %d removed%s' % (n, dead, ', all colliding' if collide else '')
                args = dict(dead=dead, collide=collide)
                same = lambda h: {'T': h.E}
                native(B, 'table___len', lab, tab(n, **args), lambda a, h: ([I(n)], same(h)))
                native(B, 'table_keys', lab, tab(n, **args), lambda a, h: ([aslist(B, [k for k, v in h.E])], same(h)))
                native(B, 'table_values', lab, tab(n, **args), lambda a, h: ([aslist(B, [v for k, v in h.E])], same(h)))
                native(B, 'table_copy', lab, tab(n, **args), lambda a, h: ([Fresh('Y_TABLE', h.E)], same(h)))
                native(B, 'table_clear', lab, tab(n, **args), lambda a, h: (None, {'T': []}))
                for i in list(range(n)) + [None]:
                    def key(h):
                        if i is None:
                            if collide:
                                h.hashes[h.key(other)] = (3, 1)
                            return other
                        k = (h.E[i][0][0], atom('obj', 'k', 'K'))
                        h.cls[k[1]] = h.cls[h.E[i][0][1]]
                        return k

                    def without(h):
                        return [x for j, x in enumerate(h.E) if j != i]
                    il = lab + ', key %s' % i
                    native(B, 'table___get', il, tab(n, [key], **args), lambda a, h: ([h.E[i][1] if i is not None else U], same(h)))
                    native(B, 'table_remove', il, tab(n, [key], **args), lambda a, h: (None, {'T': without(h)}))
                    native(B, 'table___set', il + ' to undef', tab(n, [key, U], **args), lambda a, h: (None, {'T': without(h)}))
                    if i is None:
                        native(B, 'table___set', il, tab(n, [key, new], **args), lambda a, h: (None, {'T': h.E + [(a[1], new)]}))
                    else:
                        # which of the two equal keys stays is not observable: they are told apart by name here
                        for keep in (True, False):
                            pass
                        native(B, 'table___set', il, tab(n, [lambda h: h.E[i][0], new], **args), lambda a, h: (None, {'T': without(h) + [(h.E[i][0], new)]}))
        for KT in ('Y_LIST', 'Y_TABLE', 'Y_USERDATA', 'Y_FN', 'Y_CLOSURE', 'Y_CFN', 'Y_UNDEF'):
            k = (T(KT), atom('obj', 'k', 'mutable')) if KT != 'Y_UNDEF' else U
            lab = 'table of %d entries, key of type %s' % (n, KT)
            native(B, 'table___set', lab, tab(n, [k, new]), lambda a, h: Err('YASL_TYPE_ERROR'))
            native(B, 'table___get', lab, tab(n, [k]), lambda a, h: ([U], {'T': h.E}))
            native(B, 'table_remove', lab, tab(n, [k]), lambda a, h: (None, {'T': h.E}))
    # two tables
    for n in range(4):
        for k in range(4):
            for common in range(0, min(n, k) + 1):
                for differ in range(0, common + 1):
                    def two(h, e, s):
                        h.E = [kv(h, i) for i in range(n)]
                        # the first `common` keys are in both; the first `differ` of them with another value
                        h.R = [(h.E[i][0], B.val('r%d' % i) if i < differ else h.E[i][1]) for i in range(common)] + [kv(h, 10 + i) for i in range(k - common)]
                        return [h.place(e, s, 'L', fill(h, 'Y_TABLE', h.E))[0], h.place(e, s, 'R', fill(h, 'Y_TABLE', h.R, removed=[kv(h, 50)]))[0]]
                    lab = 'tables of %d and %d entries, %d keys in common, %d with other values' % (n, k, common, differ)
                    native(B, 'table___bor', lab, two, lambda a, h: ([Fresh('Y_TABLE', [x for x in h.E if x[0] not in [y[0] for y in h.R]] + h.R)], {'L': h.E, 'R': h.R}))
                    native(B, 'table___eq', lab, two, lambda a, h: ([F(n == k == common and not differ)], {'L': h.E, 'R': h.R}))


def aslist(B, want):
    """a new list of these in any order"""
    return Fresh('Y_LIST', lambda got: sorted(got, key=repr) == sorted(want, key=repr))


def setfns(B):
    T = B.T
    U = (T('Y_UNDEF'), ZERO)
    F = lambda b: (T('Y_BOOL'), const(int(b)))
    I = lambda i: (T('Y_INT'), const(i))
    m = B.m
    P = 'YASL_collections_set_'
    kk = lambda h, i: B.key(h, i, ('Y_STR', 'Y_INT', 'Y_FLOAT')[i % 3])

    def st(n, extra=(), dead=0, collide=False):
        def build(h, e, s):
            h.E = [kk(h, i) for i in range(n)]
            v, d = h.place(e, s, 'S', fill(h, 'Y_USERDATA', h.E, removed=[kk(h, 100 + i) for i in range(dead)], collide=collide))
            return [v] + [x(h) if callable(x) else x for x in extra]
        return build
    other = (T('Y_STR'), atom('obj', 'k', 'other'))
    for n in range(4):
        for dead in (0, 2):
            for collide in (False, True):
                lab = 'set of %d elements, %d removed%s' % (n, dead, ', all colliding' if collide else '')
                args = dict(dead=dead, collide=collide)
                same = lambda h: {'S': h.E}
                native(B, P + '__len', lab, st(n, **args), lambda a, h: ([I(n)], same(h)))
                native(B, P + 'tolist', lab, st(n, **args), lambda a, h: ([aslist(B, h.E)], same(h)))
                native(B, P + 'copy', lab, st(n, **args), lambda a, h: ([Fresh('Y_USERDATA', h.E, SETMT)], same(h)))
                native(B, P + 'clear', lab, st(n, **args), lambda a, h: (None, {'S': []}))
                for i in list(range(n)) + [None]:
                    def key(h):
                        if i is None:
                            if collide:
                                h.hashes[h.key(other)] = (3, 1)
                            return other
                        return h.E[i]

                    def without(h):
                        return [x for j, x in enumerate(h.E) if j != i]
                    il = lab + ', element %s' % i
                    native(B, P + '__get', il, st(n, [key], **args), lambda a, h: ([F(i is not None)], same(h)))
                    native(B, P + 'remove', il, st(n, [key], **args), lambda a, h: (None, {'S': without(h)}))
                    native(B, P + 'add', il, st(n, [key], **args), lambda a, h: (None, {'S': h.E + ([other] if i is None else [])}))
        for KT in ('Y_LIST', 'Y_TABLE', 'Y_USERDATA', 'Y_FN', 'Y_CLOSURE', 'Y_CFN', 'Y_UNDEF'):
            k = (T(KT), atom('obj', 'k', 'mutable')) if KT != 'Y_UNDEF' else U
            lab = 'set of %d elements, value of type %s' % (n, KT)
            native(B, P + 'add', lab, st(n, [k]), lambda a, h: Err('YASL_TYPE_ERROR'))
            native(B, P + 'remove', lab, st(n, [k]), lambda a, h: (None, {'S': h.E}))
            native(B, P + '__get', lab, st(n, [k]), lambda a, h: ([F(False)], {'S': h.E}))
    for n in range(4):
        for k in range(4):
            for common in range(0, min(n, k) + 1):
                def two(h, e, s):
                    h.E = [kk(h, i) for i in range(n)]
                    h.R = [h.E[i] for i in range(common)] + [kk(h, 10 + i) for i in range(k - common)]
                    return [h.place(e, s, 'L', fill(h, 'Y_USERDATA', h.E))[0], h.place(e, s, 'R', fill(h, 'Y_USERDATA', h.R, removed=[kk(h, 50)]))[0]]
                lab = 'sets of %d and %d elements, %d in common' % (n, k, common)
                both = lambda h: h.E[:common]
                same = lambda h: {'L': h.E, 'R': h.R}
                S = lambda x: Fresh('Y_USERDATA', x, SETMT)
                native(B, P + '__band', lab, two, lambda a, h: ([S(h.E[:common])], same(h)))
                native(B, P + '__bor', lab, two, lambda a, h: ([S(h.E + h.R[common:])], same(h)))
                native(B, P + '__bxor', lab, two, lambda a, h: ([S(h.E[common:] + h.R[common:])], same(h)))
                native(B, P + '__bandnot', lab, two, lambda a, h: ([S(h.E[common:])], same(h)))
                for nm, w in (('__eq', n == k == common), ('__le', common == n), ('__ge', common == k), ('__lt', common == n < k), ('__gt', common == k < n)):
                    native(B, P + nm, lab, two, lambda a, h: ([F(w)], same(h)))


def constructors(B):
    T = B.T
    U = (T('Y_UNDEF'), ZERO)
    I = lambda i: (T('Y_INT'), const(i))
    P = 'YASL_collections_'
    for n in range(5):
        for p in sorted(set(itertools.product(range(2), repeat=n))):
            def args(h, e, s, T_='Y_INT'):
                h.E = []
                for i in range(n):
                    k = (T(T_), atom('obj', 'k', i))
                    h.cls[k[1]] = ('p', i if p[i] == 0 else 'same')
                    h.E.append(k)
                return [I(n)] + h.E
            lab = '%d arguments, equal ones %s' % (n, p)
            distinct = lambda h, xs: len({h.key(x) for x in xs}) == len(xs)

            def oneof(h, got):
                return sorted({repr(h.key(x)) for x in got}) == sorted({repr(h.key(x)) for x in h.E}) and distinct(h, got)
            if not any(p):
                native(B, P + 'list_new', lab, args, lambda a, h: ([Fresh('Y_LIST', h.E)], {}), arity=-1)
            native(B, P + 'set_new', lab, args, lambda a, h: ([SetOf(B, h, oneof)], {}), arity=-1)

            def fromlist(h, e, s):
                args(h, e, s)
                return [I(1), h.place(e, s, 'L', Lst(h.E, n + 1))[0]]
            native(B, P + 'set_new', 'list of ' + lab, fromlist, lambda a, h: ([SetOf(B, h, oneof)], {'L': h.E}), arity=-1)
        for odd in (0, 1):
            for undef in range(-1, n):
                def pairs(h, e, s):
                    h.E = [(B.key(h, i, 'Y_STR'), U if i == undef else B.val(i)) for i in range(n)]
                    a = [x for kv in h.E for x in kv]
                    if odd:
                        a.append(B.key(h, 99, 'Y_STR'))
                    return [I(len(a))] + a
                native(B, P + 'table_new', '%d pairs%s, value %d undef' % (n, ' and a key', undef) if odd else '%d pairs, value %d undef' % (n, undef), pairs,
                       lambda a, h: ([Fresh('Y_TABLE', [x for i, x in enumerate(h.E) if i != undef])], {}), arity=-1)
    for n in range(1, 4):
        for j in range(n):
            for KT in ('Y_LIST', 'Y_TABLE', 'Y_FN', 'Y_UNDEF', 'Y_CLOSURE', 'Y_USERDATA'):
                bad = (T(KT), atom('obj', 'k', 'mutable')) if KT != 'Y_UNDEF' else U

                def args(h, e, s):
                    h.E = [bad if i == j else B.key(h, i, 'Y_STR') for i in range(n)]
                    return [I(n)] + h.E

                def pairs(h, e, s):
                    return [I(2 * n)] + [x for i in range(n) for x in (bad if i == j else B.key(h, i, 'Y_STR'), B.val(i))]
                lab = '%d arguments, %d of type %s' % (n, j, KT)
                if n > 1 or KT != 'Y_LIST':
                    native(B, P + 'set_new', lab, args, lambda a, h: Err('YASL_TYPE_ERROR'), arity=-1)
                native(B, P + 'table_new', lab, pairs, lambda a, h: Err('YASL_TYPE_ERROR'), arity=-1)


class SetOf(Fresh):
    """a new set whose elements satisfy a condition"""
    def __init__(self, B, h, good):
        super().__init__('Y_USERDATA', lambda got: good(h, got), SETMT)


def api(B):
    """the container functions of yasl.h: arguments on the stack, no frame of their own"""
    T = B.T
    U = (T('Y_UNDEF'), ZERO)
    I = lambda i: (T('Y_INT'), const(i))
    m = B.m

    def call(fn, label, build, extra, want):
        """want(h, args) -> (stack above FP, return value or None, contents)"""
        h, e, s = B.begin()
        args = build(h, e, s)
        for i, a in enumerate(args):
            h.put(s, h.slot(FP + 1 + i), a)
        s.mem[h.vm('sp')] = const(FP + len(args))
        ws, wr, wc = want(h, args)
        res = B.run(fn, label, h, e, s, [h.VM] + extra)
        loc = m.fnloc(m.fn(fn))
        if ws is None:
            B.ok(not res and h.errors, fn + ' fails', loc, '%s does not raise an error (%s)' % (fn, label), label)
            return
        B.ok(bool(res), fn + ' ends', loc, '%s never returns (%s)' % (fn, label), label)
        for rv, st in res:
            vs = h.stack(e, st)
            got = vs and vs[FP + 1:]
            B.ok(got is not None and len(got) == len(ws) and all(g == w or g[0] == w[0] == U[0] for g, w in zip(got, ws)), fn + ' stack', loc, '%s leaves %s, expected %s (%s)' % (
                fn, got and [h.showv(g) for g in got], [h.showv(w) for w in ws], label), label)
            B.ok(wr is None or rv == const(wr), fn + ' result', loc, '%s returns %s, expected %s (%s)' % (fn, show(rv), wr, label), label)
            for name, w in wc.items():
                k, ud, d = h.conts[name]
                contents(B, fn, h, e, st, d, k, w, loc, label, 'argument')
            B.balance(fn, label, h, e, st)
    TE, VE = m.enum('YASL_TYPE_ERROR'), m.enum('YASL_VALUE_ERROR')
    x = (T('Y_STR'), atom('obj', 'x'))
    for n in range(4):
        for cap in (n, n + 1):
            def L(h, e, s):
                h.E = elems(B, h, n)
                return [h.place(e, s, 'L', Lst(h.E, cap))[0]]
            call('YASL_listpush', 'list of %d in %d' % (n, cap), lambda h, e, s: L(h, e, s) + [x], [], lambda h, a: (a[:1], 0, {'L': h.E + [x]}))
            for i in range(-n - 1, n + 2):
                call('YASL_listget', 'list of %d, index %d' % (n, i), L, [const(i)], lambda h, a: (a + [h.E[i]], 0, {'L': h.E}) if -n <= i < n else (None, None, None))
        for dead in (0, 2):
            def tab(h, e, s):
                h.E = [(B.key(h, i, 'Y_STR'), B.val(i)) for i in range(n)]
                return [h.place(e, s, 'T', fill(h, 'Y_TABLE', h.E, removed=[(B.key(h, 100 + i, 'Y_STR'), B.val(100 + i)) for i in range(dead)]))[0]]
            for i in range(n + 1):
                for v in (x, U):
                    def build(h, e, s):
                        a = tab(h, e, s)
                        return a + [h.E[i][0] if i < n else B.key(h, 'new', 'Y_STR'), v]
                    call('YASL_tableset', 'table of %d, key %d, value %s' % (n, i, 'undef' if v is U else 'defined'), build, [],
                         lambda h, a: (a[:1], 0, {'T': [y for j, y in enumerate(h.E) if j != i] + ([(a[1], v)] if v is x else [])}))
            call('YASL_tableset', 'table of %d, mutable key' % n, lambda h, e, s: tab(h, e, s) + [(T('Y_LIST'), atom('obj', 'k', 'mutable')), x], [], lambda h, a: (a[:1], TE, {'T': h.E}))
            # every key once, in the order of the slots
            for i in range(-1, n):
                def build(h, e, s):
                    a = tab(h, e, s)
                    h.order = [y for y in h.read(e, s, h.conts['T'][2], 'Y_TABLE') if isinstance(y, tuple)]
                    return a + [U if i < 0 else h.order[i][0]]

                def want(h, a):
                    nxt = h.order[i + 1] if i + 1 < n else None
                    return (a[:1] + (list(nxt) if nxt else []), 1 if nxt else 0, {'T': h.E})
                call('YASL_tablenext', 'table of %d with %d removed, after entry %d' % (n, dead, i), build, [], want)


def check_C03(m, rep):
    rep.rule('contents: a list function yields what it should and leaves exactly the right elements in the right order, for lists of every length up to 4, full or not, and every index')
    rep.rule('memory: and it stays within its memory blocks, frees each once, and counts every reference it takes or gives up')
    B = CBench(m, rep, 'contents', 'memory')
    lists(B)
    slices(B)
    rep.cov['cases'] = B.n
    rep.cov['steps'] = B.steps
    rep.floor('contents', 1000)
    rep.floor('memory', 1000)


# ------------------------------------------------------------------ keys
class HK(NVM):
    """hashing and comparing: nothing is fixed per case"""
    OPAQUE = {'YASL_String_cmp'}

    def __init__(self, m):
        super().__init__(m)
        self.ha = {}

    def model(self, e, s, f, ins, name, b, args, ctx):
        if b == 'memcmp':
            return super().model(e, s, f, ins, name, b, args, ctx)
        if b == 'hash_function' and self.ha is not None:
            a = args[2]
            if a not in self.ha['of'] and len(self.ha['of']) < 2:
                self.ha['of'][a] = self.ha['vals'][len(self.ha['of'])]
            if isconst(args[3]) and a in self.ha['of']:
                return [(const(self.ha['of'][a] % args[3][0]), s)]
            self.problems.append(('hashes in an unknown way', self.m.loc(ins)))
            return []
        if b == 'YASL_String_cmp':
            x, y = sorted((args[0], args[1]))
            return [(atom('strcmp', x, y) if x != y else ZERO, s)]
        return None


def probing(B):
    m = B.m
    loc = m.fnloc(m.fn('get_hash'))
    for n in (3, 5, 7, 31):
        for ha in range(n):
            for hb in range(n) if n < 20 else (0, 1, 2, n // 2, n - 2, n - 1):
                if n > 20 and ha not in (0, 1, n - 1):
                    continue
                seen = []
                for i in range(n):
                    h = HK(m)
                    h.refs = False
                    h.ha = {'of': {}, 'vals': (ha, hb)}
                    e = h.engine = Engine(m, h)
                    # the first hash is that of the first attempt
                    e.run(m.fn('get_hash'), [B.T('Y_INT'), atom('obj', 'key'), const(n), ZERO], State())
                    res = e.run(m.fn('get_hash'), [B.T('Y_INT'), atom('obj', 'key'), const(n), const(i)], State())
                    seen += [rv for rv, st in res]
                    B.n += 1
                    B.steps += e.steps
                B.ok(sorted(seen) == [const(i) for i in range(n)], 'get_hash', loc, 'with hashes %d and %d a table of %d slots is searched in the slots %s: a key may not be found, or a search may not end' % (
                    ha, hb, n, [show(x) for x in seen]), '%d slots, hashes %d and %d' % (n, ha, hb))


def hashing(B):
    """equal keys have equal hashes"""
    m = B.m
    f = m.fn('hash_function')
    loc = m.fnloc(f)
    for n in (0, 1, 2, 5):
        out = set()
        for start in (0, 1, 7):
            h = HK(m)
            h.ha = None
            h.refs = False
            e = h.engine = Engine(m, h)
            s = h.state(FP, FP)
            v = string(h, s, start, n, start, [atom('c', i) for i in range(n)])
            for i in range(n):
                s.mem[add(atom('obj', 'chars', start), const(start + i))] = atom('c', i)
            res = e.run(f, [v[0], v[1], atom('a'), atom('m')], s)
            for rv, st in res:
                out.add(rv)
            B.n += 1
            B.steps += e.steps
            for p, l in h.problems:
                B.ok(False, 'hash_function: ' + p, l, 'hash_function %s' % p, '')
        B.ok(len(out) == 1, 'hash of a string', loc, 'the hash of a string of %d characters depends on more than its characters: %s' % (n, [show(x) for x in out]), 'strings of %d' % n)
    for T in ('Y_BOOL', 'Y_INT', 'Y_FLOAT', 'Y_USERPTR'):
        h = HK(m)
        h.ha = None
        h.refs = False
        e = h.engine = Engine(m, h)
        s = h.state(FP, FP)
        loads = []
        x = atom('payload')
        h.on_load = lambda e, s, f, ins, a, v: loads.append(m.loc(ins)) if cvm.objbase(a) is not None and A.tab[cvm.objbase(a)][0] in ('obj', 'heap', 'payload') else None
        res = e.run(f, [B.T(T), x, atom('a'), atom('m')], s)
        B.n += 1
        B.steps += e.steps
        B.ok(bool(res) and not loads, 'hash of %s' % T, loc, 'the hash of a %s reads memory beside the value (%s)' % (T, loads[:1]), T)


def equality(B):
    """the relation tables and sets use on keys"""
    m = B.m
    fn = 'isequal_typed'
    f = m.fn(fn)
    loc = m.fnloc(f)
    a, b = atom('obj', 'a'), atom('obj', 'b')
    KEYS = ('Y_BOOL', 'Y_INT', 'Y_FLOAT', 'Y_STR', 'Y_USERPTR')
    for T in KEYS + ('Y_UNDEF', 'Y_END', 'Y_LIST'):
        for U in KEYS + ('Y_UNDEF', 'Y_END', 'Y_LIST'):
            for same in ((True, False) if T == U else (False,)):
                h = HK(m)
                h.refs = False
                e = h.engine = Engine(m, h)
                s = h.state(FP, FP)
                p, q = (const(1), const(int(same))) if T == U == 'Y_BOOL' else (atom('payload', 'p'), atom('payload', 'p' if same else 'q'))
                h.put(s, a, (B.T(T), p))
                h.put(s, b, (B.T(U), q))
                label = '%s and %s%s' % (T, U, ', the same value' if same else '')
                B.n += 1
                for rv, st in e.run(f, [a, b], s):
                    yes, no = not st.eq(rv, 0) and (not isconst(rv) or rv[0] != 0), rv != ONE
                    if not isconst(rv):
                        vs = st.values(rv)
                        yes, no = (vs is None or 1 in vs), (vs is None or 0 in vs)
                    if T != U:
                        B.ok(not yes, fn + ' types', loc, 'a key of type %s counts as equal to one of type %s, which is hashed differently' % (T, U), label)
                    elif same and T in KEYS:
                        B.ok(not no, fn + ' reflexive', loc, 'a key of type %s may not equal itself: it is never found again' % T, label)
                    elif T in KEYS and yes:
                        cond = implied(st, rv, p, q, T)
                        B.ok(cond, fn + ' agrees with hashing', loc, 'two keys of type %s may count as equal although their hashes differ' % T, label)
                    else:
                        B.rep.ok(B.rule, label)


def implied(st, rv, p, q, T):
    """the result can be true only if the payloads are the same bits (strings: compare equal)"""
    d = add(p, q, -1)
    if st.eq(d, 0):
        return True
    k = single(rv)
    if T == 'Y_STR':
        c = atom('strcmp', *sorted((p, q)))
        return st.eq(c, 0) or k is not None and mentions_eq(rv, c)
    return k is not None and mentions_eq(rv, d)


def mentions_eq(rv, d):
    k = single(rv)
    while k and k[0] == 'bool':
        k = k[1:]
    return bool(k) and k[0] in ('icmp', 'cmp') and k[1] == 'eq' and d in (k[2], scale(k[2], -1), add(k[2], k[3], -1), add(k[3], k[2], -1))


class FloatEngine(Engine):
    """decides comparisons of floating point constants"""
    def num(self, v):
        if isconst(v):
            return v[0]
        k = single(v)
        if k and k[0] == 'op' and k[1] in ('sitofp', 'uitofp', 'fptosi', 'fptoui') and len(k) == 3:
            x = self.num(k[2])
            return x if x is None or 'i' == k[1][0] or k[1][:2] != 'fp' else int(x)
        return k[1] if k and k[0] == 'floatval' else None

    def truth(self, s, v):
        k = single(v) if v[1] else None
        if k and k[:2] == ('bool', 'fcmp'):
            a, b = self.num(k[3]), self.num(k[4])
            if a is not None and b is not None:
                return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}.get(k[2][1:])
        return super().truth(s, v)


class HP(HK):
    """arithmetic on constants"""
    def mergekey(self, e, s):
        return frozenset((k, v) for k, v in s.env.items() if isconst(v))

    joinkey = mergekey

    def loopkey(self, e, s, f, b):
        return frozenset((a, v) for a, v in s.mem.items() if isconst(v))

    def model(self, e, s, f, ins, name, b, args, ctx):
        b = b.replace('llvm.', '').replace('.f64', '')
        if b in ('sqrt', 'floor', 'ceil', 'trunc'):
            x = e.num(args[0])
            if x is not None:
                import math
                return [(atom('floatval', float(getattr(math, b)(x))), s)]
        return super().model(e, s, f, ins, name, b, args, ctx)


def primes(B):
    """the sizes of tables are prime numbers"""
    m = B.m
    f = m.fn('next_prime')
    loc = m.fnloc(f)
    ps = [p for p in range(2, 240) if nvm.prime(p) == p]
    for n in sorted(set(range(1, 300)) | {p * q - 1 for p in ps for q in ps if 180 < p <= q < p + 20} | {p * p for p in ps} | {30 << k for k in range(16)}):
        h = HP(m)
        h.refs = False
        e = h.engine = FloatEngine(m, h)
        e.maxsteps = 400000
        res = e.run(f, [const(n)], State())
        B.n += 1
        B.steps += e.steps
        for rv, st in res:
            # any prime will do
            B.ok(isconst(rv) and rv[0] >= n and nvm.prime(rv[0]) == rv[0], 'next_prime', loc, 'the size chosen for at least %d slots is %s: no prime, so that not all slots are tried' % (n, show(rv)), str(n))
        B.ok(bool(res), 'next_prime ends', loc, 'next_prime(%d) never ends' % n, str(n))


def check_C02(m, rep):
    rep.rule('keys: searching a table visits every slot; keys that count as equal have equal hashes and the same type, and every key equals itself')
    B = CBench(m, rep, 'keys', 'keys')
    probing(B)
    hashing(B)
    equality(B)
    primes(B)
    rep.cov['cases'] = B.n
    rep.cov['steps'] = B.steps
    rep.floor('keys', 100)
