"""C05: the text form of a container shows its contents, whatever it contains (itself included)."""
import multiprocessing
import os
from ir import AnalysisBroken
from report import Report
from strs import *
from coll import Set, Table, Lst
import strs


def esc(w):
    return tuple(map(ord, w))


class Node:
    """c: 's' a text, 'n' a value whose text the VM makes, 'L' list, 'T' table, 'S' set; parts may be names of containers"""
    def __init__(self, kind, name, parts=()):
        self.kind, self.name, self.parts = kind, name, parts


def W(w, name):
    return Node('s', name, w)


def N(i):
    return Node('n', i)


def L(name, *p):
    return Node('L', name, p)


def D(name, *p):
    """slots of a table: None, 'x', (key, value)"""
    return Node('T', name, p)


def SET(name, *p):
    return Node('S', name, p)


def every(n, out):
    if isinstance(n, Node):
        if n.kind in 'LTS':
            out.setdefault(n.name, n)
        for p in n.parts if n.kind in 'LTS' else ():
            for x in p if isinstance(p, tuple) else (p,):
                every(x, out)
    return out


def value(B, h, s, n, made):
    T = B.T
    if isinstance(n, str) or n.kind in 'LTS':
        name = n if isinstance(n, str) else n.name
        return (T({'L': 'Y_LIST', 'T': 'Y_TABLE', 'S': 'Y_USERDATA'}[made[name].kind]), atom('obj', 'ud', name))
    if n.kind == 's':
        return string(h, s, n.name, n.parts, KINDS[sum(map(ord, n.name)) % 3])
    k = ('Y_INT', 'Y_FLOAT', 'Y_BOOL', 'Y_FN', 'Y_USERPTR')[n.name % 5]
    return (T(k), atom('obj', 'n', n.name))


def form(n, made, above):
    """the text of a value (characters), as documented: parts in order, ... for what it lies in"""
    if isinstance(n, str):
        n = made[n]
    if n.kind == 's':
        return tuple(n.parts)
    if n.kind == 'n' or n.kind == 'S' and above:
        return tuple(atom('textof', atom('obj', 'n', n.name) if n.kind == 'n' else atom('obj', 'ud', n.name), j) for j in range(2))
    a, z = {'L': '[]', 'T': '{}', 'S': ('set(', ')')}[n.kind]
    if n.name in above:
        return esc(a + '...' + z)
    above = above + (n.name,)
    r = esc(a)
    first = True
    for p in n.parts:
        if p in (None, 'x') and n.kind != 'L':
            continue
        if not first:
            r += esc(', ')
        first = False
        if n.kind == 'T':
            r += form(p[0], made, above) + esc(': ')
            p = p[1]
        r += form(p, made, above)
    return r + esc(z)


def cases(deep):
    words_ = [W('aB'[:1] * k, 'w%d' % k) for k in (0, 1, 2)] + [W('aB' * k, 'W%d' % k) for k in (1, 2, 3, 4, 5, 8, 20, 70)]
    yield 'list', L('l')
    yield 'table', D('l')
    yield 'table', D('l', None, 'x', None)
    for w in words_ + [N(i) for i in range(5)] + [L('e'), D('e', None), L('e', N(1)), D('e', (N(1), N(2))), SET('e', N(1)), 'l', L('e', 'l'), D('e', (N(3), 'l')), L('e', 'e'), D('e', ('k' and N(3), 'e'), None)]:
        nm = w if isinstance(w, str) else w.name
        yield 'list', L('l', w)
        yield 'list', L('l', w, w)
        yield 'list', L('l', N(7), w, N(8))
        yield 'list', L('l', w, N(7), w, N(8))
        yield 'table', D('l', (N(7), w))
        yield 'table', D('l', (N(7), w), (N(8), w))
        yield 'table', D('l', None, (N(7), N(9)), 'x', (N(8), w), None)
        yield 'table', D('l', 'x', (N(7), w), None, (W('aB', 'k'), N(9)))
        if not isinstance(w, str) and w.kind in 'sn':
            yield 'table', D('l', (w, N(7)))
            yield 'table', D('l', (w, w), None, (N(8), w))
            yield 'table', D('l', (w, 'l'))
            yield 'table', D('l', (w, L('e', 'l', w)))
    for n in range(1, 13 if not deep else 34):
        yield 'list', L('l', *[W('aB' * (i % 4), 'v%d' % i) for i in range(n)])
        yield 'table', D('l', *[(N(i), W('aB' * (i % 4), 'v%d' % i)) for i in range(n)])
        yield 'list', L('l', W('a' * n, 'v'), N(1))
        yield 'table', D('l', (W('a' * n, 'v'), N(1)))
        yield 'list', L('l', *[N(i) for i in range(n)], 'l')
        yield 'list', L('l', *['l'] * n)
        yield 'table', D('l', *[(N(i), 'l') for i in range(n)])
        yield 'list', L('l', *[L('e%d' % i) for i in range(n)])
        yield 'table', D('l', *[(N(i), D('e%d' % i)) for i in range(n)])
    # depth: what the enclosing containers are is kept in a block that grows
    for n in (2, 3, 6, 7, 8, 9, 10, 15, 16, 17, 18, 20):
        for back in (None, 'l', 'c1', 'c%d' % (n - 2), 'c%d' % (n - 1)) if n < 9 or deep else (None, 'l', 'c%d' % (n - 1)):
            for kinds in ('L', 'T', 'LT'):
                if len(kinds) > 1 and n > 10 and not deep:
                    continue
                inner = [back] if back else []
                x = None
                for i in reversed(range(n)):
                    p = ([x] if x is not None else []) + (inner if n < 9 or i in (n - 1, n // 2) else []) + ([N(i)] if i % 3 == 0 else [])
                    k = kinds[i % len(kinds)]
                    x = L('c%d' % i if i else 'l', *p) if k == 'L' else D('c%d' % i if i else 'l', *[(N(20 + j), y) for j, y in enumerate(p)])
                made = every(x, {})
                if back and back not in made:
                    continue
                yield 'list' if x.kind == 'L' else 'table', x
    # siblings are no ancestors
    for a, b in itertools.product('LT', repeat=2):
        mk = lambda k, n, *p: L(n, *p) if k == 'L' else D(n, *[(N(10 + i), y) for i, y in enumerate(p)])
        for top in 'LT':
            kind = 'list' if top == 'L' else 'table'
            yield kind, mk(top, 'l', mk(a, 'x', N(1)), mk(b, 'y', N(2)), 'x', 'y')
            yield kind, mk(top, 'l', mk(a, 'x', mk(b, 'y', 'l', 'x')), 'y', N(3))
            yield kind, mk(top, 'l', mk(a, 'x', mk(b, 'y')), mk(b, 'z', 'x', 'y', 'l'), 'x')
            yield kind, mk(top, 'l', mk(a, 'x', 'y'), mk(b, 'y', 'x'))
            yield kind, mk(top, 'l', mk(a, 'x', 'x', 'l', 'x'), mk(b, 'y', 'y'), N(3))
    sets = [w for w in words_] + [N(0), N(1)]
    yield 'set', SET('l')
    yield 'set', SET('l', None, 'x')
    for i, w in enumerate(sets):
        yield 'set', SET('l', w)
        yield 'set', SET('l', None, w, 'x', N(7))
        yield 'set', SET('l', 'x', N(7), w, N(8), w, None)
        for v in sets if deep else sets[:4]:
            yield 'set', SET('l', w, v, N(7), v)
    for n in range(1, 30 if deep else 18):
        yield 'set', SET('l', W('a' * n, 'v'))
        yield 'set', SET('l', W('a' * n, 'v'), W('', 'u'), W('b' * n, 'w'))
        yield 'set', SET('l', *[W('a' * (i % 3), 'v%d' % i) for i in range(n)])


def show_(n):
    if n in (None, 'x'):
        return '-'
    if isinstance(n, str):
        return '^' + n
    if n.kind in 'sn':
        return ''.join(n.parts) and "'%s'" % (''.join(n.parts) if len(n.parts) < 9 else '%d letters' % len(n.parts)) if n.kind == 's' and n.parts else "''" if n.kind == 's' else '%s' % n.name
    return n.name + '=' + {'L': '[%s]', 'T': '{%s}', 'S': 'set(%s)'}[n.kind] % ', '.join('%s: %s' % tuple(map(show_, p)) if isinstance(p, tuple) else show_(p) for p in n.parts)


def container(B, fn, node):
    m = B.m
    made = every(node, {})
    label = show_(node)
    h, e, s = B.begin()
    e.MAXDEPTH, h.RECURSE = 80, (40, 80)
    n_ = itertools.count()
    h.mergekey = h.joinkey = lambda *a: next(n_)
    h.loopkey = lambda *a: next(n_)         # everything is known: no two states are alike
    T = B.T
    for name, n in made.items():
        v = lambda x: value(B, h, s, x, made)
        if n.kind == 'L':
            c = Lst([v(x) for x in n.parts], len(n.parts) + 1, atom('obj', 'mt', 'Y_LIST'))
        else:
            c = (Table if n.kind == 'T' else Set)([x if x in (None, 'x') else (v(x[0]), v(x[1])) if n.kind == 'T' else v(x) for x in n.parts], 30, atom('obj', 'mt', 'x'))
        h.place(e, s, name, c)
    top = value(B, h, s, node, made)
    h.put(s, h.slot(FP), (T('Y_CFN'), atom('obj', 'fn')))
    s.mem[add(atom('obj', 'fn'), const(m.field('CFunction', 'num_args')))] = const(1)
    h.put(s, h.slot(FP + 1), top)
    s.mem[h.vm('sp')] = const(FP + 1)
    loc = m.fnloc(m.fn(fn))
    before = {n: h.content(e, s, atom('obj', 'ud', n)) for n in made}
    res = B.run(fn, label, h, e, s, [h.VM])
    for b, code, l, st in h.errors:
        B.ok(False, fn + ' fails', l, '%s raises %s (%s)' % (fn, show(code), label), label)
    if not h.problems:
        B.ok(bool(res), fn + ' ends', loc, '%s never returns (%s)' % (fn, label), label)
    want = Str(form(node, made, ()))
    for rv, st in res:
        vs = h.stack(e, st)
        if vs is None or rv != ONE or len(vs) <= FP:
            B.ok(False, fn + ' results', loc, '%s returns %s values (%s)' % (fn, show(rv), label), label)
            continue
        check(B, fn, h, e, st, want, vs[-1], loc, label)
        B.ok(len(vs) <= FP + 4, fn + ' stack', loc, '%s leaves %d values on the stack, more with every part (%s)' % (fn, len(vs) - FP - 1, label), label)
        B.balance(fn, label, h, e, st)
        B.ok({n: h.content(e, st, atom('obj', 'ud', n)) for n in made} == before, fn + ' argument', loc, '%s changes what it shows (%s)' % (fn, label), label)
        # blocks that are neither texts nor their characters were only needed on the way
        freed = st.p.get('freed', ())
        live = {atom('heap', k) for k in range(st.p.get('heap', 0)) if atom('heap', k)[1][0][0] not in freed}
        strs_ = {x for x in live if st.mem.get(add(x, const(m.field('YASL_String', 'str')))) in live}
        rest = live - strs_ - {st.mem[add(x, const(m.field('YASL_String', 'str')))] for x in strs_}
        B.ok(not rest, fn + ' frees', loc, '%s never frees a block it worked in (%s)' % (fn, label), label)


def work(i):
    fn, node = TODO[i]
    B = SBench(THE.m, Report('C05', 'quick', 1), 'texts', 'memory')
    B.MAXSTEPS = 100000
    try:
        container(B, fn, node)
    except AnalysisBroken as x:
        return str(x)
    return B.rep.obl, B.rep.finds, B.steps


def check_C05(m, rep):
    rep.rule('texts: tostr of a list, table or set yields its parts in order, and ... for a container it lies in (only then)')
    rep.rule('memory: it changes none of them, stays within its memory blocks, frees what it worked in, and counts every reference')
    B = SBench(m, rep, 'texts', 'memory')
    fn = {'list': 'list_tostr', 'table': 'table_tostr', 'set': 'YASL_collections_set_tostr'}
    global THE, TODO
    THE, TODO = B, [(fn[kind], node) for kind, node in cases(rep.tier == 'thorough')]
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        for r in pool.imap_unordered(work, range(len(TODO)), 4):
            if isinstance(r, str):
                raise AnalysisBroken(r)
            obl, finds, steps = r
            B.n += 1
            B.steps += steps
            for k, (n, sample) in obl.items():
                rep.ok(k, sample[0] if sample else None, n)
            for k, v in sorted(finds.items()):
                rep.finds.setdefault(k, v)
    rep.cov['cases'] = B.n
    rep.cov['steps'] = B.steps
    rep.floor('texts', 300)
    rep.floor('memory', 300)
