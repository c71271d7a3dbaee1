"""What every instruction does to the value stack, the variables and the program counter (B01), calls (B02), patterns (B06)."""
import cvm, codegen
from ai import *
from ir import AnalysisBroken
from cvm import CVM

FP = 2
UNDEF_ = 'undef'


class ANY:
    def __eq__(self, o):
        return True

    def __repr__(self):
        return 'anything'


ANY = ANY()


class HI(CVM):
    def model(self, e, s, f, ins, name, b, args, ctx):
        if b == 'YASL_Table_search':
            return None
        return None


def where(m, opc):
    f = m.fn('vm_executenext')
    for i in f.instrs():
        if i.op == 'switch':
            for c, l in i.x[1] if isinstance(i.x, tuple) and len(i.x) > 1 and isinstance(i.x[1], (list, tuple)) else ():
                if c == opc:
                    for x in f.blocks[l].ins:
                        if m.loc(x):
                            return m.loc(x)
    return m.fnloc(f)


def same(w, g):
    """does the value g match the wanted one?"""
    if w is ANY:
        return True
    if w == UNDEF_ or isinstance(w, str):
        return False
    if w[1] is ANY:
        return w[0] is ANY or w[0] == g[0]
    return w[0] == g[0] and w[1] == g[1]


class Bench:
    def __init__(self, m, rep, rule):
        self.m, self.rep, self.rule = m, rep, rule
        self.n = 0
        self.steps = 0

    def T(self, n):
        return const(self.m.enum(n))

    def run(self, name, label, operands, L, T, expect, types=None, setup=None, cls=HI, refs=False, check=None, noreturn=False, fp=FP, fnum=1, lnum=0, mayfail=False):
        """expect(values, h, s0, end) -> (values, pc)"""
        m = self.m
        h = cls(m)
        h.refs = refs
        e = Engine(m, h)
        sp = fp + L + T
        s = h.state(fp, sp, types or {}, fnum, lnum)
        opc = m.enum(name)
        end = h.code(s, opc, *operands)
        if setup:
            setup(h, s)
        before = h.stack(e, s)
        want = expect(list(before), h, s, end) if expect else None
        s0 = s.copy()
        try:
            res = e.run(m.fn('vm_executenext'), [h.VM], s)
        except AnalysisBroken as x:
            raise AnalysisBroken('%s (%s): %s' % (name, label, x))
        self.steps += e.steps
        self.n += 1
        loc = where(m, opc)
        key = name
        for p, l in h.problems:
            self.rep.bad(self.rule, '%s: %s' % (key, p), l, '%s with %s' % (p, label))
        if noreturn:
            self.check(not res, key + ' goes on', loc, '%s goes on with the next instruction' % name, label)
            return h, e, s0, res
        if not res and not mayfail:
            self.check(False, key + ' never completes', loc, '%s never completes with %s' % (name, label), label)
            return h, e, s0, res
        if not want:
            return h, e, s0, res
        for rv, st in res:
            got = h.stack(e, st)
            wl, wpc = want[:2]
            if got is None:
                self.check(False, key + ' height', loc, '%s with %s leaves an unknown number of values' % (name, label), label)
                continue
            if len(got) != len(wl):
                self.check(False, key + ' height', loc, '%s with %s leaves %d values and should leave %d' % (name, label, len(got), len(wl)), label)
                continue
            for i, (w, g) in enumerate(zip(wl, got)):
                self.check(same(w, g), key + ' values', loc, '%s with %s leaves %s in slot %d, expected %s' % (
                    name, label, h.showv(g), i, w if isinstance(w, str) or w is ANY or w[1] is ANY else h.showv(w)), label)
            pc = h.get(e, st, 'pc')
            if wpc is not None:
                self.check(pc == wpc, key + ' next instruction', loc, '%s with %s goes on at %s and should at %s' % (name, label, show(pc), show(wpc)), label)
            for n in ('fp', 'frame_num', 'loopframe_num') if len(want) < 3 else want[2]:
                v = h.get(e, st, n)
                w = s0.mem[h.vm(n)] if len(want) < 4 or n not in want[3] else want[3][n]
                self.check(v == w, key + ' ' + n, loc, '%s with %s leaves %s as %s and should leave %s' % (name, label, n, show(v), show(w)), label)
            if check:
                check(h, e, s0, st, label, loc)
        return h, e, s0, res

    def check(self, ok, key, loc, msg, label):
        if ok:
            self.rep.ok(self.rule, key + ': ' + label)
        else:
            self.rep.bad(self.rule, key, loc, msg)


def up(h, s, i, addr=None, closed=None):
    """an upvalue: open on stack slot i, or closed"""
    m = h.m
    u = atom('obj', 'up', i)
    F = lambda n: add(u, const(m.field('Upvalue', n)))
    if addr is not None:
        s.mem[F('location')] = addr
    else:
        s.mem[F('location')] = F('closed')
        h.put(s, F('closed'), (atom('ty', 'closed', i), atom('val', 'closed', i)))
    s.mem[F('next')] = ZERO
    s.mem[u] = const(1)
    return u


def closure(h, s, ups):
    c = atom('obj', 'closure')
    h.put(s, h.slot(FP), (const(h.m.enum('Y_CLOSURE')), c))
    a = add(c, const(h.m.field('Closure', 'upvalues')))
    for i, u in enumerate(ups):
        s.mem[add(a, const(8 * i))] = u
    s.mem[add(c, const(h.m.field('Closure', 'num_upvalues')))] = const(len(ups))
    return c


def lit(i):
    return (atom('const', i, 0), atom('const', i, 8))


class HT(HI):
    """globals: a table looked up by constant"""
    def model(self, e, s, f, ins, name, b, args, ctx):
        if b.startswith('YASL_Table_'):
            s.p['table'] = s.p.get('table', ()) + ((b,) + tuple(args),)
        return None


def simple_instructions(B):
    m = B.m
    T = B.T
    undef = (T('Y_UNDEF'), ANY)
    nxt = lambda end: end
    for L in (0, 2):
        for t in (0, 1, 2):
            lab = '%d variables and %d temporaries' % (L, t)
            B.run('O_NCONST', lab, [], L, t, lambda v, h, s, end: (v + [undef], end))
            B.run('O_BCONST_T', lab, [], L, t, lambda v, h, s, end: (v + [(T('Y_BOOL'), const(1))], end))
            B.run('O_BCONST_F', lab, [], L, t, lambda v, h, s, end: (v + [(T('Y_BOOL'), ZERO)], end))
            B.run('O_END', lab, [], L, t, lambda v, h, s, end: (v + [(T('Y_END'), ANY)], end))
            for n in (0, 1, 127):
                B.run('O_LIT', '%s, constant %d' % (lab, n), [('b', n)], L, t, lambda v, h, s, end: (v + [lit(n)], end))
            for n in (0, 128, 300, 70000):
                B.run('O_LIT8', '%s, constant %d' % (lab, n), [('i', n)], L, t, lambda v, h, s, end: (v + [lit(n)], end))
            if t:
                B.run('O_DUP', lab, [], L, t, lambda v, h, s, end: (v + [v[-1]], end))
                B.run('O_POP', lab, [], L, t, lambda v, h, s, end: (v[:-1], end))
            if t == 2:
                B.run('O_SWAP', lab, [], L, t, lambda v, h, s, end: (v[:-2] + [v[-1], v[-2]], end))
            for k in range(t + 1):
                B.run('O_DECSP', '%s, %d' % (lab, k), [('b', k)], L, t, lambda v, h, s, end: (v[:len(v) - k], end))
            for k in (0, 1, 3):
                B.run('O_INCSP', '%s, %d' % (lab, k), [('b', k)], L, t,
                      lambda v, h, s, end: (v + [(s.mem[h.slot(len(v) + i)], s.mem[h.slot(len(v) + i, 8)]) for i in range(k)], end))
    for L in (1, 2, 3):
        for t in (1, 2):
            for n in range(L):
                lab = 'variable %d of %d, %d temporaries' % (n, L, t)
                i = FP + 1 + n
                B.run('O_LLOAD', lab, [('b', n)], L, t, lambda v, h, s, end: (v + [v[i]], end))
                B.run('O_LSTORE', lab, [('b', n)], L, t, lambda v, h, s, end: (v[:i] + [v[-1]] + v[i + 1:-1], end))
                B.run('O_MOVEUP_FP', lab, [('b', n)], L, t, lambda v, h, s, end: (v[:i] + v[i + 1:] + [v[i]], end))
                B.run('O_DEL_FP', lab, [('b', n)], L, t, lambda v, h, s, end: (v[:i] + v[i + 1:], end))
    B.run('O_LLOAD', 'variable 200', [('b', 200)], 1, 1, lambda v, h, s, end: (v + [big(h, FP + 1 + 200)], end), setup=lambda h, s: h.put(s, h.slot(FP + 1 + 200), big(h, FP + 201)))
    for n in (0, 7, 8, 126, 127, 128, 199, 254, 255):
        L = 256
        lab = 'variable %d of %d' % (n, L)
        i = FP + 1 + n
        B.run('O_LLOAD', lab, [('b', n)], L, 1, lambda v, h, s, end: (v + [v[i]], end))
        B.run('O_LSTORE', lab, [('b', n)], L, 1, lambda v, h, s, end: (v[:i] + [v[-1]] + v[i + 1:-1], end))
        B.run('O_MOVEUP_FP', lab, [('b', n)], L, 1, lambda v, h, s, end: (v[:i] + v[i + 1:] + [v[i]], end))
        B.run('O_DEL_FP', lab, [('b', n)], L, 1, lambda v, h, s, end: (v[:i] + v[i + 1:], end))
        B.run('O_DECSP', '%d of %d' % (n, L), [('b', n)], L, 1, lambda v, h, s, end: (v[:len(v) - n], end))
        B.run('O_INCSP', '%d on %d' % (n, L), [('b', n)], L, 0, lambda v, h, s, end: (v + [(s.mem[h.slot(len(v) + i)], s.mem[h.slot(len(v) + i, 8)]) for i in range(n)], end),
              setup=lambda h, s: [h.put(s, h.slot(FP + 1 + L + i), big(h, ('above', i))) for i in range(n)])
    # captured variables
    for n in (0, 1, 2, 7, 8, 9, 31, 127, 128, 200, 255):
        def ups(h, s):
            closure(h, s, [up(h, s, 0, h.slot(1)), up(h, s, 1), up(h, s, 2, h.slot(0))] + [up(h, s, i) for i in range(3, n + 1)])
        home = lambda h: h.slot(1) if n == 0 else h.slot(0) if n == 2 else add(atom('obj', 'up', n), const(m.field('Upvalue', 'closed')))
        lab = 'captured variable %d, %s' % (n, 'open' if n in (0, 2) else 'closed')
        B.run('O_ULOAD', lab, [('b', n)], 1, 1, lambda v, h, s, end: (v + [(s.mem[home(h)], s.mem[add(home(h), const(8))])], end), setup=ups)

        def stored(h, e, s0, st, label, loc):
            g = h.obj(e, st, home(h))
            w = h.obj(e, s0, h.slot(FP + 2))
            B.check(g == w, 'O_USTORE variable', loc, 'O_USTORE with %s leaves %s in the variable, expected %s' % (label, h.showv(g), h.showv(w)), label)
        B.run('O_USTORE', lab, [('b', n)], 1, 1, lambda v, h, s, end: ([v[-1] if h.slot(k) == home(h) else x for k, x in enumerate(v[:-1])], end), setup=ups, check=stored)
    # leaving the scope of a captured variable
    for L, t in ((2, 1), (2, 2)):
        for other in (None, 0):
            def pend(h, s):
                top = FP + L + t
                u = up(h, s, 0, h.slot(top))
                s.mem[h.vm('pending')] = u
                if other is not None:
                    s.mem[add(u, const(m.field('Upvalue', 'next')))] = up(h, s, 1, h.slot(top - 1))

            def closed(h, e, s0, st, label, loc):
                top = FP + L + t
                u = atom('obj', 'up', 0)
                c = add(u, const(m.field('Upvalue', 'closed')))
                w = h.obj(e, s0, h.slot(top))
                g = h.obj(e, st, c)
                B.check(e.load(st, add(u, const(m.field('Upvalue', 'location'))), None) == c and g == w, 'O_POP keeps the captured variable', loc,
                        'O_POP of a captured variable leaves it to the closures as %s, expected %s' % (h.showv(g), h.showv(w)), label)
                p = h.get(e, st, 'pending')
                w = ZERO if other is None else atom('obj', 'up', 1)
                B.check(p == w, 'O_POP other captured variables', loc, 'after O_POP of a captured variable the open captured variables are %s, expected %s' % (show(p), show(w)), label)
                if other is not None:
                    l = e.load(st, add(atom('obj', 'up', 1), const(m.field('Upvalue', 'location'))), None)
                    B.check(l == h.slot(top - 1), 'O_POP other captured variables', loc, 'O_POP also closes a captured variable below', label)
            B.run('O_POP', 'a captured variable on top%s' % (', another below' if other is not None else ''), [], L, t, lambda v, h, s, end: (v[:-1], end), setup=pend, check=closed)
    # jumps
    off = atom('arg', 'distance')
    B.run('O_BR_8', 'any distance', [('i', off)], 1, 1, lambda v, h, s, end: (v, add(end, off)))
    truthy = {'Y_UNDEF': None, 'Y_INT': True, 'Y_LIST': True, 'Y_TABLE': True, 'Y_FN': True, 'Y_CLOSURE': True, 'Y_CFN': True, 'Y_USERDATA': True, 'Y_USERPTR': True}
    for op in ('O_BRT_8', 'O_BRF_8', 'O_BRN_8'):
        for ty, tr in list(truthy.items()) + [('Y_BOOL', True), ('Y_BOOL', False)]:
            def val(h, s):
                if ty == 'Y_BOOL':
                    s.mem[h.slot(FP + 2, 8)] = const(1 if tr else 0)
            jump = (ty != 'Y_UNDEF') if op == 'O_BRN_8' else (tr is True) == (op == 'O_BRT_8')
            B.run(op, '%s%s on top' % (ty[2:].lower(), '' if ty != 'Y_BOOL' else ' ' + str(tr).lower()), [('i', off)], 1, 1,
                  lambda v, h, s, end: (v[:-1], add(end, off) if jump else end), types={FP + 2: ty}, setup=val)
    # globals
    for n in (0, 5, 200, 70000):
        for _ in (0,):
            h, e, s0, res = B.run('O_GLOAD_8', 'global %d' % n, [('i', n)], 1, 1, None, cls=HT)
            for rv, st in res:
                got = h.stack(e, st)
                c = st.p.get('table', ())
                ok = got is not None and len(got) == FP + 4 and got[:-1] == h.stack(e, s0) and h.get(e, st, 'pc') == add(h.CODE, const(9))
                B.check(ok, 'O_GLOAD_8 height', where(m, m.enum('O_GLOAD_8')), 'O_GLOAD_8 does not push exactly one value', 'global %d' % n)
                if ok:
                    vs = st.values(got[-1][0])
                    end = m.enum('Y_END')
                    B.check(end not in vs if vs is not None else end in st.excluded(got[-1][0]), 'O_GLOAD_8 value', where(m, m.enum('O_GLOAD_8')),
                            'O_GLOAD_8 pushes the internal marker for an absent entry as the value of a global that was never stored', 'global %d' % n)
                ok = len(c) == 1 and c[0][0].startswith('YASL_Table_search') and atom('globals') in c[0] and lit(n)[1] in c[0]
                B.check(ok, 'O_GLOAD_8 name', where(m, m.enum('O_GLOAD_8')), 'O_GLOAD_8 does not look up the global its operand names', 'global %d' % n)
        h, e, s0, res = B.run('O_GSTORE_8', 'global %d' % n, [('i', n)], 1, 1, lambda v, h, s, end: (v[:-1], end), cls=HT)
        for rv, st in res:
            c = st.p.get('table', ())
            w = h.obj(e, s0, h.slot(FP + 2))
            ok = len(c) == 1 and c[0][0].startswith('YASL_Table_insert') and atom('globals') in c[0] and lit(n)[1] in c[0] and w[1] in c[0] and c[0].index(lit(n)[1]) < c[0].index(w[1])
            B.check(ok, 'O_GSTORE_8 name', where(m, m.enum('O_GSTORE_8')), 'O_GSTORE_8 does not store the value on top under the global its operand names', 'global %d' % n)
    # functions
    for ln in (1, 40, 300, 70000):
        B.run('O_FCONST', 'body of %d bytes' % ln, [('i', ln)], 1, 1, lambda v, h, s, end: (v + [(T('Y_FN'), end)], add(end, const(ln))))
    captures(B)
    # operators: exactly one result, whatever the operands
    for op, n in sorted(codegen.NUMPOP.items()):
        for tys in operand_types(n):
            B.run(op, 'operands ' + ', '.join(t[2:].lower() for t in tys), [], 1, n, lambda v, h, s, end: (v[:-n] + [ANY], end), types={FP + 2 + i: t for i, t in enumerate(tys)}, mayfail=True)
    for tys in operand_types(3):
        B.run('O_SET', 'operands ' + ', '.join(t[2:].lower() for t in tys), [], 1, 3, lambda v, h, s, end: (v[:-3], end), types={FP + 2 + i: t for i, t in enumerate(tys)}, mayfail=True)
    for t in ('Y_INT', 'Y_STR', 'Y_LIST'):
        B.run('O_ECHO', t[2:].lower(), [('b', 1)], 1, 1, lambda v, h, s, end: (v[:-1], end), types={FP + 2: t})
        B.run('O_ASS', t[2:].lower(), [], 1, 1, lambda v, h, s, end: (v[:-1], end), types={FP + 2: t}, mayfail=True)
    for op in ('O_HALT', 'O_EXPORT'):
        h, e, s0, res = B.run(op, 'a value on top', [], 1, 1, None, noreturn=True)
        for b, st, loc, s in h.errors:
            v = h.stack(e, s)
            B.check(v == h.stack(e, s0), op + ' values', loc, '%s changes the values on the stack' % op, op)


def operand_types(n):
    TY = ('Y_UNDEF', 'Y_BOOL', 'Y_INT', 'Y_FLOAT', 'Y_STR', 'Y_LIST', 'Y_TABLE', 'Y_USERDATA')
    for t in TY:
        yield (t,) * n
    if n == 2:
        for a, b in (('Y_INT', 'Y_FLOAT'), ('Y_INT', 'Y_STR'), ('Y_STR', 'Y_INT'), ('Y_LIST', 'Y_INT'), ('Y_TABLE', 'Y_STR'), ('Y_STR', 'Y_LIST')):
            yield a, b
    if n == 3:
        for t in ('Y_LIST', 'Y_STR', 'Y_TABLE', 'Y_USERDATA'):
            for a, b in (('Y_INT', 'Y_INT'), ('Y_UNDEF', 'Y_INT'), ('Y_INT', 'Y_UNDEF'), ('Y_UNDEF', 'Y_UNDEF'), ('Y_STR', 'Y_INT')):
                yield t, a, b


def big(h, i):
    return (atom('ty', i), atom('val', i))


def captures(B):
    m = B.m
    NUP = 300                       # captured variables of the function around the closure
    cases = [((-1 - i,), ()) for i in (7, 8, 9, 15, 16, 31, 32, 63, 64, 127, 128, 199, 255, 256, 299)]
    cases += [((), ()), ((0,), ()), ((1, 0), ()), ((1,), (1,)), ((0,), (1,)), ((1,), (0,)), ((0, 1), (1, 0)), ((-1,), ()), ((-2, 0), ()), ((0, -1, 1), (2,)), ((1,), (2, 1, 0)), ((2,), (1, 0))]
    cases += [((n,), ()) for n in (7, 8, 127, 128, 200, 255)] + [((200,), (201, 200, 3)), ((255, 8, 130), (254,)), (tuple(range(0, 200, 25)), ())]
    for ups, open_ in cases:
        L = 3 if max(ups + open_, default=0) < 3 else 256
        lab = 'captures %s, already open %s' % (list(ups), list(open_))

        def setup(h, s):
            closure(h, s, [up(h, s, 'a', h.slot(1)), up(h, s, 'b')] + [up(h, s, i) for i in range(2, NUP)] if min(ups, default=0) < -2 else [up(h, s, 'a', h.slot(1)), up(h, s, 'b')])
            prev = None
            for i in sorted(open_, reverse=True):
                u = up(h, s, ('o', i), h.slot(FP + 1 + i))
                if prev is None:
                    s.mem[h.vm('pending')] = u
                else:
                    s.mem[add(prev, const(m.field('Upvalue', 'next')))] = u
                prev = u

        def expect(v, h, s, end):
            a = h.at(s, add(end, const(7)), ('b', len(ups)), *[('i', u) for u in ups])
            return (v + [(B.T('Y_CLOSURE'), ANY)], a)

        def check(h, e, s0, st, label, loc):
            c = h.obj(e, st, h.slot(FP + L + 2))[1]
            F = lambda x, n: e.load(st, add(x, const(m.field('Closure', n))), None)
            B.check(F(c, 'f') == add(h.CODE, const(9)), 'O_CCONST body', loc, 'the closure created starts at %s and not at its body' % show(F(c, 'f')), label)
            B.check(F(c, 'num_upvalues') == const(len(ups)), 'O_CCONST captures', loc, 'the closure created has %s captured variables, expected %d' % (show(F(c, 'num_upvalues')), len(ups)), label)
            got = []
            for k, u in enumerate(ups):
                x = e.load(st, add(c, const(m.field('Closure', 'upvalues') + 8 * k)), None)
                got.append(x)
                if u < 0:
                    w = atom('obj', 'up', 'ab'[~u] if ~u < 2 else ~u)
                    B.check(x == w, 'O_CCONST captures', loc, 'captured variable %d of the closure is %s and not the captured variable %d of the function around it' % (k, show(x), ~u), label)
                    continue
                l = e.load(st, add(x, const(m.field('Upvalue', 'location'))), None)
                B.check(l == h.slot(FP + 1 + u), 'O_CCONST captures', loc, 'captured variable %d of the closure is stored at %s and not in variable %d' % (k, show(l), u), label)
                if u in open_:
                    B.check(x == atom('obj', 'up', ('o', u)), 'O_CCONST shares', loc, 'a variable captured before is captured a second time instead of being shared', label)
            # the list of open captured variables: highest first, each once, none lost
            seen = []
            p = h.get(e, st, 'pending')
            while p != ZERO and len(seen) < 12:
                l = e.load(st, add(p, const(m.field('Upvalue', 'location'))), None)
                seen.append(l)
                p = e.load(st, add(p, const(m.field('Upvalue', 'next'))), None)
            w = [h.slot(FP + 1 + i) for i in sorted(set(open_) | {u for u in ups if u >= 0}, reverse=True)]
            B.check(seen == w, 'O_CCONST open variables', loc, 'the open captured variables are %s, expected %s' % ([show(x) for x in seen], [show(x) for x in w]), label)
        B.run('O_CCONST', lab, [('i', 7)], L, 1, expect, setup=setup, check=check)


def loops(B):
    m = B.m
    T = B.T
    off = lambda n: m.field('LoopFrame', n)
    for lnum in (-1, 0, 3):
        def begun(h, e, s0, st, label, loc):
            it = h.obj(e, st, h.loop(lnum + 1, 'iterable'))
            B.check(it == h.obj(e, s0, h.slot(FP + 2)), 'O_INITFOR value', loc, 'O_INITFOR iterates over %s and not over the value on top' % h.showv(it), label)
            B.check(e.load(st, h.loop(lnum + 1, 'iter'), None) == ZERO, 'O_INITFOR start', loc, 'a loop does not start with the first element', label)
            if lnum >= 0:
                B.check(h.obj(e, st, h.loop(lnum, 'iterable')) == h.obj(e, s0, h.loop(lnum, 'iterable')), 'O_INITFOR outer loop', loc, 'O_INITFOR changes the loop around it', label)
        B.run('O_INITFOR', 'loop depth %d' % (lnum + 1), [], 1, 1, lambda v, h, s, end: (v[:-1], end, ('fp', 'frame_num', 'loopframe_num'), {'loopframe_num': const(lnum + 1)}),
              check=begun, lnum=lnum)
    for lnum in (0, 2):
        B.run('O_ENDFOR', 'loop depth %d' % lnum, [], 1, 1, lambda v, h, s, end: (v, end, ('fp', 'frame_num', 'loopframe_num'), {'loopframe_num': const(lnum - 1)}), lnum=lnum)
        B.run('O_ENDCOMP', 'loop depth %d' % lnum, [], 1, 2, lambda v, h, s, end: (v[:-2] + [v[-1]], end, ('fp', 'frame_num', 'loopframe_num'), {'loopframe_num': const(lnum - 1)}), lnum=lnum)
    B.run('O_INITFOR', 'all loops in use', [], 1, 1, None, lnum=m_loops(m) - 1, noreturn=True)
    # iterating
    for n in (0, 1, 3):
        for at in range(n + 1):
            def lst(h, s):
                h.put(s, h.loop(0, 'iterable'), (T('Y_LIST'), atom('obj', 'ud')))
                s.mem[h.loop(0, 'iter')] = const(at)
                d = atom('obj', 'list')
                s.mem[add(atom('obj', 'ud'), const(m.field('RC_UserData', 'data')))] = d
                s.mem[add(d, const(m.field('YASL_List', 'count')))] = const(n)
                s.mem[add(d, const(m.field('YASL_List', 'items')))] = atom('obj', 'items')
                for i in range(n):
                    h.put(s, add(atom('obj', 'items'), const(16 * i)), (atom('ty', 'item', i), atom('val', 'item', i)))
            more = at < n
            item = (atom('ty', 'item', at), atom('val', 'item', at))

            def pos(h, e, s0, st, label, loc):
                v = e.load(st, h.loop(0, 'iter'), None)
                B.check(not more or v == const(at + 1), 'O_ITER_1 position', loc, 'after element %d of a list the loop goes on with element %s' % (at, show(v)), label)
            B.run('O_ITER_1', 'element %d of a list of %d' % (at, n), [], 1, 1,
                  lambda v, h, s, end: (v + ([item, (T('Y_BOOL'), const(1))] if more else [(T('Y_BOOL'), ZERO)]), end), setup=lst, check=pos)
    # tables: the slots of a table are keys, free (Y_END) or removed (Y_UNDEF)
    import itertools
    for n in (1, 3):
        for keys in itertools.product(('Y_INT', 'Y_END', 'Y_UNDEF'), repeat=n):
            for at in range(n + 1):
                def tbl(h, s):
                    h.put(s, h.loop(0, 'iterable'), (T('Y_TABLE'), atom('obj', 'ud')))
                    s.mem[h.loop(0, 'iter')] = const(at)
                    d = atom('obj', 'table')
                    s.mem[add(atom('obj', 'ud'), const(m.field('RC_UserData', 'data')))] = d
                    s.mem[add(d, const(m.field('YASL_Table', 'size')))] = const(n)
                    s.mem[add(d, const(m.field('YASL_Table', 'items')))] = atom('obj', 'items')
                    for i, k in enumerate(keys):
                        h.put(s, add(atom('obj', 'items'), const(32 * i)), (T(k), atom('val', 'key', i)))
                live = [i for i in range(at, n) if keys[i] == 'Y_INT']
                item = (T('Y_INT'), atom('val', 'key', live[0])) if live else None

                def tpos(h, e, s0, st, label, loc):
                    v = e.load(st, h.loop(0, 'iter'), None)
                    ok = not live or isconst(v) and live[0] < v[0] <= (live[1] if len(live) > 1 else n)
                    B.check(ok, 'O_ITER_1 position', loc, 'after key %d of a table the loop goes on with slot %s' % (live[0] if live else -1, show(v)), label)
                B.run('O_ITER_1', 'slot %d of a table of %s' % (at, '/'.join({'Y_INT': 'key', 'Y_END': 'free', 'Y_UNDEF': 'removed'}[k] for k in keys)), [], 1, 1,
                      lambda v, h, s, end: (v + ([item, (T('Y_BOOL'), const(1))] if live else [(T('Y_BOOL'), ZERO)]), end), setup=tbl, check=tpos)


class HL(HI):
    def model(self, e, s, f, ins, name, b, args, ctx):
        if b in ('YASL_List_append', 'YASL_List_push', 'YASL_Table_insert', 'YASL_Table_insert_fast'):
            s.p['put'] = s.p.get('put', ()) + (tuple(args),)
            return [(const(1) if ins.ty.k != 'void' else None, s)]
        if b in ('rcls_new', 'rcht_new'):
            u = atom('obj', 'new')
            s.mem[add(u, const(self.m.field('RC_UserData', 'data')))] = atom('obj', 'newdata')
            return [(u, s)]
        return None


def collections(B):
    m = B.m
    T = B.T
    for n in range(4):
        def setup(h, s):
            for i in range(n):
                s.mem[h.slot(FP + 3 + i)] = T('Y_INT')

        def check(h, e, s0, st, label, loc):
            got = [a for a in st.p.get('put', ())]
            w = [(atom('obj', 'newdata'), T('Y_INT'), atom('val', FP + 3 + i)) for i in range(n)]
            B.check(got == w, 'O_NEWLIST elements', loc, 'a list of %d elements is filled with %s' % (n, [show(a[-1]) for a in got]), label)
            v = h.stack(e, st)[-1]
            B.check(v[1] == atom('obj', 'new'), 'O_NEWLIST value', loc, 'the list created is not what is left on the stack', label)
        B.run('O_NEWLIST', 'list of %d' % n, [], 0, n + 2, lambda v, h, s, end: (v[:FP + 2] + [(T('Y_LIST'), ANY)], end), types={FP + 2: 'Y_END'}, setup=setup, check=check, cls=HL)
    for n in range(4):
        for undef in range(-1, n):
            def setup(h, s):
                for i in range(2 * n):
                    s.mem[h.slot(FP + 3 + i)] = T('Y_INT')
                if undef >= 0:
                    s.mem[h.slot(FP + 3 + 2 * undef + 1)] = T('Y_UNDEF')

            def check(h, e, s0, st, label, loc):
                got = sorted(st.p.get('put', ()))
                w = sorted((atom('obj', 'newdata'), T('Y_INT'), atom('val', FP + 3 + 2 * i), T('Y_INT'), atom('val', FP + 4 + 2 * i)) for i in range(n) if i != undef)
                B.check(got == w, 'O_NEWTABLE entries', loc, 'a table of %d entries is filled with %s' % (n, [[show(x) for x in a[1:]] for a in got]), label)
                v = h.stack(e, st)[-1]
                B.check(v[1] == atom('obj', 'new'), 'O_NEWTABLE value', loc, 'the table created is not what is left on the stack', label)
            B.run('O_NEWTABLE', 'table of %d, value %d undef' % (n, undef), [], 0, 2 * n + 2, lambda v, h, s, end: (v[:FP + 2] + [(T('Y_TABLE'), ANY)], end),
                  types={FP + 2: 'Y_END'}, setup=setup, check=check, cls=HL)


def m_loops(m):
    t = m.structs['struct.VM']
    sz = m.size(m.structs['struct.LoopFrame'])
    i = next(k for k, x in enumerate(m.fields['VM']) if x[1] == 'loopframes')
    return m.fields['VM'][i][3] // sz


def check_B01(m, rep):
    rep.rule('effect: executed on every stack shape listed, an instruction leaves exactly the values, variables, loops and frames its meaning in the code generator says, '
             'and goes on behind its operands or at its target')
    B = Bench(m, rep, 'effect')
    simple_instructions(B)
    loops(B)
    collections(B)
    rep.cov['shapes'] = B.n
    rep.cov['steps'] = B.steps
    rep.floor('effect', 1000)


# ------------------------------------------------------------------ calls
class HC(HI):
    """native functions: called with the frame set up, they leave some values on the stack and say how many of them are results"""
    def __init__(self, m):
        super().__init__(m)
        self.inline_call = True
        self.native = None        # (values left above the arguments, how many of them are returned)
        self.calls = []

    def on_call(self, e, s, f, ins, name, args, ctx, depth, stack):
        if name is None and self.VM in args:
            self.calls.append((self.stack(e, s), self.get(e, s, 'fp'), args, self.m.loc(ins), s.copy()))
            n, r = self.native
            sp = self.get(e, s, 'sp')
            if not isconst(sp):
                self.problems.append(('calls a native with an unknown number of arguments', self.m.loc(ins)))
                return []
            for i in range(n):
                self.put(s, self.slot(sp[0] + 1 + i), big(self, ('res', i)))
            s.mem[self.vm('sp')] = const(sp[0] + n)
            return [(const(r), s)]
        return super().on_call(e, s, f, ins, name, args, ctx, depth, stack)


def adjusted(T, vs, k):
    undef = (T('Y_UNDEF'), ANY)
    return vs if k < 0 else (vs + [undef] * k)[:k]


def frame_setup(h, s, i, **k):
    for n, v in k.items():
        s.mem[h.frame(i, n)] = v


def max_frames(m):
    i = next(k for k, x in enumerate(m.fields['VM']) if x[1] == 'frames')
    return m.fields['VM'][i][3] // m.size(m.structs['struct.CallFrame'])


def check_B02(m, rep):
    rep.rule('calls: for every kind of function, number of arguments, parameters, results and expected results listed: the function starts with exactly its parameters '
             '(missing ones undef, surplus ones dropped, the variable ones counted), and the caller finds its own values, its frame, its loops and exactly the results it expects')
    B = Bench(m, rep, 'calls')
    calls(B)
    rep.cov['shapes'] = B.n
    rep.cov['steps'] = B.steps
    rep.floor('calls', 2000)


def calls(B):
    m = B.m
    T = B.T
    ALL = ('fp', 'frame_num', 'loopframe_num', 'next_fp')
    kinds = ('Y_FN', 'Y_CLOSURE', 'Y_CFN')
    # setting up
    for k in (-1, 0, 1, 3, 100):
        for ty in kinds:
            for L, t in ((0, 1), (2, 2)):
                def begun(h, e, s0, st, label, loc):
                    for n, w in (('prev_fp', const(FP)), ('curr_fp', atom('nextfp')), ('lp', const(4)), ('num_returns', const(k))):
                        v = e.load(st, h.frame(8, n), None)
                        B.check(v == w, 'O_INIT_CALL ' + n, loc, 'O_INIT_CALL records %s as %s, expected %s' % (n, show(v), show(w)), label)
                B.run('O_INIT_CALL', '%s, %d results expected, %d values below' % (ty[2:].lower(), k, L + t - 1), [('b', k & 255)], L, t,
                      lambda v, h, s, end: (v, end, ALL, {'frame_num': const(8), 'next_fp': const(FP + L + t)}), types={FP + L + t: ty}, check=begun, fnum=7, lnum=4, cls=HC)
    B.run('O_INIT_CALL', 'all frames in use', [('b', 1)], 1, 1, None, types={FP + 2: 'Y_FN'}, fnum=max_frames(m) - 1, noreturn=True, cls=HC)
    for k in (-1, 1, 2):
        for ty in ('Y_TABLE', 'Y_LIST', 'Y_STR', 'Y_USERDATA', 'Y_INT'):
            def mc(h, e, s0, st, label, loc):
                v = h.stack(e, st)
                B.check(v[-1] == h.obj(e, s0, h.slot(FP + 2)), 'O_INIT_MC receiver', loc, 'the receiver of a method call is not its first argument but %s' % h.showv(v[-1]), label)
                n = e.load(st, h.frame(2, 'num_returns'), None)
                B.check(n == const(k), 'O_INIT_MC num_returns', loc, 'O_INIT_MC records %s expected results and not %d' % (show(n), k), label)
                vs = st.values(v[-2][0])
                want = {m.enum(x) for x in kinds}
                B.check(vs is not None and vs <= want, 'O_INIT_MC callee', loc, 'a method call goes on although what it calls is not a function', label)
            B.run('O_INIT_MC', '%s, %d results expected' % (ty[2:].lower(), k), [('b', k & 255), ('i', 5)], 1, 1,
                  lambda v, h, s, end: (v[:-1] + [ANY, v[-1]], end, ALL, {'frame_num': const(2), 'next_fp': const(FP + 2)}), types={FP + 2: ty}, check=mc, mayfail=True)
    # callable values: __call of a value that is no function
    for ty in ('Y_TABLE', 'Y_USERDATA', 'Y_INT'):
        def cc(h, e, s0, st, label, loc):
            v = h.stack(e, st)
            vs = st.values(v[-1][0])
            B.check(vs is not None and vs <= {m.enum(x) for x in kinds}, 'O_INIT_CALL callee', loc, 'a call goes on although what it calls is not a function', label)
        B.run('O_INIT_CALL', 'a %s on top' % ty[2:].lower(), [('b', 1)], 1, 1, lambda v, h, s, end: (v[:-1] + [ANY], end, ALL, {'frame_num': const(2), 'next_fp': const(FP + 2)}),
              types={FP + 2: ty}, check=cc, mayfail=True)
    # calling: caller frame FP, 1 variable, one temporary, callee at FP+3
    NF = FP + 3
    for args in (0, 1, 2, 4):
        for params in (0, 1, 3):
            for ty in ('Y_FN', 'Y_CLOSURE'):
                def setup(h, s):
                    s.mem[h.vm('next_fp')] = const(NF)
                    code = atom('obj', 'callee')
                    s.mem[code] = const(params)
                    if ty == 'Y_FN':
                        s.mem[h.slot(NF, 8)] = code
                    else:
                        c = closure(h, s, [])
                        h.put(s, h.slot(FP), big(h, FP))
                        s.mem[h.slot(NF, 8)] = c
                        s.mem[add(c, const(m.field('Closure', 'f')))] = code
                    frame_setup(h, s, 1, prev_fp=const(FP), curr_fp=atom('nextfp'), lp=ZERO, num_returns=const(1), pc=atom('old', 'pc'))

                def called(h, e, s0, st, label, loc):
                    v = e.load(st, h.frame(1, 'pc'), None)
                    B.check(v == add(h.CODE, const(1)), 'O_CALL return address', loc, 'a call returns to %s and not behind itself' % show(v), label)
                    for n, w in (('prev_fp', const(FP)), ('num_returns', const(1)), ('lp', ZERO)):
                        v = e.load(st, h.frame(1, n), None)
                        B.check(v == w, 'O_CALL frame', loc, 'a call changes %s of its frame to %s' % (n, show(v)), label)
                B.run('O_CALL', '%s with %d parameters, %d arguments' % (ty[2:].lower(), params, args), [], 1, 2 + args,
                      lambda v, h, s, end: (v[:NF + 1] + adjusted(T, v[NF + 1:], params), add(atom('obj', 'callee'), const(1)), ('fp', 'frame_num', 'loopframe_num'), {'fp': const(NF)}),
                      types={NF: ty}, setup=setup, check=called, cls=HC)
    # natives
    for args in (0, 1, 3):
        for num in (0, 2, 3, -1, -2):
            for left, r in ((0, 0), (1, 1), (2, 2), (3, 2), (2, 1), (2, 0)):
                for k in (-1, 0, 1, 3):
                    native_call(B, T, NF, args, num, left, r, k)
    # returning: caller FP, callee at NF
    for op in ('O_RET', 'O_CRET'):
        for locs in (0, 2):
            for r in (0, 1, 3):
                for k in (-1, 0, 1, 2, 4):
                    for pend in (False, True):
                        returning(B, T, NF, op, locs, r, k, pend)


def native_call(B, T, NF, args, num, left, r, k):
    m = B.m
    box = {}

    class N(HC):
        def __init__(self, m):
            super().__init__(m)
            self.native = (left, r)
            box['h'] = self

    def setup(h, s):
        s.mem[h.vm('next_fp')] = const(NF)
        c = atom('obj', 'cfn')
        s.mem[h.slot(NF, 8)] = c
        s.mem[add(c, const(m.field('CFunction', 'num_args')))] = const(num)
        frame_setup(h, s, 1, prev_fp=const(FP), curr_fp=atom('nextfp'), lp=const(-1), num_returns=const(k), pc=atom('old', 'pc'))
        h.put(s, h.loop(0, 'iterable'), big(h, 'loop'))
        box['v'] = None

    def params(v):
        a = v[NF + 1:]
        if num >= 0:
            return adjusted(T, a, num)
        fixed = ~num
        if len(a) < fixed:
            a = adjusted(T, a, fixed)
        return a[:fixed] + [(T('Y_INT'), const(len(a) - fixed))] + a[fixed:]

    def expect(v, h, s, end):
        box['params'] = v[:NF + 1] + params(v)
        res = ([big(h, ('res', i)) for i in range(left)])[left - r:] if r else []
        return (v[:NF] + adjusted(T, res, k), end, ('fp', 'frame_num', 'loopframe_num', 'next_fp'), {'frame_num': ZERO, 'fp': const(FP), 'next_fp': atom('nextfp'), 'loopframe_num': const(-1)})
    lab = 'native registered for %d, %d arguments, %d values left of which %d results, %d expected' % (num, args, left, r, k)
    h, e, s0, res = B.run('O_CALL', lab, [], 1, 2 + args, expect, types={NF: 'Y_CFN'}, setup=setup, cls=N, lnum=-1)
    loc = where(m, m.enum('O_CALL'))
    B.check(len(h.calls) >= 1, 'O_CALL native', loc, 'the native is not called', lab)
    for v, fp, a, l, st in h.calls:
        B.check(fp == const(NF), 'O_CALL native frame', loc, 'a native runs with its frame at %s' % show(fp), lab)
        w = box['params']
        ok = v is not None and len(v) == len(w) and all(same(x, y) for x, y in zip(w, v))
        B.check(ok, 'O_CALL native arguments', loc, 'a native registered for %d and called with %d arguments finds %s' % (num, args, [h.showv(x) for x in (v or [])[NF + 1:]]), lab)
        B.check(e.load(st, h.frame(1, 'pc'), None) == add(h.CODE, const(1)), 'O_CALL native return address', loc, 'while a native runs its frame does not say where it was called', lab)


def returning(B, T, NF, op, locs, r, k, pend):
    m = B.m
    ret = atom('obj', 'retaddr')

    def setup(h, s):
        s.mem[h.vm('next_fp')] = atom('inner')
        frame_setup(h, s, 1, prev_fp=const(FP), curr_fp=atom('nextfp'), lp=ZERO, num_returns=const(k), pc=ret)
        for i in range(3):
            h.put(s, h.loop(i, 'iterable'), big(h, ('loop', i)))
        if pend:
            u = up(h, s, 0, h.slot(NF + 1))
            s.mem[h.vm('pending')] = u
            s.mem[add(u, const(m.field('Upvalue', 'next')))] = up(h, s, 1, h.slot(FP + 1))

    def check(h, e, s0, st, label, loc):
        if not pend:
            return
        u = atom('obj', 'up', 0)
        c = add(u, const(m.field('Upvalue', 'closed')))
        w = h.obj(e, s0, h.slot(NF + 1))
        g = h.obj(e, st, c)
        B.check(e.load(st, add(u, const(m.field('Upvalue', 'location'))), None) == c and g == w, op + ' captured variables', loc,
                'a captured variable of the function that returns is left to its closures as %s, expected %s' % (h.showv(g), h.showv(w)), label)
        B.check(h.get(e, st, 'pending') == atom('obj', 'up', 1), op + ' captured variables below', loc, 'the captured variables of the caller are not left open', label)
    if pend and not locs:
        return
    lab = '%d variables, %d results, %d expected%s' % (locs, r, k, ', one captured' if pend else '')
    B.run(op, lab, [('b', locs)], NF - 0 - 0, locs + r - 0, lambda v, h, s, end: (v[:NF] + adjusted(T, v[NF + 1 + locs:], k), ret, ('fp', 'frame_num', 'loopframe_num', 'next_fp'),
          {'fp': const(FP), 'frame_num': ZERO, 'next_fp': atom('nextfp'), 'loopframe_num': ZERO}), setup=lambda h, s: (setup(h, s), s.mem.__setitem__(h.vm('fp'), const(NF))),
          check=check, cls=HC, fp=0, lnum=2)


# ------------------------------------------------------------------ patterns
class HP(HI):
    """constants are compared and tables looked up by deciding each comparison once"""
    def model(self, e, s, f, ins, name, b, args, ctx):
        if b == 'isequal':
            k = tuple(self.obj(e, s, x) for x in args)
            w = tuple(sorted(k))
            return self.decide(s, ('equal', w))
        if b in ('YASL_Table_search', ):
            return None
        return None

    def decide(self, s, what):
        out = []
        for v in (0, 1):
            t = s.copy()
            t.p['dec'] = t.p.get('dec', ()) + ((what, v),)
            out.append((const(v), t))
        return out

    def after_call(self, e, f, ins, name, args, res):
        return res


# pattern trees: (kind, argument, subpatterns)
def pbytes(m, p):
    """bytes of a pattern as the code generator lays them out"""
    k = p[0]
    op = m.enum(k)
    if k in ('P_BIND', 'P_BOOL', 'P_LIT'):
        return [('b', op), ('b', p[1])]
    if k == 'P_LIT8':
        return [('b', op), ('i', p[1])]
    if k in ('P_LS', 'P_VLS'):
        return [('b', op), ('i', len(p[1]))] + [x for q in p[1] for x in pbytes(m, q)]
    if k in ('P_TABLE', 'P_VTABLE'):
        return [('b', op), ('i', 2 * len(p[1]))] + [x for a, b in p[1] for q in (a, b) for x in pbytes(m, q)]
    if k == 'P_ALT':
        return [('b', op)] + pbytes(m, p[1]) + pbytes(m, p[2])
    return [('b', op)]


TYPEPAT = {'P_UNDEF': 'Y_UNDEF', 'P_TYPE_BOOL': 'Y_BOOL', 'P_TYPE_INT': 'Y_INT', 'P_TYPE_FLOAT': 'Y_FLOAT', 'P_TYPE_STR': 'Y_STR', 'P_TYPE_LS': 'Y_LIST', 'P_TYPE_TABLE': 'Y_TABLE'}


class NeedType(Exception):
    pass


class Ref:
    """does a pattern match? follows the decisions recorded on a path; returns (matched, bindings)"""
    def __init__(self, h, e, s0, st):
        self.h, self.e, self.s0, self.st, self.m = h, e, s0, st, h.m
        self.dec = list(st.p.get('dec', ()))
        self.binds = {}

    def typeis(self, v, T):
        n = self.m.enum(T)
        t = v[0]
        if isconst(t):
            return t[0] == n
        vs = self.st.values(t)
        if vs is not None and n not in vs or n in self.st.excluded(t):
            return False
        if vs is not None and vs == {n}:
            return True
        raise NeedType(T)

    def equal(self, a, b):
        w = tuple(sorted((a, b)))
        for i, (k, v) in enumerate(self.dec):
            if k == ('equal', w):
                return bool(v)
        raise NeedType('comparison with a constant')

    def match(self, p, v):
        k = p[0]
        if k in TYPEPAT:
            return self.typeis(v, TYPEPAT[k])
        if k == 'P_ANY':
            return True
        if k == 'P_BOOL':
            if not self.typeis(v, 'Y_BOOL'):
                return False
            r = self.st.eq(add(v[1], const(-p[1])), 0) if not isconst(v[1]) else v[1][0] == p[1]
            if r is None:
                raise NeedType('the truth of a boolean')
            return r
        if k in ('P_LIT', 'P_LIT8'):
            return self.equal(lit(p[1]), v)
        if k == 'P_BIND':
            self.binds[p[1]] = v
            return True
        if k == 'P_ALT':
            return self.match(p[1], v) or self.match(p[2], v)
        if k in ('P_LS', 'P_VLS'):
            if not self.typeis(v, 'Y_LIST'):
                return False
            its = self.h.lists.get(v[1])
            if its is None:
                raise NeedType('a list of unknown length')
            if len(its) != len(p[1]) if k == 'P_LS' else len(its) < len(p[1]):
                return False
            return all(self.match(q, x) for q, x in zip(p[1], its))
        if k in ('P_TABLE', 'P_VTABLE'):
            if not self.typeis(v, 'Y_TABLE'):
                return False
            tb = self.h.tables.get(v[1])
            if tb is None:
                raise NeedType('a table of unknown size')
            if k == 'P_TABLE' and tb[0] != len(p[1]):
                return False
            for key, q in p[1]:
                x = tb[1].get(self.key(key))
                if x is None or not self.match(q, x):
                    return False
            return True
        raise AnalysisBroken('pattern %s' % k)

    def key(self, p):
        m = self.m
        if p[0] == 'P_UNDEF':
            return ('Y_UNDEF', None)
        if p[0] == 'P_BOOL':
            return ('Y_BOOL', p[1])
        return ('lit', p[1])


class HPat(HP):
    def __init__(self, m):
        super().__init__(m)
        self.lists, self.tables, self.datas = {}, {}, {}
        self.n = 0

    def list(self, s, n):
        self.n += 1
        ud, d, it = (atom('obj', x, self.n) for x in ('lud', 'list', 'litems'))
        s.mem[add(ud, const(self.m.field('RC_UserData', 'data')))] = d
        s.mem[add(d, const(self.m.field('YASL_List', 'count')))] = const(n)
        s.mem[add(d, const(self.m.field('YASL_List', 'items')))] = it
        l = []
        for i in range(n):
            v = big(self, ('el', self.n, i))
            self.put(s, add(it, const(16 * i)), v)
            l.append(v)
        self.lists[ud] = l
        return ud

    def setlist(self, s, ud, i, v):
        it = e = None
        self.lists[ud][i] = v
        d = s.mem[add(ud, const(self.m.field('RC_UserData', 'data')))]
        it = s.mem[add(d, const(self.m.field('YASL_List', 'items')))]
        self.put(s, add(it, const(16 * i)), v)

    def table(self, s, count, entries):
        self.n += 1
        ud, d = atom('obj', 'tud', self.n), atom('obj', 'table', self.n)
        s.mem[add(ud, const(self.m.field('RC_UserData', 'data')))] = d
        s.mem[add(d, const(self.m.field('YASL_Table', 'count')))] = const(count)
        self.tables[ud] = (count, entries)
        self.datas[d] = ud
        return ud

    def model(self, e, s, f, ins, name, b, args, ctx):
        if b == 'YASL_Table_search' and args and args[0] in self.datas:
            t, v = args[1], args[2]
            k = None
            if t == const(self.m.enum('Y_UNDEF')):
                k = ('Y_UNDEF', None)
            elif t == const(self.m.enum('Y_BOOL')):
                k = ('Y_BOOL', v[0] if isconst(v) else None)
            else:
                a = single(t)
                if a and a[0] == 'const' and single(v) == ('const', a[1], 8):
                    k = ('lit', a[1])
            if k is None:
                self.problems.append(('looks up a key that is not the one of the pattern (%s)' % self.showv((t, v)), self.m.loc(ins)))
            r = self.tables[self.datas[args[0]]][1].get(k)
            if r is None:
                r = (const(self.m.enum('Y_END')), ZERO)
            return [(('agg', tuple(r)), s)]
        return super().model(e, s, f, ins, name, b, args, ctx)


def leafs(L):
    return [(k,) for k in TYPEPAT] + [('P_ANY',), ('P_BOOL', 0), ('P_BOOL', 1), ('P_LIT', 3), ('P_LIT', 127), ('P_LIT8', 300), ('P_BIND', L)]


def patterns(L):
    lv = leafs(L)
    some = [('P_TYPE_INT',), ('P_BIND', L), ('P_LIT', 3), ('P_LIT8', 300), ('P_BOOL', 1), ('P_ANY',)]
    ls = [('P_LS', ()), ('P_VLS', ())]
    for k in ('P_LS', 'P_VLS'):
        ls += [(k, (x,)) for x in lv]
        ls += [(k, (x, y)) for x in some for y in (('P_TYPE_STR',), ('P_BIND', L + 1), ('P_LIT8', 301))]
        ls += [(k, (('P_LS', (('P_TYPE_INT',), ('P_LIT', 4))), ('P_BIND', L)))]
        ls += [(k, (('P_ALT', ('P_LIT8', 300), ('P_TYPE_STR',)), ('P_TYPE_INT',)))]
        # where a list fails at its first, second, ... element
        for n in (3, 4):
            long = tuple([('P_LIT', 10 + i) for i in range(n - 1)] + [('P_LIT8', 300)])
            ls += [(k, long), (k, tuple([('P_BIND', L + i) for i in range(n)])), (k, long[:-1] + (('P_LS', (('P_LIT', 4), ('P_LIT8', 301))),)),
                   (k, (('P_TABLE', ((('P_LIT', 3), ('P_LIT8', 301)),)),) + long[1:])]
    tb = []
    for k in ('P_TABLE', 'P_VTABLE'):
        tb += [(k, ())] + [(k, ((('P_LIT', 3), x),)) for x in lv]
        tb += [(k, ((key, ('P_BIND', L)),)) for key in (('P_LIT8', 300), ('P_BOOL', 0), ('P_BOOL', 1), ('P_UNDEF',))]
        tb += [(k, ((('P_LIT', 3), x), (('P_LIT8', 300), ('P_BIND', L + 1)))) for x in some]
        tb += [(k, ((('P_BOOL', 1), ('P_LS', (('P_ANY',),))), (('P_LIT', 3), ('P_TYPE_STR',))))]
        for n in (3, 4):
            keys = [('P_LIT', 3), ('P_LIT8', 300), ('P_LIT', 4), ('P_LIT8', 302)][:n]
            tb += [(k, tuple((q, ('P_LIT8', 310 + i)) for i, q in enumerate(keys))), (k, tuple((q, ('P_BIND', L + i)) for i, q in enumerate(keys)))]
    alts = [('P_ALT', x, y) for x in lv for y in (('P_TYPE_STR',), ('P_LIT8', 301), ('P_BIND', L))]
    # whatever fails (or matches) on the left, the right side and the code behind it are found
    comp = ls + tb
    alts += [('P_ALT', x, ('P_TYPE_UNDEF',)) for x in ()] + [('P_ALT', x, ('P_LIT', 5)) for x in comp] + [('P_ALT', ('P_TYPE_FLOAT',), x) for x in comp[::3]]
    alts += [('P_ALT', ('P_ALT', x, ('P_LIT8', 301)), ('P_TYPE_INT',)) for x in lv[::2] + comp[::7]]
    return lv, ls, tb, alts


def check_B06(m, rep):
    rep.rule('match: for every pattern and value listed a match succeeds exactly when the pattern, read from the bytes the code generator lays out, fits the value; it binds the parts '
             'the pattern names, goes on behind the pattern or at the next arm, and leaves the values on the stack alone')
    B = Bench(m, rep, 'match')
    n = matching(B)
    rep.cov['patterns'] = n
    rep.cov['shapes'] = B.n
    rep.cov['steps'] = B.steps
    rep.floor('match', 3000)


def matching(B, only=lambda p: True):
    m = B.m
    L = 1
    lv, ls, tb, alts = patterns(L)
    prims = ['Y_UNDEF', 'Y_INT', 'Y_FLOAT', 'Y_STR', 'Y_USERDATA']

    def prim(T):
        return lambda h, s: (const(m.enum(T)), atom('val', 'matched'))

    def truth(b):
        return lambda h, s: (const(m.enum('Y_BOOL')), const(b))

    def lst(n, inner=None, truth=None):
        def mk(h, s):
            u = h.list(s, n)
            if truth is not None:
                h.setlist(s, u, n - 1, (const(m.enum('Y_BOOL')), const(truth)))
            if inner is not None and n:
                h.setlist(s, u, 0, (const(m.enum('Y_LIST')), h.list(s, inner)))
            return (const(m.enum('Y_LIST')), u)
        return mk

    def tab(count, keys, lists=(), truth=None):
        def mk(h, s):
            en = {k: big(h, ('entry', i)) for i, k in enumerate(keys)}
            for x in en.values():
                s.add_ne(x[0], m.enum('Y_END'))
            if truth is not None:
                en[keys[0]] = (const(m.enum('Y_BOOL')), const(truth))
            for k in lists:
                en[k] = (const(m.enum('Y_LIST')), h.list(s, 1))
            return (const(m.enum('Y_TABLE')), h.table(s, count, en))
        return mk
    P = [(T[2:].lower(), prim(T)) for T in prims] + [('true', truth(1)), ('false', truth(0))]
    LS = [('list of %d' % n, lst(n)) for n in range(6)] + [('list of %d with a list of %d' % (n, k), lst(n, k)) for n in (1, 2) for k in (0, 2)]
    LSB = [('list of %d booleans ending in %d' % (n, b), lst(n, None, b)) for n in (1, 2) for b in (0, 1)]
    TBB = [('table of 1 with a boolean %d' % b, tab(1, (('lit', 3),), (), b)) for b in (0, 1)]
    opaque = lambda p: 'P_BOOL' in str(p)
    k3, k300 = ('lit', 3), ('lit', 300)
    TB = [('empty table', tab(0, ())), ('table of 1', tab(1, (k3,))), ('table of 1 other key', tab(1, (k300,))), ('table of 2', tab(2, (k3, k300))), ('table of 3', tab(3, (k3, k300))),
          ('table of 3 entries', tab(3, (k3, k300, ('lit', 4)))), ('table of 4 entries', tab(4, (k3, k300, ('lit', 4), ('lit', 302)))), ('table of 4, one other key', tab(4, (k3, k300, ('lit', 4)))),
          ('table with a boolean key', tab(1, (('Y_BOOL', 1),))), ('table with false', tab(1, (('Y_BOOL', 0),))),
          ('table with true and a list', tab(2, (k3,), (('Y_BOOL', 1),)))]
    nested = lambda p: p[0] in ('P_LS', 'P_VLS') and any(q[0] == 'P_LS' for q in p[1])
    for group, vals in ((lv, P + LS[:2] + TB[:2]), (ls, P[:3] + LS + LSB + TB[:1]), (tb, P[:3] + LS[:1] + TB + TBB), (alts, P + LS[1:5] + LS[-1:] + LSB[:2] + TB[:2] + TB[5:7] + TB[-1:] + TBB)):
        for p in group:
            if not only(p):
                continue
            for name, mk in vals:
                if opaque(p) and (name.startswith('list of') and name not in ('list of 0', 'list of 1 booleans ending in 0', 'list of 1 booleans ending in 1') or
                                  name.startswith('table of') and 'boolean' not in name or name == 'table with true and a list' and "('P_LIT', 3), ('P_BOOL'" in str(p)):
                    continue          # the truth of elements that are opaque
                if 'P_LS' in str(p)[8:] and name.startswith('list of') and 'with' not in name and ("('P_LS'" in str(p)[10:] or "('P_VLS'" in str(p)[10:]):
                    continue          # elements of unknown type against a list pattern
                if "('P_LS'" in str(p) and name in ('table with a boolean key',) and 'TABLE' in str(p):
                    continue
                if '310' not in str(p) and "P_TABLE', ((('P_LIT', 3), ('P_LIT8', 301)),)" in str(p) and name.startswith('list of') and name[8] in '345':
                    continue          # elements of unknown type against a table pattern
                one_match(B, L, p, name, mk)
    return len(lv) + len(ls) + len(tb) + len(alts)


def one_match(B, L, p, name, mk):
    m = B.m
    off = atom('arg', 'distance')
    box = {}

    def setup(h, s):
        a = add(h.CODE, const(9))
        box['end'] = h.limit = h.at(s, a, *pbytes(m, p))
        h.at(s, box['end'], *[('b', m.enum('P_ANY'))] * 64)
        v = mk(h, s)
        h.put(s, h.slot(FP + 1 + L), v)
        box['v'] = v

    def check(h, e, s0, st, label, loc):
        r = Ref(h, e, s0, st)
        try:
            want = r.match(p, box['v'])
        except NeedType as x:
            B.check(False, 'O_MATCH %s decides blindly' % p[0], loc, 'matching %s against a %s is decided without looking at %s' % (showpat(p), name, x), label)
            return
        pc = h.get(e, st, 'pc')
        t = box['end'] if want else add(add(h.CODE, const(9)), off)
        B.check(pc == t, 'O_MATCH %s' % p[0], loc, 'matching %s against a %s should %s and goes on at %s (%s)' % (
            showpat(p), name, 'succeed' if want else 'fail', show(pc), 'expected %s' % show(t)), label)
        if want:
            for i, v in r.binds.items():
                g = h.obj(e, st, h.slot(FP + 2 + i))
                B.check(g == v, 'O_MATCH %s binds' % p[0], loc, 'matching %s against a %s binds variable %d to %s, expected %s' % (showpat(p), name, i, h.showv(g), h.showv(v)), label)
    B.run('O_MATCH', '%s against a %s' % (showpat(p), name), [('i', off)], L, 1, lambda v, h, s, end: (v, None), setup=setup, check=check, cls=HPat)


def showpat(p):
    n = p[0][2:].lower().replace('type_', '')
    if p[0] in ('P_LS', 'P_VLS'):
        return '[%s%s]' % (', '.join(showpat(q) for q in p[1]), ', ...' if p[0] == 'P_VLS' else '')
    if p[0] in ('P_TABLE', 'P_VTABLE'):
        return '{%s%s}' % (', '.join('%s: %s' % (showpat(a), showpat(b)) for a, b in p[1]), ', ...' if p[0] == 'P_VTABLE' else '')
    if p[0] == 'P_ALT':
        return '(%s | %s)' % (showpat(p[1]), showpat(p[2]))
    return n + (' %d' % p[1] if len(p) > 1 else '')
