"""Operations that trap or are undefined on some operands."""
from ai import *


def width(ty):
    t = ty if isinstance(ty, str) else str(ty)
    t = t.lstrip('i')
    return int(t) if t.isdigit() else 64


def trapping(e, s, ins, a, b):
    """why the operation may trap in state s, or None"""
    op = ins.op
    if op in ('sdiv', 'srem', 'udiv', 'urem'):
        if s.eq(b, 0) is not False:
            return 'the divisor of a %s can be 0' % ('division' if op.endswith('div') else 'remainder')
        if op[0] == 's' and s.eq(b, -1) is not False and not s.nonneg(b):
            w = width(ins.ty)
            if s.eq(a, -2 ** (w - 1)) is not False and not s.nonneg(a) and not s.nonneg(add(a, const(2 ** (w - 1) - 1))):
                return 'the least integer can be divided by -1'
    elif op in ('shl', 'ashr', 'lshr'):
        w = width(ins.ty)
        if not (s.nonneg(b) and s.nonneg(add(const(w - 1), b, -1))):
            k = single(b)
            if k and k[0] == 'op' and k[1] == 'and' and any(isconst(x) and 0 <= x[0] < w for x in k[2:]):
                return None
            return 'the distance of a shift can be negative or %d and more' % w
    return None


DIVS = ('sdiv', 'srem', 'udiv', 'urem', 'shl', 'ashr', 'lshr')


def fieldof(m, f, v):
    """(struct, field) a pointer operand addresses, when it is a plain member access"""
    d = f.defs.get(v[1]) if v[0] == 'l' else None
    if d is None or d.op != 'getelementptr' or d.x.k != 'struct' or not d.x.name or len(d.args) != 3 or d.args[2][1][0] != 'c':
        return None
    n = d.x.name.split('.')[1] if '.' in d.x.name else d.x.name
    off = m.offset(d.x, d.args[2][1][1])
    for o, name, t, sz in m.fields.get(n, ()):
        if o == off:
            return n, name
    return None


NONZERO_FIELDS = {('YASL_Table', 'size'), ('YASL_Set', 'size')}


class Arith:
    loopfacts = True

    def loopkey(self, e, s, f, b):
        """which of the variables the loop changes are equal"""
        v = [s.env.get(i.res) for i in b.ins if i.op == 'phi']
        v = [x for x in v if x is not None and not isinstance(x[0], str)]
        return tuple(v.index(x) for x in v) if len(v) < 5 else None

    """mixin: records every division, remainder and shift, and what is known of its operands"""
    debts = {}

    def setup(self):
        self.seen, self.trap, self.divisors, self.calls = {}, {}, {}, {}

    def on_call(self, e, s, f, ins, name, args, ctx, depth, stack):
        for i in self.debts.get(name, ()):
            ok = s.eq(args[i], 0) is False
            self.calls.setdefault((f.name, ins.bb.name, ins.idx, i), []).append(ok)
        return super().on_call(e, s, f, ins, name, args, ctx, depth, stack)

    def on_arith(self, e, s, f, ins, a, b):
        super().on_arith(e, s, f, ins, a, b)
        if ins.op not in DIVS:
            return
        k = (f.name, ins.bb.name, ins.idx)
        t = trapping(e, s, ins, a, b)
        if t:
            self.trap.setdefault(k, (self.m.loc(ins), t))
            self.divisors.setdefault(k, set()).add(b)
        else:
            self.seen[k] = self.m.loc(ins)
        if ins.op.endswith(('div', 'rem')):
            s.add_ne(b, 0)
            if s.nonneg(b):
                s.ge = s.ge | {add(b, const(-1))}
            if s.nonneg(a) and s.nonneg(b):
                s.ge = s.ge | {e.binop(s, ins.op, a, b, ins.ty)}

    def on_load(self, e, s, f, ins, a, v):
        r = super().on_load(e, s, f, ins, a, v)
        if fieldof(self.m, f, ins.args[0][1]) in NONZERO_FIELDS:
            x = r if r is not None else v
            if not isconst(x):
                s.add_ne(x, 0)
                s.ge = s.ge | {add(x, const(-1))}
        for x, c in a[1]:
            g = A.tab[x]
            if g[0] == 'glob' and c == 1 and len(a[1]) > 1:
                lo = smallest(self.m, g[1])
                if lo is not None:
                    x = r if r is not None else v
                    s.ge = s.ge | {add(x, const(-lo))}
                    if lo > 0:
                        s.add_ne(x, 0)
        return r


def smallest(m, g):
    """least element of a constant array of integers"""
    d = m.globals.get(g)
    if not d or not d['const'] or not d['init'] or d['init'][0] != 'agg':
        return None
    v = [x[1] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) else x for x in d['init'][1]]
    if not v or not all(x[0] == 'c' and isinstance(x[1], int) for x in v):
        return None
    return min(x[1] for x in v)


def nonzero_value(m, f, v, seen=()):
    """the value is never 0: a constant, a prime, or the size of another table"""
    if v[0] == 'c':
        return v[1] != 0
    d = f.defs.get(v[1]) if v[0] == 'l' else None
    if d is None or v in seen:
        return d is not None
    seen += (v,)
    if d.op == 'call':
        return d.x and d.x[0] == 'g' and base(d.x[1]) == 'next_prime'
    if d.op == 'load':
        return fieldof(m, f, d.args[0][1]) in NONZERO_FIELDS
    if d.op == 'phi':
        return all(nonzero_value(m, f, x[1] if isinstance(x[0], str) or not isinstance(x[1], str) else x[0], seen) for x in d.args)
    if d.op == 'select':
        return all(nonzero_value(m, f, x[1], seen) for x in d.args[1:])
    return False


def check_M04(m, rep):
    import vmchk, vmai
    rep.rule('operands: every division, remainder and shift that the interpretation of natives, opcodes and API functions reaches has, on every path, a divisor other than 0, operands '
             'other than the least integer and -1, and a distance between 0 and 63')
    rep.rule('rest: every other division, remainder and shift of the library has such operands for all arguments of its function, or for all arguments at every call')
    rep.rule('size: the sizes that hashes are reduced by are never 0: every value stored there is a prime or the size of another table')

    class HA(Arith, vmchk.H):
        pass
    seen, trap, calls = {}, {}, {}
    roots = {}

    def root(label, fn, mk, args=None, assume=()):
        h = HA(m, set())
        h.setup()
        h.debts = debts
        vmchk.run(h, rep, label, fn, mk, args)
        return h

    def take(h, label, key=None):
        seen.update(h.seen)
        for k, (loc, t) in h.trap.items():
            trap.setdefault(k, (loc, t, label))
        for k, l in h.calls.items():
            calls.setdefault(k, []).extend((ok, label) for ok in l)

    def alone(f):
        """the function on its own, on all arguments its callers may give it"""
        al = [atom('arg', f.name, p) for p in f.params]

        def mk(e):
            s = State()
            for i in debts.get(f.name, ()):
                s.add_ne(al[i], 0)
                s.ge = s.ge | {add(al[i], const(-1))}
            return s
        return root(base(f.name), f.name, mk, lambda e, s: al), al
    debts = {}
    work = [f for f in m.functions.values() if not f.decl]
    nats = vmai.natives(m)
    for fn in sorted(nats):
        for ar in sorted(nats[fn]):
            take(root('%s/%d' % (base(fn), ar), fn, lambda e, ar=ar: vmai.native_state(e.h, e, ar)), '%s/%d' % (base(fn), ar))
    ops = vmchk.opcodes(m)
    for k in sorted(ops):
        def mk(e):
            s = vmchk.opstate(e.h, e, ops[k])
            vmchk.closure_frame(e.h, e, s)
            return s
        take(root(k, 'vm_executenext', mk), k)
    # functions that divide by an argument: their callers owe a number other than 0
    known = set(seen) | set(trap)
    for f in work:
        if not any((f.name, i.bb.name, i.idx) not in known and i.op in DIVS and i.op.endswith(('div', 'rem')) and i.args[1][1][0] == 'l' and i.args[1][1][1] in f.params for i in f.instrs()):
            continue
        ps = {f.params.index(i.args[1][1][1]) for i in f.instrs() if i.op in DIVS and i.op.endswith(('div', 'rem')) and i.args[1][1][0] == 'l' and i.args[1][1][1] in f.params}
        h, al = alone(f)
        need = {al.index(b) for k, bs in h.divisors.items() for b in bs if b in al and al.index(b) in ps}
        if need:
            debts[f.name] = need
    grown = True
    while grown:
        grown = False
        for f in work:
            for i in f.instrs():
                if i.op == 'call' and i.x and i.x[0] == 'g' and i.x[1] in debts:
                    for k in debts[i.x[1]]:
                        a = i.args[k][1]
                        if a[0] == 'l' and a[1] in f.params and f.name != i.x[1] and f.params.index(a[1]) not in debts.get(f.name, ()):
                            debts.setdefault(f.name, set()).add(f.params.index(a[1]))
                            grown = True
    rep.cov['divisors passed as arguments'] = {base(k): len(v) for k, v in debts.items()}
    for k in seen:
        rep.ok('operands', '%s at %s' % (base(k[0]), seen[k]))
    # what these roots do not reach
    for f in sorted(work, key=lambda f: f.name):
        todo = [i for i in f.instrs() if i.op in DIVS and i.args[1][1][0] != 'c' and (f.name, i.bb.name, i.idx) not in seen and (f.name, i.bb.name, i.idx) not in trap]
        owed = [(i, k) for i in f.instrs() if i.op == 'call' and i.x and i.x[0] == 'g' for k in debts.get(i.x[1], ()) if (f.name, i.bb.name, i.idx, k) not in calls]
        if not todo and not owed:
            continue
        h, al = alone(f)
        take(h, base(f.name))
        for i in todo:
            if (f.name, i.bb.name, i.idx) in seen and (f.name, i.bb.name, i.idx) not in trap:
                rep.ok('rest', '%s at %s' % (base(f.name), m.loc(i)))
    for (fn, bb, idx, p), l in sorted(calls.items()):
        f = m.functions[fn]
        i = next(i for i in f.instrs() if i.bb.name == bb and i.idx == idx)
        d = '%s passes %s as what %s divides by' % (base(fn), 'argument %d' % (p + 1), base(i.x[1]))
        bad = [lab for ok, lab in l if not ok]
        if bad:
            rep.bad('rest', d, m.loc(i), 'it can be 0 [reached from %s]' % bad[0])
        else:
            rep.ok('rest', d)
    for k, (loc, t, label) in sorted(trap.items()):
        rep.bad('operands', '%s %s' % (base(k[0]), next(i.op for i in m.functions[k[0]].instrs() if i.bb.name == k[1] and i.idx == k[2])), loc, '%s [reached from %s]' % (t, label))
    # sizes
    for f in work:
        for i in f.instrs():
            if i.op == 'store' and fieldof(m, f, i.args[1][1]) in NONZERO_FIELDS:
                if nonzero_value(m, f, i.args[0][1]):
                    rep.ok('size', '%s at %s' % (base(f.name), m.loc(i)))
                else:
                    rep.bad('size', '%s sets %s.%s' % ((base(f.name),) + fieldof(m, f, i.args[1][1])), m.loc(i), 'the value stored can be 0')
    prime(m, rep)
    vmchk.done(rep)
    rep.floor('operands', 10)
    rep.floor('rest', 5)
    rep.floor('size', 3)


def prime(m, rep):
    """is_prime holds of nothing below 2, and next_prime returns nothing it does not hold of"""
    f, g = m.fn('is_prime'), m.fn('next_prime')

    class HP(Arith, Hooks):
        pass
    h = HP()
    h.m = m
    h.setup()
    x = atom('arg', 'x')
    s = State()
    s.ge = frozenset([x])
    bad = False
    e = Engine(m, h)
    for rv, st in e.run(f, [x], s):
        if not (rv == ZERO or st.eq(rv, 0) is True or st.nonneg(add(x, const(-1)))):
            bad = True
    if bad:
        rep.bad('size', 'is_prime', m.fnloc(f), '0 can pass for a prime')
    else:
        rep.ok('size', 'is_prime holds of no number below 1')

    class HN(HP):
        def on_call(self, e, s, f, ins, name, args, ctx, depth, stack):
            if name == 'is_prime':
                s2 = s.copy()
                s2.ge = s2.ge | {add(args[0], const(-1))}
                return [(ZERO, s), (const(1), s2)]
            return None
    h = HN()
    h.m = m
    h.setup()
    s = State()
    s.ge = frozenset([x])
    bad = False
    e = Engine(m, h)
    out = e.run(g, [x], s)
    for rv, st in out:
        if not st.nonneg(add(rv, const(-1))):
            bad = True
    if bad or not out:
        rep.bad('size', 'next_prime', m.fnloc(g), 'can return 0')
    else:
        rep.ok('size', 'next_prime returns no number below 1')
