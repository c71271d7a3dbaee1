"""Meaning of the operators: what every operator opcode does for every combination of operand types."""
import vmai
from ai import *
from ir import AnalysisBroken
from vmchk import H, opstate, opcodes, run, done

KINDS = ('Y_UNDEF', 'Y_BOOL', 'Y_INT', 'Y_FLOAT', 'Y_STR', 'Y_LIST', 'Y_TABLE', 'Y_USERDATA')
ROOTED = ('Y_LIST', 'Y_TABLE', 'Y_USERDATA')     # metatable hangs off the value


class HOps(H):
    """records how the opcode ends: value pushed, metamethod called, or error raised"""
    def __init__(self, m):
        super().__init__(m, set())
        self.events = []

    def reset(self):
        super().reset()
        self.events = []

    def on_call(self, e, s, f, ins, name, args, ctx, depth, stack):
        b = base(name)
        if b in ('vm_throw_err', 'YASL_throw_err'):
            self.events.append(('error', args[1], self.m.loc(ins)))
            return []
        if b == 'YASL_String_cmp':
            return [(atom('strcmp', args[0], args[1]), s)]
        if b == 'isequal':
            a = tuple(self.objat(e, s, x) for x in args)
            return [(atom('bool', 'isequal') + () if None in a else atom('bool', 'isequal', *sorted(a)), s)]
        if b == 'YASL_String_len':
            return [(atom('strlen', args[0]), s)]
        if b in ('YASL_String_new_sized', ) and single(args[1]) and single(args[1])[0] == 'glob':
            return [(atom('strlit', self.m.cstr(('g', single(args[1])[1]))), s)]
        if b in ('YASL_Table_search', 'YASL_Table_search_string_int'):
            k = None
            if b == 'YASL_Table_search' and len(args) > 2:
                kk = single(args[2])
                k = kk[1] if kk and kk[0] == 'strlit' else None
            elif b != 'YASL_Table_search':
                kk = single(args[1])
                k = self.m.cstr(('g', kk[1])) if kk and kk[0] == 'glob' else None
            s.p['lookup'] = s.p.get('lookup', ()) + ((k, args[0]),)
        return super().on_call(e, s, f, ins, name, args, ctx, depth, stack)

    def objat(self, e, s, a):
        t = e.load(s, a, None)
        return (t, e.load(s, add(a, const(8)), None))

    def on_initcall(self, e, s, f, ins, args):
        s.p['frame'] = (args[1], args[2])

    def model_call(self, e, s, f, ins, ctx, b):
        fr = s.p.get('frame')
        nfp = fr[0] if fr else None
        argv = ()
        if nfp is not None:
            n = add(self.sp(e, s), nfp, -1)
            if isconst(n) and 0 <= n[0] < 8:
                argv = tuple(self.objat(e, s, self.slot(add(nfp, const(i + 1)))) for i in range(n[0]))
        self.events.append(('call', s.p.get('lookup', ()), argv, fr[1] if fr else None, self.m.loc(ins), s.copy()))
        return super().model_call(e, s, f, ins, ctx, b)

    def on_noreturn(self, e, s, f, ins, name, args):
        self.events.append(('error', const(-1), self.m.loc(ins)))


def operands(h, e, s, tys):
    """(type, payload) of the operands, leftmost first"""
    out = []
    n = len(tys)
    for i, T in enumerate(tys):
        a = h.slot(add(h.sp(e, s), const(i - n + 1)))
        s.mem[a] = const(h.m.enum(T))
        v = atom('opnd', i)
        v = e.load(s, add(a, const(8)), None)
        out.append((const(h.m.enum(T)), v))
    return out


def fl(T, v):
    return v if T == 'Y_FLOAT' else atom('op', 'sitofp', v)


def canon(v):
    """normal form of boolean/float results"""
    k = single(v)
    if not k:
        return ('lin', v)
    if k[0] == 'not':
        c = canon(k[1])
        return negate(c)
    if k[0] == 'bool' and k[1] == 'fcmp':
        p, a, b = k[2], k[3], k[4]
        flip = {'ogt': 'olt', 'oge': 'ole', 'ugt': 'ult', 'uge': 'ule'}
        if p in flip:
            p, a, b = flip[p], b, a
        if p in ('oeq', 'une', 'one', 'ueq') and b < a:
            a, b = b, a
        return ('fcmp', p, a, b)
    if k[0] == 'cmp':
        p, a, b = k[1], k[2], k[3]
        if p in ('sgt', 'sge', 'slt', 'sle'):
            d = add(a, b, -1)
            if p == 'sgt':
                d = add(d, const(-1))
            elif p == 'slt':
                d = add(scale(d, -1), const(-1))
            elif p == 'sle':
                d = scale(d, -1)
            return ('ge0', d)
        if p in ('eq', 'ne'):
            d = add(a, b, -1)
            if d[1] and d[1][0][1] < 0:
                d = scale(d, -1)
            return (p, d)
        return (p, a, b)
    if k[0] == 'bool':
        return ('bool', v)
    if k[0] == 'op':
        op, a = k[1], list(k[2:])
        if op in ('fadd', 'fmul', 'and', 'or', 'xor', 'mul'):
            a.sort()
        return ('op', op) + tuple(a)
    return ('lin', v)


NEG = {'olt': 'uge', 'ole': 'ugt', 'oeq': 'une', 'une': 'oeq', 'one': 'ueq', 'ueq': 'one'}


def negate(c):
    if c[0] == 'ge0':
        return ('ge0', add(const(-1), c[1], -1))
    if c[0] == 'eq':
        return ('ne', c[1])
    if c[0] == 'ne':
        return ('eq', c[1])
    if c[0] == 'fcmp' and c[1] in NEG:
        return canon(atom('bool', 'fcmp', NEG[c[1]], c[2], c[3]))
    return ('not', c)


def truth(e, st, want, rv):
    """rv (a bool) has the truth value of the canonical condition want in state st"""
    if isconst(rv):
        b = rv[0] != 0
        w = want
        if w[0] == 'ge0':
            return st.nonneg(w[1]) if b else st.nonneg(add(const(-1), w[1], -1))
        if w[0] in ('eq', 'ne'):
            r = st.eq(w[1], 0)
            return r is not None and (r == b if w[0] == 'eq' else r != b)
        # a fact about a condition equivalent to want
        for f, (al, ex) in st.vs.items():
            if al is not None and len(al) == 1 and len(f) == 1 and f[0][1] == 1:
                c = canon((0, f))
                v = min(al) != 0
                if c == w:
                    return v == b
                if c == negate(w):
                    return v != b
        return False
    k = single(rv)
    if k and k[0] == 'cmp' and k[1] == 'ne' and k[3] == ZERO and single(k[2]) and single(k[2])[0] in ('bool', 'cmp', 'not'):
        rv = k[2]
    return canon(rv) == want


INTOPS = {
    'O_BOR': lambda L, R: ('or', L, R), 'O_BXOR': lambda L, R: ('xor', L, R), 'O_BAND': lambda L, R: ('and', L, R),
    'O_BANDNOT': lambda L, R: ('and', L, add(const(-1), R, -1)),
    'O_BSL': lambda L, R: ('shl', L, atom('op', 'and', *sorted([R, const(63)]))),
    'O_BSR': lambda L, R: ('ashr', L, atom('op', 'and', *sorted([R, const(63)]))),
}
OVERLOAD = {'O_BOR': '__bor', 'O_BXOR': '__bxor', 'O_BAND': '__band', 'O_BANDNOT': '__bandnot', 'O_BSL': '__bshl', 'O_BSR': '__bshr', 'O_ADD': '__add',
            'O_SUB': '__sub', 'O_MUL': '__mul', 'O_FDIV': '__div', 'O_IDIV': '__idiv', 'O_MOD': '__mod', 'O_EXP': '__pow', 'O_GT': '__gt', 'O_GE': '__ge',
            'O_LT': '__lt', 'O_LE': '__le', 'O_EQ': '__eq', 'O_NEG': '__neg', 'O_POS': '__pos', 'O_BNOT': '__bnot', 'O_LEN': '__len'}
COMPARE = {'O_GT': 'sgt', 'O_GE': 'sge', 'O_LT': 'slt', 'O_LE': 'sle'}
FCMP = {'sgt': 'ogt', 'sge': 'oge', 'slt': 'olt', 'sle': 'ole'}


def expected(m, op, tys, vals):
    """(result kind, checker(e, st, payload) -> bool) or ('call',) ; kinds: type name"""
    T = tys
    V = [v for t, v in vals]
    num = all(t in ('Y_INT', 'Y_FLOAT') for t in T)
    ints = all(t == 'Y_INT' for t in T)
    if op in INTOPS and ints:
        want = atom('op', *INTOPS[op](*V))
        return 'Y_INT', lambda e, st, p: canon(p) == canon(want)
    if op in ('O_ADD', 'O_SUB') and ints:
        return 'Y_INT', lambda e, st, p: p == add(V[0], V[1], 1 if op == 'O_ADD' else -1)
    if op == 'O_MUL' and ints:
        return 'Y_INT', lambda e, st, p: canon(p) == canon(atom('op', 'mul', *V))
    if op in ('O_ADD', 'O_SUB', 'O_MUL') and num:
        o = {'O_ADD': 'fadd', 'O_SUB': 'fsub', 'O_MUL': 'fmul'}[op]
        want = atom('op', o, fl(T[0], V[0]), fl(T[1], V[1]))
        return 'Y_FLOAT', lambda e, st, p: canon(p) == canon(want)
    if op == 'O_FDIV' and num:
        want = atom('op', 'fdiv', fl(T[0], V[0]), fl(T[1], V[1]))
        return 'Y_FLOAT', lambda e, st, p: p == want
    if op in ('O_IDIV', 'O_MOD') and ints:
        o = {'O_IDIV': 'sdiv', 'O_MOD': 'srem'}[op]

        def chk(e, st, p):
            if st.eq(V[1], 0) is not False:
                return False           # division by zero must not get here
            if st.eq(V[1], -1) is True:
                return p == (scale(V[0], -1) if op == 'O_IDIV' else ZERO)
            return p == atom('op', o, V[0], V[1])
        return 'Y_INT', chk
    if op == 'O_EXP' and num:
        def chk(e, st, p, ty):
            k = single(p)
            if ints and ty == m.enum('Y_INT'):
                # exponent not negative: integer power
                return st.nonneg(V[1]) and bool(k) and k[0] == 'op' and k[1] == 'fptosi' and ispow(k[2])
            if ints:
                return st.nonneg(add(const(-1), V[1], -1)) and ispow(p)
            return ispow(p)

        def ispow(p):
            k = single(p)
            return bool(k) and k[0] == 'pow' and k[1:] == (fl(T[0], V[0]), fl(T[1], V[1]))
        return 'pow', chk
    if op in COMPARE:
        p = COMPARE[op]
        if ints:
            want = canon(atom('cmp', p, *V))
            return 'Y_BOOL', lambda e, st, r: truth(e, st, want, r)
        if num:
            want = canon(atom('bool', 'fcmp', FCMP[p], fl(T[0], V[0]), fl(T[1], V[1])))
            return 'Y_BOOL', lambda e, st, r: truth(e, st, want, r)
        if T == ('Y_STR', 'Y_STR'):
            w1 = canon(atom('cmp', p, atom('strcmp', *V), ZERO))
            w2 = canon(atom('cmp', {'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge'}[p], atom('strcmp', V[1], V[0]), ZERO))
            return 'Y_BOOL', lambda e, st, r: truth(e, st, w1, r) or truth(e, st, w2, r)
    if op == 'O_EQ' and not (T[0] == T[1] and T[0] in ROOTED):
        want = canon(atom('bool', 'isequal', *sorted(vals)))
        return 'Y_BOOL', lambda e, st, r: truth(e, st, want, r)
    if op == 'O_ID':
        if T[0] != T[1]:
            return 'Y_BOOL', lambda e, st, r: r == ZERO
        want = canon(atom('cmp', 'eq', *V))
        return 'Y_BOOL', lambda e, st, r: truth(e, st, want, r)
    if op in ('O_NEG', 'O_POS') and ints:
        return 'Y_INT', lambda e, st, p: p == scale(V[0], -1 if op == 'O_NEG' else 1)
    if op in ('O_NEG', 'O_POS') and num:
        return 'Y_FLOAT', lambda e, st, p: p == (atom('op', 'fneg', V[0]) if op == 'O_NEG' else V[0])
    if op == 'O_BNOT' and ints:
        return 'Y_INT', lambda e, st, p: p == add(const(-1), V[0], -1)
    if op == 'O_LEN' and T == ('Y_STR',):
        return 'Y_INT', lambda e, st, p: p == atom('strlen', V[0])
    if op == 'O_NOT':
        return 'Y_BOOL', lambda e, st, r: truth(e, st, falsey(T[0], V[0]), r)
    return ('call',)


def falsey(T, v):
    """canonical condition under which a value is false"""
    if T == 'Y_UNDEF':
        return ('ge0', const(0))
    if T == 'Y_BOOL':
        return canon(atom('cmp', 'eq', v, ZERO))
    if T == 'Y_STR':
        return canon(atom('cmp', 'eq', atom('strlen', v), ZERO))
    if T == 'Y_FLOAT':
        return ('nan', v)
    return ('ge0', const(-1))


# NaN tests come in several spellings
_truth = truth


def truth(e, st, want, rv):
    if want[0] == 'nan':
        return any(_truth(e, st, canon(atom('bool', 'fcmp', p, want[1], want[1])), rv) for p in ('une', 'uno'))
    if want == ('ge0', const(0)) and not isconst(rv) or want == ('ge0', const(-1)) and not isconst(rv):
        return False
    return _truth(e, st, want, rv)


def runop(m, rep, op, ops, tys):
    h = HOps(m)
    box = {}

    def mk(e):
        s = opstate(h, e, ops[op])
        box['v'] = operands(h, e, s, tys)
        box['e'] = e
        if op == 'O_LEN' or True:
            pc = atom('arg', 'pc')
        return s
    out = []

    def oncall2(e, s, f, ins, name, args, ctx, depth, stack):
        if base(name) == 'pow':
            return [(atom('pow', *args), s)]
        return HOps.on_call(h, e, s, f, ins, name, args, ctx, depth, stack)
    h.on_call = oncall2
    run(h, rep, op, 'vm_executenext', mk, on_exit=lambda e, rv, st: out.append((e, st)))
    return h, box['v'], out


def check_S03(m, rep):
    rep.rule('value: for every operator and every combination of operand types (undef, bool, int, float, str, list, table, userdata) with a builtin meaning, every path of the '
             'opcode replaces the operands by one value of the specified type whose symbolic form is the specified function of the operands, in order')
    rep.rule('overload: for every other combination the opcode looks up the operator\'s own metamethod in the metatable of the left operand, calls it with the operands in order '
             'and keeps one result, or raises a TypeError when there is none; nothing else')
    rep.rule('error: integer division and modulo by zero, and only those, raise DivisionByZero')
    rep.rule('truth: undef, false, the empty string and NaN are false, everything else is true, in ! and in every conditional jump')
    rep.rule('equality: isequal, which == and the table lookups are built on, is true exactly for two strings of the same contents, the same bool, two undef, the same userptr, '
             'and two numbers that compare equal (as ints if both are, as floats otherwise)')
    ops = opcodes(m)
    TYPEERR, DIVERR = m.enum('YASL_TYPE_ERROR'), m.enum('YASL_DIVIDE_BY_ZERO_ERROR')
    unary = ('O_NEG', 'O_POS', 'O_BNOT', 'O_LEN', 'O_NOT')
    binary = tuple(INTOPS) + ('O_ADD', 'O_SUB', 'O_MUL', 'O_FDIV', 'O_IDIV', 'O_MOD', 'O_EXP', 'O_GT', 'O_GE', 'O_LT', 'O_LE', 'O_EQ', 'O_ID')
    missing = [o for o in unary + binary + ('O_BRF_8', 'O_BRT_8', 'O_BRN_8') if o not in ops]
    if missing:
        raise AnalysisBroken('operator opcodes not found: %s' % missing)
    where = m.fnloc(m.fn('vm_executenext'))
    combos = [(o, (a,)) for o in unary for a in KINDS] + [(o, (a, b)) for o in binary for a in KINDS for b in KINDS]
    for op, tys in combos:
        h, vals, out = runop(m, rep, op, ops, tys)
        key = '%s on %s' % (op, ', '.join(t[2:].lower() for t in tys))
        n = len(tys)
        exp = expected(m, op, tys, vals)
        calls = [x for x in h.events if x[0] == 'call']
        errs = [x for x in h.events if x[0] == 'error']
        bad = []
        if exp[0] != 'call':
            for c in calls:
                bad.append('value: calls a method (%s) although the operator is builtin for these types' % (c[1],))
            for x in errs:
                if op in ('O_IDIV', 'O_MOD') and x[1] == const(DIVERR):
                    continue
                bad.append('value: raises error %s at %s' % (show(x[1]), x[2]))
            if op in ('O_IDIV', 'O_MOD') and not any(x[1] == const(DIVERR) for x in errs):
                bad.append('error: division by zero is not reported')
            if not out:
                bad.append('value: no path produces a value')
            kinds = set()
            for e, st in out:
                d = add(h.sp(e, st), atom('sp0'), -1)
                top = h.slot(h.sp(e, st))
                tv, pv = e.load(st, top, None), e.load(st, add(top, const(8)), None)
                if d != const(1 - n):
                    bad.append('value: changes the number of values by %s' % show(d))
                    continue
                if exp[0] == 'pow':
                    ok = isconst(tv) and (tv[0] == m.enum('Y_FLOAT') or tv[0] == m.enum('Y_INT') and tys == ('Y_INT', 'Y_INT')) and exp[1](e, st, pv, tv[0])
                else:
                    ok = tv == const(m.enum(exp[0])) and exp[1](e, st, pv)
                if not ok:
                    bad.append('value: yields a value of type %s: %s' % (show(tv), showdeep(pv)))
        else:
            want = OVERLOAD.get(op)
            for x in errs:
                if x[1] != const(TYPEERR) and not (op in ('O_IDIV', 'O_MOD') and x[1] == const(DIVERR) and tys[1] == 'Y_INT'):
                    bad.append('overload: raises error %s instead of a TypeError at %s' % (show(x[1]), x[2]))
            if not any(x[1] == const(TYPEERR) for x in errs):
                bad.append('overload: a missing metamethod is not a TypeError')
            if not calls:
                bad.append('overload: never calls %s' % want)
            for _, lk, argv, ret, loc, st in calls:
                e = out[0][0] if out else None
                names = [k for k, t in lk]
                if names != [want]:
                    bad.append('overload: looks up %s instead of %s' % (names, want))
                elif not mtof(h, lk[0][1], tys[0], vals[0]):
                    bad.append('overload: looks %s up in %s, not in the metatable of the left operand' % (want, show(lk[0][1])))
                if list(argv) != list(vals):
                    bad.append('overload: calls %s with %s' % (want, [(show(a), show(b)) for a, b in argv]))
                if ret != const(1):
                    bad.append('overload: expects %s results' % (show(ret) if ret else '?'))
            for e, st in out:
                d = add(h.sp(e, st), atom('sp0'), -1)
                if d != const(1 - n):
                    bad.append('overload: changes the number of values by %s' % show(d))
            if len(out) and not calls:
                bad.append('overload: completes without calling a metamethod')
        for b in bad:
            r, t = b.split(': ', 1)
            rep.bad(r, key, where, t)
        if not bad:
            rep.ok('value' if exp[0] != 'call' else 'overload', key)
            if op in ('O_IDIV', 'O_MOD') and exp[0] != 'call':
                rep.ok('error', key)
    # conditional jumps
    for op, taken in (('O_BRF_8', True), ('O_BRT_8', False), ('O_BRN_8', None)):
        for T in KINDS + ('Y_CFN', 'Y_FN', 'Y_CLOSURE', 'Y_USERPTR'):
            h, vals, out = runop(m, rep, op, ops, (T,))
            key = '%s on %s' % (op, T[2:].lower())
            bad = []
            pc = atom('arg', 'pc')
            seq = add(pc, const(9))
            if h.events or not out:
                bad.append('does not complete normally')
            for e, st in out:
                if add(h.sp(e, st), atom('sp0'), -1) != const(-1):
                    bad.append('does not consume exactly the condition')
                now = h.get(e, st, 'pc')
                jumped = now != seq
                if jumped:
                    d = add(now, seq, -1)
                    k = single(d)
                    if not (k and k[0] == 'ld' and k[1] == add(pc, const(1))):
                        bad.append('jumps by something else than its operand: %s' % show(d))
                if taken is None:
                    ok = jumped == (T != 'Y_UNDEF')
                else:
                    ok = truth(e, st, falsey(T, vals[0][1]), const(int(jumped == taken)))
                if not ok:
                    bad.append('%s although the condition says otherwise' % ('jumps' if jumped else 'falls through'))
            for b in bad:
                rep.bad('truth', key, where, b)
            if not bad:
                rep.ok('truth', key)
    equality(m, rep)
    rep.cov['combinations'] = len(combos) + 36
    done(rep)
    rep.floor('value', 100)
    rep.floor('overload', 800)


def showdeep(v):
    k = single(v)
    if k and k[0] in ('bool', 'cmp', 'op'):
        return '%s(%s)' % (':'.join(str(x) for x in k[:3] if isinstance(x, str)), ', '.join(show(x) for x in k if not isinstance(x, str)))
    return show(v)


def mtof(h, mt, T, val):
    """mt is the metatable data of the value (userdata, list, table: its own; otherwise the builtin one of its type)"""
    data = h.m.field('RC_UserData', 'data')
    k = single(mt)
    if not k or k[0] != 'ld':
        return False
    a = add(k[1], const(-data))
    k = single(a)
    if not k or k[0] != 'ld':
        return False
    if T in ROOTED:
        return k[1] == add(val[1], const(h.m.field('RC_UserData', 'mt')))
    b = add(k[1], const(-8 * h.m.enum(T)))
    k = single(b)
    return bool(k) and k[0] == 'ld' and k[1] == h.vmaddr('builtins_htable')


def equality(m, rep):
    f = m.fn('isequal')
    kinds = KINDS + ('Y_USERPTR',)
    combos = [(a, b, None) for a in kinds for b in kinds if not a == b == 'Y_BOOL'] + [('Y_BOOL', 'Y_BOOL', (x, y)) for x in (0, 1) for y in (0, 1)]
    for a, b, given in combos:
        if True:
            h = HOps(m)
            e = Engine(m, h)
            al = [atom('arg', f.name, p) for p in f.params]
            s = State()
            vals = []
            for i, (x, T) in enumerate(zip(al, (a, b))):
                h.objs.add(x)
                s.mem[x] = const(m.enum(T))
                if given:
                    s.mem[add(x, const(8))] = const(given[i])
                vals.append(e.load(s, add(x, const(8)), None))
            if given:
                w = ('ge0', const(0 if given[0] == given[1] else -1))
            elif a == b == 'Y_STR':
                w = canon(atom('cmp', 'eq', atom('strcmp', *vals), ZERO))
            elif a == b and a in ('Y_INT', 'Y_USERPTR'):
                w = canon(atom('cmp', 'eq', *vals))
            elif {a, b} <= {'Y_INT', 'Y_FLOAT'}:
                w = canon(atom('bool', 'fcmp', 'oeq', fl(a, vals[0]), fl(b, vals[1])))
            else:
                w = ('ge0', const(0 if a == b == 'Y_UNDEF' else -1))
            out = []

            def oncall(e, s, f, ins, name, args, ctx, depth, stack):
                if base(name) == 'YASL_String_cmp':
                    return [(atom('strcmp', *args), s)]
                return None
            h.on_call = oncall
            key = '%s and %s' % (a[2:].lower(), b[2:].lower())
            res = e.run(f, al, s)
            bad = None if res else 'does not return'
            for rv, st in res:
                if w[0] == 'ge0' and not w[1][1]:
                    ok = rv == const(int(w[1][0] >= 0))
                elif a == b == 'Y_STR' and isconst(rv) and rv[0]:
                    ok = truth(e, st, w, rv) or st.eq(add(vals[0], vals[1], -1), 0) is True     # the same string
                else:
                    ok = truth(e, st, w, rv)
                if not ok:
                    bad = 'yields %s' % showdeep(rv)
            if bad:
                rep.bad('equality', key, m.fnloc(f), bad)
            else:
                rep.ok('equality', key)
    rep.floor('equality', 80)
