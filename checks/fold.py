"""S02: the compiler's constant folding computes what the opcodes compute."""
import arith, cgai, codegen, ops
from ai import *
from ir import AnalysisBroken

LEAVES = ('N_INT', 'N_FLOAT', 'N_BOOL', 'N_STR', 'N_UNDEF', 'N_VAR', 'N_CALL', 'N_BINOP', 'N_UNOP', 'N_LIST', 'N_TABLE')
TYPE = {'N_INT': 'Y_INT', 'N_FLOAT': 'Y_FLOAT', 'N_BOOL': 'Y_BOOL', 'N_STR': 'Y_STR', 'N_UNDEF': 'Y_UNDEF'}
LITERAL = {'N_INT': 'Y_INT', 'N_FLOAT': 'Y_FLOAT', 'N_BOOL': 'Y_BOOL', 'N_UNDEF': 'Y_UNDEF'}


class HFold(cgai.CG):
    def __init__(self, m, root):
        super().__init__(m)
        self.root = self.place(root)
        self.traps = []

    def on_call(self, e, s, f, ins, name, args, ctx, depth, stack):
        b = base(name)
        if b == 'fold' and args and args[0] != self.root:
            s.p['folded'] = s.p.get('folded', ()) + (args[0],)
            return [(ZERO, s)]
        if b == 'pow':
            return [(atom('pow', *args), s)]
        if b == 'isequal' or b not in self.m.functions or self.m.functions[b].decl:
            return [(atom('call', b, *args), s)] if b not in ('free', 'node_del') else [(ZERO, s)]
        return None

    def inline(self, e, g, depth):
        return True

    def on_arith(self, e, s, f, ins, a, b):
        t = arith.trapping(e, s, ins, a, b)
        if t:
            self.traps.append('%s at %s' % (t, self.m.loc(ins)))


def fields(h, e, s):
    F = h.F
    n = h.root
    v = F('Node', 'value')
    return {k: e.load(s, add(n, const(o)), None) for k, o in (('nodetype', F('Node', 'nodetype')), ('children', F('Node', 'children_len')), ('type', v),
                                                              ('left', v + 8), ('right', v + 16))}


def equal(tys, vals):
    """what == means on two builtin values, as a canonical condition"""
    T, V = tys, vals
    if T == ('Y_INT', 'Y_INT') or T == ('Y_BOOL', 'Y_BOOL'):
        return ops.canon(atom('cmp', 'eq', *V))
    if all(t in ('Y_INT', 'Y_FLOAT') for t in T):
        return ops.canon(atom('bool', 'fcmp', 'oeq', ops.fl(T[0], V[0]), ops.fl(T[1], V[1])))
    if T == ('Y_STR', 'Y_STR'):
        return ops.canon(atom('cmp', 'eq', atom('strcmp', *V), ZERO))
    return ('ge0', const(0 if T == ('Y_UNDEF', 'Y_UNDEF') else -1))


def meaning(m, opseq, tys, vals):
    """(type, checker) of the value the opcodes compute, or None when they call a metamethod or raise an error"""
    if opseq == ['O_CNCT']:
        return None
    neg = len(opseq) > 1
    o = opseq[0]
    if o == 'O_EQ':
        w = equal(tys, [v for t, v in vals])
        w = ops.negate(w) if neg else w
        return 'Y_BOOL', lambda e, st, p: ops.truth(e, st, w, p) if w[0] != 'ge0' or w[1][1] else p == const(int(w[1][0] >= 0))
    x = ops.expected(m, o, tys, vals)
    if x[0] == 'call':
        return None
    if x[0] == 'pow':
        ty = 'Y_INT' if tys == ('Y_INT', 'Y_INT') else 'Y_FLOAT'
        return ty, lambda e, st, p: x[1](e, st, p, m.enum(ty))
    if o in ('O_BSL', 'O_BSR'):
        # x & 63 is x for the distances between 0 and 63
        L, R = [v for t, v in vals]
        plain = atom('op', 'shl' if o == 'O_BSL' else 'ashr', L, R)
        return x[0], lambda e, st, p: x[1](e, st, p) or p == plain and st.nonneg(R) and st.nonneg(add(const(63), R, -1))
    if not neg:
        return x
    if o != 'O_ID':
        raise AnalysisBroken('no model of %s followed by !' % o)
    if tys[0] != tys[1]:
        return 'Y_BOOL', lambda e, st, p: p == const(1)
    if tys[0] == 'Y_FLOAT':
        return None
    w = ops.negate(ops.canon(atom('cmp', 'eq', *[v for t, v in vals])))
    return 'Y_BOOL', lambda e, st, p: ops.truth(e, st, w, p)


def fold(m, shape):
    h = HFold(m, shape)
    e = Engine(m, h)
    e.MAXSTATES = 400
    return h, [(e, st) for rv, st in e.run(m.fn('fold'), [h.root], State())]


def frame(m, rep, where):
    """kinds of nodes that have no value of their own at compile time"""
    kinds = m.enumtypes.get('NodeType')
    if not kinds:
        raise AnalysisBroken('enum NodeType not found')
    for k in sorted(kinds):
        if k in ('N_BINOP', 'N_UNOP', 'N_END'):
            continue
        for leaf in ('N_INT', 'N_BOOL', 'N_CALL'):
            kids = tuple(cgai.Shape(leaf, eff='E', label='part %d' % i, ival=atom('opnd', i) if leaf != 'N_CALL' else None) for i in range(5))
            sh = cgai.Shape(k, kids, name='name')
            h, out = fold(m, sh)
            bad = [] if out else ['folding does not return']
            for e, st in out:
                for a, v in st.mem.items():
                    if cgai.objbase(a) is not None and A.tab[cgai.objbase(a)][0] == 'obj':
                        o = h.shapes.get(A.tab[cgai.objbase(a)][1])
                        w = h.nodefield(o, a[0]) if o is not None else None
                        if w != v and not (w is None and single(v) and single(v)[0] in ('ld', 'init')):
                            bad.append('%s changes: %s becomes %s' % ('the node' if o is sh else 'a part of it', show(w) if w else 'a field', show(v)))
            for b in sorted(set(bad)):
                rep.bad('frame', '%s with parts of kind %s' % (k, leaf), where, b)
            if not bad:
                rep.ok('frame', '%s with parts of kind %s' % (k, leaf))
    rep.floor('frame', 60)


def check_S02(m, rep):
    rep.rule('value: for every operator, every combination of literal operands (int, float, bool, str, undef) and of operands that are no literals, every path of fold leaves the '
             'expression as it is or replaces it by one literal whose symbolic value is the one the opcodes of the operator compute for these operands (the same oracle as S03)')
    rep.rule('trap: no operation the folder performs on the constants traps or is undefined (division by zero, the quotient of the least integer and -1, shifts by 64 or more), '
             'and constants whose operation raises an error at run time are left to run time')
    rep.rule('frame: every other kind of expression or statement is left as it is, its parts folded in place')
    where = m.fnloc(m.fn('fold'))
    n = 0
    unary = [(t, [o], (a,)) for t, o in codegen.UNOPS.items() for a in LEAVES]
    binary = [(t, o, (a, b)) for t, o in codegen.BINOPS.items() for a in LEAVES for b in LEAVES]
    for tok, opseq, kin in unary + binary:
        kids = []
        for i, k in enumerate(kin):
            c = cgai.Shape(k, eff='E', label='operand %d' % i, ival=atom('opnd', i) if k in TYPE and k != 'N_STR' else None, name='s%d' % i if k == 'N_STR' else None)
            kids.append(c)
        sh = cgai.Shape('N_UNOP' if len(kin) == 1 else 'N_BINOP', tuple(kids), type=tok)
        key = '%s on %s' % (tok, ', '.join(k[2:].lower() for k in kin))
        h, out = fold(m, sh)
        n += 1
        tys = tuple(TYPE.get(k) for k in kin)
        bad = []
        for e, st in out:
            fs = fields(h, e, st)
            nt = fs['nodetype']
            if nt == const(m.enum(sh.kind)):
                if fs['type'] != const(m.enum(tok)) or fs['left'] != kids[0].addr or len(kids) > 1 and fs['right'] != kids[1].addr:
                    bad.append('value: the operator or an operand is changed although the expression is kept')
                continue
            lit = [k for k in LITERAL if const(m.enum(k)) == nt]
            if not lit:
                bad.append('value: becomes a node of kind %s' % show(nt))
                continue
            if None in tys:
                bad.append('value: replaced by a literal although an operand is not constant')
                continue
            vals = [(const(m.enum(t)), atom('opnd', i) if t != 'Y_STR' else atom('name', 's%d' % i)) for i, t in enumerate(tys)]
            x = meaning(m, list(opseq), tys, vals)
            if x is None:
                bad.append('value: replaced by a literal although the operator has no builtin meaning for these operands, so that metamethods and errors are lost')
                continue
            if LITERAL[lit[0]] != x[0]:
                bad.append('value: yields a %s literal, the operator a %s' % (lit[0][2:].lower(), x[0][2:].lower()))
            elif not x[1](e, st, fs['type']):
                bad.append('value: yields %s' % ops.showdeep(fs['type']))
            elif fs['children'] != ZERO:
                bad.append('value: the literal keeps %s children' % show(fs['children']))
        bad += ['trap: ' + why for why in h.traps]
        if not out:
            bad.append('value: folding does not return')
        for b in sorted(set(bad)):
            r, t = b.split(': ', 1)
            rep.bad(r, key, where, t)
        if not bad:
            rep.ok('value', key)
            rep.ok('trap', key)
    frame(m, rep, where)
    rep.cov['operator and operand combinations'] = n
    rep.floor('value', 1500)
