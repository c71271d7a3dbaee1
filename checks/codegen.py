"""Checks of the code generator: the bytecode emitted for every kind of node, symbolically decoded, does what the node means.

compiler.c is interpreted abstractly on node shapes (lib/cgai.py); the tape of emitted instructions it yields is walked by a
symbolic stack machine, and what it does (which parts are evaluated, in which order, with which variables in which slots) is
compared with a reference meaning of the node, for every outcome of every condition (bounded number of decisions).
"""
import copy, os
import ai, cgai
from ai import *
from cgai import Shape, CG
from ir import AnalysisBroken

MAXCHOICES = 9 if os.environ.get('VERIF_TIER') == 'thorough' else 6


def sh(kind, *children, **k):
    return Shape(kind, children, **k)


class E(Shape):
    """opaque expression"""
    def __init__(self, label, kind='N_GET', **k):
        super().__init__(kind, eff='E', label=label, **k)


class S(Shape):
    """opaque statement"""
    def __init__(self, label, names=(), breaks=False):
        super().__init__('N_BLOCK', eff='S', label=label, names=names, breaks=breaks)


class P(Shape):
    """opaque pattern"""
    def __init__(self, label):
        super().__init__('N_PATTABLE', eff='P', label=label)


def body(*c):
    return Shape('N_BODY', c)


class Cell:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


class Undecided(Exception):
    pass


class Broken(Exception):
    """the emitted code does something no correct code does"""


class Flow(Exception):
    def __init__(self, kind, vals=()):
        self.kind, self.vals = kind, vals


class Run:
    """what both machines share: decisions and events"""
    def __init__(self, dec):
        self.dec, self.used, self.ev, self.fns, self.nv, self.globals = dec, 0, [], [], {}, {}
        self.ncall = 0

    def choose(self, what, options=(True, False)):
        if self.used >= len(self.dec):
            raise Undecided(len(options))
        r = options[self.dec[self.used]] if self.dec[self.used] < len(options) else options[0]
        self.used += 1
        self.ev.append(('decide', what, r))
        return r

    def truth(self, v):
        if v == ('undef',):
            return False
        if v[0] == 'bool':
            return v[1]
        if v[0] == 'const' and v[1] == 'Y_INT':
            return True
        return self.choose(('true?', v))

    def fresh(self, label):
        n = self.nv.get(label, 0)
        self.nv[label] = n + 1
        return (label, n)

    def call(self, exp):
        self.ncall += 1
        v = ('returned', self.ncall)
        if isinstance(exp, int) and exp >= 0:
            return [v + (i,) for i in range(exp)]
        return [v + (exp,)]


# ------------------------------------------------------------------ reference meaning
BINOPS = {'T_BAR': ['O_BOR'], 'T_CARET': ['O_BXOR'], 'T_AMP': ['O_BAND'], 'T_AMPCARET': ['O_BANDNOT'], 'T_DEQ': ['O_EQ'], 'T_TEQ': ['O_ID'],
          'T_BANGEQ': ['O_EQ', 'O_NOT'], 'T_BANGDEQ': ['O_ID', 'O_NOT'], 'T_GT': ['O_GT'], 'T_GTEQ': ['O_GE'], 'T_LT': ['O_LT'], 'T_LTEQ': ['O_LE'],
          'T_TILDE': ['O_CNCT'], 'T_DGT': ['O_BSR'], 'T_DLT': ['O_BSL'], 'T_PLUS': ['O_ADD'], 'T_MINUS': ['O_SUB'], 'T_STAR': ['O_MUL'],
          'T_SLASH': ['O_FDIV'], 'T_DSLASH': ['O_IDIV'], 'T_MOD': ['O_MOD'], 'T_DSTAR': ['O_EXP']}
UNOPS = {'T_PLUS': 'O_POS', 'T_MINUS': 'O_NEG', 'T_BANG': 'O_NOT', 'T_CARET': 'O_BNOT', 'T_LEN': 'O_LEN'}


class Scope:
    def __init__(self, parent, fn=False):
        self.parent, self.fn, self.vars = parent, fn, {}

    def find(self, n):
        x = self
        while x is not None:
            if n in x.vars:
                return x.vars[n]
            x = x.parent
        return None

    def visible(self):
        """variables of the function itself, innermost first"""
        out, x = {}, self
        while x is not None:
            for n, c in x.vars.items():
                out.setdefault(n, c.v)
            if x.fn:
                break
            x = x.parent
        return out


class Ref(Run):
    def __init__(self, dec, scope):
        super().__init__(dec)
        self.scope = scope

    def one(self, n):
        r = self.expr(n, 1)
        return r[0]

    def env(self):
        return tuple(sorted(self.scope.visible().items()))

    def exprs(self, b):
        out = []
        for c in b.children:
            out += self.expr(c, 1)
        return out

    def expr(self, n, exp):
        """values the expression gives when `exp` values are asked for (only calls and conditionals give more than one)"""
        k = n.kind
        c = n.children
        if n.eff == 'E':
            x = exp if k in ('N_CALL', 'N_MCALL', 'N_TRIOP') else 1
            self.ev.append(('eval', n.label, x, self.env()))
            v = self.fresh(n.label)
            return [v] if x == 1 else [v + (i,) for i in range(x)] if isinstance(x, int) and x >= 0 else [v + (x,)]
        if k == 'N_VARCONT':
            return self.expr(c[0], n.ival)
        if k in ('N_CALL', 'N_MCALL'):
            f = self.one(c[1])
            if k == 'N_MCALL':
                self.ev.append(('method', f, n.name, exp))
            else:
                self.ev.append(('callee', f, exp))
            args = self.exprs(c[0])
            self.ev.append(('call', tuple(args)))
            return self.call(exp)
        if k == 'N_TRIOP':
            return self.expr(c[1] if self.truth(self.one(c[0])) else c[2], exp)
        if k == 'N_BINOP':
            if n.type in ('T_DAMP', 'T_DBAR', 'T_DQMARK'):
                v = self.one(c[0])
                if n.type == 'T_DQMARK':
                    stop = self.defined(v)
                else:
                    stop = self.truth(v) == (n.type == 'T_DBAR')
                return [v] if stop else [self.one(c[1])]
            v = (self.one(c[0]), self.one(c[1]))
            for o in BINOPS[n.type]:
                self.ev.append(('op', o) + v)
                v = ((o,) + v,)
            return [v[0]]
        if k == 'N_UNOP':
            v = self.one(c[0])
            self.ev.append(('op', UNOPS[n.type], v))
            return [(UNOPS[n.type], v)]
        if k == 'N_GET':
            v = (self.one(c[0]), self.one(c[1]))
            self.ev.append(('op', 'O_GET') + v)
            return [('O_GET',) + v]
        if k == 'N_SLICE':
            v = tuple(self.one(x) for x in c)
            self.ev.append(('op', 'O_SLICE') + v)
            return [('O_SLICE',) + v]
        if k == 'N_LIST':
            return [('list', tuple(self.exprs(c[0])))]
        if k == 'N_TABLE':
            return [('table', tuple(self.exprs(c[0])))]
        if k in ('N_LISTCOMP', 'N_TABLECOMP'):
            self.iterbegin(self.one(c[1].children[0]))
            self.scope = Scope(self.scope)
            cell = self.scope.vars[c[1].name] = Cell(('end',))
            out = []
            while True:
                v = self.iternext()
                if v is None:
                    break
                cell.v = v
                if c[2] is None or self.truth(self.one(c[2])):
                    out += self.exprs(c[0]) if c[0].kind == 'N_BODY' and not c[0].eff else self.expr(c[0], 1)
            self.ev.append(('iterated',))
            self.scope = self.scope.parent
            return [('list' if k == 'N_LISTCOMP' else 'table', tuple(out))]
        if k == 'N_VAR':
            cl = self.scope.find(n.name)
            if cl is not None:
                return [cl.v]
            return [self.globals.get(n.name, ('global', n.name))]
        if k == 'N_UNDEF':
            return [('undef',)]
        if k == 'N_BOOL':
            return [('bool', bool(n.ival))]
        if k == 'N_INT':
            return [('const', 'Y_INT', n.ival)]
        if k == 'N_FLOAT':
            return [('const', 'Y_FLOAT', n.ival[0])]
        if k == 'N_STR':
            return [('const', 'Y_STR', n.name)]
        if k == 'N_FNDECL':
            self.fns.append((n, self.scope))
            return [('function', len(self.fns))]
        raise AnalysisBroken('codegen: no reference meaning for expression %s' % k)

    def defined(self, v):
        if v == ('undef',):
            return False
        if v[0] in ('bool', 'const'):
            return True
        return self.choose(('defined?', v))

    def iterbegin(self, v):
        self.ev.append(('iterate', v))
        self.it = getattr(self, 'it', 0) + 1

    def iternext(self):
        r = self.choose(('more?',))
        return self.fresh('item') if r else None

    def decl(self, name, v):
        sc = self.scope
        if sc.parent is None and sc.fn == 'globals':
            self.globals[name] = v
        else:
            sc.vars[name] = Cell(v)

    def assign(self, name, v):
        cl = self.scope.find(name)
        if cl is not None:
            cl.v = v
        else:
            self.globals[name] = v

    def stmt(self, n):
        k, c = n.kind, n.children
        if n.eff == 'S':
            self.ev.append(('run', n.label, self.env()))
            if n.breaks:
                r = self.choose(('leaves?', n.label), ('goes on', 'breaks', 'continues'))
                if r != 'goes on':
                    raise Flow(r)
            for nm in n.names:
                self.decl(nm, self.fresh('var:' + nm))
            return
        if k == 'N_EXPRSTMT':
            e = c[0]
            if e.kind in ('N_STR', 'N_INT', 'N_FLOAT', 'N_BOOL', 'N_UNDEF', 'N_VAR') and not e.eff:
                return
            if e.kind in ('N_ASSIGN', 'N_SET') and not e.eff:
                self.stmt(e)
            else:
                self.expr(e, 1)
        elif k == 'N_BODY':
            for x in c:
                self.stmt(x)
        elif k == 'N_BLOCK':
            self.inscope(lambda: self.stmt(c[0]))
        elif k == 'N_ASSIGN':
            self.assign(n.name, self.one(c[0]))
        elif k == 'N_SET':
            v = tuple(self.one(x) for x in c)
            self.ev.append(('op', 'O_SET') + v)
        elif k in ('N_LET', 'N_CONST'):
            if c[0] is not None and c[0].kind == 'N_FNDECL' and c[0].name:
                # the function may refer to itself
                self.decl(n.name, ('undef',))
                self.assign(n.name, self.one(c[0]))
            else:
                self.decl(n.name, self.one(c[0]) if c[0] is not None else ('undef',))
        elif k == 'N_DECL':
            vals = self.exprs(c[1])
            for i, l in enumerate(c[0].children):
                v = vals[i]
                if l.kind == 'N_ASSIGN':
                    self.assign(l.name, v)
                elif l.kind == 'N_SET':
                    t = (self.one(l.children[0]), self.one(l.children[1]), v)
                    self.ev.append(('op', 'O_SET') + t)
                else:
                    self.decl(l.name, v)
        elif k == 'N_RET':
            raise Flow('returns', tuple(self.expr(c[0], 1)))
        elif k == 'N_MULTIRET':
            raise Flow('returns', tuple(self.exprs(c[0])))
        elif k == 'N_EXPORT':
            v = self.one(c[0])
            self.ev.append(('export', v))
            raise Flow('ends')
        elif k == 'N_ECHO':
            self.ev.append(('echo', self.one(c[0])))
        elif k == 'N_ASS':
            self.ev.append(('assert', self.one(c[0])))
        elif k == 'N_IF':
            b = c[1] if self.truth(self.one(c[0])) else c[2]
            if b is not None:
                self.stmt(b)
        elif k == 'N_WHILE':
            first = True
            while True:
                if not first and c[2] is not None:
                    self.stmt(c[2])
                first = False
                if not self.truth(self.one(c[0])):
                    break
                if self.loopbody(c[1]):
                    break
        elif k == 'N_FORITER':
            self.iterbegin(self.one(c[0].children[0]))
            outer = self.scope
            self.scope = Scope(outer)
            cell = self.scope.vars[c[0].name] = Cell(('end',))
            while True:
                v = self.iternext()
                if v is None:
                    break
                cell.v = v
                # a new variable each time round would be a different cell; YASL has one per loop
                if self.loopbody(c[1]):
                    break
            self.ev.append(('iterated',))
            self.scope = outer
        elif k == 'N_BREAK':
            raise Flow('breaks')
        elif k == 'N_CONT':
            raise Flow('continues')
        elif k == 'N_MATCH':
            scr = self.one(c[0])
            for p, g, b in zip(c[1].children, c[2].children, c[3].children):
                outer = self.scope
                self.scope = Scope(outer)
                try:
                    if not irrefutable(patname(p)) and not self.choose(('matches?', patname(p), scr)):
                        continue
                    binds = {}
                    self.bind(p, scr, binds)
                    for nm, v in binds.items():
                        self.decl(nm, v)
                    if g is not None and not self.truth(self.one(g)):
                        continue
                    self.stmt(b)
                    return
                finally:
                    self.scope = outer
        else:
            raise AnalysisBroken('codegen: no reference meaning for statement %s' % k)

    def bind(self, p, v, out):
        if p.kind in ('N_PATLET', 'N_PATCONST'):
            out[p.name] = v
        elif p.kind == 'N_PATALT':
            self.bind(p.children[0] if self.choose(('left?', v)) else p.children[1], v, out)
        elif p.kind in ('N_PATLS', 'N_PATVLS'):
            for i, x in enumerate(p.children):
                self.bind(x, ('element', i, v), out)
        elif p.kind in ('N_PATTABLE', 'N_PATVTABLE'):
            for i in range(0, len(p.children), 2):
                self.bind(p.children[i + 1], ('value', patname(p.children[i]), v), out)

    def inscope(self, f):
        outer = self.scope
        self.scope = Scope(outer)
        try:
            f()
        finally:
            self.scope = outer

    def loopbody(self, b):
        outer = self.scope
        try:
            self.stmt(b)
        except Flow as x:
            if x.kind == 'breaks':
                return True
            if x.kind != 'continues':
                raise
        finally:
            self.scope = outer
        return False

    def function(self, n, scope, args):
        old = self.scope
        self.scope = Scope(scope, fn=True)
        for p, a in zip(n.children[0].children, args):
            self.scope.vars[p.name] = Cell(a)
        try:
            self.stmt(n.children[1])
            r = (('undef',),)
        except Flow as x:
            if x.kind != 'returns':
                raise
            r = x.vals
        self.ev.append(('returns', r))
        self.scope = old


def irrefutable(p):
    return p[0] in ('P_ANY', 'P_BIND') or p[0] == 'P_ALT' and any(irrefutable(x) for x in p[1:])


def patname(p):
    """structure of a pattern"""
    if p.eff == 'P':
        return ('P', p.label)
    k = p.kind
    t = {'N_PATUNDEF': 'P_UNDEF', 'N_PATANY': 'P_ANY', 'N_PATBOOLTYPE': 'P_TYPE_BOOL', 'N_PATINTTYPE': 'P_TYPE_INT', 'N_PATFLOATTYPE': 'P_TYPE_FLOAT',
         'N_PATSTRTYPE': 'P_TYPE_STR', 'N_PATLSTYPE': 'P_TYPE_LS', 'N_PATTABLETYPE': 'P_TYPE_TABLE'}
    if k in t:
        return (t[k],)
    if k in ('N_PATLET', 'N_PATCONST'):
        return ('P_BIND',)
    if k == 'N_PATALT':
        return ('P_ALT',) + tuple(patname(c) for c in p.children)
    c = {'N_PATLS': 'P_LS', 'N_PATVLS': 'P_VLS', 'N_PATTABLE': 'P_TABLE', 'N_PATVTABLE': 'P_VTABLE'}
    if k in c:
        return (c[k],) + tuple(patname(x) for x in p.children)
    if k == 'N_PATBOOL':
        return ('P_BOOL', p.ival)
    if k == 'N_PATINT':
        return ('const', 'Y_INT', p.ival)
    if k == 'N_PATFL':
        return ('const', 'Y_FLOAT', p.ival[0])
    if k == 'N_PATSTR':
        return ('const', 'Y_STR', p.name)
    raise AnalysisBroken('codegen: pattern %s' % k)


# ------------------------------------------------------------------ the emitted code
NUMPOP = {}
for _o in ('BOR BXOR BAND BANDNOT BSL BSR ADD SUB MUL EXP FDIV IDIV MOD CNCT LT LE GT GE EQ ID GET').split():
    NUMPOP['O_' + _o] = 2
for _o in 'BNOT NEG POS NOT LEN'.split():
    NUMPOP['O_' + _o] = 1
NUMPOP['O_SLICE'] = 3
BYTEARG = ('O_LIT O_MOVEUP_FP O_DEL_FP O_DECSP O_INCSP O_INIT_CALL O_RET O_CRET O_USTORE O_ULOAD O_LSTORE O_LLOAD O_ECHO').split()
INTARG = ('O_LIT8 O_BR_8 O_BRF_8 O_BRT_8 O_BRN_8 O_GSTORE_8 O_GLOAD_8 O_FCONST O_CCONST O_MATCH').split()


class Frame:
    def __init__(self, stack, upvals):
        self.stack, self.upvals, self.above = stack, upvals, {}


class Machine(Run):
    def __init__(self, dec, A, stack, upvals):
        super().__init__(dec)
        self.A = A
        self.fr = Frame([Cell(v) for v in stack], upvals)
        self.loops = []
        self.calls = []
        self.steps = 0

    # ---- decoding
    def opcode(self, i):
        it = self.A.tape[i]
        if it[1] != 'b' or not isconst(it[2]) or it[2][0] not in self.A.opname:
            raise Broken('no instruction at %s but %s' % (show(it[0]), self.A.item(i)))
        return self.A.opname[it[2][0]]

    def arg(self, i, kind):
        if i >= len(self.A.tape) or self.A.tape[i][1] != kind:
            raise Broken('the operand of an instruction is missing: %s' % (self.A.item(i) if i < len(self.A.tape) else 'end of the code'))
        return self.A.tape[i][2]

    def at(self, pos):
        if pos == self.A.end:
            return len(self.A.tape)
        if pos not in self.A.index:
            raise Broken('jumps to %s, where no instruction starts' % show(pos))
        return self.A.index[pos]

    def push(self, v):
        self.fr.stack.append(Cell(v))
        self.fr.above.clear()

    def pop(self):
        if not self.fr.stack:
            raise Broken('pops an empty frame')
        v = self.fr.stack.pop().v
        return v

    def local(self, i):
        if not isconst(i) or not 0 <= i[0] < len(self.fr.stack):
            raise Broken('uses local %s of %d' % (show(i), len(self.fr.stack)))
        return self.fr.stack[i[0]]

    def upval(self, i):
        if not isconst(i) or not 0 <= i[0] < len(self.fr.upvals):
            raise Broken('uses captured variable %s of %d' % (show(i), len(self.fr.upvals)))
        return self.fr.upvals[i[0]]

    def env(self, info):
        out = []
        for n, i in info[4]:
            if i >= len(self.fr.stack):
                raise Broken('variable %s is in slot %d of %d' % (n, i, len(self.fr.stack)))
            out.append((n, self.fr.stack[i].v))
        return tuple(sorted(out))

    def pattern(self, i):
        """(structure, tree with binding slots, index after it)"""
        it = self.A.tape[i] if i < len(self.A.tape) else None
        if it is None:
            raise Broken('the code ends in a pattern')
        if it[1] == 'c':
            s = self.A.h.shapes[it[2][0]]
            if s.eff != 'P':
                raise Broken('%s in a pattern' % s.label)
            return ('P', s.label), None, i + 1
        if it[1] != 'b' or not isconst(it[2]) or it[2][0] not in self.A.patname:
            raise Broken('no pattern at %s but %s' % (show(it[0]), self.A.item(i)))
        p = self.A.patname[it[2][0]]
        if p == 'P_BIND':
            return (p,), (p, self.arg(i + 1, 'b')), i + 2
        if p == 'P_BOOL':
            return (p, self.arg(i + 1, 'b')[0]), None, i + 2
        if p == 'P_LIT' or p == 'P_LIT8':
            return self.A.constant(self.arg(i + 1, 'b' if p == 'P_LIT' else 'i')), None, i + 2
        if p in ('P_LS', 'P_VLS', 'P_TABLE', 'P_VTABLE', 'P_ALT'):
            if p == 'P_ALT':
                n, i = 2, i + 1
            else:
                n = self.arg(i + 1, 'i')
                if not isconst(n):
                    raise Broken('unknown number of subpatterns')
                n, i = n[0], i + 2
            st, tr = [], []
            for _ in range(n):
                a, b, i = self.pattern(i)
                st.append(a)
                tr.append(b)
            return (p,) + tuple(st), (p, tr, st), i
        return (p,), None, i + 1

    def bind(self, t, v):
        if t is None:
            return
        p = t[0]
        if p == 'P_BIND':
            if not isconst(t[1]):
                raise Broken('binds an unknown slot')
            self.fr.above[t[1][0] + 1] = v
        elif p == 'P_ALT':
            self.bind(t[1][0] if self.choose(('left?', v)) else t[1][1], v)
        elif p in ('P_LS', 'P_VLS'):
            for i, x in enumerate(t[1]):
                self.bind(x, ('element', i, v))
        else:
            for i in range(0, len(t[1]), 2):
                self.bind(t[1][i + 1], ('value', t[2][i], v))

    # ---- execution
    def run(self, i, limit=4000):
        A = self.A
        while i < len(A.tape):
            self.steps += 1
            if self.steps > limit:
                raise Broken('does not end')
            it = A.tape[i]
            if it[1] == 'c':
                i = self.child(i, it[2])
                continue
            o = self.opcode(i)
            nxt = i + 1
            arg = None
            if o in BYTEARG:
                arg, nxt = self.arg(i + 1, 'b'), i + 2
            elif o in INTARG:
                arg, nxt = self.arg(i + 1, 'i'), i + 2
            st = self.fr.stack
            after = lambda: add(A.tape[nxt - 1][0], A.tape[nxt - 1][3])
            if o in NUMPOP:
                v = tuple(reversed([self.pop() for _ in range(NUMPOP[o])]))
                self.ev.append(('op', o) + v)
                self.push((o,) + v)
            elif o == 'O_SET':
                v = tuple(reversed([self.pop() for _ in range(3)]))
                self.ev.append(('op', o) + v)
            elif o == 'O_NCONST':
                self.push(('undef',))
            elif o in ('O_BCONST_T', 'O_BCONST_F'):
                self.push(('bool', o == 'O_BCONST_T'))
            elif o in ('O_LIT', 'O_LIT8'):
                self.push(A.constant(arg))
            elif o == 'O_END':
                self.push(('end',))
            elif o == 'O_POP':
                self.pop()
            elif o == 'O_DUP':
                v = self.pop()
                self.push(v)
                self.push(v)
            elif o == 'O_SWAP':
                a, b = self.pop(), self.pop()
                self.push(a)
                self.push(b)
            elif o == 'O_LLOAD':
                self.push(self.local(arg).v)
            elif o == 'O_LSTORE':
                v = self.pop()
                self.local(arg).v = v
            elif o == 'O_ULOAD':
                self.push(self.upval(arg).v)
            elif o == 'O_USTORE':
                self.upval(arg).v = self.pop()
            elif o == 'O_GLOAD_8':
                n = A.constname(arg)
                self.push(self.globals.get(n, ('global', n)))
            elif o == 'O_GSTORE_8':
                self.globals[A.constname(arg)] = self.pop()
            elif o == 'O_MOVEUP_FP':
                c = self.local(arg)
                st.remove(c)
                st.append(c)
            elif o == 'O_DEL_FP':
                st.remove(self.local(arg))
            elif o == 'O_INCSP':
                for _ in range(arg[0]):
                    if len(st) not in self.fr.above:
                        raise Broken('makes slot %d a variable although the pattern did not bind it' % len(st))
                    st.append(Cell(self.fr.above[len(st)]))
            elif o == 'O_DECSP':
                for _ in range(arg[0]):
                    self.pop()
            elif o == 'O_BR_8':
                nxt = self.at(add(after(), arg))
            elif o in ('O_BRF_8', 'O_BRT_8', 'O_BRN_8'):
                v = self.pop()
                if o == 'O_BRN_8':
                    t = Ref.defined(self, v)
                else:
                    t = self.truth(v) == (o == 'O_BRT_8')
                tgt = self.at(add(after(), arg))
                if t:
                    nxt = tgt
            elif o in ('O_FCONST', 'O_CCONST'):
                start = after()
                end = self.at(add(start, arg))
                ups = []
                if o == 'O_CCONST':
                    n = self.arg(end, 'b')
                    end += 1
                    for j in range(n[0]):
                        u = self.arg(end, 'i')
                        if not isconst(u):
                            raise Broken('captures an unknown variable')
                        # a function may capture the variable it is about to become
                        ups.append(None if u == const(len(st)) else self.local(u) if u[0] >= 0 else self.upval(const(~u[0])))
                        end += 1
                self.fns.append((nxt, ups))
                self.push(('function', len(self.fns)))
                for j, u in enumerate(ups):
                    if u is None:
                        ups[j] = st[-1]
                nxt = end
            elif o == 'O_NEWLIST' or o == 'O_NEWTABLE':
                vs = []
                while True:
                    v = self.pop()
                    if v == ('end',):
                        break
                    vs.append(v)
                self.push(('list' if o == 'O_NEWLIST' else 'table', tuple(reversed(vs))))
            elif o == 'O_INITFOR':
                v = self.pop()
                self.ev.append(('iterate', v))
                self.loops.append(v)
            elif o == 'O_ITER_1':
                if not self.loops:
                    raise Broken('iterates outside of a loop')
                if self.choose(('more?',)):
                    self.push(self.fresh('item'))
                    self.push(('bool', True))
                else:
                    self.push(('bool', False))
            elif o in ('O_ENDFOR', 'O_ENDCOMP'):
                if not self.loops:
                    raise Broken('ends a loop that is not there')
                self.loops.pop()
                self.ev.append(('iterated',))
                if o == 'O_ENDCOMP':
                    v = self.pop()
                    self.pop()
                    self.push(v)
            elif o == 'O_INIT_CALL':
                self.ev.append(('callee', st[-1].v if st else None, A.expected(arg)))
                self.calls.append((len(st), A.expected(arg)))
            elif o == 'O_INIT_MC':
                x, nm = self.arg(i + 1, 'b'), self.arg(i + 2, 'i')
                nxt = i + 3
                self.ev.append(('method', st[-1].v if st else None, A.constname(nm), A.expected(x)))
                self.calls.append((len(st), A.expected(x)))
            elif o == 'O_CALL':
                if not self.calls:
                    raise Broken('calls without a callee')
                n, x = self.calls.pop()
                if len(st) < n:
                    raise Broken('calls with the callee popped')
                args = tuple(c.v for c in st[n:])
                del st[n - 1:]
                self.ev.append(('call', args))
                for v in self.call(x):
                    self.push(v)
            elif o in ('O_RET', 'O_CRET'):
                if len(st) < arg[0]:
                    raise Broken('returns with %d of %d locals' % (len(st), arg[0]))
                raise Flow('returns', tuple(c.v for c in st[arg[0]:]))
            elif o == 'O_EXPORT':
                self.ev.append(('export', self.pop()))
                raise Flow('ends')
            elif o == 'O_ECHO':
                v = self.pop()
                self.ev.append(('echo', v))
            elif o == 'O_ASS':
                self.ev.append(('assert', self.pop()))
            elif o == 'O_MATCH':
                structure, tree, j = self.pattern(nxt)
                tgt = self.at(add(after(), arg))
                v = st[-1].v if st else None
                if irrefutable(structure) or self.choose(('matches?', structure, v)):
                    self.bind(tree, v)
                    nxt = j
                else:
                    nxt = tgt
            else:
                raise Broken('instruction %s, which is not generated' % o)
            i = nxt
        return

    def child(self, i, info):
        sh = self.A.h.shapes[info[0]]
        env = self.env(info)
        if sh.eff == 'E':
            x = self.A.expected(info[3])
            self.ev.append(('eval', sh.label, x, env))
            v = self.fresh(sh.label)
            for q in ([v] if x == 1 else [v + (k,) for k in range(x)] if isinstance(x, int) and x >= 0 else [v + (x,)]):
                self.push(q)
            return i + 1
        if sh.eff == 'P':
            raise Broken('a pattern outside of a match')
        self.ev.append(('run', sh.label, env))
        if info[1] != len(self.fr.stack):
            raise Broken('statement %s is compiled for %d variables but runs on %d stack values' % (sh.label, info[1], len(self.fr.stack)))
        if sh.breaks:
            r = self.choose(('leaves?', sh.label), ('goes on', 'breaks', 'continues'))
            if r != 'goes on':
                cp = info[2]
                if len(cp) < 3 or not isconst(cp[-1]) or cp[-1][0] > len(self.fr.stack):
                    raise Broken('the loop around %s is not recorded' % sh.label)
                # what visit_Break and visit_Continue emit (they are checked on their own)
                del self.fr.stack[cp[-1][0]:]
                if r == 'breaks':
                    self.push(('bool', False))
                return self.at(cp[-2] if r == 'breaks' else cp[-3])
        for nm in sh.names:
            self.push(self.fresh('var:' + nm))
        return i + 1


class Analysed:
    """one path of the code generator over one shape"""
    def __init__(self, m, h, e, st):
        self.m, self.h, self.e, self.st = m, h, e, st
        self.tape = st.p.get('t:buffer', ())
        self.index = {it[0]: i for i, it in enumerate(self.tape)}
        self.end = st.mem[h.bbcount('buffer')]
        self.opname = {v: k for k, v in m.enums.items() if k.startswith('O_')}
        self.patname = {v: k for k, v in m.enums.items() if k.startswith('P_')}
        self.consts = {}
        t = e.load(st, add(h.C, const(h.F('Compiler', 'strings'))), None)
        for i in range(h.tcount(e, st, t)):
            ty, v, idx = (e.load(st, h.titem(e, st, t, i, o), None) for o in (0, 8, 24))
            if ty == const(m.enum('Y_STR')):
                k = single(v)
                n = single(k[1]) if k and k[0] == 'str' else None
                self.consts[idx] = ('const', 'Y_STR', n[1] if n and n[0] == 'name' else show(v))
            else:
                ty = next((x for x in ('Y_INT', 'Y_FLOAT') if ty == const(m.enum(x))), show(ty))
                self.consts[idx] = ('const', ty, v[0] if isconst(v) else show(v))

    def item(self, i):
        pos, kind, data, size = self.tape[i]
        if kind == 'c':
            return self.h.shapes[data[0]].label
        if kind == 'b' and isconst(data):
            return 'byte %d (%s)' % (data[0], self.opname.get(data[0], 'no opcode'))
        return '%s %s' % (kind, show(data) if kind in 'bi' else '')

    def constant(self, i):
        if i not in self.consts:
            raise Broken('uses constant %s, which does not exist' % show(i))
        return self.consts[i]

    def constname(self, i):
        c = self.constant(i)
        if c[1] != 'Y_STR':
            raise Broken('uses constant %s as a name' % (c,))
        return c[2]

    def expected(self, v):
        if isconst(v):
            return v[0] - 256 if v[0] > 127 else v[0]
        return show(v)

    def dump(self):
        return '; '.join(self.item(i) for i in range(len(self.tape)))


# ------------------------------------------------------------------ comparison
EXPRS = {'N_CALL', 'N_MCALL', 'N_GET', 'N_SLICE', 'N_LISTCOMP', 'N_TABLECOMP', 'N_TRIOP', 'N_BINOP', 'N_UNOP', 'N_VAR', 'N_UNDEF', 'N_FLOAT', 'N_INT',
         'N_BOOL', 'N_STR', 'N_LIST', 'N_TABLE', 'N_FNDECL', 'N_VARCONT'}


class Case:
    def __init__(self, label, node, infn=False, locs=('a', 'b'), outer=('oa',), file=('fa',), repl=False, temps=0, exp=None, error=False, loop=False):
        self.label, self.node, self.infn, self.locs, self.outer, self.file, self.repl = label, node, infn, locs, outer, file, repl
        self.temps, self.exp, self.error, self.loop = temps, exp, error, loop


GLOBS = ('ga', 'gb!')


def compile_case(m, c):
    h = CG(m)
    e = Engine(m, h)
    e.MAXSTATES = 400
    k = dict(globs=GLOBS)
    if c.repl:
        k.update(locs=None)
    elif c.infn:
        k.update(infn=True, locs=c.locs, stack=c.file, outer=c.outer)
    else:
        k.update(locs=c.locs)
    if c.loop:
        k.update(loop=len(names(c.locs)))
    s = h.start(e, exp=c.exp, **k)
    before = snapshot(h, e, s)
    a = h.place(c.node)
    r = e.run(m.fn('visit'), [h.C, a], s)
    if not r:
        raise AnalysisBroken('codegen: no path through visit for %s' % c.label)
    return h, e, [st for rv, st in r], before


def snapshot(h, e, s):
    sc, n = h.scope(e, s)
    cnt = e.load(s, add(h.C, const(h.F('Compiler', 'checkpoints') + h.F('SizeBuffer', 'count'))), None)
    return {'scope': sc, 'loops': h.checkpoints(e, s), 'number of loops': cnt, 'function': h.cfield(e, s, 'params'), 'expected values': h.cfield(e, s, 'expected_returns')}


def names(x):
    return [n.rstrip('!') for n in x or () if n != '|']


def initial(c):
    """reference scope and the machine's stack"""
    if c.repl:
        sc = Scope(None, fn='globals')
        return sc, []
    if c.infn:
        sc = scopes(c.file, None)
        if c.outer is not None:
            sc = scopes(c.outer, sc)
        sc = scopes(c.locs, sc)
    else:
        sc = scopes(c.locs, None)
    return sc, [('init', n) for n in names(c.locs)]


def scopes(ns, parent):
    sc = Scope(parent, fn=True)
    for n in ns or ():
        if n == '|':
            sc = Scope(sc)
        else:
            sc.vars[n.rstrip('!')] = Cell(('init', n.rstrip('!')))
    return sc


def refrun(c, dec):
    sc, _ = initial(c)
    r = Ref(dec, sc)
    res = {'vals': (), 'flow': None}
    try:
        try:
            if c.node.kind in EXPRS:
                x = c.exp if c.exp is not None and c.node.kind in ('N_CALL', 'N_MCALL', 'N_TRIOP') else 1
                res['vals'] = tuple(r.expr(c.node, x))
            else:
                r.stmt(c.node)
        except Flow as f:
            res['flow'] = (f.kind, f.vals)
        res['env'] = r.env()
        res['globals'] = tuple(sorted(r.globals.items()))
        k = 0
        while k < len(r.fns) and k < 5:
            n, scope = r.fns[k]
            k += 1
            np = len(n.children[0].children)
            r.ev.append(('function', k, np))
            r.function(n, scope, [('arg', k, i) for i in range(np)])
        res['done'] = True
    except Undecided as u:
        res['more'] = u.args[0]
    res['ev'] = r.ev
    return res


def codrun(c, A, dec):
    _, st = initial(c)
    ups = []
    h, e, s = A.h, A.e, A.st
    if c.infn:
        p = h.cfield(e, s, 'params')
        t = add(p, const(h.F('Env', 'upval_indices')))
        byidx = {}
        for i in range(h.tcount(e, s, t)):
            nm = single(single(e.load(s, h.titem(e, s, t, i, 8), None))[1])[1]
            ix = e.load(s, h.titem(e, s, t, i, 24), None)
            byidx[ix[0]] = nm
        ups = [Cell(('init', byidx.get(i, '?'))) for i in range(len(byidx))]
    for i in range(c.temps):
        st = st + [('temp', i)]
    r = Machine(dec, A, st, ups)
    res = {'vals': (), 'flow': None}
    try:
        try:
            r.run(0)
        except Flow as f:
            res['flow'] = (f.kind, f.vals)
        sc, n = h.scope(e, s)
        vis = h.visible(e, s, sc) if sc != ZERO else {}
        stack = [x.v for x in r.fr.stack]
        if res['flow'] is None:
            if r.loops:
                raise Broken('leaves a loop running')
            if r.calls:
                raise Broken('leaves a call unfinished')
            base_ = n + c.temps if c.node.kind in EXPRS else n
            if len(stack) < base_:
                raise Broken('leaves %d values on the stack, which holds %d variables' % (len(stack), base_))
            if c.temps and stack[n:n + c.temps] != [('temp', i) for i in range(c.temps)]:
                raise Broken('changes the operands below it: %s' % (stack[n:n + c.temps],))
            res['vals'] = tuple(stack[base_:])
        res['env'] = tuple(sorted((nm, stack[i] if i < len(stack) else ('no such slot', i)) for nm, i in vis.items()))
        res['globals'] = tuple(sorted(r.globals.items()))
        k = 0
        while k < len(r.fns) and k < 5:
            start, u = r.fns[k]
            k += 1
            np = r.arg(start, 'b')
            np = np[0] if isconst(np) else None
            r.ev.append(('function', k, np))
            r.fr = Frame([Cell(('arg', k, i)) for i in range(np)], u)
            r.loops, r.calls = [], []
            try:
                r.run(start + 1)
                raise Broken('the code of a function runs off its end')
            except Flow as f:
                r.ev.append((f.kind, f.vals))
        res['done'] = True
    except Undecided as u:
        res['more'] = u.args[0]
    except Broken as b:
        res['broken'] = b.args[0]
    res['ev'] = r.ev
    return res


def noenv(ev):
    return [x[:-1] if x[0] in ('eval', 'run') else x for x in ev]


def trail(ev):
    return ', '.join('%s=%s' % (short(x[1]), x[2]) for x in ev if x[0] == 'decide') or 'no decision'


def short(x):
    if isinstance(x, tuple):
        return '(' + ' '.join(short(y) for y in x) + ')'
    return str(x)


def compare(c, A, rep, maxchoices, stats):
    """walks both machines for every sequence of decisions; reports the first difference of each kind"""
    found = {}
    todo = [()]
    while todo:
        dec = todo.pop()
        a, b = refrun(c, dec), codrun(c, A, dec)
        stats['traces'] += 1
        tr = trail(a['ev'])
        if b.get('broken'):
            found.setdefault(('stack', 'breaks: ' + b['broken'].split(': ')[0]), 'after %s the emitted code %s' % (tr, b['broken']))
            if len(b['ev']) < len(a['ev']) or noenv(a['ev'][:len(b['ev'])]) != noenv(b['ev']):
                found.setdefault(('flow', 'breaks: ' + b['broken'].split(': ')[0]), 'after %s the emitted code %s' % (tr, b['broken']))
            continue
        ea, eb = a['ev'], b['ev']
        na, nb = noenv(ea), noenv(eb)
        if na != nb:
            i = next((i for i in range(min(len(na), len(nb))) if na[i] != nb[i]), min(len(na), len(nb)))
            w = na[i] if i < len(na) else 'nothing more'
            g = nb[i] if i < len(nb) else 'nothing more'
            found.setdefault(('flow', 'step: %s / %s' % (short(w)[:60], short(g)[:60])), 'with %s the code should %s and does %s' % (tr, short(w), short(g)))
            if w[0] == g[0] == 'returns' and len(w) > 1 and isinstance(w[1], tuple) and isinstance(g[1], tuple) and len(w[1]) != len(g[1]):
                found.setdefault(('stack', 'returns: %d for %d values' % (len(g[1]), len(w[1]))), 'with %s it returns %s and should return %s' % (tr, short(g[1]), short(w[1])))
            continue
        if ea != eb:
            i = next(i for i in range(len(ea)) if ea[i] != eb[i])
            found.setdefault(('stack', 'variables at %s' % ea[i][1]), 'with %s the part %s sees the variables %s and should see %s' % (
                tr, ea[i][1], short(eb[i][-1]), short(ea[i][-1])))
            continue
        if 'more' in a or 'more' in b:
            if ('more' in a) != ('more' in b):
                found.setdefault(('flow', 'decisions'), 'with %s one of the two needs a decision the other does not' % tr)
                continue
            if len(dec) < maxchoices:
                todo += [dec + (k,) for k in range(a['more'])]
            continue
        if a['flow'] != b['flow']:
            k = 'how it ends: %s / %s' % (short(a['flow'] and a['flow'][0]), short(b['flow'] and b['flow'][0]))
            found.setdefault(('flow', k), 'with %s the code should end with %s and ends with %s' % (tr, short(a['flow']), short(b['flow'])))
            if a['flow'] and b['flow'] and a['flow'][0] == b['flow'][0] == 'returns' and all(isinstance(x['flow'][1], tuple) for x in (a, b)) \
                    and len(a['flow'][1]) != len(b['flow'][1]):
                found.setdefault(('stack', 'returns: %d for %d values' % (len(b['flow'][1]), len(a['flow'][1]))),
                                 'with %s it returns %s and should return %s' % (tr, short(b['flow'][1]), short(a['flow'][1])))
            continue
        if a['flow'] is None and a['vals'] != b['vals']:
            if len(a['vals']) != len(b['vals']):
                k = 'balance: %d for %d values' % (len(b['vals']), len(a['vals']))
                found.setdefault(('stack', '%s with %s' % (k, tr)), 'with %s it leaves %s on the stack and should leave %s' % (tr, short(b['vals']), short(a['vals'])))
            else:
                found.setdefault(('flow', 'value'), 'with %s the value is %s and should be %s' % (tr, short(b['vals']), short(a['vals'])))
            continue
        if a['flow'] is None and (a['env'] != b['env'] or a['globals'] != b['globals']):
            found.setdefault(('stack', 'variables at the end'), 'with %s the variables are %s %s and should be %s %s' % (
                tr, short(b['env']), short(b['globals']), short(a['env']), short(a['globals'])))
    return found


# ------------------------------------------------------------------ cases
V = lambda n: sh('N_VAR', name=n)
I = lambda n: sh('N_INT', ival=n)
LET = lambda n, e=None: sh('N_LET', e, name=n)
CONST = lambda n, e=None: sh('N_CONST', e, name=n)
SETV = lambda n, e: sh('N_EXPRSTMT', sh('N_ASSIGN', e, name=n))
BLOCK = lambda *c: sh('N_BLOCK', body(*c))
WHILE = lambda c, b, p=None: sh('N_WHILE', c, b, p)
FOR = lambda n, c, b: sh('N_FORITER', sh('N_LETITER', c, name=n), b)
IF = lambda c, t, f=None: sh('N_IF', c, t, f)
FN = lambda ps, b, name=None: sh('N_FNDECL', body(*[LET(p) for p in ps]), body(*b), name=name)
RET = lambda e: sh('N_RET', e)
ECHO = lambda e: sh('N_ECHO', e)
BIN = lambda t, l, r: sh('N_BINOP', l, r, type=t)
MATCH = lambda c, *arms: sh('N_MATCH', c, body(*[a[0] for a in arms]), body(*[a[1] for a in arms]), body(*[a[2] for a in arms]))
BREAK = lambda: sh('N_BREAK')
CONT = lambda: sh('N_CONT')
PLET = lambda n: sh('N_PATLET', name=n)
PCONST = lambda n: sh('N_PATCONST', name=n)
PALT = lambda a, b: sh('N_PATALT', a, b)
PLS = lambda *c: sh('N_PATLS', *c)
COMP = lambda e, n, coll, cond=None: sh('N_LISTCOMP', e, sh('N_LETITER', coll, name=n), cond)


def expr_nodes():
    """label -> maker of an expression node"""
    d = {}
    for t in BINOPS:
        d['binary ' + t] = lambda t=t: BIN(t, E('left'), E('right'))
    for t in ('T_DAMP', 'T_DBAR', 'T_DQMARK'):
        d['binary ' + t] = lambda t=t: BIN(t, E('left'), E('right'))
    for t in UNOPS:
        d['unary ' + t] = lambda t=t: sh('N_UNOP', E('operand'), type=t)
    d['conditional'] = lambda: sh('N_TRIOP', E('c'), E('then'), E('else'), type='T_QMARK')
    d['conditional of calls'] = lambda: sh('N_TRIOP', E('c', kind='N_CALL'), E('then', kind='N_CALL'), E('else', kind='N_MCALL'), type='T_QMARK')
    d['index'] = lambda: sh('N_GET', E('collection'), E('key'))
    d['slice'] = lambda: sh('N_SLICE', E('collection'), E('start'), E('end'))
    d['list'] = lambda: sh('N_LIST', body(E('x'), E('y'), E('z')))
    d['empty list'] = lambda: sh('N_LIST', body())
    d['table'] = lambda: sh('N_TABLE', body(E('k1'), E('v1'), E('k2'), E('v2')))
    d['call'] = lambda: sh('N_CALL', body(E('x'), E('y')), E('callee'))
    d['call without arguments'] = lambda: sh('N_CALL', body(), E('callee', kind='N_CALL'))
    d['call with a tail call'] = lambda: sh('N_CALL', body(E('x', kind='N_CALL'), sh('N_VARCONT', E('y', kind='N_CALL'), ival=-1)), E('callee'))
    d['method call'] = lambda: sh('N_MCALL', body(E('x'), E('y')), E('object'), name='meth')
    d['method call with a tail call'] = lambda: sh('N_MCALL', body(E('x', kind='N_MCALL'), sh('N_VARCONT', E('y', kind='N_MCALL'), ival=-1)),
                                                   E('object', kind='N_CALL'), name='meth')
    for n in (-1, 0, 1, 3):
        d['%d values of a call' % n] = lambda n=n: sh('N_VARCONT', sh('N_CALL', body(E('x', kind='N_CALL')), E('callee', kind='N_CALL')), ival=n)
        d['%d values of a method call' % n] = lambda n=n: sh('N_VARCONT', sh('N_MCALL', body(E('x', kind='N_CALL')), E('callee', kind='N_CALL'), name='m'), ival=n)
    d['values of a conditional'] = lambda: sh('N_VARCONT', sh('N_TRIOP', E('c', kind='N_CALL'), E('then', kind='N_CALL'), E('else', kind='N_CALL'), type='T_QMARK'), ival=-1)
    d['values of an operator'] = lambda: sh('N_VARCONT', BIN('T_PLUS', E('left', kind='N_CALL'), E('right', kind='N_CALL')), ival=-1)
    d['local variable'] = lambda: V('b')
    d['global variable'] = lambda: V('ga')
    d['undef'] = lambda: sh('N_UNDEF')
    d['true'] = lambda: sh('N_BOOL', ival=1)
    d['false'] = lambda: sh('N_BOOL', ival=0)
    d['integer'] = lambda: I(5)
    d['negative integer'] = lambda: I(-7)
    d['integer of two bytes'] = lambda: I(1000)
    d['two constants'] = lambda: BIN('T_PLUS', I(3), BIN('T_MINUS', sh('N_STR', name='text'), I(3)))
    d['float'] = lambda: sh('N_FLOAT', ival=const(0))
    d['nested operators'] = lambda: BIN('T_STAR', BIN('T_PLUS', E('a1'), E('a2')), BIN('T_DAMP', E('a3'), sh('N_UNOP', E('a4'), type='T_MINUS')))
    d['nested conditional'] = lambda: sh('N_TRIOP', BIN('T_DBAR', E('c1'), E('c2')), sh('N_TRIOP', E('c3'), E('x'), E('y'), type='T_QMARK'), E('z'), type='T_QMARK')
    d['list in a call'] = lambda: sh('N_CALL', body(sh('N_LIST', body(E('x'), sh('N_CALL', body(E('y')), E('g')))), E('z')), E('callee'))
    return d


def closures():
    d = {}
    d['function without captures'] = lambda: FN(['p', 'q'], [S('first', names=('x',)), IF(E('c'), RET(V('p'))), ECHO(V('q')), RET(BIN('T_PLUS', V('p'), V('x')))])
    d['function with no return'] = lambda: FN([], [S('only')])
    d['function capturing locals'] = lambda: FN(['p'], [SETV('a', V('p')), RET(BIN('T_MINUS', V('b'), V('a')))])
    d['function using globals'] = lambda: FN(['p'], [SETV('ga', V('p')), RET(V('gb'))])
    d['function in a function'] = lambda: FN(['p'], [LET('x', E('e')), FOR('it', E('coll'), S('inner', breaks=True)),
                                                     RET(FN(['q'], [SETV('p', V('q')), RET(BIN('T_PLUS', V('b'), BIN('T_PLUS', V('x'), V('p'))))]))])
    d['function three deep'] = lambda: FN(['p'], [RET(FN(['q'], [RET(FN(['r'], [SETV('b', V('r')), RET(BIN('T_PLUS', V('a'), BIN('T_PLUS', V('p'), V('q'))))]))]))])
    d['two functions sharing variables'] = lambda: sh('N_LIST', body(FN(['p'], [SETV('a', V('p'))]), FN([], [RET(sh('N_LIST', body(V('b'), V('a'))))])))
    d['function returning several'] = lambda: FN(['p'], [sh('N_MULTIRET', body(E('x'), V('p'), sh('N_VARCONT', E('y', kind='N_CALL'), ival=-1)))])
    d['tail call'] = lambda: FN(['p'], [RET(sh('N_VARCONT', sh('N_CALL', body(V('p')), E('f')), ival=-1))])
    rets = {'a value': lambda: RET(V('y')), 'a call': lambda: RET(sh('N_VARCONT', sh('N_CALL', body(V('x')), E('f')), ival=-1)), 'a method call': lambda: RET(sh('N_VARCONT', sh('N_MCALL', body(V('x')), E('f'), name='m'), ival=-1)),
            'several': lambda: sh('N_MULTIRET', body(V('y'), V('x'), V('p'))), 'no name': lambda: RET(E('e')), 'several and a call': lambda: sh('N_MULTIRET', body(V('y'), sh('N_VARCONT', E('f', kind='N_CALL'), ival=-1)))}
    for r, mk in rets.items():
        d['function with captured variables returning %s from a block' % r] = lambda mk=mk: FN(['p', 'q'], [LET('g', FN([], [RET(V('p'))])), IF(E('c'), BLOCK(LET('x', E('e1')), BLOCK(LET('y', E('e2')), mk()))), S('rest')])
        d['function with captured variables of blocks returning %s from a loop' % r] = lambda mk=mk: FN(['p'], [BLOCK(LET('x', E('e1')), LET('g', FN([], [RET(V('x'))])), FOR('y', E('coll'), BLOCK(LET('z', V('y')), IF(E('c'), mk())))), S('rest')])
        d['function returning %s from a match' % r] = lambda mk=mk: FN(['p'], [LET('x', E('e1')), WHILE(E('c'), BLOCK(LET('z', V('p')), MATCH(E('scr'), (PLS(PLET('y'), PLET('w')), None, mk()), (PLET('v'), None, S('other')))))])
        d['function returning %s before variables' % r] = lambda mk=mk: FN(['p', 'x'], [BLOCK(LET('y', E('e1')), IF(E('c'), mk())), LET('z', E('e2')), LET('w', E('e3')), RET(V('z'))])
    d['function with a local shadowing a captured name'] = lambda: FN(['a'], [BLOCK(LET('b', E('e')), SETV('b', V('a')), ECHO(V('b'))), RET(V('b'))])
    return d


def stmt_nodes():
    d = {}
    d['expression'] = lambda: sh('N_EXPRSTMT', E('e', kind='N_CALL'))
    d['literal as a statement'] = lambda: sh('N_EXPRSTMT', I(4))
    d['variable as a statement'] = lambda: sh('N_EXPRSTMT', V('a'))
    d['assignment'] = lambda: SETV('a', E('e'))
    d['assignment to the second variable'] = lambda: SETV('b', E('e'))
    d['assignment to a global'] = lambda: SETV('ga', E('e'))
    d['index assignment'] = lambda: sh('N_EXPRSTMT', sh('N_SET', E('collection'), E('key'), E('value')))
    d['let'] = lambda: LET('z', E('e'))
    d['const'] = lambda: CONST('z', E('e'))
    d['let without value'] = lambda: LET('z')
    d['let of a function'] = lambda: LET('z', FN(['p'], [RET(V('a'))]))
    d['recursive function'] = lambda: CONST('z', FN(['p'], [RET(sh('N_CALL', body(V('p')), V('z')))], name='z'))
    d['multiple declaration'] = lambda: sh('N_DECL', body(LET('u'), CONST('v')), body(E('e'), E('f')))
    d['declaration of one value'] = lambda: sh('N_DECL', body(LET('u'),), body(E('e')))
    d['multiple assignment'] = lambda: sh('N_DECL', body(sh('N_ASSIGN', None, name='a'), sh('N_ASSIGN', None, name='b')), body(E('e'), E('f')))
    d['swap'] = lambda: sh('N_DECL', body(sh('N_ASSIGN', None, name='a'), sh('N_ASSIGN', None, name='b')), body(V('b'), V('a')))
    d['mixed declaration'] = lambda: sh('N_DECL', body(LET('u'), sh('N_ASSIGN', None, name='b'), CONST('v'), sh('N_ASSIGN', None, name='ga')), body(E('e'), E('f'), E('g'), E('h')))
    d['multiple index assignment'] = lambda: sh('N_DECL', body(sh('N_SET', E('c1'), E('k1'), None), sh('N_SET', E('c2'), E('k2'), None)), body(E('e'), E('f')))
    d['declaration of the values of a call'] = lambda: sh('N_DECL', body(LET('u'), LET('v'), LET('w')), body(E('e', kind='N_CALL'), sh('N_VARCONT', E('f', kind='N_CALL'), ival=2)))
    d['echo'] = lambda: ECHO(E('e'))
    d['assert'] = lambda: sh('N_ASS', E('e'))
    d['block'] = lambda: BLOCK(S('first', names=('p', 'q')), S('second', names=('r',)), S('third'))
    d['nested blocks'] = lambda: BLOCK(LET('x', E('e1')), BLOCK(LET('x', E('e2')), LET('y', V('x')), S('inner')), S('outer'), ECHO(V('x')))
    d['if'] = lambda: IF(E('c'), S('then'), S('else'))
    d['if without else'] = lambda: IF(E('c'), S('then'))
    d['else if'] = lambda: IF(E('c1'), S('x'), IF(E('c2'), S('y'), S('z')))
    for k, mk in (('undef', lambda: sh('N_UNDEF')), ('true', lambda: sh('N_BOOL', ival=1)), ('false', lambda: sh('N_BOOL', ival=0)), ('0', lambda: I(0)),
                  ('1', lambda: I(1)), ('string', lambda: sh('N_STR', name='t')), ('float', lambda: sh('N_FLOAT', ival=const(0)))):
        d['if ' + k] = lambda mk=mk: IF(mk(), S('then'), S('else'))
        d['if ' + k + ' without else'] = lambda mk=mk: IF(mk(), S('then'))
        if k not in ('true', '0', '1'):
            d['while ' + k] = lambda mk=mk: WHILE(mk(), S('body', breaks=True))
            d['for ' + k] = lambda mk=mk: BLOCK(S('init', names=('i',)), WHILE(mk(), S('body', breaks=True), S('post')))
        else:
            d['while ' + k] = lambda mk=mk: WHILE(mk(), S('body', breaks=True))
    d['while'] = lambda: WHILE(E('c'), S('body', breaks=True))
    d['while with step'] = lambda: WHILE(E('c'), S('body', breaks=True), S('post'))
    d['for'] = lambda: BLOCK(LET('i', E('init')), WHILE(E('c'), BLOCK(S('body', breaks=True, names=('x',)), S('more', breaks=True)), SETV('i', E('step'))), S('after'))
    d['for in'] = lambda: FOR('x', E('coll'), S('body', breaks=True))
    d['for in with block'] = lambda: FOR('x', E('coll'), BLOCK(S('body', breaks=True, names=('y', 'z')), S('more', breaks=True)))
    d['for in in for in'] = lambda: FOR('x', E('coll'), BLOCK(S('first', breaks=True, names=('y',)), FOR('z', V('x'), S('inner', breaks=True)), S('last', breaks=True)))
    d['while in for in'] = lambda: FOR('x', E('coll'), BLOCK(LET('w', E('e')), WHILE(E('c'), BLOCK(LET('v', V('x')), S('inner', breaks=True))), S('last', breaks=True)))
    d['break in nested blocks'] = lambda: BLOCK(LET('o', E('e')), WHILE(E('c'), BLOCK(LET('x', V('o')), IF(E('c2'), BLOCK(LET('y', E('e2')), LET('z', E('e3')), BREAK())), S('rest'))), S('after'))
    d['continue in nested blocks'] = lambda: BLOCK(LET('o', E('e')), FOR('i', E('coll'), BLOCK(LET('x', V('o')), IF(E('c2'), BLOCK(LET('y', E('e2')), LET('z', E('e3')), CONT())), S('rest'))), S('after'))
    d['continue with step'] = lambda: BLOCK(LET('o', E('e')), WHILE(E('c'), BLOCK(LET('x', V('o')), IF(E('c2'), BLOCK(LET('y', E('e2')), CONT())), S('rest')), SETV('o', E('step'))), S('after'))
    d['break of the inner loop'] = lambda: FOR('i', E('coll'), BLOCK(LET('x', E('e')), FOR('j', E('coll2'), BLOCK(LET('y', V('j')), IF(E('c2'), BREAK()), S('rest', breaks=True))), S('last'), IF(E('c3'), CONT()), S('end')))
    d['break before and after an inner loop'] = lambda: WHILE(E('c'), BLOCK(LET('x', E('e')), IF(E('c1'), BREAK()), WHILE(E('c2'), S('inner')), IF(E('c3'), BREAK()), LET('y', E('e2')), IF(E('c4'), CONT())))
    d['break in a false loop'] = lambda: WHILE(E('c'), BLOCK(WHILE(sh('N_BOOL', ival=0), BLOCK(LET('y', E('e')), BREAK())), IF(E('c2'), BREAK()), S('rest')))
    d['break in a match'] = lambda: WHILE(E('c'), BLOCK(LET('x', E('e')), MATCH(E('scr'), (PLET('y'), E('g'), BLOCK(LET('z', E('e2')), BREAK())), (sh('N_PATANY'), None, CONT())), S('rest')))
    d['loop in a comprehension function'] = lambda: WHILE(E('c'), BLOCK(LET('f', FN(['p'], [WHILE(E('c2'), BLOCK(LET('q', V('p')), IF(E('c3'), BREAK())))])), IF(E('c4'), BREAK())))
    d['comprehension'] = lambda: LET('z', COMP(E('e'), 'x', E('coll')))
    d['comprehension with condition'] = lambda: LET('z', COMP(E('e'), 'x', E('coll'), E('cond')))
    d['comprehension of a comprehension'] = lambda: LET('z', COMP(BIN('T_PLUS', V('x'), E('e')), 'x', COMP(V('y'), 'y', E('coll'))))
    d['table comprehension'] = lambda: LET('z', sh('N_TABLECOMP', body(E('k'), E('v')), sh('N_LETITER', E('coll'), name='x'), E('cond')))
    d['comprehension over the variables'] = lambda: BLOCK(LET('z', COMP(BIN('T_PLUS', V('x'), V('b')), 'x', V('a'))), S('after'))
    d['captured loop variable'] = lambda: BLOCK(LET('l', E('e')), FOR('x', E('coll'), BLOCK(LET('y', V('x')), LET('f', FN([], [SETV('y', V('l')), RET(V('x'))])), S('rest', breaks=True))), S('after'))
    d['match'] = lambda: MATCH(E('scr'), (P('p1'), None, S('b1')), (P('p2'), None, S('b2')), (sh('N_PATANY'), None, S('b3')))
    d['match without arms'] = lambda: MATCH(E('scr'))
    d['match with guards'] = lambda: MATCH(E('scr'), (P('p1'), E('g1'), S('b1', names=('x',))), (P('p2'), E('g2'), S('b2')), (sh('N_PATANY'), None, S('b3')))
    d['match with bindings'] = lambda: MATCH(E('scr'), (PLS(PLET('x'), PCONST('y')), None, S('b1', names=('z',))), (PLET('w'), None, S('b2')))
    d['match with alternatives'] = lambda: MATCH(E('scr'), (PALT(PLS(PLET('x'), P('p1')), PLS(P('p2'), P('p3'), PLET('x'))), None, S('b1')), (PLET('w'), None, ECHO(V('w'))))
    d['match with names after alternatives'] = lambda: MATCH(E('scr'), (PLS(PALT(PLET('x'), PLS(PLET('x'))), PLET('y')), None, S('b1')), (PLS(PALT(P('p1'), P('p2')), PALT(PCONST('z'), PLS(P('p3'), PCONST('z'))), PLET('w')), None, S('b2')), (PLET('r'), None, S('b3')))
    d['match with alternatives in alternatives'] = lambda: MATCH(E('scr'), (PALT(PLS(PALT(PLET('x'), PLS(PLET('x'))), PLET('y')), PLS(PLET('y'), PALT(PLS(PLET('x')), PLS(P('p'), PLET('x'))))), E('g'), S('b1')), (PALT(PLET('q'), PLS(PLET('q'))), None, S('b2')))
    d['match with alternatives of tables'] = lambda: MATCH(E('scr'), (sh('N_PATTABLE', sh('N_PATSTR', name='k'), PALT(PLET('x'), PLS(PLET('x'))), sh('N_PATSTR', name='l'), PLET('y')), None, S('b1')), (sh('N_PATANY'), None, S('b2')))
    d['match with nested patterns'] = lambda: MATCH(E('scr'), (PLS(PLS(PLET('x'), sh('N_PATVLS', PCONST('y'))), sh('N_PATTABLE', sh('N_PATSTR', name='k'), PLET('z'))), None, S('b1')),
                                                    (sh('N_PATVTABLE', sh('N_PATINT', ival=3), PLET('w')), None, S('b2')), (PLET('r'), None, S('b3')))
    d['match with three alternatives'] = lambda: MATCH(E('scr'), (PALT(PALT(sh('N_PATINT', ival=1), sh('N_PATBOOL', ival=1)), PALT(sh('N_PATUNDEF'), sh('N_PATSTRTYPE'))), None, S('b1')),
                                                       (sh('N_PATANY'), None, S('b2')))
    for k in ('N_PATUNDEF', 'N_PATANY', 'N_PATBOOLTYPE', 'N_PATINTTYPE', 'N_PATFLOATTYPE', 'N_PATSTRTYPE', 'N_PATLSTYPE', 'N_PATTABLETYPE'):
        d['pattern ' + k] = lambda k=k: MATCH(E('scr'), (sh(k), None, S('b1')), (sh('N_PATANY'), None, S('b2')))
    for k, v in (('N_PATBOOL', {'ival': 1}), ('N_PATBOOL', {'ival': 0}), ('N_PATINT', {'ival': 5}), ('N_PATINT', {'ival': 500}), ('N_PATSTR', {'name': 's'}), ('N_PATFL', {'ival': const(0)})):
        d['pattern %s %s' % (k, list(v.values())[0])] = lambda k=k, v=v: MATCH(E('scr'), (sh(k, **v), None, S('b1')), (sh('N_PATANY'), None, S('b2')))
    d['guard with bindings'] = lambda: MATCH(E('scr'), (PLS(PLET('x'), PLET('y')), E('g1'), S('b1')), (P('p2'), None, S('b2')), (sh('N_PATANY'), None, S('b3')))
    d['guard with one binding'] = lambda: MATCH(E('scr'), (PLET('x'), E('g1'), S('b1')), (PLET('y'), E('g2'), S('b2')), (sh('N_PATANY'), E('g3'), S('b3')), (PLET('z'), None, ECHO(V('z'))))
    d['last guard with bindings'] = lambda: BLOCK(MATCH(E('scr'), (PLS(PLET('x'), PLET('y')), E('g1'), S('b1'))), S('after'))
    d['match whose arms all fail'] = lambda: MATCH(E('scr'), (P('p1'), None, S('b1')), (P('p2'), E('g2'), S('b2')))
    return d


def cases():
    out = []
    for k, mk in {**expr_nodes(), **closures()}.items():
        out.append(Case(k, mk()))
        out.append(Case(k + ', operands below', mk(), temps=2))
        out.append(Case(k + ', in a function', mk(), infn=True))
        if 'captur' not in k and 'local' not in k and 'three deep' not in k and 'in a function' not in k and 'sharing' not in k:
            out.append(Case(k + ', interactive', mk(), repl=True))
    for k in ('call', 'method call', 'conditional of calls'):
        out.append(Case(k + ', values asked for by the context', expr_nodes()[k](), exp='exp'))
    for k, mk in stmt_nodes().items():
        out.append(Case(k, mk()))
        out.append(Case(k + ', in a function', mk(), infn=True))
        if '(a)' not in k and k not in NOREPL:
            out.append(Case(k + ', interactive', mk(), repl=True))
    for k, e in (('return', lambda: RET(E('e'))), ('return of a call', lambda: RET(sh('N_VARCONT', E('e', kind='N_CALL'), ival=-1))),
                 ('return of several', lambda: sh('N_MULTIRET', body(E('e'), E('f')))),
                 ('return in loops', lambda: FOR('x', E('coll'), BLOCK(LET('y', E('e')), IF(E('c'), RET(V('y'))), S('rest', breaks=True)))),
                 ('return in a match', lambda: MATCH(E('scr'), (PLET('y'), None, RET(V('y'))), (sh('N_PATANY'), None, S('b')))),
                 ('variable of the outer function', lambda: RET(BIN('T_PLUS', V('oa'), BIN('T_PLUS', V('fa'), V('ga'))))),
                 ('assignment to variables of outer functions', lambda: body(SETV('oa', E('e')), SETV('fa', E('f')), SETV('ga', E('g')), S('after')))):
        out.append(Case(k, e(), infn=True))
        if 'assignment' not in k:
            out.append(Case(k + ' in a block of a function', e(), infn=True, locs=('a', '|', 'b', 'c', '|', 'd'), outer=('oa', '|', 'ob'), file=('fb', '|', 'fa')))
    for k, mk in {**closures(), **stmt_nodes()}.items():
        if k == 'match whose arms all fail':       # a known finding; listed for the plain contexts only
            continue
        out.append(Case(k + ', in a block of a function', mk(), infn=True, locs=('a', '|', 'b'), outer=('ob', '|', 'oa'), file=('fb', '|', 'fa')))
        if k in stmt_nodes():
            out.append(Case(k + ', in a block', mk(), locs=('a', '|', 'b')))
    out.append(Case('variable of the file from a function', body(SETV('fa', V('fb')), RET(V('fa'))), infn=True, outer=None, file=('fb', 'fa')))
    out.append(Case('comprehension, operands below', COMP(E('e'), 'x', E('coll')), temps=1))
    out.append(Case('export', sh('N_EXPORT', E('e'))))
    out.append(Case('program', body(LET('x', E('e')), CONST('f', FN(['p'], [LET('q', V('p')), RET(BIN('T_PLUS', V('q'), V('x')))])), FOR('i', E('coll'), BLOCK(SETV('x', V('i')), S('s', breaks=True))), ECHO(V('x')))))
    return out


NOREPL = {'variable as a statement', 'assignment', 'assignment to the second variable', 'multiple assignment', 'swap', 'mixed declaration', 'let of a function',
          'comprehension over the variables', 'recursive function'}


# ------------------------------------------------------------------ the checks
def analyse(m, rep, aspect):
    """runs every case; hands out the differences of one aspect"""
    stats = {'traces': 0}
    npath = tape = 0
    for c in cases():
        h, e, sts, before = compile_case(m, c)
        for k in h.findings:
            if aspect == 'stack':
                rep.bad('operands', '%s: %s' % (c.label, k[1]), k[2], '%s [compiling: %s]' % (k[3], c.label))
        for st in sts:
            npath += 1
            A = Analysed(m, h, e, st)
            tape += len(A.tape)
            status = h.cfield(e, st, 'status')
            if status != ZERO:
                if aspect == 'flow':
                    rep.bad('accepted', c.label, 'compiler/compiler.c', 'a correct program is rejected by the code generator [%s]' % c.label)
                continue
            f = compare(c, A, None, MAXCHOICES, stats)
            rule = {'flow': 'meaning', 'stack': 'slots'}[aspect]
            mine = {k: v for k, v in f.items() if k[0] == aspect}
            for k, v in mine.items():
                rep.bad(rule, '%s: %s' % (c.label, k[1]), 'compiler/compiler.c (visit of %s)' % c.node.kind, '%s [code: %s]' % (v, A.dump()[:600]))
            if not mine:
                rep.ok(rule, '%s: %s' % (c.label, A.dump()))
            if aspect == 'stack':
                after = snapshot(h, e, st)
                d = sorted(k for k in after if after[k] != before[k] and not (k == 'loops' and len(after[k]) == len(before[k]) == 0))
                if d:
                    rep.bad('restored', '%s: %s' % (c.label, ', '.join(d)), 'compiler/compiler.c (visit of %s)' % c.node.kind,
                            'the code generator does not restore: %s' % ', '.join('%s %s, was %s' % (k, after[k], before[k]) for k in d))
                else:
                    rep.ok('restored', c.label)
            else:
                seen = st.p.get('visited', frozenset())
                miss = sorted(x.label for i, x in h.shapes.items() if x.eff and i not in seen)
                if miss:
                    rep.bad('checked', '%s: %s' % (c.label, ', '.join(miss)), 'compiler/compiler.c (visit of %s)' % c.node.kind,
                            'the parts %s are never looked at by the code generator: errors in them go unreported' % ', '.join(miss))
                else:
                    rep.ok('checked', c.label)
    rep.cov['cases'] = len(cases())
    rep.cov['paths_of_the_code_generator'] = npath
    rep.cov['instructions_emitted'] = tape
    rep.cov['traces_compared'] = stats['traces']
    rep.cov['bound'] = 'at most %d decisions per trace; loops, parts and values are opaque symbols' % MAXCHOICES


def check_S05(m, rep):
    rep.rule('meaning: for every node kind (on shapes whose parts are opaque) the instructions the code generator emits evaluate the same parts, in the same order and the '
             'same number of times, and give the same value and the same way of leaving, as the meaning of the node, for every outcome of every condition')
    rep.rule('accepted/checked: a correct node is not rejected and every part of it is visited, executed or not')
    analyse(m, rep, 'flow')
    rep.floor('meaning', 300)
    rep.floor('checked', 300)


def check_B03(m, rep):
    rep.rule('slots: along every path through the emitted instructions, each part runs with the variables of its scopes in the slots the code generator resolved them to, '
             'expressions leave exactly their values, statements leave exactly the variables they declare, operands below are untouched, loops and calls begun are ended, '
             'and jumps land on instructions')
    rep.rule('restored: the code generator leaves the scope, the loops, the function and the expected number of values as they were')
    rep.rule('operands: only operands of emitted instructions are patched, only whole instructions are removed')
    analyse(m, rep, 'stack')
    rep.floor('slots', 300)
    rep.floor('restored', 300)


# ------------------------------------------------------------------ S01
def badnames():
    """label -> case of a program that must be rejected"""
    out = []
    one = {'assigned': lambda n: SETV(n, E('e')), 'assigned along with others': lambda n: sh('N_DECL', body(LET('u'), sh('N_ASSIGN', None, name=n)), body(E('e'), E('f')))}
    pend = lambda x: {'as it is': x, 'in a block': BLOCK(S('s'), x), 'in code that never runs': IF(sh('N_BOOL', ival=0), x), 'in a loop that never runs': WHILE(sh('N_BOOL', ival=0), BLOCK(x)),
                      'in the branch not taken': IF(sh('N_BOOL', ival=1), S('s'), x), 'in a loop': FOR('i', E('coll'), BLOCK(x)), 'in a match': MATCH(E('scr'), (sh('N_PATANY'), None, x)),
                      'in the step of a loop': WHILE(E('c'), S('s'), x)}
    places = list(pend(S('x')))

    def where(label, mk, **k):
        for pl in places:
            out.append(Case('%s, %s' % (label, pl), pend(mk())[pl], error=True, **k))
    for w, f in one.items():
        where('constant of the file ' + w, lambda: f('c'), locs=('a', 'c!'))
        where('constant global ' + w, lambda: f('gb'))
        where('local constant ' + w, lambda: f('c'), locs=('c!', 'b'), infn=True)
        where('constant of the outer function ' + w, lambda: f('c'), outer=('oa', 'c!'), infn=True)
        where('constant of the file from a function ' + w, lambda: f('c'), outer=('oa',), file=('c!',), infn=True)
        where('constant of the file from a function of the file ' + w, lambda: f('c'), outer=None, file=('x', 'c!'), infn=True)
        where('constant global from a function ' + w, lambda: f('gb'), infn=True)
        out.append(Case('constant at the prompt ' + w, body(CONST('c', E('e')), f('c')), repl=True, error=True))
        out.append(Case('constant declared before, ' + w, body(CONST('c', E('e')), f('c')), error=True))
        out.append(Case('constant declared in a multiple declaration, ' + w, body(sh('N_DECL', body(LET('u'), CONST('v')), body(E('e'), E('f'))), BLOCK(f('v'))), error=True))
        out.append(Case('named function ' + w, body(CONST('c', FN(['p'], [RET(V('p'))], name='c')), f('c')), error=True))
        out.append(Case('named function in itself ' + w, BLOCK(CONST('c', FN(['p'], [f('p'), RET(V('p'))], name='c')), FN([], [f('c')])), error=True))
        out.append(Case('constant parameter ' + w, sh('N_EXPRSTMT', sh('N_FNDECL', body(LET('p'), CONST('q')), body(S('s'), f('q')))), error=True))
        out.append(Case('constant parameter from an inner function ' + w, sh('N_EXPRSTMT', sh('N_FNDECL', body(LET('p'), CONST('q')), body(S('s'), RET(FN(['r'], [f('q')]))))), error=True))
        out.append(Case('constant of a pattern ' + w, MATCH(E('scr'), (PLS(PCONST('x'), PLET('y')), None, f('x'))), error=True))
        out.append(Case('constant of a block, from an inner function ' + w, BLOCK(CONST('c', E('e')), LET('f', FN([], [f('c')]))), error=True))
        where('unknown name ' + w, lambda: f('nn'))
        where('unknown name in a function ' + w, lambda: f('nn'), infn=True)
        out.append(Case('name of a block that has ended ' + w, body(BLOCK(LET('x', E('e')), S('s')), f('x')), error=True))
        out.append(Case('name of the loop that has ended ' + w, body(FOR('x', E('e'), S('s')), f('x')), error=True))
        out.append(Case('name of another arm ' + w, MATCH(E('scr'), (PLET('x'), E('g'), S('s')), (sh('N_PATANY'), None, f('x'))), error=True))
        out.append(Case('parameter outside of its function ' + w, body(LET('x', FN(['p'], [S('s')])), f('p')), error=True))
        out.append(Case('name declared later ' + w, body(f('x'), LET('x', E('e'))), error=True))
    for w, f in (('used', lambda n: ECHO(V(n))), ('used as a statement', lambda n: sh('N_EXPRSTMT', V(n))), ('used as an operand', lambda n: LET('z', BIN('T_PLUS', E('e'), V(n)))),
                 ('used in a function', lambda n: LET('z', FN(['pp'], [RET(V(n))])))):
        where('unknown name ' + w, lambda: f('nn'))
        where('unknown name in a function ' + w, lambda: f('nn'), infn=True)
        out.append(Case('unknown name at the prompt ' + w, f('nn'), repl=True, error=True))
        out.append(Case('name of a block that has ended ' + w, body(BLOCK(LET('x', E('e')), S('s')), f('x')), error=True))
        out.append(Case('name of the loop that has ended ' + w, body(FOR('x', E('e'), S('s')), f('x')), error=True))
        out.append(Case('name of another arm ' + w, MATCH(E('scr'), (PLET('x'), E('g'), S('s')), (sh('N_PATANY'), None, f('x'))), error=True))
        out.append(Case('name of the comprehension that has ended ' + w, body(LET('y', COMP(E('e'), 'x', E('coll'))), f('x')), error=True))
        out.append(Case('parameter outside of its function ' + w, body(LET('x', FN(['p'], [S('s')])), f('p')), error=True))
        out.append(Case('name of a pattern that has ended ' + w, body(MATCH(E('scr'), (PLET('x'), None, S('s'))), f('x')), error=True))
        out.append(Case('name declared later ' + w, body(f('x'), LET('x', E('e'))), error=True))
        out.append(Case('name in its own value ' + w, LET('x', sh('N_LIST', body(V('x')))), error=True))
    decl = {'let': lambda n: LET(n, E('e')), 'const': lambda n: CONST(n, E('e')), 'let without value': lambda n: LET(n),
            'multiple declaration': lambda n: sh('N_DECL', body(LET('u'), LET(n)), body(E('e'), E('f'))),
            'multiple const': lambda n: sh('N_DECL', body(LET('u'), CONST(n)), body(E('e'), E('f'))),
            'function': lambda n: CONST(n, FN(['p'], [RET(V('p'))], name=n))}
    for w, f in decl.items():
        out.append(Case('%s of a name of the same scope' % w, f('b'), error=True))
        out.append(Case('%s of a constant of the same scope' % w, f('c'), locs=('a', 'c!'), error=True))
        out.append(Case('%s of a name of the same function' % w, f('b'), infn=True, error=True))
        out.append(Case('%s of a parameter' % w, LET('z', FN(['p', 'q'], [S('s'), f('q')])), error=True))
        out.append(Case('%s of a name of the same block' % w, BLOCK(LET('x', E('d')), S('s'), f('x')), error=True))
        out.append(Case('%s of a constant of the same block, in code that never runs' % w, IF(sh('N_BOOL', ival=0), BLOCK(CONST('x', E('d')), S('s'), f('x'))), error=True))
        out.append(Case('%s of a name at the prompt' % w, body(LET('x', E('d')), f('x')), repl=True, error=True))
        # not errors: another scope
        for k in (dict(), dict(infn=True)):
            t = ', in a function' if k else ''
            out.append(Case('%s shadowing in a block%s' % (w, t), BLOCK(f('b'), S('s')), **k))
            out.append(Case('%s shadowing in a loop%s' % (w, t), FOR('i', E('coll'), BLOCK(f('a'), S('s'))), **k))
            out.append(Case('%s shadowing the loop variable%s' % (w, t), FOR('i', E('coll'), BLOCK(f('i'), S('s'))), **k))
            out.append(Case('%s shadowing in an arm%s' % (w, t), MATCH(E('scr'), (PLET('x'), None, BLOCK(f('x'))), (sh('N_PATANY'), None, S('s'))), **k))
            out.append(Case('%s shadowing in a function%s' % (w, t), LET('z', FN(['p'], [f('a'), S('s')])), **k))
            out.append(Case('%s in both branches%s' % (w, t), IF(E('c'), BLOCK(f('x')), BLOCK(f('x'))), **k))
            out.append(Case('%s of a global name%s' % (w, t), f('gb'), **k))
        out.append(Case('%s after a block with the name' % w, body(BLOCK(LET('x', E('d'))), f('x'))))
        out.append(Case('%s of a name of the outer function' % w, f('oa'), infn=True))
    dup = lambda *ps: sh('N_EXPRSTMT', sh('N_FNDECL', body(*copy.deepcopy(ps)), body(S('s'))))
    for l, ps in (('two parameters of one name', (LET('p'), LET('p'))), ('three parameters, two of one name', (LET('p'), LET('q'), LET('p'))), ('a constant parameter of the same name', (CONST('p'), LET('p')))):
        out.append(Case(l, dup(*ps), error=True))
        out.append(Case(l + ', in a function', dup(*ps), infn=True, error=True))
    pats = {'one name twice in a pattern': PLS(PLET('x'), PLET('x')), 'a constant and a variable of one name in a pattern': PLS(PCONST('x'), PLET('x')),
            'one name twice in nested patterns': PLS(PLET('x'), PLS(PLET('x'))), 'one name twice in a table pattern': sh('N_PATTABLE', sh('N_PATSTR', name='k'), PLET('x'), sh('N_PATSTR', name='l'), PLET('x')),
            'name only on the left of |': PALT(PLET('x'), P('p')), 'name only on the right of |': PALT(P('p'), PLET('x')),
            'let and const around |': PALT(PLET('x'), PCONST('x')), 'const and let around |': PALT(PCONST('x'), PLET('x')),
            'different names around |': PALT(PLET('x'), PLET('y')), 'fewer names on the right': PALT(PLS(PLET('x'), PLET('y')), PLS(PLET('x'), P('p'))),
            'more names on the right': PALT(PLS(PLET('x'), P('p')), PLS(PLET('x'), PLET('y'))),
            'name missing in the third of three': PALT(PLET('x'), PALT(PLS(PLET('x')), P('p'))), 'name missing in the second of three': PALT(PALT(PLET('x'), P('p')), PLS(PLET('x')))}
    for l, p in pats.items():
        for t, k in (('', {}), (', in a function', dict(infn=True)), (', in dead code', {})):
            x = MATCH(E('scr'), (copy.deepcopy(p), None, S('s')), (sh('N_PATANY'), None, S('t')))
            out.append(Case(l + t, IF(sh('N_BOOL', ival=0), x) if 'dead' in t else x, error=True, **k))
    for l, x in (('break', BREAK), ('continue', CONT)):
        for t, k in (('', {}), (', in a function', dict(infn=True)), (', in a function in a loop', dict(infn=False))):
            w = {'as it is': lambda: x(), 'in a block': lambda: BLOCK(S('s'), x()), 'in a branch': lambda: IF(E('c'), x()), 'in a match': lambda: MATCH(E('scr'), (sh('N_PATANY'), None, x())),
                 'after a loop': lambda: body(WHILE(E('c'), S('s')), x()), 'after a loop over a collection': lambda: body(FOR('x', E('c'), S('s')), x()),
                 'in code that never runs': lambda: IF(sh('N_BOOL', ival=0), x()), 'after a loop that never runs': lambda: body(WHILE(sh('N_BOOL', ival=0), S('s')), x())}
            for pl, mk in w.items():
                y = mk()
                if 'loop' in t:
                    y = WHILE(E('d'), BLOCK(LET('z', FN(['p'], [y])), S('t')))
                out.append(Case('%s outside of a loop%s, %s' % (l, t, pl), y, error=True, **k))
        out.append(Case('%s in a function in a comprehension' % l, LET('z', COMP(FN([], [x()]), 'x', E('coll'))), error=True))
    for l, x in (('return', lambda: RET(E('e'))), ('return of several', lambda: sh('N_MULTIRET', body(E('e'), E('f'))))):
        where(l + ' outside of a function', x)
        out.append(Case(l + ' outside of a function, after one', body(LET('z', FN(['p'], [x()])), x()), error=True))
        out.append(Case(l + ' outside of a function, at the prompt', x(), repl=True, error=True))
    for l, x in (('in a block', lambda x: BLOCK(S('s'), x)), ('in a branch', lambda x: IF(E('c'), BLOCK(x))), ('in a loop', lambda x: FOR('i', E('c'), BLOCK(x))),
                 ('in a loop body that is a block', lambda x: WHILE(E('c'), BLOCK(x))), ('in a function', lambda x: LET('z', FN([], [x]))), ('in code that never runs', lambda x: IF(sh('N_BOOL', ival=0), BLOCK(x)))):
        out.append(Case('export ' + l, x(sh('N_EXPORT', E('e'))), error=True))
    return out


def check_S01(m, rep):
    rep.rule('rejected: for programs (shapes whose other parts are opaque) that use or assign a name that is not in scope, assign to a constant, declare a name twice in a '
             'scope, bind names unequally around |, or use break, continue, return or export where they have no meaning, every path through the code generator reports an '
             'error and fails the compilation; also in code that can never run')
    rep.rule('accepted: declaring a name again in another scope is not an error')
    rep.rule('compiled: a failed compilation yields no bytecode and leaves no scope open')
    cs = badnames()
    for c in cs:
        h, e, sts, before = compile_case(m, c)
        for st in sts:
            status = h.cfield(e, st, 'status')
            if c.error:
                if status == ZERO or not st.nonneg(add(status, const(-1))) and not (isconst(status) and status[0]):
                    rep.bad('rejected', c.label, 'compiler/compiler.c (visit of %s)' % c.node.kind, 'the code generator accepts: %s' % c.label)
                elif 'err' not in st.p:
                    rep.bad('rejected', c.label + ' (silently)', 'compiler/compiler.c (visit of %s)' % c.node.kind, 'rejected without a message: %s' % c.label)
                else:
                    rep.ok('rejected', c.label)
            elif status != ZERO:
                rep.bad('accepted', c.label, 'compiler/compiler.c (visit of %s)' % c.node.kind, 'the code generator rejects: %s' % c.label)
            else:
                rep.ok('accepted', c.label)
    import errors
    for fn in ('compile', 'compile_REPL'):
        errors.compiled(m, rep, fn)
    rep.cov['programs'] = len(cs)
    rep.floor('rejected', 250)
    rep.floor('accepted', 60)
    rep.floor('compiled', 4)
