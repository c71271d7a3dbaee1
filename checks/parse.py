"""S04: the parser builds the tree the grammar prescribes.

The parser is executed abstractly on sequences of token kinds; the texts of the tokens are opaque except where the language gives
them a meaning.  The tree (and the question whether the text is accepted) is compared with that of a reference grammar.
"""
import multiprocessing
import os
import sys
from nvm import *
import cvm
from ir import AnalysisBroken

sys.setrecursionlimit(20000)

WORDS = {'undef': 'T_UNDEF', 'if': 'T_IF', 'elseif': 'T_ELSEIF', 'else': 'T_ELSE', 'while': 'T_WHILE', 'break': 'T_BREAK', 'continue': 'T_CONT', 'for': 'T_FOR',
         'const': 'T_CONST', 'fn': 'T_FN', 'let': 'T_LET', 'return': 'T_RET', 'export': 'T_EXPORT', 'echo': 'T_ECHO', 'len': 'T_LEN', 'assert': 'T_ASS', 'match': 'T_MATCH',
         'true': 'T_BOOL', 'false': 'T_BOOL'}
OPS = {';': 'T_SEMI', 'NL': 'T_SEMI', '(': 'T_LPAR', ')': 'T_RPAR', '[': 'T_LSQB', ']': 'T_RSQB', '{': 'T_LBRC', '}': 'T_RBRC', '.': 'T_DOT', '...': 'T_TDOT', ',': 'T_COMMA',
       '^': 'T_CARET', '+': 'T_PLUS', '-': 'T_MINUS', '!': 'T_BANG', '!=': 'T_BANGEQ', '!==': 'T_BANGDEQ', '~': 'T_TILDE', '*': 'T_STAR', '**': 'T_DSTAR', '/': 'T_SLASH',
       '//': 'T_DSLASH', '%': 'T_MOD', '<': 'T_LT', '<=': 'T_LTEQ', '<<': 'T_DLT', '>': 'T_GT', '>=': 'T_GTEQ', '>>': 'T_DGT', '=': 'T_EQ', '==': 'T_DEQ', '===': 'T_TEQ',
       '&': 'T_AMP', '&&': 'T_DAMP', '&^': 'T_AMPCARET', '|': 'T_BAR', '||': 'T_DBAR', '?': 'T_QMARK', '??': 'T_DQMARK', ':': 'T_COLON', '->': 'T_RIGHT_ARR', '<-': 'T_LEFT_ARR',
       ':=': 'T_COLONEQ', '!~': 'T_BANGTILDE', '=~': 'T_EQTILDE'}
AUG = {'^=': '^', '+=': '+', '-=': '-', '~=': '~', '*=': '*', '**=': '**', '/=': '/', '//=': '//', '%=': '%', '<<=': '<<', '>>=': '>>', '&=': '&', '&&=': '&&',
       '&^=': '&^', '|=': '|', '||=': '||', '??=': '??'}
for a_, b_ in AUG.items():
    OPS[a_] = OPS[b_] + 'EQ'


def kind(t):
    """'x' name, '7' int, '7.5' float, "'s" string, '"s' first part of an interpolated string, '#s' middle part, '#!s' last part"""
    if t in WORDS:
        return WORDS[t]
    if t in OPS:
        return OPS[t]
    if t[0] in '"#\'':
        return 'T_STR'
    if t[0].isdigit():
        return 'T_FLOAT' if '.' in t else 'T_INT'
    if t == 'EOF':
        return 'T_EOF'
    return 'T_ID'


def text(t):
    k = kind(t)
    if k == 'T_STR':
        return t.lstrip('"#!\'')
    return t if k in ('T_ID', 'T_INT', 'T_FLOAT', 'T_BOOL') else None


class Rej(Exception):
    pass


# ------------------------------------------------------------------ the grammar
LEVELS = [('R', ('??',)), ('R', ('||',)), ('R', ('&&',)), ('L', ('==', '!=', '===', '!==')), ('L', ('<', '<=', '>', '>=')), ('R', ('~',)), ('L', ('|',)), ('L', ('^',)),
          ('L', ('&', '&^')), ('L', ('<<', '>>')), ('L', ('+', '-')), ('L', ('*', '/', '//', '%'))]
UNARY = ('+', '-', '!', '^', 'len')
TYPES = {'bool': 'N_PATBOOLTYPE', 'int': 'N_PATINTTYPE', 'float': 'N_PATFLOATTYPE', 'str': 'N_PATSTRTYPE', 'list': 'N_PATLSTYPE', 'table': 'N_PATTABLETYPE'}


class Ref:
    def __init__(self, toks):
        self.t, self.i = list(toks), 0

    @property
    def c(self):
        return self.t[self.i] if self.i < len(self.t) else 'EOF'

    def at(self, *ks):
        return self.c in ks and (self.c != 'NL' or 'NL' in ks)

    def isk(self, k):
        return kind(self.c) == k

    def eat(self, x):
        if not (self.c == x or x == ';' and self.c == 'NL'):
            raise Rej
        self.i += 1

    def take(self, x):
        if self.c == x:
            self.i += 1
            return True
        return False

    def name(self):
        if not self.isk('T_ID'):
            raise Rej
        self.i += 1
        return self.t[self.i - 1]

    def newlines(self):
        while self.c == 'NL':
            self.i += 1

    # expressions
    def expr(self):
        return self.ternary()

    def ternary(self):
        c = self.binary(0)
        if self.take('?'):
            a = self.ternary()
            self.eat(':')
            b = self.ternary()
            return ('N_TRIOP', c, a, b)
        return c

    def binary(self, n):
        if n == len(LEVELS):
            return self.unary()
        side, ops = LEVELS[n]
        l = self.binary(n + 1)
        while self.c in ops:
            op = self.c
            self.i += 1
            if side == 'R':
                return ('N_BINOP', op, l, self.binary(n))
            l = ('N_BINOP', op, l, self.binary(n + 1))
        return l

    def unary(self):
        if self.c in UNARY:
            op = self.c
            self.i += 1
            return ('N_UNOP', op, self.unary())
        x = self.postfix()
        if self.take('**'):
            return ('N_BINOP', '**', x, self.unary())
        return x

    def args(self):
        l = []
        while not self.at(')', 'EOF'):
            l.append(self.expr())
            if not self.take(','):
                break
        self.eat(')')
        return spread(l)

    def postfix(self):
        x = self.primary()
        while self.at('[', '.', '(', '->'):
            if self.take('->'):
                n = self.name()
                self.eat('(')
                x = ('N_MCALL', n, ('N_BODY',) + tuple(self.args()), x)
            elif self.take('.'):
                x = ('N_GET', x, ('N_STR', self.name()))
            elif self.take('['):
                if self.take(':'):
                    b = ('N_UNDEF',) if self.at(']') else self.expr()
                    x = ('N_SLICE', x, ('N_UNDEF',), b)
                else:
                    a = self.expr()
                    if self.take(':'):
                        b = ('N_UNDEF',) if self.at(']') else self.expr()
                        x = ('N_SLICE', x, a, b)
                    else:
                        x = ('N_GET', x, a)
                self.eat(']')
            else:
                self.eat('(')
                x = ('N_CALL', ('N_BODY',) + tuple(self.args()), x)
        return x

    def primary(self):
        k = kind(self.c)
        if self.take('.'):
            return ('N_STR', self.name())
        if k == 'T_ID':
            return ('N_VAR', self.name())
        if self.take('('):
            x = self.expr()
            self.eat(')')
            return x
        if self.at('['):
            return self.list()
        if self.at('{'):
            return self.table()
        if k == 'T_STR':
            return self.string()
        if k in ('T_INT', 'T_FLOAT', 'T_BOOL'):
            self.i += 1
            return ({'T_INT': 'N_INT', 'T_FLOAT': 'N_FLOAT', 'T_BOOL': 'N_BOOL'}[k], self.t[self.i - 1])
        if self.take('undef'):
            return ('N_UNDEF',)
        if self.take('fn'):
            p, b = self.function()
            return ('N_FNDECL', None, p, b)
        raise Rej

    def string(self):
        t = self.c
        if t[0] == '#':
            raise Rej
        self.i += 1
        x = ('N_STR', text(t))
        more = t[0] == '"'
        while more:
            self.eat('{')
            x = ('N_BINOP', '~', x, self.expr())
            self.eat('}')
            t = self.c
            if t[0] != '#':
                raise Rej
            self.i += 1
            x = ('N_BINOP', '~', x, ('N_STR', text(t)))
            more = not t.startswith('#!')
        return x

    def iterate(self):
        n = self.name()
        self.eat('<-')
        return ('N_LETITER', n, self.expr())

    def comp(self):
        it = self.iterate()
        cond = self.expr() if self.take('if') else None
        self.newlines()
        return it, cond

    def list(self):
        self.eat('[')
        if self.take(']'):
            return ('N_LIST', ('N_BODY',))
        l = [self.expr()]
        self.newlines()
        if self.take('for'):
            it, cond = self.comp()
            self.eat(']')
            return ('N_LISTCOMP', l[0], it, cond)
        while self.take(','):
            l.append(self.expr())
        self.newlines()
        self.eat(']')
        return ('N_LIST', ('N_BODY',) + tuple(l))

    def table(self):
        self.eat('{')
        if self.take('}'):
            return ('N_TABLE', ('N_BODY',))
        l = [self.expr()]
        self.eat(':')
        l.append(self.expr())
        self.newlines()
        if self.take('for'):
            it, cond = self.comp()
            self.eat('}')
            return ('N_TABLECOMP', ('N_BODY',) + tuple(l), it, cond)
        while self.take(','):
            l.append(self.expr())
            self.eat(':')
            l.append(self.expr())
        self.newlines()
        self.eat('}')
        return ('N_TABLE', ('N_BODY',) + tuple(l))

    def function(self):
        self.eat('(')
        l = []
        while self.at('const') or self.isk('T_ID'):
            l.append(('N_CONST' if self.take('const') else 'N_LET', self.name()))
            if not self.take(','):
                break
        self.eat(')')
        return ('N_BODY',) + tuple(l), self.body()

    # statements
    def body(self):
        self.eat('{')
        l = []
        while not self.at('}', 'EOF'):
            l.append(self.statement())
            self.eat(';')
        self.eat('}')
        return ('N_BODY',) + tuple(l)

    def statement(self):
        c = self.c
        nxt = self.t[self.i + 1] if self.i + 1 < len(self.t) else 'EOF'
        if c == 'echo' or c == 'export' or c == 'assert':
            self.i += 1
            return ({'echo': 'N_ECHO', 'export': 'N_EXPORT', 'assert': 'N_ASS'}[c], self.expr())
        if c == 'break' or c == 'continue':
            self.i += 1
            return ({'break': 'N_BREAK', 'continue': 'N_CONT'}[c],)
        if c == 'fn' and kind(nxt) == 'T_ID':
            return self.fndecl('N_LET')
        if c == 'const' and nxt == 'fn':
            self.i += 1
            return self.fndecl('N_CONST')
        if c == 'return':
            self.i += 1
            l = [self.expr()]
            while self.take(','):
                l.append(self.expr())
            if len(l) == 1:
                return ('N_RET', ('N_VARCONT', -1, l[0]))
            return ('N_MULTIRET', ('N_BODY',) + tuple(spread(l)))
        if c in ('let', 'const') or kind(c) == 'T_ID' and nxt == ',':
            return self.decl([self.lvalue()])
        if c == 'for':
            self.i += 1
            if self.take('let'):
                n = self.name()
                self.eat('=')
                init = ('N_LET', n, self.expr())
                self.eat(';')
                cond = self.expr()
                self.eat(';')
                post = self.simple()
                b = self.body()
                return ('N_BLOCK', ('N_BODY', init, ('N_WHILE', cond, ('N_BLOCK', b), post)))
            it = self.iterate()
            return ('N_FORITER', it, ('N_BLOCK', self.body()))
        if c == 'while':
            self.i += 1
            x = self.expr()
            return ('N_WHILE', x, ('N_BLOCK', self.body()), None)
        if c == 'match':
            return self.match()
        if c == 'if':
            return self.cond()
        return self.simple()

    def fndecl(self, how):
        self.eat('fn')
        n = self.name()
        if how == 'N_LET' and self.take('.'):
            k = self.name()
            p, b = self.function()
            return ('N_SET', ('N_VAR', n), ('N_STR', k), ('N_FNDECL', None, p, b))
        p, b = self.function()
        return (how, n, ('N_FNDECL', n, p, b))

    def lvalue(self):
        if self.take('let'):
            return ('N_LET', self.name(), None)
        if self.take('const'):
            return ('N_CONST', self.name(), None)
        x = self.postfix()
        if x[0] == 'N_VAR':
            return ('N_ASSIGN', x[1], None)
        if x[0] == 'N_GET':
            return ('N_SET', x[1], x[2], None)
        raise Rej

    def decl(self, l):
        while self.take(','):
            l.append(self.lvalue())
        self.eat('=')
        r = [self.expr()]
        while len(r) < len(l) and self.take(','):
            r.append(self.expr())
        n = len(r)
        if r[-1][0] in ('N_CALL', 'N_MCALL'):
            r[-1] = ('N_VARCONT', len(l) - n + 1, r[-1])
        else:
            r += [('N_UNDEF',)] * (len(l) - n)
        return ('N_DECL', ('N_BODY',) + tuple(l), ('N_BODY',) + tuple(r))

    def simple(self):
        x = self.expr()
        if self.take('='):
            if x[0] == 'N_VAR':
                return ('N_ASSIGN', x[1], self.expr())
            if x[0] == 'N_GET':
                return ('N_SET', x[1], x[2], self.expr())
            raise Rej
        if self.c in AUG:
            op = AUG[self.c]
            self.i += 1
            if x[0] == 'N_VAR':
                return ('N_ASSIGN', x[1], ('N_BINOP', op, x, self.expr()))
            if x[0] == 'N_GET':
                return ('N_SET', x[1], x[2], ('N_BINOP', op, x, self.expr()))
            raise Rej
        if self.at(',') and x[0] == 'N_GET':
            return self.decl([('N_SET', x[1], x[2], None)])
        return ('N_EXPRSTMT', x)

    def cond(self):
        self.i += 1
        c = self.expr()
        b = ('N_BLOCK', self.body())
        if self.at('elseif'):
            return ('N_IF', c, b, self.cond())
        if self.take('else'):
            return ('N_IF', c, b, ('N_BLOCK', self.body()))
        return ('N_IF', c, b, None)

    def match(self):
        self.eat('match')
        x = self.expr()
        self.eat('{')
        p, g, b = [], [], []
        while not self.at('}', 'EOF'):
            p.append(self.pattern())
            g.append(self.expr() if self.take('if') else None)
            b.append(self.body())
            self.eat(';')
        self.eat('}')
        return ('N_MATCH', x) + tuple(('N_BODY',) + tuple(l) for l in (p, g, b))

    def pattern(self):
        x = self.single()
        if self.take('|'):
            return ('N_PATALT', x, self.pattern())
        return x

    def single(self):
        if self.take('*'):
            return ('N_PATANY',)
        if self.take('undef'):
            return ('N_PATUNDEF',)
        if self.take('let'):
            return ('N_PATLET', self.name(), None)
        if self.take('const'):
            return ('N_PATCONST', self.name(), None)
        if self.take('{'):
            l, k = [], 'N_PATTABLE'
            if self.take('...'):
                k = 'N_PATVTABLE'
            elif not self.at('}'):
                l += self.pair()
                self.newlines()
                while self.take(','):
                    if self.take('...'):
                        k = 'N_PATVTABLE'
                        break
                    l += self.pair()
                self.newlines()
            self.eat('}')
            return (k,) + tuple(l)
        if self.take('['):
            l, k = [], 'N_PATLS'
            if self.take('...'):
                k = 'N_PATVLS'
            elif not self.at(']'):
                l.append(self.pattern())
                self.newlines()
                while self.take(','):
                    if self.take('...'):
                        k = 'N_PATVLS'
                        break
                    l.append(self.pattern())
                self.newlines()
            self.eat(']')
            return (k,) + tuple(l)
        if self.take('('):
            x = self.pattern()
            self.eat(')')
            return x
        return self.primpat()

    def pair(self):
        k = self.primpat()
        self.eat(':')
        return [k, self.pattern()]

    def primpat(self):
        k = kind(self.c)
        neg = self.take('-')
        k = kind(self.c)
        if k in ('T_INT', 'T_FLOAT'):
            self.i += 1
            return ({'T_INT': 'N_PATINT', 'T_FLOAT': 'N_PATFL'}[k], ('-' if neg else '') + self.t[self.i - 1])
        if neg:
            raise Rej
        if k == 'T_BOOL':
            self.i += 1
            return ('N_PATBOOL', self.t[self.i - 1])
        if k == 'T_STR':
            if self.c[0] in '"#':
                raise Rej
            self.i += 1
            return ('N_PATSTR', text(self.t[self.i - 1]))
        if self.take('.'):
            return ('N_PATSTR', self.name())
        if k == 'T_ID':
            n = self.name()
            if n not in TYPES:
                raise Rej
            return (TYPES[n],)
        raise Rej


def spread(l):
    if l and l[-1][0] in ('N_CALL', 'N_MCALL'):
        l[-1] = ('N_VARCONT', -1, l[-1])
    return l


def plain(t):
    """/n/x is the token x on the next line, where the line break is no token"""
    return t[3:] if t.startswith('/n/') else t


def reference(toks):
    r = Ref([plain(t) for t in toks])
    try:
        t = r.statement()
        return t if r.c in (';', 'NL', 'EOF') and r.i >= len(toks) - 1 else None
    except Rej:
        return None


# ------------------------------------------------------------------ the parser
MODELLED = {'gettok', 'lxgetc', 'lxtell', 'lxseek', 'lxeof', 'lex_getchar', 'lex_eatinterpstringbody', 'fold', '_setjmp', 'setjmp', 'longjmp', 'strlen', 'strcmp', 'strcpy',
            'memcpy', 'strdup', 'strtoll', 'strtod', 'node_del', 'lex_error'}


class PH(NVM):
    FILES = ('compiler/parser.c', 'compiler/ast.c')

    def __init__(self, m, toks):
        super().__init__(m)
        self.toks = [plain(t) for t in toks]
        self.breaks = [t == 'NL' or t.startswith('/n/') for t in toks]
        self.P = atom('obj', 'parser')
        self.refs = False
        self.lx = m.field('Parser', 'lex')
        self.LF = {n: self.lx + m.field('Lexer', n) for n in ('c', 'type', 'value', 'val_len', 'line', 'status', 'mode')}
        self.texts = {}
        self.modes = {k: m.enum(k) for k in ('L_NORMAL', 'L_INTERP')}

    def mergekey(self, e, s):
        return (s.p.get('pos'), s.p.get('heap'), len(s.p.get('freed', ())), frozenset((k, v) for k, v in s.env.items() if cvm.concrete(v)))

    joinkey = mergekey

    def loopkey(self, e, s, f, b):
        return (s.p.get('pos'), s.p.get('heap'), s.p.get('eofs'))

    def inline(self, e, g, depth):
        return base(g.name) not in MODELLED

    def setlex(self, s, n, v):
        s.mem[add(self.P, const(self.LF[n]))] = v

    def initval(self, e, s, a, ty, c):
        if c[0] == 'B':
            k = A.tab[c[1]]
            if k[0] == 'obj' and k[1] == 'text' and isconst((a[0], ())):
                t = k[2]
                return const(ord(t[a[0]]) if 0 <= a[0] < len(t) else 0)
        return super().initval(e, s, a, ty, c)

    def textat(self, s, i, t):
        a = atom('obj', 'text', t, i, s.p.get('reads', 0))
        self.sizes[a] = len(t) + 1
        return a

    def token(self, s, i, body=False):
        """make token i the current one"""
        t = self.toks[i] if i < len(self.toks) else 'EOF'
        s.p['pos'] = i
        if i < len(self.toks) and self.breaks[i]:
            l = add(self.P, const(self.LF['line']))
            s.mem[l] = add(s.mem[l], const(1))
        s.p['reads'] = s.p.get('reads', 0) + 1
        k = kind(t)
        if t[0] == '#' and not body:
            k, t = 'T_UNKNOWN', 'EOF'
            self.setlex(s, 'status', const(self.m.enum('YASL_SYNTAX_ERROR')))
        self.setlex(s, 'type', const(self.m.enum(k)))
        x = text(t)
        self.setlex(s, 'value', ZERO if x is None else self.textat(s, i, x))
        if x is not None:
            self.setlex(s, 'val_len', const(len(x)))
        if t == 'EOF':
            s.p['eofs'] = s.p.get('eofs', 0) + 1
        nxt = self.toks[i + 1] if i + 1 < len(self.toks) else 'EOF'
        ident = k in ('T_ID', 'T_INT', 'T_FLOAT') or t in WORDS
        self.setlex(s, 'c', const(10 if t == 'NL' or nxt == 'NL' and ident else (32 if nxt[0].isalnum() else ord(nxt[0])) if ident else ord(t[0])))
        if t[0] in '"#':
            self.setlex(s, 'mode', const(self.modes['L_INTERP' if t[0] == '"' or t[0] == '#' and not t.startswith('#!') else 'L_NORMAL']))

    def at(self, s, x):
        return s.p['pos'] < len(self.toks) and self.toks[s.p['pos']] == x

    def gettext(self, s, v):
        b = objbase(v)
        if b is not None and A.tab[b][0] == 'obj' and A.tab[b][1] == 'text' and 0 <= v[0] <= len(A.tab[b][2]):
            return A.tab[b][2][v[0]:]
        if b is not None and v in s.p.get('copies', ()):
            return dict(s.p['copied'])[v]
        if len(v[1]) == 1 and A.tab[v[1][0][0]][0] == 'glob':
            return self.m.cstr(('g', A.tab[v[1][0][0]][1]))
        return None

    def copytext(self, s, dst, t):
        s.p['copied'] = tuple(x for x in s.p.get('copied', ()) if x[0] != dst) + ((dst, t),)
        s.p['copies'] = frozenset(x[0] for x in s.p['copied'])

    def on_call(self, e, s, f, ins, name, args, ctx, depth, stack):
        b = base(name) or ''
        if b.startswith('llvm.va_start'):
            tag = args[0]
            s.mem[tag] = const(48)
            s.mem[add(tag, const(4))] = const(304)
            s.mem[add(tag, const(8))] = s.p.get('va', atom('obj', 'va', 'none'))
            return [(None, s)]
        if b.startswith('llvm.va_end') or b in ('fold', 'node_del'):
            return [(None, s)]
        if b in ('_setjmp', 'setjmp'):
            return [(ZERO, s)]
        if b == 'gettok':
            self.token(s, s.p['pos'] + 1)
            if s.p.get('eofs', 0) > 60:
                self.problems.append(('reads on behind the end', self.m.loc(ins)))
                return []
            return [(None, s)]
        if b == 'lex_eatinterpstringbody':
            if not self.at(s, '}'):
                self.problems.append(('goes on with a string inside of its placeholder', self.m.loc(ins)))
            self.token(s, s.p['pos'] + 1, body=True)
            if self.toks[s.p['pos']][0] != '#' if s.p['pos'] < len(self.toks) else True:
                self.setlex(s, 'status', const(self.m.enum('YASL_SYNTAX_ERROR')))
            return [(None, s)]
        if b == 'lex_getchar':
            # only used to skip the rest of the line or of the string
            self.setlex(s, 'c', const(34 if s.p.get('eofs', 0) % 2 else 10))
            s.p['eofs'] = s.p.get('eofs', 0) + 1
            return [(const(10), s)]
        if b == 'lxgetc':
            return [(const(32), s)]
        if b == 'lxeof':
            return [(const(0), s)]
        if b == 'lxtell':
            return [(const(s.p['pos']), s)]
        if b == 'lxseek':
            if not isconst(args[1]):
                raise AnalysisBroken('seeks an unknown place')
            s.p['pos'] = args[1][0]
            return [(ZERO, s)]
        if b in ('strlen', 'strcmp', 'strtoll', 'strtod', 'strdup', 'strcpy') or b == 'memcpy' or b.startswith('llvm.memcpy'):
            i = 1 if b in ('strcpy', 'memcpy') or b.startswith('llvm') else 0
            t = self.gettext(s, args[i])
            self.use(s, args[i], ins, 'uses')
            if objbase(args[i]) in s.p.get('freed', ()):
                self.problems.append(('uses memory that was freed', self.m.loc(ins)))
            if b == 'strlen' and t is not None:
                return [(const(len(t)), s)]
            if b == 'strcmp':
                u = self.gettext(s, args[1])
                if t is not None and u is not None:
                    return [(const((t > u) - (t < u)), s)]
            if b in ('strtoll', 'strtod') and t is not None:
                return [(atom('number', b, t, args[2] if b == 'strtoll' else None), s)]
            if b == 'strdup' and t is not None:
                n = s.p.get('heap', 0)
                s.p['heap'] = n + 1
                u = atom('heap', n)
                s.p['sizes'] = s.p.get('sizes', ()) + ((u[1][0][0], len(t) + 1),)
                self.copytext(s, u, t)
                return [(u, s)]
            if i == 1 and t is not None and objbase(args[0]) is not None and A.tab[objbase(args[0])][0] == 'heap':
                n = const(len(t) + 1) if b == 'strcpy' else args[2]
                self.access(e, s, ins, args[0], n[0] if isconst(n) else 1 << 30, 'writes')
                self.copytext(s, args[0], t)
                return [(args[0], s)]
        g = self.m.functions.get(name) if name else None
        if self.isprint(f, ins, name, args):
            s.p['printed'] = True
            return [(None, s)]
        r = super().on_call(e, s, f, ins, name, args, ctx, depth, stack)
        if r is not None:
            return r
        if g is not None and not g.decl and self.inline(e, g, depth):
            n = len(g.params)
            if len(args) > n:
                va = atom('obj', 'va', s.p.get('calls', 0))
                s.p['calls'] = s.p.get('calls', 0) + 1
                for j, v in enumerate(args[n:]):
                    s.mem[add(va, const(8 * j))] = v
                old, s.p['va'] = s.p.get('va'), va
            if depth > 150:
                raise AnalysisBroken('recursion')
            return e.run(g, args[:n], s, e.newctx(ctx, f, ins), depth + 1, stack + (name,))
        return None

    def isprint(self, f, ins, name, args):
        """the print function of the error sink, called through the sink"""
        if name is None:
            return True
        return base(name) in ('parser_print_err', 'lex_print_err', 'vfprintf', 'fprintf')

    def on_noreturn(self, e, s, f, ins, name, args):
        self.errors.append((base(name), None, self.m.loc(ins), s.copy()))

    def nodes(self, e, s, n, depth=0):
        """the nodes reached through children, and their kinds"""
        if isconst(n) or depth > 60:
            return
        m = self.m
        k = e.load(s, add(n, const(m.field('Node', 'nodetype'))), None)
        yield n, next((x for x, v in m.enumtypes['NodeType'].items() if const(v) == k), '?')
        num = e.load(s, add(n, const(m.field('Node', 'children_len'))), None)
        for i in range(num[0] if isconst(num) and num[0] < 40 else 0):
            yield from self.nodes(e, s, e.load(s, add(n, const(m.field('Node', 'children') + 8 * i)), 'ptr'), depth + 1)

    # ---- the tree
    def tree(self, e, s, n, depth=0):
        m = self.m
        if isconst(n):
            return None if n[0] == 0 else ('?', n[0])
        if depth > 60:
            return ('?', 'deep')
        if objbase(n) in s.p.get('freed', ()):
            return ('?', 'freed')
        L = lambda o, ty='ptr': e.load(s, add(n, const(o)), ty)
        F = lambda x: m.field('Node', x)
        k = L(F('nodetype'), None)
        kinds = {v: x for x, v in m.enumtypes['NodeType'].items()}
        if not isconst(k) or k[0] not in kinds:
            return ('?', show(k))
        k = kinds[k[0]]
        v = F('value')
        num = L(F('children_len'), None)
        kids = [self.tree(e, s, L(F('children') + 8 * i), depth + 1) for i in range(num[0])] if isconst(num) and num[0] < 40 else ['?']
        toks = {x: t for t, x in ((t, m.enum(y)) for t, y in OPS.items() if t != 'NL')}
        toks.update({m.enum('T_LEN'): 'len'})
        op = lambda: toks.get(L(v, None)[0], '?') if isconst(L(v, None)) else '?'
        if k in ('N_BINOP', 'N_PATALT'):
            o = m.field('BinOpNode', 'left'), m.field('BinOpNode', 'right')
            l, r = (self.tree(e, s, L(v + x), depth + 1) for x in o)
            return (k, op(), l, r) if k == 'N_BINOP' else (k, l, r)
        if k == 'N_UNOP':
            return (k, op(), self.tree(e, s, L(v + m.field('UnOpNode', 'expr')), depth + 1))
        if k == 'N_VARCONT':
            x = L(v, None)
            return (k, x[0] if isconst(x) else '?') + tuple(kids)
        if k in ('N_INT', 'N_FLOAT', 'N_BOOL', 'N_PATINT', 'N_PATFL', 'N_PATBOOL'):
            return (k, self.number(k, L(v, None))) + tuple(kids)
        if k in ('N_VAR', 'N_STR', 'N_PATSTR', 'N_MCALL', 'N_LET', 'N_CONST', 'N_ASSIGN', 'N_LETITER', 'N_FNDECL', 'N_PATLET', 'N_PATCONST'):
            x = L(v, None)
            if objbase(x) in s.p.get('freed', ()):
                return (k, 'freed')
            t = None if x == ZERO else self.gettext(s, x) or ''
            z = L(v + 8, None)
            if t is not None and k in ('N_STR', 'N_PATSTR', 'N_MCALL', 'N_FNDECL') and z != const(len(t)):
                t += ' of length ' + show(z)
            return (k, t) + tuple(kids)
        return (k,) + tuple(kids)

    def number(self, k, v):
        if k in ('N_BOOL', 'N_PATBOOL'):
            return 'true' if v == const(1) else 'false' if v == ZERO else '?'
        neg = False
        if len(v[1]) == 1 and v[1][0][1] in (-1,) and not v[0]:
            neg, v = True, scale(v, -1)
        x = single(v)
        if x and x[0] == 'op' and x[1] in ('fneg', 'fmul') and len(x) >= 3:
            neg, x = True, single(next(y for y in x[2:] if y[1]))
        if not x or x[0] != 'number':
            return '? ' + show(v)
        t = x[2]
        if x[1] == 'strtoll':
            w = x[3]
            return ('-' if neg else '') + ({10: '', 16: '0x', 2: '0b'}.get(w[0], '?') + t)
        return ('-' if neg else '') + t


def showt(t):
    if isinstance(t, tuple):
        return '(' + ' '.join(showt(x) for x in t) + ')'
    return '-' if t is None else str(t)


def shownum(t):
    """texts of numbers without their prefix and the base they are read in"""
    if isinstance(t, tuple):
        return tuple(shownum(x) for x in t)
    return t


def work(src):
    steps = THE.steps
    try:
        r = THE.run(src.split())
    except AnalysisBroken as x:
        r = '`%s`: %s' % (src, x)
    return src, r, THE.steps - steps


class PBench:
    def __init__(self, m, rep):
        self.m, self.rep, self.n, self.steps = m, rep, 0, 0
        self.f = m.fn('parse')

    def run(self, toks):
        m = self.m
        self.lines = None
        h = PH(m, toks)
        e = h.engine = Engine(m, h)
        e.maxsteps = 60000
        e.MAXDEPTH = 160
        s = State()
        P = h.P
        st = add(P, const(m.field('Parser', 'status')))
        for n in ('status', 'head', 'tail'):
            s.mem[add(P, const(m.field('Parser', n)))] = ZERO
        h.setlex(s, 'line', const(1))
        h.setlex(s, 'status', ZERO)
        h.setlex(s, 'mode', const(h.modes['L_NORMAL']))
        h.token(s, 0)
        endless = False
        try:
            res = e.run(self.f, [P], s)
        except AnalysisBroken as x:
            if 'step' not in str(x):
                raise
            endless, res = True, []
        self.n += 1
        self.steps += e.steps
        out = []
        for rv, t in res:
            ok = e.load(t, st, None) == ZERO and isconst(e.load(t, add(P, const(h.LF['type'])), None)) and rv != ZERO
            ty = e.load(t, add(P, const(h.LF['type'])), None)
            ok = ok and ty[0] in (m.enum('T_SEMI'), m.enum('T_EOF')) and t.p['pos'] >= len(toks) - 1
            if ok:
                now = 1 + sum(h.breaks[:t.p['pos'] + 1])
                line = e.load(t, add(P, const(h.LF['line'])), None)
                if line != const(now):
                    self.lines = 'counts lines wrong: in line %d it thinks it is in line %s' % (now, show(line))
                else:
                    for n, k in h.nodes(e, t, rv):
                        x = e.load(t, add(n, const(m.field('Node', 'line'))), None)
                        if not isconst(x) or not 1 <= x[0] <= now:
                            self.lines = 'gives a %s line %s of %d' % (k, show(x), now)
            out.append(h.tree(e, t, rv) if ok else None)
        out += [None] * len(h.errors)
        return out, h.problems, endless, self.lines

    def check(self, src, rule='grouping'):
        self.judge(src, rule, *self.run(src.split()))

    def all(self, srcs, rule):
        """the same for many texts, in parallel"""
        global THE
        THE = self
        srcs = list(dict.fromkeys(srcs))
        with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
            for src, r, steps in pool.imap(work, srcs, 16):
                if isinstance(r, str):
                    raise AnalysisBroken(r)
                self.n += 1
                self.steps += steps
                self.judge(src, rule, *r)
                if len(self.rep.finds) > 30:
                    pool.terminate()
                    return

    def judge(self, src, rule, got, probs, endless, lines):
        want = reference(src.split())
        loc = self.m.fnloc(self.f)
        rep = self.rep
        if endless:
            rep.bad(rule, 'never ends: ' + src, loc, '`%s`: parsing never ends' % src)
        elif not got:
            rep.bad(rule, 'no result: ' + src, loc, '`%s`: parsing has no result' % src)
        for g in got:
            if g == want:
                rep.ok(rule, src)
            else:
                what = '`%s` is %s, expected %s' % (src, 'rejected' if g is None else 'parsed as ' + showt(g), 'to be rejected' if want is None else showt(want))
                rep.bad(rule, src, loc, what)
        for what, at in probs:
            rep.bad('memory', what + ': ' + at.rsplit(':', 1)[0] if isinstance(at, str) else what, at, '`%s`: the parser %s' % (src, what))
        if not probs:
            rep.ok('memory', src)
        if lines:
            rep.bad('lines', lines.split(':')[0] + ': ' + src, loc, '`%s`: the parser %s' % (src, lines))
        elif want:
            rep.ok('lines', src)


# ------------------------------------------------------------------ the programs
BINARY = [o for _, ops in LEVELS for o in ops] + ['**']
REPS = [ops[0] for _, ops in LEVELS] + ['**']
PRIMARY = ['a', "'s", '"s { a } #!t', '"s { a } #t { b } #!u', '7', '0x1f', '0b101', '7.5', 'true', 'false', 'undef', '( a )', '( a + b )', '[ ]', '[ a ]', '[ a , b ]', '[ a for x <- b ]',
           '[ a for x <- b if c ]', '{ }', '{ a : b }', '{ a : b , c : d }', '{ a : b for x <- c }', '{ a : b for x <- c if d }', 'fn ( ) { }', 'fn ( a ) { echo a ; }', '. x',
           'fn ( a , const b ) { return a ; }', 'f ( )', 'f ( a , g ( ) )', 'a -> m ( b )', 'a . b', 'a [ b ]', 'a [ b : c ]', 'a ? b : c', 'a + b', '- a', 'a ** b']
POSTFIX = ['( )', '( a )', '( a , b )', '( a , f ( ) )', '( f ( ) , a )', '( a + b )', '( a -> m ( ) )', '[ a ]', '[ a + b ]', '[ : ]', '[ a : ]', '[ : a ]', '[ a : b ]', '. x', '-> m ( )',
           '-> m ( a , b )', '-> m ( a , f ( ) )', '( a , )']
EXPRS = ['a', 'f ( )', 'a . x', 'a -> m ( )', 'a + b', 'a ? b : c', 'fn ( ) { }', "'s"]
PATTERNS = ['7', '- 7', '7.5', '- 7.5', 'true', 'false', "'s", '. x', 'undef', '*', 'let x', 'const x', 'bool', 'int', 'float', 'str', 'list', 'table', '[ ]', '[ 1 ]', '[ 1 , 2 ]', '[ ... ]',
            '[ 1 , ... ]', '[ 1 , 2 , ... ]', '{ }', '{ 1 : 2 }', '{ . x : let y , . z : * }', '{ ... }', '{ . x : 1 , ... }', '( 1 )', '1 | 2', '1 | 2 | 3', '( 1 | 2 ) | 3', '[ 1 | 2 , 3 ]',
            '[ NL_ 1 NL , 2 NL ]', '{ . x : 1 NL , . y : 2 NL }', '{ . x : 1 | 2 }', '[ [ 1 ] , { } ]', 'x', '- x', '- true', 'fn', '"s { a } #!s', '{ let x : 1 }', '[ let x , const y ]', '0x1f']


def programs(deep):
    S = lambda *l: ' '.join(l) + ' ;'
    for o in BINARY:
        yield S('a', o, 'b')
        for p in BINARY:
            yield S('a', o, 'b', p, 'c')
    three = BINARY if deep else []
    done = set()
    for group in [ops for _, ops in LEVELS] + [('**',)] + [('??', '==', '~', '+', '*', '**'), ('||', '&&', '<', '|', '^', '&', '<<')] + ([REPS] if deep else []):
        for o in group:
            for p in group:
                for q in group:
                    if (o, p, q) not in done:
                        done.add((o, p, q))
                        yield S('a', o, 'b', p, 'c', q, 'd')
    for u in UNARY:
        yield S(u, 'a')
        for v in UNARY:
            yield S(u, v, 'a')
        for o in BINARY:
            yield S(u, 'a', o, 'b')
            yield S('a', o, u, 'b')
            if deep:
                for p in BINARY:
                    yield S('a', o, u, 'b', p, 'c')
    yield S('a', '**', '-', 'b', '**', 'c')
    for o in BINARY:
        yield S('a', o, 'b', '?', 'c', ':', 'd')
        yield S('a', '?', 'b', o, 'c', ':', 'd')
        yield S('a', '?', 'b', ':', 'c', o, 'd')
        yield S('(', 'a', o, 'b', ')', '*', 'c')
        yield S('a', '**', '(', 'b', o, 'c', ')')
        yield S('x', '=', 'a', o, 'b')
    yield S('a ? b : c ? d : e')
    yield S('a ? b ? c : d : e')
    yield S('a ? b : c ? d : e ? f : g')
    for p in PRIMARY:
        yield S('echo', p)
        yield S(p)
        yield S('(', p, ')')
        yield S('[', p, ']')
        yield S('[', 'a', ',', p, ',', 'b', ']')
        yield S('[', p, 'for', 'x', '<-', p, 'if', p, ']')
        yield S('{', p, ':', p, '}')
        yield S('{', 'a', ':', 'b', ',', p, ':', p, '}')
        yield S('{', p, ':', p, 'for', 'x', '<-', p, 'if', p, '}')
        yield S('f', '(', p, ')')
        yield S('f', '(', p, ',', p, ')')
        yield S('a', '->', 'm', '(', 'b', ',', p, ')')
        yield S('a', '[', p, ']')
        yield S('a', '[', p, ':', p, ']')
        yield S('"s', '{', p, '}', '#!t')
        yield S('let', 'x', '=', p)
        yield S('x', '=', p)
        yield S('x', ',', 'y', '=', p)
        yield S('x', '.', 'y', '+=', p)
        yield S('return', p)
        yield S('return', 'a', ',', p)
        yield S('return', p, ',', 'a')
        yield S('if', p, '{', '}')
        yield S('for', 'x', '<-', p, '{', '}')
        yield S('for let x =', p, ';', p, ';', 'x', '=', p, '{ }')
        yield S('for let x = 1 ; c ;', p, '{ }')
        yield S('match', p, '{', '*', 'if', p, '{', '}', '}')
        yield S(p, '+', 'a')
        yield S('a', '-', p)
        yield S('len', p)
        yield S(p, '**', 'a')
        yield S('fn ( ) {', 'return', p, '; }')
    for x in ('a', '( a )', "'s", '[ ]', 'fn ( ) { }', '. x', 'undef'):
        for p in POSTFIX:
            yield S(x, p)
            yield S('-', x, p)
            yield S(x, p, '**', 'b')
            for q in POSTFIX if deep or x == 'a' else POSTFIX[:1]:
                yield S(x, p, q)
    for q in ('a', 'a . b', 'a [ b ]', 'a [ b ] . c', 'f ( ) . x', 'a . b [ c ]', 'f ( )', 'a -> m ( )', 'a [ : b ]', '7', '( a )', '( a . b )', 'a + b', '. x', '- a'):
        for o in ['='] + sorted(AUG):
            yield S(q, o, 'b')
        yield S(q, '=', 'b', '=', 'c')
        yield S(q, '=', 'f ( )')
        for r in ('a', 'a . b', 'let b', 'const b', 'a [ b ]', 'f ( )', '7', 'a + b'):
            for v in ('1', '1 , 2', 'f ( )', '1 , f ( )', 'f ( ) , 1', '1 , 2 , 3', 'a -> m ( )'):
                if deep or r in ('a', 'let b') or v == '1 , 2':
                    yield S(q, ',', r, '=', v)
    for how in ('let', 'const'):
        yield S(how, 'x')
        yield S(how, '7', '=', '1')
        for v in ('1', '1 , 2', 'f ( )', '1 , f ( )', '1 , 2 , 3', 'f ( ) , 1', 'a -> m ( )', '1 , 2 , f ( )'):
            yield S(how, 'x', '=', v)
            yield S(how, 'x', ',', 'y', '=', v)
            yield S(how, 'x', ',', 'let', 'y', '=', v)
            yield S(how, 'x', ',', 'const', 'y', ',', 'z', '=', v)
            yield S(how, 'x', ',', 'y', '.', 'z', ',', 'w [ 1 ]', '=', v)
            yield S('let x , y , z , w', '=', v)
    for n in range(4):
        l = ' , '.join('abcd'[:n])
        c = ' , '.join('const ' + x for x in 'abcd'[:n])
        yield S('fn f (', l, ') { }')
        yield S('fn f (', c, ') { }')
        yield S('fn t . f (', l, ') { return', l or 'undef', '; }')
        yield S('const fn f (', c, ') { echo a ; }')
        yield S('x = fn (', l, ') { return', l or 'undef', '; }')
        yield S('fn (', l, ') { } (', l, ')')
        yield S('[', l, ']')
        yield S('f (', l, ')')
        yield S('f (', l, ', )')
        yield S('return', l)
    for b in ('', 'echo a ;', 'echo a NL', 'echo a ; echo b ;', 'a = b ; break ;', 'continue ;', 'return a ;', 'let x = 1 ; x += 1 ;', 'fn f ( ) { return 1 ; } ; f ( ) ;', 'while c { break ; } ;',
              'if c { echo d ; } ;', 'match c { * { } ; } ;', 'a ; b ; c ;', 'echo a', ';', 'a b ;'):
        yield S('if a {', b, '}')
        yield S('if a {', b, '} else {', b, '}')
        yield S('if a { echo x ; } elseif b {', b, '}')
        yield S('if a { } elseif b {', b, '} else { echo z ; }')
        yield S('if a { } elseif b { } elseif c {', b, '} else {', b, '}')
        yield S('while a {', b, '}')
        yield S('for x <- a {', b, '}')
        yield S('for let i = 0 ; i < n ; i += 1 {', b, '}')
        yield S('fn f ( ) {', b, '}')
        yield S('const fn f ( ) {', b, '}')
        yield S('fn ( ) {', b, '}')
        yield S('fn t . f ( a ) {', b, '}')
        yield S('match a { 1 {', b, '} ; * {', b, '} ; }')
    for p in PATTERNS:
        p = p.replace('NL_ ', '')
        yield S('match a {', p, '{ } ; }')
        yield S('match a {', p, 'if b { c ; } ; }')
        yield S('match a { 1 { x ; } ;', p, '{ y ; } NL * { z ; } ; }')
        yield S('match a { [', p, ', * ] { } ; }')
        yield S('match a { [', p, ', ... ] { } ; }')
        yield S('match a { { . k :', p, '} { } ; }')
        yield S('match a { (', p, ') { } ; }')
        yield S('match a {', p, '| 9 { } ; }')
        yield S('match a { 9 |', p, '| 8 { } ; }')
        yield S('match a { {', p, ': 1 } { } ; }')
    yield S('match a { }')
    for x in ('fn /n/f ( ) { }', 'fn /n/( ) { }', 'const /n/fn f ( ) { }', 'const /n/x = 1', 'let /n/x = 1', 'a = /n/b', 'a , /n/b = 1', 'fn f ( /n/a , /n/b ) { /n/return a NL }',
              'if a { /n/b NL c NL }', 'a . b , /n/c = 1', 'f ( /n/a , /n/b )', 'a + /n/b', 'match a { /n/1 { } NL * { } NL }', '- /n/a', 'fn ( /n/) { /n/}', '/n/a = b', '/n/fn f ( ) { }',
              '/n/const fn /n/f ( ) { }', 'for x <- /n/a { /n/b NL fn /n/f ( ) { } NL }'):
        yield S(x)
        yield x + ' NL'
        yield S('if a {', x, 'NL', x, 'NL', '}')
    yield 'a NL'
    yield 'if a { a NL a NL } NL'
    yield 'fn f ( ) { a NL f ( ) NL } NL'
    for x in ('[ a NL ]', '[ a , b NL ]', '[ a NL , b NL ]', '[ a NL NL , b ]', '{ a : b NL }', '{ a : b NL , c : d NL }', '[ a NL for x <- b ]', '[ a for x <- b NL ]', '{ a : b NL for x <- c NL }',
              '{ a : b for x <- c if d NL }', '[ a for x <- b if c NL ]'):
        yield S('echo', x)
        yield S('x =', x)


BASES = ['echo a ;', 'a = b ;', 'a . b = c ;', 'a [ b ] = c ;', 'let a , b = c , d ;', 'let x = 1 ;', 'const x = 1 ;', 'a , b = f ( ) ;', 'if a { b ; } elseif c { d ; } else { e ; } ;', 'while a { b ; } ;',
         'for x <- a { b ; } ;', 'for let i = 0 ; i < n ; i += 1 { b ; } ;', 'fn f ( a , b ) { return a , b ; } ;', 'const fn f ( const a ) { } ;', 'fn t . f ( ) { } ;', 'x = fn ( a ) { } ;',
         'match a { 1 if b { c ; } ; let x | 2 { } ; } ;', 'match a { [ 1 , let x , ... ] { } ; } ;', 'match a { { . b : 1 , . c : - 2 , ... } { } ; } ;', 'assert a == b ;', 'export a ;', 'return a , b ;',
         'a ? b : c ;', 'f ( a , b ) ;', 'a -> m ( b , c ) ;', 'a [ b : c ] ;', '[ a , b , c ] ;', '{ a : b , c : d } ;', '[ a for x <- b if c ] ;', '{ a : b for x <- c if d } ;', '- a ** b ;', 'a + ( b * c ) ;',
         'break ;', 'continue ;', '"s { a } #t { b } #!u ;', 'x = "s { a + b } #!t ;', 'a . b , c = d , e ;', 'len a + - b ;']
STRANGE = [';', ')', '(', ']', '}', '{', ',', ':', '=', '.', 'x', '7', 'fn', 'let', 'if', '->', '<-', '...', 'else', 'const', 'undef', '+', '!', 'for', '|', 'echo']


def broken(deep):
    """texts with a token too few, too many or wrong: most are not programs"""
    for b in BASES:
        t = b.split()
        seen = {tuple(t)}
        for i in range(len(t)):
            for u in [t[:i] + t[i + 1:]] + [t[:i] + [t[i]] + t[i:]] + [t[:i] + [x] + t[i + 1:] for x in (STRANGE if deep else STRANGE[i % 5::5])] + ([t[:i] + [x] + t[i:] for x in STRANGE] if deep else []):
                if u and tuple(u) not in seen:
                    seen.add(tuple(u))
                    yield ' '.join(u)


def check_S04(m, rep):
    rep.rule('grouping: every sentence of the grammar is parsed as the tree the grammar gives it: precedence, associativity, the parts of every statement in their places')
    rep.rule('sentences: and a text that is no sentence of the grammar is rejected')
    rep.rule('lines: the line of the parser stays that of the token it is at, however it looks ahead, and every node lies on a line of its text')
    rep.rule('memory: while parsing, only memory that belongs to the parser is touched, and none that was freed')
    B = PBench(m, rep)
    deep = rep.tier == 'thorough'
    B.all(programs(deep), 'grouping')
    B.all(broken(deep), 'sentences')
    rep.cov['cases'] = B.n
    rep.cov['steps'] = B.steps
    if len(rep.finds) < 30:
        rep.floor('grouping', 2500)
        rep.floor('sentences', 1000)
        rep.floor('memory', 3500)
