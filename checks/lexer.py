"""L02: the lexer splits every text into the tokens the language defines.

The lexer (and the source it reads from, a file or a text in memory) is executed abstractly on texts whose characters are either
fixed (where the language gives them a meaning) or stand for a class: any upper case letter without a special role (U), any digit
that is no binary digit (D), any character without a meaning of its own (P), any byte beyond ASCII (N).  Tokens are compared with those of a reference lexer.
"""
import multiprocessing
import os
from nvm import *
import cvm
ONE = const(1)
from ir import AnalysisBroken
from strs import ctype
from parse import OPS, WORDS

CLASSES = {'U': range(ord('G'), ord('W') + 1), 'D': range(ord('2'), ord('9') + 1), 'P': range(1, 9), 'u': range(ord('g'), ord('w') + 1), 'H': range(ord('C'), ord('E')), 'N': range(-128, 0)}
RESERVED = 'header global enum struct pragma yield do ifdef elseifdef use no pure consteval constexpr constfold extern in typename'.split()
ESC = {'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11, '0': 0, "'": 39, '"': 34, '#': 35, '\\': 92}
END = {'T_ID', 'T_STR', 'T_INT', 'T_FLOAT', 'T_BREAK', 'T_CONT', 'T_RPAR', 'T_RSQB', 'T_RBRC', 'T_UNDEF', 'T_BOOL'}
NAMES = {o: k for o, k in OPS.items() if o not in ('NL',)}


def chars(src):
    """the characters of a text; {U} {D} {P} are any character of that class"""
    out, i = [], 0
    while i < len(src):
        if src[i] == '{' and src[i + 2:i + 3] == '}' and src[i + 1] in CLASSES:
            out.append((src[i + 1], len(out)))
            i += 3
        else:
            out.append(src[i])
            i += 1
    return out


FLAG = {'isdigit': 1 << 11, 'isxdigit': 1 << 12, 'isalpha': 1 << 10, 'isalnum': 1 << 3, 'isspace': 1 << 13, 'isupper': 1 << 8, 'islower': 1 << 9}


class Bad(Exception):
    pass


def reference(src):
    """tokens (kind, text, line); the last one is T_EOF or T_UNKNOWN (an error)"""
    t = chars(src)
    n, i, line = len(t), 0, 1
    out = []
    c = lambda k=0: t[i + k] if i + k < n else None
    is_ = lambda x, k: x is not None and (x[0] in k if isinstance(x, tuple) else CH[k[0]](x))
    last = None
    depth = []

    def emit(k, x=None):
        nonlocal last
        last = k
        out.append((k, None if x is None else tuple(ord(y) if isinstance(y, str) else y for y in x), line))

    def escape(d):
        nonlocal i
        x = c()
        if x == 'x':
            h = (c(1), c(2))
            if all(isinstance(y, str) and y in '0123456789abcdefABCDEF' for y in h):
                i += 3
                return int(h[0] + h[1], 16)
            raise Bad
        if not isinstance(x, str) or x not in ESC:
            raise Bad
        i += 1
        return ESC[x]

    def digits(ok):
        nonlocal i
        x = []
        while c() is not None and (ok(c()) or c() == '_'):
            if c() != '_':
                x.append(c())
            i += 1
        return x

    def body(x, d):
        """the rest of a string up to d (or the # in front of a placeholder)"""
        nonlocal i
        while True:
            if c() is None or c() == '\n':
                raise Bad
            if c() == d or d == '"' and c() == '#':
                return
            if c() == '\\':
                i += 1
                x.append(escape(d))
            else:
                x.append(c())
                i += 1
    try:
        while True:
            # blanks, comments
            semi = False
            while True:
                if c() == '\n':
                    line += 1
                    i += 1
                    semi = last in END
                elif c() == '#':
                    while c() not in ('\n', None):
                        i += 1
                elif c() in (' ', '\t'):
                    i += 1
                elif c() == '/' and c(1) == '*':
                    i += 2
                    while not (c() == '*' and c(1) == '/'):
                        if c() is None or c(1) is None:
                            raise Bad
                        if c() == '\n':
                            line += 1
                            semi = last in END
                        i += 1
                    i += 2
                else:
                    break
                if semi:
                    break
            if semi:
                emit('T_SEMI')
                continue
            x = c()
            if x is None:
                emit('T_EOF')
                return out
            if digit(x):
                b = {'x': xdigit, 'X': xdigit, 'b': bdigit, 'B': bdigit}.get(c(1) if isinstance(c(1), str) else '') if x == '0' else None
                if b:
                    p = ['0', c(1).lower()]
                    i += 2
                    while c() == '_':
                        i += 1
                    if not b(c()):
                        raise Bad
                    emit('T_INT', p + digits(b))
                    continue
                x = digits(digit)
                if c() == '.' and digit(c(1)):
                    i += 1
                    x += ['.'] + digits(digit)
                    if c() in ('e', 'E'):
                        i += 1
                        x.append('e')
                        while c() == '_':
                            i += 1
                        if c() in ('+', '-'):
                            x.append(c())
                            i += 1
                        if not digit(c()):
                            raise Bad
                        x += digits(digit)
                    emit('T_FLOAT', x)
                    continue
                emit('T_INT', x)
                continue
            if idstart(x):
                x = []
                while c() is not None and (idstart(c()) or digit(c())):
                    x.append(c())
                    i += 1
                w = ''.join(y if isinstance(y, str) else '?' for y in x)
                if last not in ('T_DOT', 'T_RIGHT_ARR'):
                    if w in RESERVED:
                        raise Bad
                    if w in WORDS:
                        emit(WORDS[w], x if WORDS[w] == 'T_BOOL' else None)
                        continue
                emit('T_ID', x)
                continue
            if x == "'":
                i += 1
                x = []
                body(x, "'")
                i += 1
                emit('T_STR', x)
                continue
            if x == '`':
                i += 1
                x = []
                while c() != '`':
                    if c() is None:
                        raise Bad
                    if c() == '\n':
                        line += 1
                    x.append(c())
                    i += 1
                i += 1
                emit('T_STR', x)
                continue
            if x == '"' or x == '}' and depth and depth[-1] == 0:
                if x == '}':
                    emit('T_RBRC')
                    depth.pop()
                i += 1
                x = []
                body(x, '"')
                if c() == '#':
                    depth.append(-1)
                i += 1
                emit('T_STR', x)
                if depth and depth[-1] == -1:
                    last = 'T_STR'
                continue
            for k in (3, 2, 1):
                w = t[i:i + k]
                if len(w) == k and all(isinstance(y, str) for y in w) and ''.join(w) in NAMES:
                    w = ''.join(w)
                    if depth:
                        depth[-1] += {'{': 1, '}': -1}.get(w, 0)
                    i += k
                    emit(NAMES[w])
                    break
            else:
                raise Bad
    except Bad:
        emit('T_UNKNOWN')
        return out


def digit(x):
    return x is not None and (x[0] == 'D' if isinstance(x, tuple) else x in '0123456789')


def bdigit(x):
    return isinstance(x, str) and x in '01'


def xdigit(x):
    return x is not None and (x[0] in 'DH' if isinstance(x, tuple) else x in '0123456789abcdefABCDEF')


def idstart(x):
    return x is not None and (x[0] in 'UH' if isinstance(x, tuple) else x.isalpha() and ord(x) < 128 or x in '_$')


# ------------------------------------------------------------------ the lexer
class LEngine(Engine):
    def sext8(self, s, a):
        k = single(a)
        return a if k and k[0] == 'chr' else super().sext8(s, a)

    zext8 = sext8


class LH(NVM):
    FILES = ('compiler/lexer.c', 'compiler/lexinput.c', 'data-structures/YASL_ByteBuffer.c')

    def __init__(self, m, text):
        super().__init__(m)
        self.refs = False
        self.text = text
        self.X = atom('obj', 'lexer')
        self.F = {n: m.field('Lexer', n) for n in ('file', 'c', 'type', 'value', 'val_cap', 'val_len', 'line', 'status', 'mode')}

    def mergekey(self, e, s):
        return (s.p.get('fpos'), s.p.get('feof'), s.p.get('heap'), frozenset((k, v) for k, v in s.env.items() if cvm.concrete(v)), frozenset((k, v) for k, v in s.mem.items() if cvm.concrete(v)))

    joinkey = mergekey

    def loopkey(self, e, s, f, b):
        return frozenset((a, v) for a, v in s.mem.items() if isconst(v))

    def inline(self, e, g, depth):
        return True

    def char(self, s, i):
        x = self.text[i]
        return const(ord(x)) if isinstance(x, str) else self.cls_(s, x[0], x[1])

    def cls_(self, s, k, i):
        a = atom('chr', k, i)
        s.vs[s.norm(a)[0]] = (frozenset(CLASSES[k]), frozenset())
        return a

    def initval(self, e, s, a, ty, c):
        if c[0] == 'B':
            k = A.tab[c[1]]
            if k == ('obj', 'ctype'):
                return atom('obj', 'ctypetab')
            if k == ('obj', 'bytes') and isconst((a[0], ())) and len(a[1]) == 1:
                return self.char(s, a[0]) if 0 <= a[0] < len(self.text) else super().initval(e, s, a, ty, c)
        d = add(a, atom('obj', 'ctypetab'), -1)
        if isconst(d) and d[0] % 2 == 0 and -128 <= d[0] // 2 < 256:
            return const(ctype(d[0] // 2) if d[0] >= 0 else 0)
        if len(d[1]) == 1 and d[1][0][1] == 2 and d[0] == 0 and A.tab[d[1][0][0]][0] == 'chr':
            f = {ctype(x) if x > 0 else 0 for x in CLASSES[A.tab[d[1][0][0]][1]]}
            if len(f) == 1:
                return const(f.pop())
        return super().initval(e, s, a, ty, c)

    def decided(self, s, v, k):
        if isconst(v):
            return v[0] & 255 == k & 255
        x = s.values(v)
        return False if x is not None and k not in x else None

    def on_call(self, e, s, f, ins, name, args, ctx, depth, stack):
        b = base(name) or ''
        if b == '__ctype_b_loc':
            return [(atom('obj', 'ctype'), s)]
        if b in FLAG or b in ('tolower', 'toupper'):
            v = args[0]
            k = single(v)
            if isconst(v):
                z = v[0]
                r = {'tolower': z + 32 if 65 <= z <= 90 else z, 'toupper': z - 32 if 97 <= z <= 122 else z}.get(b)
                if r is None:
                    r = bool(0 <= z < 256 and ctype(z) & FLAG[b])
                return [(const(int(r)), s)]
            if b in FLAG and k and k[0] == 'chr':
                r = {bool(x > 0 and ctype(x) & FLAG[b]) for x in CLASSES[k[1]]}
                if len(r) == 1:
                    return [(const(int(r.pop())), s)]
            if b == 'tolower' and k and k[0] == 'chr':
                return [(self.cls_(s, 'u', k[2]) if k[1] == 'U' else v, s)]
        if b in ('strcmp', 'strncmp', 'memcmp', 'bcmp'):
            n = args[2][0] if b != 'strcmp' and isconst(args[2]) else 1 << 20
            for i in range(n):
                x, y = (self.cell(e, s, ins, v, i) for v in args[:2])
                z = (x[0] & 255) - (y[0] & 255) if isconst(x) and isconst(y) else 1 if isconst(y) and self.decided(s, x, y[0]) is False or isconst(x) and self.decided(s, y, x[0]) is False else None
                if z is None:
                    if x == y:
                        continue
                    raise AnalysisBroken('%s undecided' % b)
                if z:
                    return [(const(z), s)]
                if x == ZERO and b[0] == 's':
                    break
            return [(ZERO, s)]
        if b in ('strlen', 'strchr', 'memchr', 'strrchr'):
            n = args[2][0] if b == 'memchr' and isconst(args[2]) else 1 << 20
            at = ZERO
            for i in range(n):
                x = self.cell(e, s, ins, args[0], i)
                if b == 'strlen':
                    if x == ZERO:
                        return [(const(i), s)]
                    if not isconst(x) and self.decided(s, x, 0) is None:
                        raise AnalysisBroken('strlen undecided')
                    continue
                z = (x[0] & 255) == (args[1][0] & 255) if isconst(x) and isconst(args[1]) else True if x == args[1] else self.decided(s, args[1], x[0]) if isconst(x) else self.decided(s, x, args[1][0]) if isconst(args[1]) else None
                if z is None:
                    raise AnalysisBroken('%s undecided' % b)
                if z:
                    at = add(args[0], const(i))
                    if b != 'strrchr':
                        break
                if x == ZERO and b != 'memchr':
                    break
            return [(at, s)]
        if b == 'ungetc':
            s.p['fpos'] = max(0, s.p['fpos'] - 1)
            s.p['feof'] = 0
            return [(args[0], s)]
        if b in ('strtol', 'strtoll', 'strtoul', 'strtoull'):
            l = []
            for i in range(20):
                x = e.load(s, add(args[0], const(i)), None)
                if not isconst(x):
                    break
                if x == ZERO:
                    break
                l.append(chr(x[0] & 255))
            w = ''.join(l)
            j, neg = 0, 1
            while w[j:j + 1] and w[j] in ' \t\n\v\f\r':
                j += 1
            if w[j:j + 1] in ('+', '-') and w[j:j + 1]:
                neg = -1 if w[j] == '-' else 1
                j += 1
            bs = args[2][0] if isconst(args[2]) else 10
            k = j
            while w[k:k + 1] and w[k].isalnum() and int(w[k], 36) < bs:
                k += 1
            if args[1] != ZERO:
                s.mem[args[1]] = add(args[0], const(k if k > j else 0))
            return [(const(neg * int(w[j:k], bs) if k > j else 0), s)]
        if b == 'fgetc':
            i = s.p['fpos']
            if i < len(self.text):
                s.p['fpos'] = i + 1
                return [(self.char(s, i), s)]
            s.p['feof'] = 1
            return [(const(-1), s)]
        if b == 'feof':
            return [(const(s.p['feof']), s)]
        if b == 'ftell':
            return [(const(s.p['fpos']), s)]
        if b == 'fseek':
            if not isconst(args[1]) or not isconst(args[2]) or args[2][0] > 1:
                raise AnalysisBroken('seeks an unknown place')
            s.p['fpos'] = args[1][0] + (s.p['fpos'] if args[2][0] == 1 else 0)
            if s.p['fpos'] < 0:
                self.problems.append(('goes to a place in front of the text', self.m.loc(ins)))
            s.p['feof'] = 0
            return [(ZERO, s)]
        if b == 'lex_print_err':
            return [(None, s)]
        return super().on_call(e, s, f, ins, name, args, ctx, depth, stack)

    def cell(self, e, s, ins, p, i):
        """character i of a text in memory or of a constant"""
        k = single(add(p, const(-p[0])))
        w = self.m.cstr(('g', k[1])) if k and k[0] == 'glob' else None
        if w is not None and p[0] + i <= len(w):
            return const(ord(w[p[0] + i])) if p[0] + i < len(w) else ZERO
        self.access(e, s, ins, add(p, const(i)), 1, 'reads')
        return e.load(s, add(p, const(i)), None)

    # ---- driving it
    def get(self, e, s, n):
        return e.load(s, add(self.X, const(self.F[n])), 'ptr' if n == 'value' else None)

    def set(self, s, n, v):
        s.mem[add(self.X, const(self.F[n]))] = v


def work(x):
    steps = THE.steps
    try:
        r = THE.run(*x)
    except AnalysisBroken as b:
        r = '`%s`: %s' % (x[0], b)
    return x, r, THE.steps - steps


class LBench:
    def __init__(self, m, rep):
        self.m, self.rep, self.n, self.steps = m, rep, 0, 0
        self.f = m.fn('gettok')
        self.body = m.fn('lex_eatinterpstringbody')
        self.types = {v: k for k, v in m.enumtypes['Token'].items()}

    def source(self, h, s, where):
        """the source of characters, made by the lexer's own constructors"""
        e, m = h.engine, self.m
        if where == 'bb':
            b = atom('obj', 'bytes')
            h.sizes[b] = len(h.text)
            for i in range(len(h.text)):
                s.mem[add(b, const(i))] = h.char(s, i)
            r = e.run(m.fn('lexinput_new_bb'), [b, const(len(h.text))], s)
        else:
            r = e.run(m.fn('lexinput_new_file'), [atom('obj', 'FILE')], s)
        (v, s), = r
        return v, s

    def run(self, src, where):
        m = self.m
        h = LH(m, chars(src))
        e = h.engine = LEngine(m, h)
        e.maxsteps = 60000
        s = State()
        s.p['fpos'] = s.p['feof'] = 0
        src_, s = self.source(h, s, where)
        for n, v in (('c', 0), ('val_cap', 0), ('val_len', 0), ('line', 1), ('status', 0), ('mode', m.enum('L_NORMAL')), ('type', m.enum('T_UNKNOWN'))):
            h.set(s, n, const(v))
        h.set(s, 'value', ZERO)
        h.set(s, 'file', src_)
        out, what = [], None
        depth = []
        NORMAL, INTERP = const(m.enum('L_NORMAL')), const(m.enum('L_INTERP'))
        f, args = self.f, [h.X]
        try:
            while len(out) < 40:
                res = e.run(f, args, s)
                if len(res) != 1:
                    what = 'has %d results' % len(res)
                    break
                s = res[0][1]
                f = self.f
                k = h.get(e, s, 'type')
                k = self.types.get(k[0], '?') if isconst(k) else '?'
                v, n, line = h.get(e, s, 'value'), h.get(e, s, 'val_len'), h.get(e, s, 'line')
                text = None
                if k in ('T_ID', 'T_INT', 'T_FLOAT', 'T_STR', 'T_BOOL'):
                    if isconst(v) or not isconst(n) or objbase(v) in s.p.get('freed', ()):
                        text = 'no text' if isconst(v) else 'text of length ' + show(n) if not isconst(n) else 'freed text'
                    else:
                        N = n[0] - (k != 'T_STR')
                        text = []
                        for i in range(min(N, 100) + (k != 'T_STR')):
                            x = s.mem.get(add(v, const(i)))
                            if x is not None and isconst(x):
                                x = x[0] & 255
                            elif x is not None and single(x) and single(x)[0] == 'chr':
                                x = single(x)[1:]
                            text.append(x)
                        if k != 'T_STR':
                            text = tuple(text[:-1]) if text and text[-1] == 0 else 'text without an end'
                        else:
                            text = tuple(text)
                elif k not in ('T_EOF', 'T_UNKNOWN') and v != ZERO and objbase(v) not in s.p.get('freed', ()):
                    text = 'a text'
                st = h.get(e, s, 'status')
                if (st != ZERO) != (k == 'T_UNKNOWN'):
                    text = 'status %s' % show(st)
                out.append((k, text, line[0] if isconst(line) else '?'))
                if k in ('T_EOF', 'T_UNKNOWN', '?'):
                    break
                # what the parser does about strings with placeholders
                if k == 'T_STR' and h.get(e, s, 'mode') == INTERP:
                    depth.append(-1)
                    h.set(s, 'mode', NORMAL)
                elif depth and k in ('T_LBRC', 'T_RBRC'):
                    depth[-1] += 1 if k == 'T_LBRC' else -1
                    if depth[-1] < 0 and k == 'T_RBRC':
                        depth.pop()
                        g = e.run(m.fn('lxgetc'), [src_], s)
                        (v, s), = g
                        h.set(s, 'c', v)
                        h.set(s, 'mode', INTERP)
                        f = self.body
            else:
                what = 'never comes to an end'
        except AnalysisBroken as x:
            if 'step' not in str(x):
                raise
            what = 'never comes to an end'
        self.n += 1
        self.steps += e.steps
        return out, h.problems, what

    def all(self, cases, rule):
        global THE
        THE = self
        cases = list(dict.fromkeys(cases))
        with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
            for (src, where), r, steps in pool.imap(work, cases, 32):
                if isinstance(r, str):
                    raise AnalysisBroken(r)
                self.n += 1
                self.steps += steps
                self.judge(src, where, rule, *r)
                if len(self.rep.finds) > 30:
                    pool.terminate()
                    return

    def judge(self, src, where, rule, got, probs, what):
        rep, loc = self.rep, self.m.fnloc(self.f)
        want = reference(src)
        name = repr(src)[1:-1] + (' (from a file)' if where == 'file' else '')
        if what:
            rep.bad(rule, '%s: %s' % (what, name), loc, '`%s`: lexing %s' % (name, what))
        elif [x[:2] for x in got] != [x[:2] for x in want]:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a[:2] != b[:2]), min(len(got), len(want)))
            sh = lambda l: 'nothing' if i >= len(l) else ('an error' if l[i][0] == 'T_UNKNOWN' else l[i][0]) + (' ' + showtext(l[i][1]) if l[i][1] is not None else '')
            rep.bad(rule, name, loc, '`%s`: token %d is %s, expected %s' % (name, i + 1, sh(got), sh(want)))
        else:
            rep.ok(rule, name)
            bad = [(a, b) for a, b in zip(got, want) if a[2] != b[2] and a[0] != 'T_UNKNOWN']
            if bad:
                (a, b) = bad[0]
                rep.bad('lines', name, loc, '`%s`: %s is in line %s, the lexer counts %s' % (name, a[0], b[2], a[2]))
            else:
                rep.ok('lines', name)
        for w, at in probs:
            rep.bad('memory', w + ': ' + at.rsplit(':', 1)[0], at, '`%s`: the lexer %s' % (name, w))
        if not probs:
            rep.ok('memory', name)


def showtext(t):
    if isinstance(t, str):
        return t
    return '"' + ''.join(chr(x) if isinstance(x, int) and 32 <= x < 127 else '?' if x is None else '<%s>' % (x,) for x in t) + '"'


# ------------------------------------------------------------------ the texts
SIGNS = ';()[]{}.,^+-!~*/%<>=&|?:'
GLUE = '.<>=!*/&|?^~-:'
NUMBERS = ['0', '7', '10', '{D}', '{D}{D}{D}{D}{D}{D}{D}', '{D}{D}{D}{D}{D}{D}{D}{D}{D}', '1_000', '1_', '1__2', '0_1', '00', '01', '0x0', '0x{D}', '0x1fF', '0XaB', '0x_1', '0x1_', '0x1_f', '0xg', '0x', '0x_', '0x.',
           '0b0', '0b1', '0b101', '0B1', '0b_1', '0b1_0', '0b2', '0b12', '0b', '0x1.5', '0xfG', '0b1x', '1.5', '{D}.{D}', '1_0.5', '1.5_0', '1.0e5', '1.5E7', '1.5e10', '1.5e-3', '1.5e+3', '1.5e_3', '1.5e3_0',
           '1.5e', '1.5e-', '1.5ex', '1.5e;', '1.5e\n', '1.', '1.x', '1..2', '1...', '1._5', '1.5.5', '1e5', '1x', '0e1', '12345678', '1234567', '123456789012345678', '1.23456789', '1234567.89',
           '0x123456', '0x1234567', '0b11111', '0b111111', '0b1111111']
STRINGS = ["''", "'{P}'", "'{U}{D}'", "'a#b\"c`d'", "'{P}{P}{P}{P}{P}{P}{P}'", "'{P}{P}{P}{P}{P}{P}{P}{P}'", "'{P}{P}{P}{P}{P}{P}{P}{P}{P}'", "'" + '{P}' * 17 + "'", "'a\nb'", "'abc", "'", "'\\'", "'\\", "'/* x */'",
           '""', '"{P}"', '"a\'b`c"', '"{P}{P}{P}{P}{P}{P}{P}{P}"', '"a\nb"', '"abc', '"', '"\\"', '"#{a}"', '"a#{b}c"', '"a#{b}#{c}"', '"#{ {} }"', '"#{{a: b}}x"', '"#{"#{a}"}"', '"#{"a#{b}c"}d"', '"a#b"', '"a#',
           '"a#{b', '"a#{b}', '"a#{b}c', '"a#{b}c\nd"', '"a#{}b"', '"a\\#{b}"', '"#{a}' + '{P}' * 9 + '"', '"' + '{P}' * 9 + '#{a}"', '"a#{\'}\'}b"', '"a#{f("}")}b"', '"a#{b}\\n"', '"a#{b}\\q"',
           '``', '`{P}`', "'{N}'", '"{N}{N}#{a}{N}"', '`{N}`', "'\\{N}'", "'\\x1{N}'", "'\\x{N}1'", '`a\nb`', '`a\\nb`', '`{P}{P}{P}{P}{P}{P}{P}{P}`', '`abc', '`', '`\n\n`', '`"\'#`']
COMMENTS = ['#{P}', '#{N}', '/*{N}*/', '# a b', '#', '/**/', '/* {P} */', '/*\n*/', '/* a\nb\nc */', '/***/', '/*/*/', '/*\n', '/*', '/* *', '/* * / */', '/*#*/', '#/*', '# #', '/**//**/', '/* a */ /* \n */', '/* a */ # b', '/*\n*/#', '/*\n\n*/\n',
            '/*\n*', '/*x\n*/', '/*xx\n*/', '/*xy\n\n*/']
TOKENS = ['a', '7', '1.5', "'s'", '`s`', '"s"', 'undef', 'true', 'false', 'break', 'continue', ')', ']', '}'] + ['if', 'else', 'elseif', 'while', 'for', 'const', 'fn', 'let', 'return', 'export', 'echo', 'len', 'assert',
          'match', '(', '[', '{', '.', ',', '+', '=', '->', '<-', '...', ';', '==', '?', ':', '-', '!', '~', '*', '/']


def texts(deep):
    both = lambda *l: ((''.join(l), w) for w in ('bb', 'file'))
    for a in SIGNS:
        for z in ('', ' ', '\n', 'x', '7', "'"):
            yield from both(a, z)
        for b in SIGNS:
            yield from both(a, b)
            yield a + b + ' x\n', 'bb'
    for o in NAMES:
        if len(o) > 1:
            for c in (SIGNS if len(o) < 3 or deep else GLUE):
                yield o + c, 'bb'
                yield o + c + 'x', 'file'
            for z in ('', ' ', '\n', 'x', '7', "'s'"):
                yield from both('a', o, z)
    if deep:
        for a in GLUE:
            for b in GLUE:
                for c in GLUE:
                    for w in ('bb', 'file'):
                        yield a + b + c, w
                        yield a + b + c + 'x', w
    for x in [x for x in WORDS] + RESERVED:
        for z in ('', ' ', '\n', '(', '{U}', '{D}', '_', '$'):
            yield from both(x, z)
        for p in ('.', '->', '. ', '->\n', '-> ', '{U}', '_', '(', '. # c\n', 'a ', '- >'):
            yield from both(p, x)
            yield p + x + '\n' + x, 'bb'
        yield from both(x[:-1])
        yield from both(x.upper())
        yield from both(x[:1].upper() + x[1:])
    for n in range(1, 19):
        for z in ('', ' ', '\n', '('):
            yield from both('{U}' * n, z)
        yield from both('_' * n)
        yield from both('{U}', '{D}' * (n - 1))
        yield from both('{D}' * n)
        yield from both("'", '{P}' * n, "'")
        yield from both('"', '{P}' * n, '#{a}', '{P}' * n, '"')
        yield from both('`', '{P}' * n, '`')
        yield from both('0x', '{D}' * n)
    for c in [*map(chr, range(128)), '{N}']:
        yield from both('a', c, 'b')
        yield from both(c)
        if c not in '\\\'':
            yield from both("'", c, "'")
        if c not in '\\"#':
            yield from both('"', c, '"')
        yield from both("'\\", c, "'")
        yield from both('"\\', c, 'x"')
        yield from both("'{P}\\", c, "{P}'")
        yield "'\\x" + c + "1'", 'bb'
        yield "'\\x1" + c + "'", 'bb'
        yield '"\\x' + c + c + '"', 'bb'
        yield '7' + c + '7', 'bb'
        yield '1.' + c + '7', 'bb'
        yield '1.5' + c + '7', 'bb'
        yield '0x' + c, 'bb'
        yield '0b' + c, 'bb'
        yield '0x1' + c, 'bb'
    for a in '09afAFgG+- ':
        for b in '09afAFgG+- ':
            yield from both("'\\x", a, b, "'")
    for x in NUMBERS:
        for z in ('', ' ', '\n', '.', '..', '+', ')', '_', 'a', '\n+', '.x', ' .5', '#', '/*x*/'):
            yield from both(x, z)
        yield from both('-', x)
        yield from both('a.', x)
    for x in STRINGS:
        for z in ('', ' ', '\n', '+', 'a', "'b'", '\n.x', '# c\nd'):
            yield from both(x, z)
        yield from both('a\n', x)
    for x in COMMENTS:
        for a in ('', 'a', 'a ', '+', ')', '\n', 'a\n', 'return ', "'s'"):
            for z in ('', '\n', 'b', '\nb', ' b', '/c', '# d\ne', '\n\n;'):
                yield (a + x + z, 'bb' if z == '\nb' or not deep and a in ('', 'a ', 'return ') else 'file')
                if deep:
                    yield a + x + z, 'bb'
    for a in TOKENS:
        for z in ('\n', '\n\n', ' \n', '\t\n\t', '# c\n', '/*\n*/', ';\n', '\n;'):
            for b in ('', 'b', '+', '.'):
                yield a + z + b, 'bb'
                if deep or b == 'b':
                    yield a + z + b, 'file'
        for b in TOKENS:
            yield a + ' ' + b, 'bb'
            yield a + '\n' + b + '\n', 'file'
            yield a + b, 'bb'
            if deep:
                yield a + b, 'file'
                for c in TOKENS:
                    yield a + b + '\n' + c, 'bb'


def check_L02(m, rep):
    rep.rule('tokens: every text is split into exactly the tokens of the language, with their texts, and what is no token is an error')
    rep.rule('lines: the line counted with a token is the line it ends in')
    rep.rule('memory: lexing stays within its memory blocks and the text, and uses nothing it has freed')
    B = LBench(m, rep)
    deep = rep.tier == 'thorough'
    B.all(texts(deep), 'tokens')
    rep.cov['cases'] = B.n
    rep.cov['steps'] = B.steps
    if len(rep.finds) < 30:
        for r in ('tokens', 'lines', 'memory'):
            rep.floor(r, 9000)
