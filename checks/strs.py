"""Strings: what the string methods yield for every text (C04)."""
import itertools
import cvm, coll
from ai import *
from ir import AnalysisBroken
from coll import CBench, Err, Fresh, FP, ONE, Lst, compare, contents
from nvm import NVM

WS = [ord(c) for c in ' \t\n\v\r']


class HS(NVM):
    """Characters are cells of one byte: constants, or opaque letters of which only their order is known."""
    OPAQUE = NVM.OPAQUE - {'isequal', 'isequal_typed'}

    def __init__(self, m):
        super().__init__(m)
        self.letters = {}

    def letter(self, s, c):
        """opaque characters: 'a'.. are some characters above the space, 'A'.. have the sign bit set; alphabetical order, as unsigned numbers"""
        a = atom('letter', c)
        if c not in self.letters:
            self.letters[c] = a
        return a

    def facts(self, s):
        ls = sorted(self.letters)
        for c in ls:
            a = self.letters[c]
            hi = c.isupper()
            se, ze = atom('op', 'sext', a), atom('op', 'zext', a)
            s.add_ge(add(ze, const(-128 if hi else -33)))
            s.add_ge(add(const(255 if hi else 126), ze, -1))
            s.add_ge(add(se, const(128 if hi else -33)))
            s.add_ge(add(const(-1 if hi else 126), se, -1))
            for x in WS + [0]:
                s.add_ne(a, x)
        for c, d in itertools.combinations(ls, 2):
            for f in (lambda v: v, lambda v: atom('op', 'sext', v), lambda v: atom('op', 'zext', v)):
                s.add_ne(add(f(self.letters[c]), f(self.letters[d]), -1), 0)

    def num(self, s, v):
        """rank of a character, or None"""
        if isconst(v):
            return v[0] & 255
        k = single(v)
        if k and k[0] == 'letter':
            return (128 if k[1].isupper() else 33) + ord(k[1].lower()) - ord('a')
        return None

    def cell(self, e, s, p, i):
        return e.load(s, add(p, const(i)), 'i8')

    def known(self, e, s, ins, p, n):
        r = []
        for i in range(n):
            c = self.num(s, self.cell(e, s, p, i))
            if c is None:
                self.problems.append(('looks at characters that are not part of the text', self.m.loc(ins)))
                return None
            r.append(c)
        return r

    def move(self, e, s, dst, src, n, ins):
        k = A.tab[src[1][0][0]] if len(src[1]) == 1 else ()
        if k and k[0] == 'glob' and isconst(n):
            for i in range(n[0]):
                v = e.load(s, add(src, const(i)), 'i8')
                self.on_store(e, s, None, self.byte(ins), add(dst, const(i)), v)
                s.mem[add(dst, const(i))] = v
            return True
        return super().move(e, s, dst, src, n, ins)

    class _B:
        pass

    def byte(self, ins):
        b = self._B()
        b.__dict__.update({x: getattr(ins, x) for x in ('fn', 'bb', 'idx', 'op', 'x', 'res', 'ty') if hasattr(ins, x)})
        b.args = [('i8', None)]
        b.dbg = getattr(ins, 'dbg', None)
        return b

    def on_call(self, e, s, f, ins, name, args, ctx, depth, stack):
        b = cvm.base(name)
        if b.startswith(('llvm.memcpy', 'memcpy', 'llvm.memmove', 'memmove')) and isconst(args[2]):
            k = A.tab[args[1][1][0][0]] if len(args[1][1]) == 1 else ()
            if k and k[0] == 'glob':
                g = self.m.globals.get(k[1])
                if g and g['init'] and g['init'][0] == 'bytes':
                    self.move(e, s, args[0], args[1], args[2], ins)
                    return [(args[0] if ins.res is not None else None, s)]
        return super().on_call(e, s, f, ins, name, args, ctx, depth, stack)

    def model(self, e, s, f, ins, name, b, args, ctx):
        if b in ('memcmp', 'bcmp') and isconst(args[2]):
            n = args[2][0]
            if n < 0 or n > 1 << 16:
                self.problems.append(('compares %d characters' % n, self.m.loc(ins)))
                return []
            if n:
                self.access(e, s, ins, args[0], n, 'reads')
                self.access(e, s, ins, args[1], n, 'reads')
            x, y = self.known(e, s, ins, args[0], n), self.known(e, s, ins, args[1], n)
            if x is None or y is None:
                return []
            d = next((p - q for p, q in zip(x, y) if p != q), 0)
            return [(const(d), s)]
        if b == '__ctype_b_loc':
            return [(atom('obj', 'ctype'), s)]
        if b in ('strlen',):
            i = 0
            while i < 200:
                self.access(e, s, ins, add(args[0], const(i)), 1, 'reads')
                v = self.cell(e, s, args[0], i)
                if v == ZERO:
                    return [(const(i), s)]
                if self.num(s, v) is None:
                    break
                i += 1
            self.problems.append(('measures a text without an end', self.m.loc(ins)))
            return []
        if b == 'strcmp':
            x = self.cell(e, s, args[0], 0)
            return [(atom('unk', ctx, ins.res), s)]
        if b in ('strtod', 'strtoll', 'strtol', 'strtoull'):
            if b != 'strtod' and not isconst(args[1]):
                s.mem[args[1]] = atom('strend', args[0])
            return [(atom('number', args[0], b), s)]
        if b == 'vm_stringify_top':
            sp = self.get(e, s, 'sp')[0]
            x = self.obj(e, s, self.slot(sp))
            if x[0] == const(self.m.enum('Y_STR')):
                return [(None, s)]
            # tostr yields some text of two characters
            n = s.p.get('heap', 0)
            s.p['heap'] = n + 2
            p, buf = atom('heap', n), atom('heap', n + 1)
            g = lambda k: add(p, const(self.m.field('YASL_String', k)))
            for k in ('start', 'end', 'str', 'on_heap'):
                s.mem[g(k)] = {'start': ZERO, 'end': const(2), 'str': buf, 'on_heap': ONE}[k]
            for i in range(2):
                s.mem[add(buf, const(i))] = atom('textof', x[1], i)
            s.p['sizes'] = s.p.get('sizes', ()) + ((buf[1][0][0], 2),)
            self.overwrite(e, s, sp, (const(self.m.enum('Y_STR')), p), ins)
            return [(None, s)]
        if b in ('isequal', 'isequal_typed', 'vm_EQ'):
            return None
        return super().model(e, s, f, ins, name, b, args, ctx)

    def initval(self, e, s, a, ty, c):
        if c[0] == 'B' and A.tab[c[1]] == ('obj', 'ctype'):
            return atom('obj', 'ctypetab')
        d = add(a, atom('obj', 'ctypetab'), -1)
        if isconst(d):
            if d[0] % 2 or not 0 <= d[0] // 2 < 256:
                return super().initval(e, s, a, ty, c)
            return const(ctype(d[0] // 2))
        return super().initval(e, s, a, ty, c)


def ctype(c):
    """the flags of <ctype.h> in the C locale (glibc, little endian)"""
    ch = chr(c)
    if c > 127:
        return 0
    up, lo, dg = 'A' <= ch <= 'Z', 'a' <= ch <= 'z', '0' <= ch <= '9'
    sp = ch in ' \t\n\v\f\r'
    fl = 0
    for bit, on in ((0, up), (1, lo), (2, up or lo), (3, dg), (4, dg or ch in 'abcdefABCDEF'), (5, sp), (6, 32 <= c < 127), (7, 32 < c < 127), (8, ch in ' \t'), (9, c < 32 or c == 127), (10, 32 < c < 127 and not (up or lo or dg)), (11, up or lo or dg)):
        if on:
            fl |= (1 << bit << 8 if bit < 8 else 1 << bit >> 8)
    return fl


class SBench(CBench):
    def begin(self, sp=FP):
        h = HS(self.m)
        e = h.engine = Engine(self.m, h)
        s = h.state(FP, sp, {i: 'Y_UNDEF' for i in range(cvm.NSTACK)})
        for i in range(cvm.NSTACK):
            h.put(s, h.slot(i), (self.T('Y_UNDEF'), ZERO))
        return h, e, s


KINDS = ('heap', 'static', 'offset')


def string(h, s, name, word, kind='heap'):
    """word: letters (opaque) or numbers (constant characters)"""
    m = h.m
    chars = [h.letter(s, c) if isinstance(c, str) else const(c) for c in word]
    p, buf = atom('obj', 'str', name), atom('obj', 'chars', name)
    f = lambda x: add(p, const(m.field('YASL_String', x)))
    start = 0 if kind == 'heap' else 3 if kind == 'offset' else 2
    s.mem[f('start')] = const(start)
    s.mem[f('end')] = const(start + len(chars))
    s.mem[f('str')] = buf
    for x in ('on_heap', 'interned', 'immortal'):
        if any(y[1] == x for y in m.fields['YASL_String']):
            s.mem[f(x)] = ONE if x == 'on_heap' and kind != 'static' else ZERO
    # the characters around it belong to other texts: nothing may depend on them
    for i in range(start + len(chars) + (3 if kind == 'static' else 0)):
        s.mem[add(buf, const(i))] = atom('junk', name, i) if i < start or i >= start + len(chars) else chars[i - start]
    h.sizes[buf] = start + len(chars) + (3 if kind == 'static' else 0)
    h.facts(s)
    return (const(m.enum('Y_STR')), p)


def text(h, e, s, p):
    m = h.m
    f = lambda x: e.load(s, add(p, const(m.field('YASL_String', x))), None)
    a, b, buf = f('start'), f('end'), f('str')
    if not isconst(a) or not isconst(b) or not 0 <= b[0] - a[0] < 1000:
        return None
    return tuple(e.load(s, add(buf, const(i)), 'i8') for i in range(a[0], b[0]))


def showt(t):
    if t is None:
        return '?'
    r = ''
    for c in t:
        k = single(c)
        r += (chr(c[0] & 255) if 32 <= c[0] & 255 < 127 else '\\x%02x' % (c[0] & 255)) if isconst(c) else k[1] if k and k[0] == 'letter' else '?'
    return repr(r)


class Str:
    """a string of these characters"""
    def __init__(self, word, cells=False):
        self.word, self.cells = word, cells


def cells(h, s, w):
    return tuple(h.letter(s, c) if isinstance(c, str) else const(c) if isinstance(c, int) else c for c in w)


def wellformed(B, fn, h, e, st, v, loc, label):
    """a string that was made here: its characters lie in its buffer, and it owns the buffer exactly if it has to free it"""
    m = B.m
    k = single(v[1])
    if not k or k[0] != 'heap':
        return
    f = lambda x: e.load(st, add(v[1], const(m.field('YASL_String', x))), None)
    a, b, buf, own = f('start'), f('end'), f('str'), f('on_heap')
    bb = cvm.objbase(buf)
    bk = A.tab[bb] if bb is not None else ()
    size = dict(st.p.get('sizes', ())).get(bb, h.sizes.get((0, ((bb, 1),)) if bb is not None else None))
    if bk and bk[0] in ('heap', 'obj'):
        B.ok(isconst(a) and isconst(b) and size is not None and 0 <= a[0] <= b[0] <= size, fn + ' buffer', loc, '%s yields a text from %s to %s of a block of %s characters (%s)' % (fn, show(a), show(b), size, label), label)
        made = bk[0] == 'heap'
        B.ok(isconst(own) and bool(own[0] & 1) == made, fn + ' owner', loc, '%s yields a text that %s (%s)' % (fn, 'never frees its characters' if made else 'frees the characters of another text', label), label)
        B.ok(bb not in st.p.get('freed', ()), fn + ' freed', loc, '%s yields a text whose characters were freed (%s)' % (fn, label), label)


def check(B, fn, h, e, st, w, g, loc, label):
    m = B.m
    if isinstance(w, Str):
        t = text(h, e, st, g[1]) if g[0] == B.T('Y_STR') else None
        want = cells(h, st, w.word)
        B.ok(g[0] == B.T('Y_STR') and t == want, fn + ' text', loc, '%s yields %s, expected %s (%s)' % (fn, showt(t), showt(want), label), label)
        if t is not None:
            wellformed(B, fn, h, e, st, g, loc, label)
    elif isinstance(w, list):
        d = e.load(st, add(g[1], const(m.field('RC_UserData', 'data'))), None) if g[0] == B.T('Y_LIST') else None
        items = h.read(e, st, d, 'Y_LIST') if d is not None else None
        got = None if items is None else [text(h, e, st, x[1]) if x[0] == B.T('Y_STR') else None for x in items]
        want = [cells(h, st, x) for x in w]
        B.ok(got == want, fn + ' parts', loc, '%s yields %s, expected %s (%s)' % (fn, got and [showt(x) for x in got], [showt(x) for x in want], label), label)
        for x in items or ():
            wellformed(B, fn, h, e, st, x, loc, label)
        if d is not None:
            mt = e.load(st, add(g[1], const(m.field('RC_UserData', 'mt'))), None)
            B.ok(mt == atom('obj', 'mt', 'Y_LIST'), fn + ' methods', loc, '%s yields a list without its methods (%s)' % (fn, label), label)
    elif callable(w):
        B.ok(w(g), fn + ' result', loc, '%s yields %s (%s)' % (fn, h.showv(g), label), label)
    else:
        B.ok(g[0] == w[0] and (g[1] == w[1] or w[0] == B.T('Y_UNDEF')), fn + ' result', loc, '%s yields %s, expected %s (%s)' % (fn, h.showv(g), h.showv(w), label), label)


def method(B, fn, label, build, want, before=None):
    """run a native; want: Err or the one value it yields"""
    m = B.m
    h, e, s = B.begin()
    args = build(h, e, s)
    h.put(s, h.slot(FP), (B.T('Y_CFN'), atom('obj', 'fn')))
    s.mem[add(atom('obj', 'fn'), const(m.field('CFunction', 'num_args')))] = const(len(args))
    for i, a in enumerate(args):
        h.put(s, h.slot(FP + 1 + i), a)
    s.mem[h.vm('sp')] = const(FP + len(args))
    s.mem[h.vm('builtins_htable')] = atom('obj', 'builtins')
    for k in ('Y_LIST', 'Y_TABLE', 'Y_STR'):
        s.mem[add(atom('obj', 'builtins'), const(8 * m.enum(k)))] = atom('obj', 'mt', k)
    texts = [text(h, e, s, a[1]) if a[0] == B.T('Y_STR') else None for a in args]
    res = B.run(fn, label, h, e, s, [h.VM])
    loc = m.fnloc(m.fn(fn))
    for b, code, l, st in h.errors:
        B.ok(isinstance(want, Err) and code in [const(m.enum(c)) for c in want.codes], fn + ' fails', l, '%s raises %s (%s)' % (fn, show(code), label), label)
        B.balance(fn, label, h, e, st, err=True)
    if isinstance(want, Err):
        B.ok(not res, fn + ' goes on', loc, '%s does not raise an error (%s)' % (fn, label), label)
        return
    if not h.problems:
        B.ok(bool(res), fn + ' ends', loc, '%s never returns (%s)' % (fn, label), label)
    for rv, st in res:
        vs = h.stack(e, st)
        if vs is None or rv != ONE or len(vs) <= FP:
            B.ok(False, fn + ' results', loc, '%s returns %s values (%s)' % (fn, show(rv), label), label)
            continue
        check(B, fn, h, e, st, want, vs[-1], loc, label)
        for a, t in zip(args, texts):
            if t is not None:
                B.ok(text(h, e, st, a[1]) == t, fn + ' argument', loc, '%s changes its argument (%s)' % (fn, label), label)
        B.balance(fn, label, h, e, st)


# ------------------------------------------------------------------ specification
def find(w, x, i=0):
    for j in range(i, len(w) - len(x) + 1):
        if w[j:j + len(x)] == x:
            return j
    return -1


def split(w, x):
    r, i = [], 0
    while True:
        j = find(w, x, i)
        if j < 0:
            return r + [w[i:]]
        r.append(w[i:j])
        i = j + len(x)


def replace(w, x, y, n):
    r, i = (), 0
    while True:
        j = find(w, x, i) if n > 0 else -1
        if j < 0:
            return r + w[i:]
        r += w[i:j] + y
        i = j + len(x)
        n -= 1


def ltrim(w, x):
    while w[:len(x)] == x:
        w = w[len(x):]
    return w


def rtrim(w, x):
    while w[len(w) - len(x):] == x and len(w) >= len(x):
        w = w[:len(w) - len(x)]
    return w


def words(letters, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(letters, repeat=n)


def wstrip(w, left, right):
    while left and w and w[0] in WS:
        w = w[1:]
    while right and w and w[-1] in WS:
        w = w[:-1]
    return w


def wsplit(w):
    r, cur = [], ()
    for c in w:
        if c in WS:
            if cur:
                r.append(cur)
            cur = ()
        else:
            cur += (c,)
    return r + [cur] if cur else r


def strings(B):
    T = B.T
    I = lambda i: (T('Y_INT'), const(i))
    F = lambda b: (T('Y_BOOL'), const(int(b)))
    U = (T('Y_UNDEF'), ZERO)

    def S(*ws, extra=()):
        def build(h, e, s):
            return [string(h, s, i, w, k) for i, (w, k) in enumerate(ws)] + list(extra)
        return build
    for n, w in enumerate(words('aB', 0, 4)):
        for kind in KINDS if len(w) < 3 else KINDS[n % 3:n % 3 + 1]:
            lab = '%s text %s' % (kind, ''.join(w))
            method(B, 'str___len', lab, S((w, kind)), I(len(w)))
            method(B, 'str_tobool', lab, S((w, kind)), F(len(w) > 0))
            method(B, 'str_tostr', lab, S((w, kind)), Str(w))
            for i in range(-len(w) - 1, len(w) + 1):
                method(B, 'str___get', '%s, index %d' % (lab, i), S((w, kind), extra=[I(i)]), Str((w[i],)) if -len(w) <= i < len(w) else Err('YASL_VALUE_ERROR'))
            for k in range(-1, 4):
                method(B, 'str_repeat', '%s, %d times' % (lab, k), S((w, kind), extra=[I(k)]), Str(w * k) if k >= 0 else Err('YASL_VALUE_ERROR'))
            if w:
                for k in {-(-(1 << 64) // len(w)), (1 << 63) - 1}:
                    if k < 1 << 63 and k * len(w) >= 1 << 64:
                        big(B, lab, S((w, kind), extra=[I(k)]), k)
        pairs(B, S, n, w, words('aB', 0, 3 if len(w) < 4 else 2))
    # texts that overlap themselves
    for n, (w, x) in enumerate([('aaaaa', 'aaa'), ('aaaaaaa', 'aaa'), ('aBaBaBa', 'aBa'), ('aBaBaBaB', 'aBaB'), ('aaBaaBaa', 'aaBaa'), ('BaaBaaBaaB', 'aaBaa'), ('aaaB', 'aaB'), ('aaBaaaB', 'aaaB'), ('aBaBaCa', 'aBaC')]):
        pairs(B, S, n, tuple(w), [tuple(x)])
    for n, w in enumerate(words(('a', 32, 9), 0, 4)):
        k = KINDS[n % 3]
        spaces(B, w, k, S, U)
    for c in WS:
        for w in ((c,), ('a', c), (c, 'a'), ('a', c, 'B'), (c, 'B', c)):
            spaces(B, w, 'static', S, U)
    for c in (8, 12, 14, 31, 0, 33):
        for w in ((c,), ('a', c), (c, 'a'), ('a', c, 'B')):
            spaces(B, w, 'static', S, U)


def pairs(B, S, n, w, xs):
    T = B.T
    I = lambda i: (T('Y_INT'), const(i))
    F = lambda b: (T('Y_BOOL'), const(int(b)))
    U = (T('Y_UNDEF'), ZERO)
    for j, x in enumerate(xs):
        k1, k2 = KINDS[(n + j) % 3], KINDS[(n + 2 * j + 1) % 3]
        lab = '%s text %s and %s text %s' % (k1, ''.join(w), k2, ''.join(x))
        two = S((w, k1), (x, k2))
        method(B, 'str_startswith', lab, two, F(w[:len(x)] == x))
        method(B, 'str_endswith', lab, two, F(len(x) <= len(w) and w[len(w) - len(x):] == x))
        i = find(w, x)
        method(B, 'str_search', lab, two, U if i < 0 else I(i))
        bad = Err('YASL_VALUE_ERROR') if not x else None
        method(B, 'str_count', lab, two, bad or I(len(split(w, x)) - 1))
        method(B, 'str_split', lab, two, bad or split(w, x))
        method(B, 'str_ltrim', lab, two, bad or Str(ltrim(w, x)))
        method(B, 'str_rtrim', lab, two, bad or Str(rtrim(w, x)))
        method(B, 'str_trim', lab, two, bad or Str(rtrim(ltrim(w, x), x)))
        for y in (('c',), (), x + ('c', 'D')) if len(w) < 4 else (('c', 'D'),):
            for lim in (None, -1, 0, 1, 2) if len(w) > 1 else (None, 1):
                method(B, 'str_replace', '%s by %s, %s times' % (lab, ''.join(y), lim), S((w, k1), (x, k2), (y, 'static'), extra=[U if lim is None else I(lim)]),
                       bad or Str(replace(w, x, y, 99 if lim is None else lim)))


def spaces(B, w, k, S, U):
    lab = '%s text %s' % (k, w)
    one = S((w, k), extra=[U])
    method(B, 'str_split', lab, one, wsplit(w))
    method(B, 'str_ltrim', lab, one, Str(wstrip(w, True, False)))
    method(B, 'str_rtrim', lab, one, Str(wstrip(w, False, True)))
    method(B, 'str_trim', lab, one, Str(wstrip(w, True, True)))


def big(B, lab, build, k):
    """far too many repetitions: an error"""
    m = B.m
    h, e, s = B.begin()
    args = build(h, e, s)
    h.put(s, h.slot(FP), (B.T('Y_CFN'), atom('obj', 'fn')))
    for i, a in enumerate(args):
        h.put(s, h.slot(FP + 1 + i), a)
    s.mem[h.vm('sp')] = const(FP + len(args))
    w = text(h, e, s, args[0][1])
    B.MAXSTEPS = 3000
    label = '%s, %d times' % (lab, k)
    fn, loc = 'str_repeat', m.fnloc(m.fn('str_repeat'))
    res = B.run(fn, label, h, e, s, [h.VM])
    del B.MAXSTEPS
    B.ok(bool(h.errors), fn + ' goes on', loc, '%s does not raise an error (%s)' % (fn, label), label)
    for b, code, l, st in h.errors:
        B.ok(code == const(m.enum('YASL_VALUE_ERROR')), fn + ' fails', l, '%s raises %s (%s)' % (fn, show(code), label), label)
    for rv, st in res:
        B.ok(False, fn + ' size', loc, '%s completes although the result does not fit into memory (%s)' % (fn, label), label)


def classes(B):
    T = B.T
    F = lambda b: (T('Y_BOOL'), const(int(b)))

    def S(*ws):
        return lambda h, e, s: [string(h, s, i, w, 'heap') for i, w in enumerate(ws)]
    up = lambda c: c - 32 if 97 <= c < 123 else c
    lo = lambda c: c + 32 if 65 <= c < 91 else c
    tests = {'str_isal': lambda c: chr(c).isalpha(), 'str_isnum': lambda c: 48 <= c < 58, 'str_isalnum': lambda c: chr(c).isalpha() or 48 <= c < 58, 'str_isspace': lambda c: c in WS}
    for c in range(256):
        method(B, 'str_toupper', 'character %d' % c, S((c,)), Str((up(c),)))
        method(B, 'str_tolower', 'character %d' % c, S((c,)), Str((lo(c),)))
    for c in range(128):
        for f, p in tests.items():
            method(B, f, 'character %d' % c, S((c,)), F(p(c)))
    for w in ((), (97, 65), (65, 98, 48), (48, 57), (48, 97), (97, 32), (32, 9), (32, 33), (10, 32, 13), (97, 98, 99, 100, 46)):
        method(B, 'str_toupper', 'text %s' % (w,), S(w), Str(tuple(map(up, w))))
        method(B, 'str_tolower', 'text %s' % (w,), S(w), Str(tuple(map(lo, w))))
        for f, p in tests.items():
            method(B, f, 'text %s' % (w,), S(w), F(all(map(p, w))))


def ordering(B):
    """comparison and equality of texts"""
    m = B.m
    for fn, f in (('YASL_String_cmp', lambda a, b: (a > b) - (a < b)), ('isequal', lambda a, b: int(a == b)), ('isequal_typed', lambda a, b: int(a == b))):
        loc = m.fnloc(m.fn(fn))
        for n, (w, x) in enumerate(itertools.product(words('aB', 0, 3), repeat=2)):
            h, e, s = B.begin()
            p, q = string(h, s, 0, w, KINDS[n % 3]), string(h, s, 1, x, KINDS[n // 3 % 3])
            args = [p[1], q[1]]
            if fn != 'YASL_String_cmp':
                args = [h.slot(0), h.slot(1)]
                h.put(s, args[0], p)
                h.put(s, args[1], q)
            label = 'texts %s and %s' % (''.join(w), ''.join(x))
            res = B.run(fn, label, h, e, s, args)
            rank = lambda w: [h.num(s, h.letter(s, c)) for c in w]
            want = f(rank(w), rank(x))
            if not h.problems:
                B.ok(len(res) > 0, fn + ' ends', loc, '%s never returns (%s)' % (fn, label), label)
            for rv, st in res:
                if isconst(rv):
                    r = rv[0] - (1 << 64) if rv[0] >= 1 << 63 else rv[0]
                    r = (r > 0) - (r < 0) if fn == 'YASL_String_cmp' else r & 1
                    B.ok(r == want, fn, loc, '%s yields %d, expected %d (%s)' % (fn, r, want, label), label)
                else:
                    B.ok(False, fn, loc, '%s yields %s, expected %d (%s)' % (fn, show(rv), want, label), label)


def concat(B):
    """the operator ~"""
    m = B.m
    fn = 'O_CNCT'
    loc = m.fnloc(m.fn('vm_CNCT' if 'vm_CNCT' in m.functions else 'vm_executenext'))
    other = ('Y_INT', atom('obj', 'n'))
    for n, (w, x) in enumerate(itertools.product([None] + list(words('aB', 0, 2)), repeat=2)):
        for same in (False, True) if w == x and w is not None else (False,):
            h, e, s = B.begin()
            vs, want = [], ()
            for i, y in enumerate((w, x)):
                if y is None:
                    vs.append((B.T('Y_INT'), atom('obj', 'n', i)))
                    want += tuple(atom('textof', vs[-1][1], j) for j in range(2))
                else:
                    vs.append(vs[0] if i and same else string(h, s, i, y, KINDS[(n + i) % 3]))
                    want += cells(h, s, y)
            for i, v in enumerate(vs):
                h.put(s, h.slot(FP + 1 + i), v)
            s.mem[h.vm('sp')] = const(FP + 2)
            h.code(s, m.enum('O_CNCT'))
            label = '%s ~ %s%s' % (w and ''.join(w), x and ''.join(x), ', the same text' if same else '')
            res = B.run('vm_executenext', label, h, e, s, [h.VM])
            if not h.problems:
                B.ok(bool(res), fn + ' ends', loc, '%s never completes' % label, label)
            for rv, st in res:
                g = h.stack(e, st)
                if not g or len(g) != FP + 2:
                    B.ok(False, fn + ' height', loc, '%s leaves %s values' % (label, g and len(g)), label)
                    continue
                t = text(h, e, st, g[-1][1]) if g[-1][0] == B.T('Y_STR') else None
                B.ok(t == want, fn + ' text', loc, '%s yields %s, expected %s' % (label, showt(t), showt(want)), label)
                if t is not None:
                    wellformed(B, fn, h, e, st, g[-1], loc, label)
                B.balance('vm_executenext', label, h, e, st, gone=[v[1] for v in vs])


def joins(B):
    """list.join"""
    T = B.T
    for n in range(5):
        for x in ((), ('c',), ('c', 'D'), ('c', 'D') * 10):
            for kinds in itertools.product('se1l', repeat=n) if n < 3 else [('s',) * n, ('1',) * n, ('e',) * n, ('e', 'l', 'e', 's')[:n]]:
                E = []

                def build(h, e, s):
                    for i, k in enumerate(kinds):
                        E.append((T('Y_INT'), atom('obj', 'n', i)) if k == '1' else string(h, s, 'i%d' % i, 'aB' * 4 if k == 's' else 'aB' * 20 if k == 'l' else '', KINDS[i % 3]))
                    h.cls.update({v[1]: ('el', i) for i, v in enumerate(E)})
                    return [h.place(e, s, 'L', Lst(E, n + 1))[0], string(h, s, 'sep', x, 'static')]
                w = ()
                for i, k in enumerate(kinds):
                    w += (x if i else ()) + (tuple(atom('textof', atom('obj', 'n', i), j) for j in range(2)) if k == '1' else tuple('aB' * 4) if k == 's' else tuple('aB' * 20) if k == 'l' else ())
                method(B, 'list_join', 'list of %s with %s between them' % (''.join(kinds), ''.join(x)), build, Str(w))


def numbers(B):
    """tofloat and toint stay within their buffers"""
    m = B.m
    for fn in ('str_tofloat', 'str_toint'):
        loc = m.fnloc(m.fn(fn))
        for n, w in enumerate(words('1_.e-0x', 0, 3)):
            w = tuple(map(ord, w))
            if len(w) == 3 and w[0] not in (48, 49, 45):
                continue
            h, e, s = B.begin()
            v = string(h, s, 0, w, KINDS[n % 3])
            h.put(s, h.slot(FP + 1), v)
            s.mem[h.vm('sp')] = const(FP + 1)
            label = 'text %r' % ''.join(map(chr, w))
            res = B.run(fn, label, h, e, s, [h.VM])
            for b, code, l, st in h.errors:
                B.ok(False, fn + ' fails', l, '%s raises %s (%s)' % (fn, show(code), label), label)
            if not h.problems:
                B.ok(bool(res), fn + ' ends', loc, '%s never returns (%s)' % (fn, label), label)
            T = 'Y_FLOAT' if 'float' in fn else 'Y_INT'
            for rv, st in res:
                vs = h.stack(e, st)
                B.ok(rv == ONE and vs is not None and len(vs) > FP and vs[-1][0] == B.T(T), fn + ' result', loc, '%s does not yield a number (%s)' % (fn, label), label)
                live = [k for k in range(st.p.get('heap', 0)) if atom('heap', k)[1][0][0] not in st.p.get('freed', ())]
                B.ok(not live, fn + ' frees', loc, '%s never frees the buffer it works in (%s)' % (fn, label), label)


def check_C04(m, rep):
    rep.rule('texts: every string method, concatenation and comparison yields exactly the text, number or list its meaning says, for texts in any kind of storage')
    rep.rule('memory: and looks only at its own characters, stays within its memory blocks, and counts every reference')
    B = SBench(m, rep, 'texts', 'memory')
    strings(B)
    classes(B)
    ordering(B)
    concat(B)
    joins(B)
    numbers(B)
    rep.cov['cases'] = B.n
    rep.cov['steps'] = B.steps
    rep.floor('texts', 3000)
    rep.floor('memory', 3000)
