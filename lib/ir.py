"""LLVM-IR front end: compiles /repo's current sources, links them into one module and parses the
textual IR into Python objects.  Nothing of /repo is executed."""
import os, re, subprocess, sys, tempfile, shutil, hashlib, json
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('YASL_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
SRC_DIRS = ['.', 'compiler', 'data-structures', 'interpreter', 'util', 'std']
CFLAGS = ['-std=gnu99', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-w',
          '-fno-builtin-pow'] + ['-I' + d for d in SRC_DIRS]


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (anchor vanished, source does not parse, ...)."""


def sources():
    out = []
    for d in SRC_DIRS:
        p = os.path.join(REPO, d)
        if not os.path.isdir(p):
            raise AnalysisBroken('source directory %s missing' % d)
        for f in sorted(os.listdir(p)):
            if f.endswith('.c'):
                out.append(f if d == '.' else d + '/' + f)
    if len(out) < 30:
        raise AnalysisBroken('only %d source files found' % len(out))
    return out


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise AnalysisBroken('%s failed: %s' % (' '.join(cmd[:3]), r.stderr.decode(errors='replace')[:2000]))
    return r.stdout


def build_ir(tmp, passes='sroa,mem2reg', extra=()):
    srcs = sources()

    def one(s):
        o = os.path.join(tmp, s.replace('/', '_') + '.bc')
        _run([LLVM + 'clang'] + CFLAGS + list(extra) + ['-c', '-emit-llvm', s, '-o', o], cwd=REPO)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    allbc = os.path.join(tmp, 'all.bc')
    _run([LLVM + 'llvm-link'] + objs + ['-o', allbc])
    out = _run([LLVM + 'opt', '-S', '-passes=' + passes, allbc])
    return out.decode(errors='surrogateescape'), srcs


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'n', 'e', 'name', 'packed', '_sz', '_off')

    def __init__(self, k, n=None, e=None, name=None, packed=False):
        self.k, self.n, self.e, self.name, self.packed = k, n, e, name, packed

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.n
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.e)
        if self.k == 'struct':
            return '%' + self.name if self.name else '{%s}' % ', '.join(map(repr, self.e))
        return self.k


PTR, VOID, DBL, FLT = Ty('ptr'), Ty('void'), Ty('double'), Ty('float')


class P:
    """cursor over a string"""
    __slots__ = ('s', 'i', 'm')
    WS = re.compile(r'\s*')
    LOC = re.compile(r'%("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)')
    GLB = re.compile(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)')
    WORD = re.compile(r'[a-zA-Z_][a-zA-Z_0-9.]*')
    NUM = re.compile(r'-?(?:0x[HKLMR]?[0-9A-Fa-f]+|\d+(?:\.\d*)?(?:e[+-]?\d+)?)')

    def __init__(self, s, m):
        self.s, self.i, self.m = s, 0, m

    def ws(self):
        self.i = self.WS.match(self.s, self.i).end()

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def word(self, *ws):
        self.ws()
        m = self.WORD.match(self.s, self.i)
        if m and m.group(0) in ws:
            self.i = m.end()
            return m.group(0)
        return None

    def need(self, t):
        if not self.eat(t):
            raise AnalysisBroken('IR parse: expected %r at %r' % (t, self.s[self.i:self.i + 80]))

    def rx(self, r):
        self.ws()
        m = r.match(self.s, self.i)
        if m:
            self.i = m.end()
            return m.group(0)
        return None

    def type(self):
        self.ws()
        s, i = self.s, self.i
        c = s[i]
        if c == 'i' and s[i + 1].isdigit():
            m = re.compile(r'i(\d+)').match(s, i)
            self.i = m.end()
            t = Ty('i', int(m.group(1)))
        elif c == '%':
            n = self.LOC.match(s, i)
            self.i = n.end()
            t = self.m.structs.setdefault(n.group(1), Ty('struct', name=n.group(1)))
        elif c == '[':
            self.i += 1
            n = int(self.rx(self.NUM))
            self.need('x')
            e = self.type()
            self.need(']')
            t = Ty('arr', n, e)
        elif c == '{' or s.startswith('<{', i):
            pk = c == '<'
            self.i += 2 if pk else 1
            es = []
            while not self.eat('}'):
                es.append(self.type())
                self.eat(',')
            if pk:
                self.need('>')
            t = Ty('struct', e=es, packed=pk)
        elif c == '<':
            self.i += 1
            n = int(self.rx(self.NUM)); self.need('x'); e = self.type(); self.need('>')
            t = Ty('vec', n, e)
        else:
            w = self.rx(self.WORD)
            if w is None:
                raise AnalysisBroken('IR parse: type at %r' % s[i:i + 80])
            t = {'ptr': PTR, 'void': VOID, 'double': DBL, 'float': FLT}.get(w) or Ty(w)
        # function type suffix
        self.ws()
        if self.peek('(') and self.fnsuffix:
            self.eat('(')
            while not self.eat(')'):
                if not self.eat('...'):
                    self.type()
                self.eat(',')
        return t
    fnsuffix = False

    ATTR = re.compile(r'(?:dead_on_unwind|writable|noundef|nonnull|signext|zeroext|inreg|nocapture|noalias|readonly|writeonly|readnone|returned|immarg|nofree|nest|'
                      r'captures\([^)]*\)|align(?:\(| )\d+\)?|dereferenceable(?:_or_null)?\(\d+\)|byval\([^()]*\)|sret\([^()]*\)|'
                      r'allocalign|allocptr|noalias)(?=[\s,)])')

    def attrs(self):
        out = []
        while True:
            a = self.rx(self.ATTR)
            if a is None:
                return out
            out.append(a)

    def value(self, t):
        """value of type t"""
        self.ws()
        s, i = self.s, self.i
        c = s[i]
        if c == '%':
            m = self.LOC.match(s, i)
            self.i = m.end()
            return ('l', m.group(1))
        if c == '@':
            m = self.GLB.match(s, i)
            self.i = m.end()
            return ('g', m.group(1).strip('"'))
        if c == 'c' and s[i + 1] == '"':
            j = s.index('"', i + 2)
            raw = s[i + 2:j]
            self.i = j + 1
            return ('bytes', re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), raw))
        if c in '[{<':
            close = {'[': ']', '{': '}', '<': '>'}[c]
            self.i += 1
            pk = False
            if c == '<' and self.eat('{'):
                pk, close = True, '}'
            vs = []
            while not self.eat(close):
                tt = self.type()
                vs.append(self.value(tt))
                self.eat(',')
            if pk:
                self.need('>')
            return ('agg', tuple(vs))
        m = self.NUM.match(s, i)
        if m and (c == '-' or c.isdigit()):
            self.i = m.end()
            g = m.group(0)
            if t.k in ('double', 'float') or '.' in g or 'e' in g and not g.startswith('0x'):
                return ('f', fpval(g))
            return ('c', int(g, 0))
        w = self.rx(self.WORD)
        if w == 'true':
            return ('c', 1)
        if w == 'false':
            return ('c', 0)
        if w == 'null':
            return ('null',)
        if w in ('undef', 'poison', 'zeroinitializer', 'none'):
            return (w,)
        if w == 'getelementptr':
            self.word('inbounds')
            self.need('(')
            ty = self.type()
            ops = []
            while self.eat(','):
                self.word('inrange')
                tt = self.type()
                ops.append((tt, self.value(tt)))
            self.need(')')
            return ('gep', ty, tuple(ops))
        if w in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.need('(')
            tt = self.type()
            v = self.value(tt)
            self.need('to')
            self.type()
            self.need(')')
            return v if w in ('bitcast',) else ('cast', w, v)
        if w in ('add', 'sub', 'mul', 'shl', 'and', 'or', 'xor', 'icmp'):
            while self.word('nsw', 'nuw'):
                pass
            self.need('(')
            ta = self.type(); a = self.value(ta); self.need(','); tb = self.type(); b = self.value(tb)
            self.need(')')
            return ('cexpr', w, a, b)
        if w == 'metadata':
            return ('md',)
        if w == 'asm':
            return ('asm',)
        raise AnalysisBroken('IR parse: value at %r' % s[i:i + 100])


def fpval(g):
    import struct
    if g.startswith('0x'):
        return struct.unpack('>d', int(g[2:], 16).to_bytes(8, 'big'))[0] if g[2] not in 'HKLMR' else g
    return float(g)


# ------------------------------------------------------------------ module
class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'dbg', 'bb', 'idx', 'fn')
    # op: opcode; res: result name or None; ty: result type; args: list of (type, value); x: opcode specific

    def __repr__(self):
        return '%s%s %s %s' % (('%' + self.res + ' = ') if self.res else '', self.op,
                               self.x if self.op not in ('phi',) else '', [a[1] for a in self.args])


class Block:
    __slots__ = ('name', 'ins', 'succ', 'pred', 'fn')

    def __init__(self, name, fn):
        self.name, self.ins, self.succ, self.pred, self.fn = name, [], [], [], fn


class Function:
    def __init__(self):
        self.blocks = {}
        self.order = []
        self.params = []     # names
        self.ptypes = []
        self.attrs = ''
        self.decl = False
        self.dbg = None
        self.internal = False
        self.vararg = False

    @property
    def entry(self):
        return self.blocks[self.order[0]]

    def instrs(self):
        for b in self.order:
            for i in self.blocks[b].ins:
                yield i


class Module:
    def __init__(self, text, srcs):
        self.srcs = srcs
        self.structs = {}
        self.globals = {}
        self.functions = {}
        self.md = {}
        self.enums = {}       # enumerator name -> value
        self.enumtypes = {}   # enum type name -> {name: value}
        self.attrgroups = {}
        self.parse(text)
        self._post()

    # -- parse
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                name, rest = l.split(' = type ', 1)
                name = name[1:]
                st = self.structs.setdefault(name, Ty('struct', name=name))
                if rest.strip() != 'opaque':
                    t = P(rest, self).type()
                    st.e, st.packed = t.e, t.packed
            elif l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('define') or l.startswith('declare'):
                i = self.parse_fn(lines, i)
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?(.*)', l)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            elif l.startswith('attributes #'):
                m = re.match(r'attributes #(\d+) = \{(.*)\}', l)
                self.attrgroups[int(m.group(1))] = m.group(2)
            i += 1

    def parse_global(self, l):
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)', l)
        name, rest = m.group(1).strip('"'), m.group(2)
        mm = re.search(r'\b(global|constant)\b ', rest)
        if not mm:
            return
        pre = rest[:mm.start()]
        p = P(rest[mm.end():], self)
        t = p.type()
        init = None
        if 'external' not in pre.split():
            init = p.value(t)
        d = re.search(r'!dbg !(\d+)', rest)
        self.globals[name] = dict(name=name, const=mm.group(1) == 'constant', ty=t, init=init,
                                  private='private' in pre.split(), dbg=int(d.group(1)) if d else None, pre=pre)

    def parse_fn(self, lines, i):
        l = lines[i]
        f = Function()
        f.decl = l.startswith('declare')
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
        f.name = m.group(1).strip('"')
        f.internal = ' internal ' in l[:m.start()] or ' private ' in l[:m.start()]
        f.m = self
        p = P(l, self)
        p.i = m.end()
        k = 0
        while not p.eat(')'):
            if p.eat('...'):
                f.vararg = True
                continue
            t = p.type()
            a = p.attrs()
            f.ptypes.append(t)
            p.ws()
            if p.peek('%'):
                f.params.append(p.value(t)[1])
            else:
                f.params.append(str(k))
            k += 1
            p.eat(',')
        rest = l[p.i:]
        f.attrids = [int(x) for x in re.findall(r'#(\d+)', rest)]
        d = re.search(r'!dbg !(\d+)', rest)
        f.dbg = int(d.group(1)) if d else None
        pre = l[:m.start()].split()
        rp = P(' '.join(w for w in pre if w not in ('define', 'declare', 'dso_local', 'internal', 'noundef', 'zeroext', 'signext', 'noalias', 'nonnull', 'private', 'linkonce_odr', 'available_externally', 'weak', 'hidden')), self)
        try:
            f.ret = rp.type()
        except Exception:
            f.ret = VOID
        self.functions[f.name] = f
        if f.decl:
            return i
        i += 1
        cur = None
        lbl = re.compile(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):')
        while lines[i] != '}':
            l = lines[i]
            if not l or l.startswith(';'):
                i += 1
                continue
            if l[0] != ' ':
                mm = lbl.match(l)
                cur = Block(mm.group(1), f)
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                i += 1
                continue
            if cur is None:
                cur = Block('entry', f); f.blocks['entry'] = cur; f.order.append('entry')
            s = l.strip()
            if s.startswith('switch ') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    i += 1
                    s += ' ' + lines[i].strip()
            if 'llvm.dbg.' not in s and 'llvm.lifetime' not in s:
                ins = self.parse_instr(s)
                ins.bb = cur
                ins.fn = f
                ins.idx = len(cur.ins)
                cur.ins.append(ins)
            elif 'llvm.dbg.' in s:
                pass
            i += 1
        return i

    DBG = re.compile(r', !dbg !(\d+)')

    def parse_instr(self, s):
        ins = Instr()
        ins.res = None; ins.x = None; ins.ty = VOID; ins.args = []
        d = self.DBG.search(s)
        ins.dbg = int(d.group(1)) if d else None
        if d:
            s = s[:d.start()] + s[d.end():]
        p = P(s, self)
        if s[0] == '%':
            ins.res = p.value(PTR)[1]
            p.need('=')
        op = p.rx(P.WORD)
        while op in ('tail', 'musttail', 'notail'):
            op = p.rx(P.WORD)
        ins.op = op
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.word('nsw', 'nuw', 'exact', 'fast', 'disjoint', 'contract', 'nnan', 'ninf', 'nsz'):
                pass
            t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
            ins.ty = t; ins.args = [(t, a), (t, b)]
        elif op == 'fneg':
            t = p.type(); ins.ty = t; ins.args = [(t, p.value(t))]
        elif op in ('icmp', 'fcmp'):
            ins.x = p.rx(P.WORD)
            t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
            ins.ty = Ty('i', 1); ins.args = [(t, a), (t, b)]
        elif op in ('sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            p.word('nneg')
            t = p.type(); a = p.value(t); p.need('to'); t2 = p.type()
            ins.ty = t2; ins.args = [(t, a)]
        elif op == 'load':
            p.word('volatile')
            t = p.type(); p.need(','); pt = p.type(); a = p.value(pt)
            ins.ty = t; ins.args = [(pt, a)]
        elif op == 'store':
            p.word('volatile')
            t = p.type(); v = p.value(t); p.need(','); pt = p.type(); a = p.value(pt)
            ins.args = [(t, v), (pt, a)]
        elif op == 'alloca':
            t = p.type(); ins.ty = PTR; ins.x = t
            if p.eat(','):
                if not p.peek('align'):
                    tt = p.type(); ins.args = [(tt, p.value(tt))]
        elif op == 'getelementptr':
            p.word('inbounds')
            t = p.type(); ins.x = t; ins.ty = PTR
            while p.eat(','):
                tt = p.type()
                ins.args.append((tt, p.value(tt)))
        elif op == 'call':
            p.attrs()
            while p.word('fast', 'zeroext', 'signext', 'noundef', 'noalias', 'nonnull'):
                pass
            p.attrs()
            t = p.type()
            p.ws()
            if p.peek('('):   # explicit function type
                dep = 0
                while True:
                    c = p.s[p.i]
                    p.i += 1
                    if c == '(':
                        dep += 1
                    elif c == ')':
                        dep -= 1
                        if dep == 0:
                            break
            ins.ty = t
            ins.x = p.value(PTR)
            if ins.x == ('asm',):
                ins.args = []
                return ins
            p.need('(')
            while not p.eat(')'):
                tt = p.type()
                if tt.k == 'metadata':
                    p.i = p.s.index(')', p.i)
                    continue
                p.attrs()
                ins.args.append((tt, p.value(tt)))
                p.eat(',')
        elif op == 'br':
            if p.word('label'):
                ins.x = [p.value(PTR)[1]]
            else:
                t = p.type(); v = p.value(t); p.need(',')
                p.word('label'); a = p.value(PTR)[1]; p.need(','); p.word('label'); b = p.value(PTR)[1]
                ins.args = [(t, v)]; ins.x = [a, b]
        elif op == 'switch':
            t = p.type(); v = p.value(t); p.need(','); p.word('label'); dflt = p.value(PTR)[1]
            p.need('[')
            cases = []
            while not p.eat(']'):
                tt = p.type(); c = p.value(tt); p.need(','); p.word('label')
                cases.append((c[1], p.value(PTR)[1]))
            ins.args = [(t, v)]; ins.x = (dflt, cases)
        elif op == 'ret':
            if not p.word('void'):
                t = p.type(); ins.args = [(t, p.value(t))]
        elif op == 'phi':
            t = p.type(); ins.ty = t; ins.x = []
            while p.eat('['):
                v = p.value(t); p.need(','); b = p.value(PTR)[1]; p.need(']'); p.eat(',')
                ins.args.append((t, v)); ins.x.append(b)
        elif op == 'select':
            tc = p.type(); c = p.value(tc); p.need(','); t = p.type(); a = p.value(t); p.need(','); t2 = p.type(); b = p.value(t2)
            ins.ty = t; ins.args = [(tc, c), (t, a), (t2, b)]
        elif op in ('extractvalue', 'insertvalue'):
            t = p.type(); a = p.value(t); ins.args = [(t, a)]
            if op == 'insertvalue':
                p.need(','); t2 = p.type(); ins.args.append((t2, p.value(t2)))
            ix = []
            while p.eat(','):
                ix.append(int(p.rx(P.NUM)))
            ins.x = ix
            ty = t
            if op == 'extractvalue':
                for k in ix:
                    ty = ty.e[k] if ty.k == 'struct' else ty.e
            ins.ty = ty
        elif op == 'unreachable':
            pass
        elif op == 'va_arg':
            t = p.type(); a = p.value(t); ins.args = [(t, a)]; p.need(','); ins.ty = p.type()
        elif op == 'freeze':
            t = p.type(); ins.args = [(t, p.value(t))]; ins.ty = t
        else:
            raise AnalysisBroken('IR parse: unknown instruction %r' % s)
        return ins

    # -- layout
    def size(self, t):
        k = t.k
        if k == 'i':
            return max(1, (t.n + 7) // 8)
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k in ('arr', 'vec'):
            return t.n * self.size(t.e)
        if k == 'struct':
            if t.e is None:
                return 0
            sz = getattr(t, '_sz', None)
            if sz is not None:
                return sz
            off = 0
            al = 1
            for e in t.e:
                a = 1 if t.packed else self.align(e)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.size(e)
            t._sz = (off + al - 1) // al * al
            return t._sz
        if k == 'x86_fp80':
            return 16
        raise AnalysisBroken('size of %r' % t)

    def align(self, t):
        if t.k in ('arr', 'vec'):
            return self.align(t.e)
        if t.k == 'struct':
            return 1 if t.packed or not t.e else max([self.align(e) for e in t.e])
        return self.size(t)

    def offset(self, t, i):
        c = getattr(t, '_off', None)
        if c is None:
            c = t._off = {}
        r = c.get(i)
        if r is None:
            r = c[i] = self._offset(t, i)
        return r

    def _offset(self, t, i):
        off = 0
        for j, e in enumerate(t.e):
            a = 1 if t.packed else self.align(e)
            off = (off + a - 1) // a * a
            if j == i:
                return off
            off += self.size(e)

    # -- debug info
    def mdk(self, n):
        s = self.md.get(n)
        if s is None:
            return {}
        c = self._mdc.get(n)
        if c is None:
            m = re.match(r'!(\w+)\((.*)\)$', s)
            c = {}
            if m:
                c['_'] = m.group(1)
                for k, v in re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,()]+(?:\([^)]*\))?)', m.group(2)):
                    c[k] = v.strip('"')
            elif s.startswith('!{'):
                c['_'] = 'tuple'
                c['list'] = [int(x) for x in re.findall(r'!(\d+)', s)]
            self._mdc[n] = c
        return c

    def mdref(self, v):
        return int(v[1:]) if v and v.startswith('!') and v[1:].isdigit() else None

    def fileof(self, n):
        seen = 0
        while n is not None and seen < 50:
            d = self.mdk(n)
            if d.get('_') == 'DIFile':
                return d['filename']
            nx = self.mdref(d.get('file')) or self.mdref(d.get('scope'))
            n, seen = nx, seen + 1
        return '?'

    def loc(self, ins):
        if ins.dbg is None:
            # nearest in block
            for j in ins.bb.ins[ins.idx:]:
                if j.dbg is not None:
                    return self.loc(j)
            return '%s:?' % ins.fn.name
        d = self.mdk(ins.dbg)
        return '%s:%s' % (self.fileof(self.mdref(d.get('scope'))), d.get('line', '?'))

    def fnloc(self, f):
        d = self.mdk(f.dbg) if f.dbg is not None else {}
        return '%s:%s' % (self.fileof(f.dbg) if f.dbg is not None else '?', d.get('line', '?'))

    def _post(self):
        self._mdc = {}
        self.fields = {}   # struct name (e.g. 'VM') -> list of (offset bytes, field name, DI type id)
        typedefs = {}
        for n, s in self.md.items():
            if s.startswith('!DICompositeType('):
                d = self.mdk(n)
                tag = d.get('tag')
                els = self.mdref(d.get('elements'))
                if els is None:
                    continue
                lst = self.mdk(els).get('list', [])
                if tag == 'DW_TAG_enumeration_type':
                    vals = {}
                    for e in lst:
                        ed = self.mdk(e)
                        if 'name' in ed:
                            vals[ed['name']] = int(ed['value'])
                    self.enums.update(vals)
                    self.enumtypes.setdefault(d.get('name', 'anon%d' % n), {}).update(vals)
                elif tag in ('DW_TAG_structure_type', 'DW_TAG_union_type') and 'name' in d:
                    fl = []
                    for e in lst:
                        ed = self.mdk(e)
                        fl.append((int(ed.get('offset', 0)) // 8, ed.get('name'), self.mdref(ed.get('baseType')), int(ed.get('size', 0)) // 8))
                    self.fields.setdefault(d['name'], fl)
        for f in self.functions.values():
            if f.decl:
                continue
            for b in f.blocks.values():
                t = b.ins[-1]
                if t.op == 'br':
                    b.succ = list(dict.fromkeys(t.x))
                elif t.op == 'switch':
                    b.succ = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
                else:
                    b.succ = []
            for b in f.blocks.values():
                for s in b.succ:
                    f.blocks[s].pred.append(b.name)
            f.defs = {i.res: i for i in f.instrs() if i.res}
        self.noreturn = set()
        self._noreturn()

    def fattrs(self, f):
        return ' '.join(self.attrgroups.get(a, '') for a in f.attrids)

    def _noreturn(self):
        """functions that never return: declared noreturn, or no ret reachable avoiding calls to noreturn ones"""
        for f in self.functions.values():
            if f.decl and ('noreturn' in self.fattrs(f) or f.name in ('exit', 'abort', 'longjmp', '_longjmp', '__longjmp_chk', 'siglongjmp')):
                self.noreturn.add(f.name)
        ch = True
        while ch:
            ch = False
            for f in self.functions.values():
                if f.decl or f.name in self.noreturn:
                    continue
                if not any(b.ins[-1].op == 'ret' for b in self.reach(f)):
                    self.noreturn.add(f.name)
                    ch = True

    def dead_after(self, b):
        """index of the noreturn call ending block b, or None"""
        for i in b.ins:
            if i.op == 'call' and i.x[0] == 'g' and i.x[1] in self.noreturn:
                return i.idx
        return None

    def succ(self, b):
        return [] if self.dead_after(b) is not None else [b.fn.blocks[s] for s in b.succ]

    def reach(self, f):
        seen = {f.entry.name}
        st = [f.entry]
        out = []
        while st:
            b = st.pop()
            if self.dead_after(b) is not None:
                # block ends in the call
                class _B: pass
                nb = _B(); nb.name = b.name; nb.ins = b.ins[:self.dead_after(b) + 1]
                out.append(nb)
                continue
            out.append(b)
            for s in b.succ:
                if s not in seen:
                    seen.add(s)
                    st.append(f.blocks[s])
        return out

    def di_strip(self, n, ptr=False):
        """strip typedefs and qualifiers; returns the DI node number"""
        for _ in range(20):
            if n is None:
                return None
            d = self.mdk(n)
            if d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
                n = self.mdref(d.get('baseType'))
            else:
                return n
        return n

    def di_types(self, f):
        """[return, params...] as stripped DI nodes (None for void)"""
        if f.dbg is None:
            return None
        t = self.mdref(self.mdk(f.dbg).get('type'))
        if t is None:
            return None
        tl = self.mdref(self.mdk(t).get('types'))
        if tl is None:
            return None
        toks = re.findall(r'!(\d+)|(null)', self.md[tl][1:])
        return [self.di_strip(int(a)) if a else None for a, b in toks]

    def pointee(self, n):
        """name of the struct a DI pointer node points to, or basic type name"""
        if n is None:
            return None
        d = self.mdk(n)
        if d.get('tag') != 'DW_TAG_pointer_type':
            return None
        b = self.di_strip(self.mdref(d.get('baseType')))
        return self.mdk(b).get('name') if b is not None else 'void'

    def param_structs(self, f):
        """per IR parameter: (kind, name): ('ptr', pointee), ('obj', 0/1 part) or (other, None)"""
        c = getattr(f, '_ps', None)
        if c is not None:
            return c
        out = []
        ts = self.di_types(f)
        if ts:
            for n in ts[1:]:
                d = self.mdk(n) if n is not None else {}
                if d.get('tag') == 'DW_TAG_pointer_type':
                    out.append(('ptr', self.pointee(n)))
                elif d.get('tag') == 'DW_TAG_structure_type' and d.get('name') == 'YASL_Object':
                    out += [('obj', 0), ('obj', 1)]
                else:
                    out.append((d.get('name') or d.get('tag'), None))
        f._ps = out
        return out

    # -- constants
    def cstr(self, v):
        """C string denoted by constant pointer value v, or None"""
        if v[0] == 'gep':
            off = self.gepoff(v)
            if off is None:
                return None
            base, o = off
            s = self.cstr(base)
            return s[o:] if s is not None else None
        if v[0] == 'g':
            g = self.globals.get(v[1])
            if g and g['const'] and g['init']:
                if g['init'][0] == 'bytes':
                    s = g['init'][1]
                    return s.split('\0')[0] if s.endswith('\0') or '\0' in s else s
                if g['init'][0] == 'zeroinitializer':
                    return ''
        return None

    def gepoff(self, v):
        ty, ops = v[1], v[2]
        base = ops[0][1]
        off = 0
        t = ty
        for k, (tt, x) in enumerate(ops[1:]):
            if x[0] != 'c':
                return None
            if k == 0:
                off += x[1] * self.size(t)
            elif t.k == 'struct':
                off += self.offset(t, x[1]); t = t.e[x[1]]
            else:
                t = t.e
                off += x[1] * self.size(t)
        return base, off

    def field(self, struct, name):
        for o, n, t, sz in self.fields.get(struct, ()):
            if n == name:
                return o
        raise AnalysisBroken('field %s.%s not found' % (struct, name))

    def fieldname(self, struct, off):
        for o, n, t, sz in self.fields.get(struct, ()):
            if o <= off < o + max(sz, 1):
                return n
        return None

    def fn(self, name):
        f = self.functions.get(name)
        if f is None or f.decl:
            raise AnalysisBroken('function %s not found' % name)
        return f

    def enum(self, name):
        if name not in self.enums:
            raise AnalysisBroken('enumerator %s not found' % name)
        return self.enums[name]


def load(passes='sroa,mem2reg', extra=()):
    tmp = tempfile.mkdtemp(prefix='yaslsa.')
    try:
        text, srcs = build_ir(tmp, passes, extra)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return Module(text, srcs)


if __name__ == '__main__':
    import time
    t = time.time()
    m = load()
    print(time.time() - t, len(m.functions), sum(1 for f in m.functions.values() if not f.decl),
          sum(1 for f in m.functions.values() if not f.decl for _ in f.instrs()))
    print(sorted(m.noreturn))
    print({k: len(v) for k, v in m.enumtypes.items()})
    print(sorted(m.fields))
