"""Abstract interpretation of the code generator on node shapes.

A node shape fixes the kind of a node, its number of children and (where it matters) the kinds of the children; the contents of
the children are opaque: visiting one emits an unknown number of bytes and has the stack effect of its kind.  Running a visit
function over a shape gives, for every path, the tape of what was emitted, as linear forms over the unknown sizes.

Primitive (modelled, checked elsewhere): byte buffers, string objects, tables (as insertion-ordered maps in the abstract heap).
"""
from ai import *
import ai
from ir import AnalysisBroken


def objbase(v):
    for t, c in v[1]:
        if c == 1 and A.tab[t][0] in ('obj', 'heap'):
            return t
    return ai.baseatom(v)


def concrete(v):
    return isinstance(v[0], int) and (not v[1] or len(v[1]) == 1 and v[1][0][1] == 1 and A.tab[v[1][0][0]][0] in ('obj', 'heap'))


class Shape:
    n = 0

    def __init__(self, kind, children=(), name=None, ival=None, type=None, eff=None, names=(), breaks=False, line=0, label=None):
        self.kind, self.children, self.name, self.ival, self.type = kind, children, name, ival, type
        self.eff = eff            # None: a real node; 'E' expression, 'S' statement, 'P' pattern: opaque
        self.names = names        # variables an opaque statement declares
        self.breaks = breaks      # the opaque statement may break or continue
        self.label = label
        self.addr = None


def E(label, kind='N_VAR', **k):
    return Shape(kind, eff='E', label=label, **k)


def S(label, names=(), breaks=False, kind='N_BLOCK'):
    return Shape(kind, eff='S', label=label, names=names, breaks=breaks)


def P(label, kind='N_PATANY', **k):
    return Shape(kind, eff='P', label=label, **k)


class CG(Hooks):
    def __init__(self, m):
        self.m = m
        self.F = lambda st, n: m.field(st, n)
        self.C = atom('obj', 'compiler')
        self.shapes = {}
        self.nobj = 0
        self.findings = []
        self.names = {}
        for g, d in m.globals.items():
            if base(g) == 'jmp_table':
                d['const'] = True
        self.recursive_ok = True

    # ---- memory
    def classify(self, e, s, a):
        b = objbase(a)
        if b is not None:
            k = A.tab[b]
            if k[0] in ('obj', 'heap'):
                return ('B', b)
        return None

    def mayalias(self, e, s, a, b, d, c):
        # different objects never overlap; within one object only symbolic offsets can
        return objbase(a) == objbase(b)

    def mergekey(self, e, s):
        return (tuple(sorted(s.p.items(), key=repr)), frozenset((k, v) for k, v in s.env.items() if concrete(v)))

    def initval(self, e, s, a, ty, c):
        if c[0] == 'B':
            k = A.tab[c[1]]
            if k[0] == 'obj' and k[1] in self.shapes:
                return self.nodefield(self.shapes[k[1]], a[0])
        return None

    def nodefield(self, sh, off):
        F = self.F
        if off == F('Node', 'nodetype'):
            return const(self.m.enum(sh.kind))
        if off == F('Node', 'line'):
            return ZERO
        if off == F('Node', 'children_len'):
            return const(0 if sh.kind in ('N_BINOP', 'N_PATALT', 'N_UNOP') else len(sh.children))
        if off >= F('Node', 'children'):
            i = (off - F('Node', 'children')) // 8
            if i < len(sh.children):
                c = sh.children[i]
                return self.place(c) if c is not None else ZERO
            return None
        v = F('Node', 'value')
        if off == v:
            if sh.name is not None:
                return atom('name', sh.name)
            if sh.type is not None:
                return const(self.m.enum(sh.type))
            if sh.ival is not None:
                return const(sh.ival) if isinstance(sh.ival, int) else sh.ival
            if sh.kind in ('N_FNDECL',):
                return ZERO
        if sh.kind in ('N_BINOP', 'N_PATALT', 'N_UNOP') and off in (v + 8, v + 16):
            i = (off - v) // 8 - 1
            return self.place(sh.children[i]) if i < len(sh.children) else None
        if off == v + 8 and sh.name is not None:
            return atom('strlen', atom('name', sh.name))
        return None

    def place(self, sh):
        if sh.addr is None:
            Shape.n += 1
            sh.id = Shape.n
            self.shapes[sh.id] = sh
            sh.addr = atom('obj', sh.id)
        return sh.addr

    def heap(self, s):
        n = s.p.get('heap', 0)
        s.p['heap'] = n + 1
        return atom('heap', n)

    # ---- tables: arrays of items in insertion order
    def tget(self, e, s, t, n):
        return e.load(s, add(t, const(self.F('YASL_Table', n))), None)

    def titem(self, e, s, t, i, off):
        return add(self.tget(e, s, t, 'items'), const(i * 32 + off))

    def tcount(self, e, s, t):
        c = self.tget(e, s, t, 'count')
        if not isconst(c):
            raise AnalysisBroken('cgai: table of unknown size %s' % show(t))
        return c[0]

    def tfind(self, e, s, t, key):
        for i in range(self.tcount(e, s, t)):
            if (e.load(s, self.titem(e, s, t, i, 0), None), e.load(s, self.titem(e, s, t, i, 8), None)) == key:
                return i
        return None

    def tsearch(self, e, s, t, key):
        i = self.tfind(e, s, t, key)
        if i is None:
            return ('agg', (const(self.m.enum('Y_END')), ZERO))
        return ('agg', (e.load(s, self.titem(e, s, t, i, 16), None), e.load(s, self.titem(e, s, t, i, 24), None)))

    def tinsert(self, e, s, t, key, val):
        i = self.tfind(e, s, t, key)
        if i is None:
            i = self.tcount(e, s, t)
            s.mem[add(t, const(self.F('YASL_Table', 'count')))] = const(i + 1)
            s.mem[add(t, const(self.F('YASL_Table', 'size')))] = const(i + 1)
        for off, v in zip((0, 8, 16, 24), key + val):
            s.mem[self.titem(e, s, t, i, off)] = v

    def tnew(self, e, s, t):
        for n in ('size', 'base_size', 'count', 'tombstones'):
            s.mem[add(t, const(self.F('YASL_Table', n)))] = ZERO
        s.mem[add(t, const(self.F('YASL_Table', 'items')))] = self.heap(s)

    def strkey(self, name):
        return (const(self.m.enum('Y_STR')), atom('str', name))

    # ---- buffers
    def bbname(self, s, bb):
        for n in ('buffer', 'code', 'header', 'lines'):
            if bb == atom('obj', 'bb:' + n):
                return n
        return None

    def bbcount(self, n):
        return add(atom('obj', 'bb:' + n), const(self.F('YASL_ByteBuffer', 'count')))

    def emit(self, e, s, n, kind, data, size):
        c = self.bbcount(n)
        pos = s.mem[c]
        s.p['t:' + n] = s.p.get('t:' + n, ()) + ((pos, kind, data, size),)
        s.mem[c] = add(pos, size)

    def on_store(self, e, s, f, ins, a, v):
        if a == self.bbcount('buffer'):
            t = s.p.get('t:buffer', ())
            for i, it in enumerate(t):
                if it[0] == v:
                    s.p['t:buffer'] = t[:i]
                    return
            if t and add(t[-1][0], t[-1][3]) == v or not t:
                return
            self.findings.append(('B02', 'truncate ' + base(f.name), self.m.loc(ins), 'the code buffer is truncated inside an instruction'))
        b = objbase(a)
        if b is not None and A.tab[b] == ('obj', 'bytes:buffer'):
            pos = add(a, atom('obj', 'bytes:buffer'), -1)
            self.patch(e, s, f, ins, pos, 'b', v)

    def patch(self, e, s, f, ins, pos, kind, v):
        t = s.p.get('t:buffer', ())
        for i, it in enumerate(t):
            if it[0] == pos and it[1] == kind:
                s.p['t:buffer'] = t[:i] + ((pos, kind, v, it[3]),) + t[i + 1:]
                return
        self.findings.append(('B02', 'patch ' + base(f.name), self.m.loc(ins), 'patches position %s, which is not a%s operand of the emitted code' % (
            show(pos), 'n 8-byte' if kind == 'i' else ' one-byte')))

    # ---- state snapshots
    def scope(self, e, s):
        """(address, number of variables of it and its parents) of the scope in use"""
        p = e.load(s, add(self.C, const(self.F('Compiler', 'params'))), None)
        if p == ZERO:
            sc = e.load(s, add(self.C, const(self.F('Compiler', 'stack'))), None)
        else:
            sc = e.load(s, add(p, const(self.F('Env', 'scope'))), None)
        n, x = 0, sc
        while x != ZERO:
            n += self.tcount(e, s, add(x, const(self.F('Scope', 'vars'))))
            x = e.load(s, add(x, const(self.F('Scope', 'parent'))), None)
        return sc, n

    def checkpoints(self, e, s):
        cp = add(self.C, const(self.F('Compiler', 'checkpoints')))
        n = e.load(s, add(cp, const(self.F('SizeBuffer', 'count'))), None)
        it = e.load(s, add(cp, const(self.F('SizeBuffer', 'items'))), None)
        if not isconst(n):
            raise AnalysisBroken('cgai: unknown number of checkpoints')
        return tuple(e.load(s, add(it, const(8 * i)), None) for i in range(n[0]))

    def cfield(self, e, s, n):
        return e.load(s, add(self.C, const(self.F('Compiler', n))), None)

    # ---- calls
    def on_call(self, e, s, f, ins, name, args, ctx, depth, stack):
        b = base(name)
        Y = self.m.enum
        if b is None:
            # the sink errors are printed to
            s.p['err'] = True
            return [(None, s)]
        if b == 'visit':
            k = single(args[1])
            sh = self.shapes.get(k[1]) if k and k[0] == 'obj' else None
            if sh is None:
                raise AnalysisBroken('cgai: visit of an unknown node %s in %s' % (show(args[1]), f.name))
            if sh.eff:
                self.child(e, s, sh, f, ins)
                return [(None, s)]
            g = self.m.functions[name]
            return e.run(g, args, s, e.newctx(ctx, f, ins), depth + 1, stack + (name,))
        if b in ('malloc', 'calloc'):
            return [(self.heap(s), s)]
        if b == 'realloc':
            return [(args[0], s)]
        if b in ('free', 'inc_ref', 'dec_ref', 'str_del', 'YASL_String_del', 'fflush'):
            return [(None, s)]
        if b == 'strlen':
            v = atom('strlen', args[0])
            s.ge = s.ge | {v}
            return [(v, s)]
        if b == 'copy_char_buffer':
            return [(atom('cpy', args[1]), s)]
        if b in ('YASL_String_new_sized_heap', 'YASL_String_new_sized'):
            p = single(args[-1])
            return [(atom('str', p[1] if p and p[0] == 'cpy' else args[-1]), s)]
        if b == 'next_prime':
            return [(ZERO, s)]
        if b == 'YASL_Table_search':
            return [(self.tsearch(e, s, args[0], (args[1], args[2])), s)]
        if b == 'YASL_Table_search_string_int':
            return [(self.tsearch(e, s, args[0], self.strkey(args[1])), s)]
        if b in ('YASL_Table_insert', 'YASL_Table_insert_fast'):
            self.tinsert(e, s, args[0], (args[1], args[2]), (args[3], args[4]))
            return [(const(1) if b == 'YASL_Table_insert' else None, s)]
        if b == 'YASL_Table_insert_string_int':
            self.tinsert(e, s, args[0], self.strkey(args[1]), (const(Y('Y_INT')), args[3]))
            return [(None, s)]
        if b == 'YASL_Table_del':
            return [(None, s)]
        if b and b.startswith('YASL_ByteBuffer_'):
            n = self.bbname(s, args[0])
            if n is None:
                raise AnalysisBroken('cgai: unknown buffer %s in %s' % (show(args[0]), f.name))
            if b == 'YASL_ByteBuffer_add_byte':
                v = args[1]
                self.emit(e, s, n, 'b', const(v[0] & 255) if isconst(v) else v, const(1))
            elif b in ('YASL_ByteBuffer_add_int', 'YASL_ByteBuffer_add_float'):
                self.emit(e, s, n, 'i' if b[-1] == 't' and 'int' in b else 'f', args[1], const(8))
            elif b == 'YASL_ByteBuffer_extend':
                self.emit(e, s, n, 'x', (args[1], args[2]), args[2])
            elif b == 'YASL_ByteBuffer_rewrite_int_fast':
                if n == 'buffer':
                    self.patch(e, s, f, ins, args[1], 'i', args[2])
            elif b == 'YASL_ByteBuffer_add_vint':
                self.emit(e, s, n, 'v', args[1], atom('vlen', args[1]))
            else:
                raise AnalysisBroken('cgai: %s' % b)
            return [(None, s)]
        g = self.m.functions.get(name)
        if g is not None and not g.decl:
            if len(stack) > 40:
                raise AnalysisBroken('cgai: recursion too deep in %s' % name)
            return e.run(g, args, s, e.newctx(ctx, f, ins), depth + 1, stack + (name,))
        return None

    def child(self, e, s, sh, f, ins):
        sc, n = self.scope(e, s)
        s.p['visited'] = s.p.get('visited', frozenset()) | {sh.id}
        info = (sh.id, n, self.checkpoints(e, s) if sh.breaks else None, self.cfield(e, s, 'expected_returns') if sh.eff == 'E' else None,
                tuple(sorted(self.visible(e, s, sc).items())))
        self.emit(e, s, 'buffer', 'c', info, atom('size', sh.id))
        for nm in sh.names:
            self.declare(e, s, sc, nm)

    def visible(self, e, s, sc):
        """name -> slot of the variables of the function in scope"""
        out = {}
        while sc != ZERO:
            t = add(sc, const(self.F('Scope', 'vars')))
            for i in range(self.tcount(e, s, t)):
                k = single(e.load(s, self.titem(e, s, t, i, 8), None))
                n = single(k[1]) if k and k[0] == 'str' else None
                v = e.load(s, self.titem(e, s, t, i, 24), None)
                if n is None or n[0] != 'name' or not isconst(v):
                    raise AnalysisBroken('cgai: unknown variable in scope %s' % show(sc))
                out.setdefault(n[1], ~v[0] if v[0] < 0 else v[0])
            sc = e.load(s, add(sc, const(self.F('Scope', 'parent'))), None)
        return out

    def declare(self, e, s, sc, nm, const_=False):
        t = add(sc, const(self.F('Scope', 'vars')))
        n = self.scopelen(e, s, sc)
        self.tinsert(e, s, t, self.strkey(atom('name', nm)), (const(self.m.enum('Y_INT')), const(~n if const_ else n)))

    def scopelen(self, e, s, x):
        n = 0
        while x != ZERO:
            n += self.tcount(e, s, add(x, const(self.F('Scope', 'vars'))))
            x = e.load(s, add(x, const(self.F('Scope', 'parent'))), None)
        return n

    # ---- initial state
    def newscope(self, e, s, tag, names, parent):
        """'|' among the names starts a nested scope"""
        names = tuple(names)
        if '|' in names:
            i = len(names) - 1 - names[::-1].index('|')
            parent = self.newscope(e, s, tag + "'", names[:i], parent)
            names = names[i + 1:]
        sc = atom('obj', 'scope:' + tag)
        s.mem[add(sc, const(self.F('Scope', 'parent')))] = parent
        self.tnew(e, s, add(sc, const(self.F('Scope', 'vars'))))
        for nm in names:
            self.declare(e, s, sc, nm.rstrip('!'), nm.endswith('!'))
        return sc

    def start(self, e, infn=False, locs=('a', 'b'), stack=('fa',), globs=('ga', 'gb!'), loop=False, outer=None, exp=None):
        """outer: variables of the enclosing function (closure in a closure), else the function is a top-level one"""
        s = State()
        F, C = self.F, self.C

        def setc(n, v):
            s.mem[add(C, const(F('Compiler', n)))] = v
        setc('globals', self.newscope(e, s, 'globals', globs, ZERO))
        st = self.newscope(e, s, 'stack', locs if not infn else stack, ZERO) if (locs is not None if not infn else stack is not None) else ZERO
        setc('stack', st)
        params = ZERO
        if infn:
            par = ZERO
            if outer is not None:
                par = self.newenv(e, s, 'outer', outer, ZERO)
            params = self.newenv(e, s, 'fn', locs, par)
        setc('params', params)
        setc('expected_returns', const(1) if exp is None else atom('exp'))
        setc('leftmost_pattern', const(1))
        self.tnew(e, s, add(C, const(F('Compiler', 'seen_bindings'))))
        strs = atom('obj', 'strings')
        setc('strings', strs)
        self.tnew(e, s, strs)
        for g in globs:
            self.tinsert(e, s, strs, self.strkey(atom('name', g.rstrip('!'))), (const(self.m.enum('Y_INT')), atom('gidx', g.rstrip('!'))))
        for n in ('buffer', 'header', 'code', 'lines'):
            bb = atom('obj', 'bb:' + n)
            setc(n, bb)
            s.mem[self.bbcount(n)] = atom('base:' + n)
            s.ge = s.ge | {atom('base:' + n)}
            s.mem[add(bb, const(F('YASL_ByteBuffer', 'bytes')))] = atom('obj', 'bytes:' + n)
        setc('line', ZERO)
        setc('status', ZERO)
        setc('num', ZERO)
        cp = add(C, const(F('Compiler', 'checkpoints')))
        items = atom('obj', 'cpitems')
        s.mem[add(cp, const(F('SizeBuffer', 'items')))] = items
        s.mem[add(cp, const(F('SizeBuffer', 'size')))] = const(16)
        n = 3 if loop is not False else 0
        s.mem[add(cp, const(F('SizeBuffer', 'count')))] = const(n)
        if n:
            for i, v in enumerate((atom('cp:cont'), atom('cp:brk'), const(loop))):
                s.mem[add(items, const(8 * i))] = v
        return s

    def newenv(self, e, s, tag, names, parent):
        env = atom('obj', 'env:' + tag)
        F = self.F
        s.mem[add(env, const(F('Env', 'parent')))] = parent
        s.mem[add(env, const(F('Env', 'scope')))] = self.newscope(e, s, tag, names, ZERO)
        self.tnew(e, s, add(env, const(F('Env', 'upval_indices'))))
        self.tnew(e, s, add(env, const(F('Env', 'upval_values'))))
        s.mem[add(env, const(F('Env', 'usedinclosure')))] = ZERO
        s.mem[add(env, const(F('Env', 'isclosure')))] = ZERO
        return env
