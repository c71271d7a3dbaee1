"""Abstract interpretation of library functions on containers of known shape.

Lists, tables and sets are memory of known layout (so many slots, some free, some removed, some occupied); the values in them are
opaque.  What is decided by their contents is fixed per case: which of them are equal (class), how they compare (rank), where
they hash to.  Everything else (stack, containers, memory blocks) is exact, so the result is, for every path, exactly what the
containers hold afterwards.  Memory blocks have sizes: accesses outside of them, after they were freed, and second frees are problems.
"""
import cvm
from ai import *
import ai
from ir import AnalysisBroken
from cvm import CVM, objbase


def prime(n):
    while n < 2 or any(n % d == 0 for d in range(2, int(n ** .5) + 1)):
        n += 1
    return n


def written(m):
    """globals of the library used in any way other than being read"""
    w = getattr(m, '_written', None)
    if w is None:
        w = m._written = set()

        def uses(v, out):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 'g':
                    out.add(v[1])
                else:
                    for x in v:
                        uses(x, out)
        for f in m.functions.values():
            if f.decl:
                continue
            for ins in f.instrs():
                for k, (ty, v) in enumerate(ins.args):
                    if ins.op == 'load' or ins.op == 'call' and k == 1 and isinstance(ins.x, tuple) and 'memcpy' in str(ins.x[1]):
                        continue
                    uses(v, w)
    return w


class _I:
    """a store of 8 bytes on behalf of an instruction"""
    def __init__(self, ins):
        self.__dict__.update({k: getattr(ins, k) for k in ('fn', 'bb', 'idx', 'op', 'x', 'res', 'ty') if hasattr(ins, k)})
        self.args = [('i64', None)]
        self.dbg = getattr(ins, 'dbg', None)


class Table:
    """slots: None (free), 'x' (removed), or (key, value)"""
    kind = 'Y_TABLE'

    def __init__(self, slots, base=30, mt=None):
        self.slots, self.base, self.mt = slots, base, mt


class Set(Table):
    kind = 'Y_USERDATA'


class Lst:
    kind = 'Y_LIST'

    def __init__(self, items, cap=None, mt=None):
        self.items, self.cap, self.mt = items, len(items) if cap is None else cap, mt


class NVM(CVM):
    FILES = ('interpreter/', 'data-structures/', 'std/', 'yasl')
    OPAQUE = {'vm_print_err', 'vvm_print_err', 'vm_print_out', 'vm_throw_err', 'inc_ref', 'dec_ref', 'isequal', 'isequal_typed', 'vm_stringify_top', 'vm_EQ', 'get_hash', 'next_prime', 'yasl_object_cmp', 'vm_len_unop'}

    def __init__(self, m):
        super().__init__(m)
        self.refs = True
        self.cls = {}            # payload -> class of equal numbers, or any other mark of equality
        self.rank = {}
        self.hashes = {}         # (type, class) -> (base, step)
        self.sizes = {}
        self.conts = {}          # name -> (kind, RC_UserData or None, data object)
        for g, d in m.globals.items():
            if not d['const'] and d['init'] is not None and g not in written(m):
                d['const'] = True

    def mergekey(self, e, s):
        return (tuple(sorted(s.p.items(), key=repr)), frozenset((k, v) for k, v in s.env.items() if cvm.concrete(v) and abs(v[0]) < 4096))

    def loopkey(self, e, s, f, b):
        return frozenset((a, v) for a, v in s.mem.items() if cvm.concrete(v) and abs(v[0]) < 4096 and objbase(a) is not None and A.tab[objbase(a)][0] in ('obj', 'heap'))

    # ---- memory
    def block(self, s, a, n):
        self.sizes[a] = n
        return a

    def initval(self, e, s, a, ty, c):
        if c[0] == 'B':
            k = A.tab[c[1]]
            if k[0] == 'heap' and k[1] in s.p.get('zeroed', ()) and len(a[1]) == 1:
                return ZERO
        return super().initval(e, s, a, ty, c)

    def access(self, e, s, ins, a, n, how):
        b = objbase(a)
        if b is None or A.tab[b][0] not in ('obj', 'heap'):
            return
        base_ = (0, ((b, 1),))
        if b in s.p.get('freed', ()):
            self.problems.append(('%s memory that was freed' % how, self.m.loc(ins)))
        size = self.sizes.get(base_)
        if size is None:
            size = dict(s.p.get('sizes', ())).get(b)
        if size is not None:
            d = add(a, base_, -1)
            if isconst(d):
                if not 0 <= d[0] <= size - n:
                    self.problems.append(('%s outside of a block of %s bytes (%d bytes at %d)' % (how, size, n, d[0]), self.m.loc(ins)))
            else:
                self.problems.append(('%s at an unknown place' % how, self.m.loc(ins)))

    def width(self, ty):
        try:
            return self.m.size(ty)
        except Exception:
            return 1

    def on_load(self, e, s, f, ins, a, v):
        super().on_load(e, s, f, ins, a, v)
        self.use(s, a, ins, 'reads')
        self.access(e, s, ins, a, self.width(ins.ty), 'reads')

    def on_store(self, e, s, f, ins, a, v):
        self.use(s, a, ins, 'changes')
        self.access(e, s, ins, a, self.width(ins.args[0][0]), 'writes')

    def move(self, e, s, dst, src, n, ins):
        if isconst(n) and n[0] > 0:
            self.access(e, s, ins, dst, n[0], 'writes')
            self.access(e, s, ins, src, n[0], 'reads')
        z = objbase(src)
        if z is not None and A.tab[z][0] == 'heap' and A.tab[z][1] in s.p.get('zeroed', ()) and isconst(n):
            for o in range(0, n[0], 8):
                if add(src, const(o)) not in s.mem:
                    s.mem[add(src, const(o))] = ZERO
        return super().move(e, s, dst, src, n, ins)

    # ---- reference counts (as in M06)
    PRIMS = ('Y_END', 'Y_UNDEF', 'Y_BOOL', 'Y_INT', 'Y_FLOAT', 'Y_FN', 'Y_USERPTR')

    def counted(self, s, v):
        t, x = v
        return isconst(t) and t[0] not in {self.m.enum(k) for k in self.PRIMS} and not isconst(x)

    def count(self, e, s, p, d, ins):
        v = self.obj(e, s, p)
        if not self.counted(s, v):
            return
        x = v[1]
        rc = dict(s.p.get('rc', ()))
        if d > 0 and x in s.p.get('dead', ()):
            self.problems.append(('takes a reference to a value whose last owner has let go of it', self.m.loc(ins)))
        rc[x] = rc.get(x, 0) + d
        had = self.before.get(x, 0)
        if d < 0 and had + rc[x] <= 0:
            if had + rc[x] < 0:
                self.problems.append(('lets go of a value it does not own', self.m.loc(ins)))
            s.p['dead'] = s.p.get('dead', frozenset()) | {x}
        if not rc[x]:
            del rc[x]
        s.p['rc'] = tuple(sorted(rc.items()))

    before = {}

    def use(self, s, a, ins, how):
        dead = s.p.get('dead')
        if dead and a[1] and any((0, ((t, 1),)) in dead for t, c in a[1]):
            self.problems.append(('%s a value whose last owner has let go of it' % how, self.m.loc(ins)))

    def owners(self, e, s):
        """tally over the stack and every container reachable from it (and from the containers of the case)"""
        n = {}
        seen = set()

        def own(v):
            if self.counted(s, v):
                n[v[1]] = n.get(v[1], 0) + 1
                k = single(v[1])
                if v[1] not in seen and k and k[0] in ('obj', 'heap'):
                    seen.add(v[1])
                    c = self.content(e, s, v[1])
                    for x in c or ():
                        own(x)
        for i in range(cvm.NSTACK):
            own(self.obj(e, s, self.slot(i)))
        for k, ud, data in self.conts.values():
            if ud is not None and ud not in seen:
                seen.add(ud)
                for x in self.content(e, s, ud) or ():
                    own(x)
            elif ud is None:
                for x in self.elements(e, s, data, k) or ():
                    own(x)
        return n

    def content(self, e, s, ud):
        """the values in the container of a userdata object"""
        m = self.m
        d = e.load(s, add(ud, const(m.field('RC_UserData', 'data'))), None)
        k = self.kindof(e, s, ud)
        return self.elements(e, s, d, k) if k else None

    def kindof(self, e, s, ud):
        m = self.m
        for k, u, d in self.conts.values():
            if u == ud:
                return k
        dt = e.load(s, add(ud, const(m.field('RC_UserData', 'destructor'))), None)
        x = single(dt) or ()
        n = next((y for y in x if isinstance(y, str) and '_del' in y), '')
        return {'YASL_List_del_data': 'Y_LIST', 'rcht_del_data': 'Y_TABLE', 'YASL_Set_del': 'Y_USERDATA'}.get(base(n) if n else n)

    def elements(self, e, s, d, k):
        c = self.read(e, s, d, k)
        if c is None:
            return None
        if k == 'Y_LIST':
            return c
        return [y for x in c if isinstance(x, tuple) for y in (x if k == 'Y_TABLE' else [x])]

    def read(self, e, s, d, k):
        """Y_LIST: the elements; Y_TABLE: slots (None, 'x' or (key, value)); Y_USERDATA (set): slots (None, 'x' or value)"""
        m = self.m
        st = {'Y_LIST': 'YASL_List', 'Y_TABLE': 'YASL_Table', 'Y_USERDATA': 'YASL_Set'}[k]
        n = e.load(s, add(d, const(m.field(st, 'count' if k == 'Y_LIST' else 'size'))), None)
        it = e.load(s, add(d, const(m.field(st, 'items'))), None)
        if not isconst(n) or not 0 <= n[0] < 1000:
            return None
        w = 32 if k == 'Y_TABLE' else 16
        out = []
        END, UNDEF = const(m.enum('Y_END')), const(m.enum('Y_UNDEF'))
        for i in range(n[0]):
            a = add(it, const(w * i))
            key = self.obj(e, s, a)
            if k == 'Y_LIST':
                out.append(key)
            elif key[0] == END:
                out.append('x')
            elif key[0] == UNDEF:
                out.append(None)
            else:
                out.append(key if k == 'Y_USERDATA' else (key, self.obj(e, s, add(a, const(16)))))
        return out

    # ---- building
    def place(self, e, s, name, c, wrap=True):
        """lay out container c; returns the value (type, payload)"""
        m = self.m
        d, it = atom('obj', 'data', name), atom('obj', 'citems', name)
        if isinstance(c, Lst):
            st = 'YASL_List'
            for i, v in enumerate(c.items):
                self.put(s, add(it, const(16 * i)), v)
            self.sizes[it] = 16 * c.cap
            fs = {'size': c.cap, 'count': len(c.items)}
        else:
            st = 'YASL_Table' if c.kind == 'Y_TABLE' else 'YASL_Set'
            w = 32 if c.kind == 'Y_TABLE' else 16
            END, UNDEF = const(m.enum('Y_END')), const(m.enum('Y_UNDEF'))
            for i, x in enumerate(c.slots):
                a = add(it, const(w * i))
                k, v = ((UNDEF, ZERO),) * 2 if x is None else ((END, END),) * 2 if x == 'x' else x if w == 32 else (x, None)
                self.put(s, a, k)
                if w == 32:
                    self.put(s, add(a, const(16)), v)
            self.sizes[it] = w * len(c.slots)
            fs = {'size': len(c.slots), 'base_size': c.base, 'count': sum(isinstance(x, tuple) for x in c.slots), 'tombstones': sum(x == 'x' for x in c.slots)}
        for n, v in fs.items():
            s.mem[add(d, const(m.field(st, n)))] = const(v)
        s.mem[add(d, const(m.field(st, 'items')))] = it
        self.sizes[d] = max(f[0] + f[3] for f in m.fields[st])
        ud = None
        if wrap:
            ud = atom('obj', 'ud', name)
            R = lambda n: add(ud, const(m.field('RC_UserData', n)))
            s.mem[R('data')] = d
            s.mem[R('mt')] = ZERO if c.mt is None else c.mt
            s.mem[R('tag')] = self.tag(e, s, c.kind)
            s.mem[R('destructor')] = atom('destructor', c.kind)
        self.conts[name] = (c.kind, ud, d)
        return (const(m.enum(c.kind)), ud), d

    def tag(self, e, s, kind):
        g = {'Y_LIST': 'LIST_NAME', 'Y_TABLE': 'TABLE_NAME', 'Y_USERDATA': 'SET_NAME'}[kind]
        for n in self.m.globals:
            if base(n) == g or n.endswith('.' + g):
                return e.load(s, atom('glob', n), 'ptr')
        for n, d in self.m.globals.items():
            # constant pointers are folded into the string they point to
            if d['init'] is not None and d['init'][0] == 'bytes' and kind == 'Y_USERDATA' and d['init'][1].rstrip('\0') == 'collections.set':
                return atom('glob', n)
        raise AnalysisBroken('no %s' % g)

    # ---- what is fixed per case
    def key(self, v):
        return (v[0], self.cls.get(v[1], v[1]))

    def equal(self, a, b):
        num = {const(self.m.enum('Y_INT')), const(self.m.enum('Y_FLOAT'))}
        if a[0] != b[0] and not (a[0] in num and b[0] in num):
            return False
        if a[0] == const(self.m.enum('Y_UNDEF')):
            return True
        if a[0] == const(self.m.enum('Y_END')) or b[0] == const(self.m.enum('Y_END')):
            return False
        if a[0] not in {const(self.m.enum(k)) for k in ('Y_BOOL', 'Y_INT', 'Y_FLOAT', 'Y_STR', 'Y_USERPTR')}:
            return False
        return self.cls.get(a[1], a[1]) == self.cls.get(b[1], b[1])

    def valeq(self, a, b):
        """the operator =="""
        return a == b or self.equal(a, b) or self.cls.get(a[1], a[1]) == self.cls.get(b[1], b[1]) and a[0] == b[0]

    def hash(self, v, n, i):
        h = self.hashes.get(self.key(v))
        if h is None:
            n_ = sum(map(ord, repr(self.key(v)[1]))) + sum(v[0][:1])
            h = (n_ * 7, n_ % 5 + 1)
        return (h[0] + i * h[1]) % n

    def model(self, e, s, f, ins, name, b, args, ctx):
        if b in ('isequal', 'isequal_typed'):
            x, y = self.obj(e, s, args[0]), self.obj(e, s, args[1])
            if not isconst(x[0]) or not isconst(y[0]):
                self.problems.append(('compares values of unknown type', self.m.loc(ins)))
                return []
            return [(const(int(self.equal(x, y) and (b == 'isequal' or x[0] == y[0]))), s)]
        if b == 'memcmp' and args[2] == const(8):
            x, y = e.load(s, args[0], 'i64'), e.load(s, args[1], 'i64')
            return [(add(x, y, -1), s)]
        if b == 'vm_EQ':
            sp = self.get(e, s, 'sp')[0]
            x, y = self.obj(e, s, self.slot(sp - 1)), self.obj(e, s, self.slot(sp))
            self.overwrite(e, s, sp - 1, (const(self.m.enum('Y_BOOL')), const(int(self.valeq(x, y)))), ins)
            s.mem[self.vm('sp')] = const(sp - 1)
            return [(None, s)]
        if b == 'vm_stringify_top':
            sp = self.get(e, s, 'sp')[0]
            x = self.obj(e, s, self.slot(sp))
            self.overwrite(e, s, sp, (const(self.m.enum('Y_STR')), atom('text', x[1])), ins)
            return [(None, s)]
        if b == 'get_hash':
            v, n, i = (args[0], args[1]), args[2], args[3]
            if not isconst(n) or n[0] < 1 or not isconst(i):
                self.problems.append(('hashes into a table of unknown size', self.m.loc(ins)))
                return []
            if i[0] > 2 * n[0]:
                self.problems.append(('probes a table without a free slot forever', self.m.loc(ins)))
                return []
            self.use(s, v[1], ins, 'hashes')
            return [(const(self.hash(v, n[0], i[0])), s)]
        if b == 'next_prime' and isconst(args[0]):
            return [(const(prime(args[0][0])), s)]
        if b == 'yasl_object_cmp':
            x, y = self.rank.get(args[1]), self.rank.get(args[3])
            if x is None or y is None:
                self.problems.append(('compares values that are not elements', self.m.loc(ins)))
                return []
            return [(const((x > y) - (x < y)), s)]
        if b == 'vm_len_unop':
            sp = self.get(e, s, 'sp')[0]
            x = self.obj(e, s, self.slot(sp))
            d = next((d for k, u, d in self.conts.values() if u == x[1]), None)
            if d is None:
                return None
            self.overwrite(e, s, sp, (const(self.m.enum('Y_INT')), e.load(s, add(d, const(self.m.field('YASL_List', 'count'))), None)), ins)
            return [(None, s)]
        if b == 'YASL_loadmt':
            sp = self.get(e, s, 'sp')[0]
            self.overwrite(e, s, sp + 1, (const(self.m.enum('Y_TABLE')), atom('obj', 'mt', self.m.cstr(('g', A.tab[args[1][1][0][0]][1])) if args[1][1] else None)), ins)
            s.mem[self.vm('sp')] = const(sp + 1)
            return [(ZERO, s)]
        if b == 'rand':
            # every first choice; later ones differ from it in turn (choosing the same pivot for ever has probability 0)
            k = s.p.get('rand')
            if k is not None:
                s.p['rand'] = k + 1
                return [(const(k + 1), s)]
            out = []
            for i in range(4):
                t = s.copy()
                t.p['rand'] = i
                out.append((const(i), t))
            return out
        return None

    def overwrite(self, e, s, i, v, ins):
        """the callee pushes v over slot i"""
        tmp = atom('obj', 'scratch')
        self.put(s, tmp, v)
        self.count(e, s, tmp, 1, ins)
        self.count(e, s, self.slot(i), -1, ins)
        del s.mem[tmp], s.mem[add(tmp, const(8))]
        self.put(s, self.slot(i), v)

    def on_call(self, e, s, f, ins, name, args, ctx, depth, stack):
        b = base(name)
        if b.startswith(('llvm.memcpy', 'memcpy')) and isconst(args[2]) and args[2][0] <= 64:
            k = A.tab[args[1][1][0][0]] if len(args[1][1]) == 1 else ()
            if k and k[0] == 'glob':
                # a constant of the program is copied
                for o in range(0, args[2][0], 8):
                    self.on_store(e, s, f, _I(ins), add(args[0], const(o)), None)
                    s.mem[add(args[0], const(o))] = e.load(s, add(args[1], const(o)), 'i32')
                return [(None, s)]
        if b in ('malloc', 'calloc', 'realloc'):
            n = s.p.get('heap', 0)
            s.p['heap'] = n + 1
            u = atom('heap', n)
            size = args[0] if b == 'malloc' else args[1] if b == 'realloc' else scale(args[0], args[1][0]) if isconst(args[1]) else scale(args[1], args[0][0]) if isconst(args[0]) else None
            if size is None or not isconst(size):
                self.problems.append(('allocates a block of unknown size', self.m.loc(ins)))
            else:
                s.p['sizes'] = s.p.get('sizes', ()) + ((u[1][0][0], size[0]),)
            if b == 'calloc':
                s.p['zeroed'] = s.p.get('zeroed', ()) + (n,)
            if b == 'realloc' and not (isconst(args[0]) and args[0][0] == 0):
                old = dict(s.p.get('sizes', ())).get(objbase(args[0]), self.sizes.get(args[0]))
                if old is None or size is None:
                    self.problems.append(('reallocates something that is no block', self.m.loc(ins)))
                else:
                    CVM.move(self, e, s, u, args[0], const(min(old, size[0])), ins)
                self.release(s, args[0], ins)
            return [(u, s)]
        if b == 'free':
            self.release(s, args[0], ins)
            return [(None, s)]
        if b not in ('inc_ref', 'dec_ref') and not (name or '').startswith('llvm.'):
            for v in args:
                if not isinstance(v[0], str):
                    self.use(s, v, ins, 'passes on (to %s)' % b)
        return super().on_call(e, s, f, ins, name, args, ctx, depth, stack)

    def release(self, s, a, ins):
        if isconst(a) and a[0] == 0:
            return
        b = objbase(a)
        if b is None or a != (0, ((b, 1),)):
            self.problems.append(('frees something that is not the start of a block', self.m.loc(ins)))
            return
        if b in s.p.get('freed', ()):
            self.problems.append(('frees a block twice', self.m.loc(ins)))
        s.p['freed'] = s.p.get('freed', frozenset()) | {b}
