"""Abstract interpretation of the VM on stack shapes.

A shape fixes how many values are on the stack, where the frames begin and what the instruction stream holds; the values
themselves are opaque (or of a fixed type, where the instruction depends on it).  All indices are therefore constants, loops over
the stack run for as many iterations as the shape says, and the result is, for every path, exactly which value ends up where.

Primitive (modelled, checked elsewhere): containers, strings, printing, memory allocation.
"""
from ai import *
import ai
from ir import AnalysisBroken

NSTACK = 24


def objbase(v):
    for t, c in v[1]:
        if c == 1 and A.tab[t][0] in ('obj', 'heap'):
            return t
    return ai.baseatom(v)


def concrete(v):
    return isinstance(v[0], int) and (not v[1] or len(v[1]) == 1 and v[1][0][1] == 1 and A.tab[v[1][0][0]][0] in ('obj', 'heap'))


class CVM(Hooks):
    FILES = ('interpreter/',)
    OPAQUE = {'vm_print_err', 'vvm_print_err', 'vm_print_out', 'vm_throw_err', 'inc_ref', 'dec_ref', 'isequal', 'vm_stringify_top'}

    RECURSE = (8, 14)       # how often a function may call itself, how deep calls may nest

    def __init__(self, m):
        self.m = m
        self.VM = atom('obj', 'vm')
        self.STK = atom('obj', 'stack')
        self.CODE = atom('obj', 'code')
        self.CONSTS = atom('obj', 'consts')
        self.off = {n: m.field('VM', n) for n in ('stack', 'sp', 'fp', 'next_fp', 'frames', 'frame_num', 'loopframes', 'loopframe_num', 'constants', 'globals',
                                                  'metatables', 'builtins_htable', 'pc', 'pending', 'status', 'code', 'headers', 'headers_size', 'num_constants')}
        self.Y = m.enumtypes['YASL_Types'] if 'YASL_Types' in m.enumtypes else {k: v for k, v in m.enums.items() if k.startswith('Y_')}
        self.problems = []
        self.errors = []
        self.inline_call = False
        self.refs = False

    # ---- memory
    def classify(self, e, s, a):
        b = objbase(a)
        if b is not None and A.tab[b][0] in ('obj', 'heap'):
            return ('B', b)
        return None

    def mayalias(self, e, s, a, b, d, c):
        return objbase(a) == objbase(b)

    def mergekey(self, e, s):
        return (tuple(sorted(s.p.items(), key=repr)), frozenset((k, v) for k, v in s.env.items() if concrete(v) and abs(v[0]) < 48))

    def joinkey(self, e, s):
        # states are only joined where the machine is in the same configuration
        return (self.mergekey(e, s), tuple(sorted((a, v) for a, v in s.mem.items() if objbase(a) in self.exact)))

    def loopkey(self, e, s, f, b):
        # the configuration of the machine and of the objects in reach keeps the iterations of a loop apart
        return frozenset((a, v) for a, v in s.mem.items() if concrete(v) and abs(v[0]) < 600 and objbase(a) is not None and A.tab[objbase(a)][0] in ('obj', 'heap'))

    @property
    def exact(self):
        return {self.VM[1][0][0], self.STK[1][0][0]}

    def vm(self, n):
        return add(self.VM, const(self.off[n]))

    def get(self, e, s, n):
        return e.load(s, self.vm(n), None)

    def slot(self, i, o=0):
        return add(self.STK, const(16 * i + o))

    def obj(self, e, s, a):
        return (e.load(s, a, None), e.load(s, add(a, const(8)), None))

    def put(self, s, a, v):
        s.mem[a], s.mem[add(a, const(8))] = v

    def frame(self, i, n):
        sz = self.m.size(self.m.structs['struct.CallFrame'])
        return add(self.VM, const(self.off['frames'] + sz * i + self.m.field('CallFrame', n)))

    def loop(self, i, n):
        sz = self.m.size(self.m.structs['struct.LoopFrame'])
        return add(self.VM, const(self.off['loopframes'] + sz * i + self.m.field('LoopFrame', n)))

    def initval(self, e, s, a, ty, c):
        if c[0] == 'B' and c[1] == self.CONSTS[1][0][0] and len(a[1]) == 1:
            return atom('const', a[0] // 16, a[0] % 16)
        return None

    def state(self, fp, sp, types=(), fnum=1, lnum=0):
        """slots 0..sp hold the values (t, v); the slots above hold leftovers"""
        s = State()
        for i in range(NSTACK):
            t = const(self.m.enum(types[i])) if i in types else atom('ty', i if i <= sp else ('left', i))
            self.put(s, self.slot(i), (t, atom('val', i if i <= sp else ('left', i))))
        for n, v in (('stack', self.STK), ('sp', const(sp)), ('fp', const(fp)), ('frame_num', const(fnum)), ('loopframe_num', const(lnum)),
                     ('constants', self.CONSTS), ('pc', self.CODE), ('next_fp', atom('nextfp')), ('pending', ZERO), ('globals', atom('globals'))):
            s.mem[self.vm(n)] = v
        return s

    def code(self, s, opc, *operands):
        """operands: ('b', value) or ('i', form)"""
        s.mem[self.CODE] = const(opc)
        a = add(self.CODE, const(1))
        for k, v in operands:
            s.mem[a] = v if not isinstance(v, int) else const(v)
            a = add(a, const(1 if k == 'b' else 8))
        return a

    limit = None

    def on_load(self, e, s, f, ins, a, v):
        if self.limit is not None and objbase(a) == self.CODE[1][0][0]:
            d = add(a, self.limit, -1)
            if isconst(d) and d[0] >= 0:
                self.problems.append(('reads beyond its operands', self.m.loc(ins)))

    def at(self, s, a, *operands):
        for k, v in operands:
            s.mem[a] = v if not isinstance(v, int) else const(v)
            if k == 'i' and isinstance(v, int):
                for i in range(1, 8):
                    s.mem[add(a, const(i))] = const(v >> 8 * i & 255)
            a = add(a, const(1 if k == 'b' else 8))
        return a

    # ---- calls
    def inline(self, e, g, depth):
        if base(g.name) in self.OPAQUE or base(g.name).startswith('io_'):
            return False
        f = self.m.fnloc(g).split(':')[0]
        return f.startswith(self.FILES) or g.name.startswith('YASL_') is False and f.startswith('data-structures/') is False and f.startswith(('util', 'opcode'))

    def move(self, e, s, dst, src, n, ins):
        """copy n bytes between modelled objects, cell by cell"""
        if not isconst(n):
            return False
        n = n[0]
        if n < 0 or n > 1 << 20:
            self.problems.append(('copies %d bytes' % n, self.m.loc(ins)))
            return True
        cells = []
        for a, v in s.mem.items():
            d = add(a, src, -1)
            if isconst(d) and 0 <= d[0] < n:
                cells.append((d[0], v))
        for a in list(s.mem):
            d = add(a, dst, -1)
            if isconst(d) and 0 <= d[0] < n:
                del s.mem[a]
        for o, v in cells:
            s.mem[add(dst, const(o))] = v
        return True

    def on_call(self, e, s, f, ins, name, args, ctx, depth, stack):
        b = base(name)
        if name and (name.startswith(('llvm.memcpy', 'llvm.memmove')) or name in ('memcpy', 'memmove')):
            if all(objbase(x) is not None and A.tab[objbase(x)][0] in ('obj', 'heap') for x in args[:2]) and self.move(e, s, args[0], args[1], args[2], ins):
                return [(args[0] if ins.res is not None else None, s)]
            if isconst(args[2]) and args[2][0] > 64:
                return [(args[0] if ins.res is not None else None, s)] if self.move(e, s, args[0], args[1], args[2], ins) else None
            return None
        if b in ('inc_ref', 'dec_ref'):
            if self.refs:
                self.count(e, s, args[0], 1 if b == 'inc_ref' else -1, ins)
            return [(None, s)]
        if b in ('malloc', 'calloc'):
            n = s.p.get('heap', 0)
            s.p['heap'] = n + 1
            return [(atom('heap', n), s)]
        if b in ('vm_throw_err', 'YASL_throw_err', 'longjmp'):
            self.errors.append((b, args[1], self.m.loc(ins), s.copy()))
            return []
        r = self.model(e, s, f, ins, name, b, args, ctx)
        if r is not None:
            return r
        if b in ('vm_CALL', 'vm_CALL_now') and not self.inline_call:
            return self.model_call(e, s, ins, b)
        g = self.m.functions.get(name) if name else None
        if name in stack and stack.count(name) < self.RECURSE[0] and g is not None and not g.decl and self.inline(e, g, depth) and depth < self.RECURSE[1]:
            return e.run(g, args, s, e.newctx(ctx, f, ins), depth + 1, stack + (name,))
        return None

    def model(self, e, s, f, ins, name, b, args, ctx):
        return None

    def count(self, e, s, p, d, ins):
        pass

    def opaque_effect(self, e, s, f, ins, name, args, why):
        b = base(name)
        if b == 'vm_stringify_top':
            sp = self.get(e, s, 'sp')
            self.put(s, self.slot(sp[0]), (const(self.m.enum('Y_STR')), atom('text', s.mem[self.slot(sp[0], 8)])))

    def on_store(self, e, s, f, ins, a, v):
        if 'entered' in s.p and objbase(a) in self.exact and not self.inline_call:
            self.problems.append(('changes the machine after entering a function that has not run yet', self.m.loc(ins)))

    def model_call(self, e, s, ins, b):
        """the frame set up last is called and leaves the number of values it was asked for"""
        fn = self.get(e, s, 'frame_num')
        nfp = self.get(e, s, 'next_fp')
        if not isconst(fn) or not isconst(nfp):
            self.problems.append(('calls without a frame having been set up', self.m.loc(ins)))
            return []
        n = e.load(s, self.frame(fn[0], 'num_returns'), None)
        sp = self.get(e, s, 'sp')
        args = tuple(self.obj(e, s, self.slot(i)) for i in range(nfp[0], sp[0] + 1))
        s.p['called'] = s.p.get('called', ()) + ((args, n),)
        s.mem[self.vm('next_fp')] = e.load(s, self.frame(fn[0], 'curr_fp'), None)
        s.mem[self.vm('frame_num')] = add(fn, const(-1))
        if not isconst(n) or n[0] < 0:
            self.problems.append(('unknown number of results', self.m.loc(ins)))
            return []
        if b != 'vm_CALL_now':
            s.p['entered'] = True
        for i in range(n[0]):
            self.put(s, self.slot(nfp[0] + i), (atom('resty', fn[0], i), atom('res', fn[0], i)))
        s.mem[self.vm('sp')] = const(nfp[0] + n[0] - 1)
        return [(None, s)]

    # ---- results
    def stack(self, e, s):
        sp = self.get(e, s, 'sp')
        if not isconst(sp):
            return None
        return [self.obj(e, s, self.slot(i)) for i in range(sp[0] + 1)]

    def where(self):
        return self.m.fnloc(self.m.fn('vm_executenext'))

    def showv(self, v):
        t, x = v
        k = single(t)
        if k and k[0] == 'ty':
            return 'the value of slot %s' % (k[1],)
        inv = {n: k for k, n in self.Y.items()}
        return '%s %s' % (inv.get(t[0], t[0]) if isconst(t) else show(t), show(x))
