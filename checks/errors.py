"""E03: what a failed compilation or run leaves behind."""
import ai, cgai, codegen
from ai import *
from ir import AnalysisBroken

FRAME = ('sp', 'fp', 'frame_num', 'loopframe_num')


class HState(Hooks):
    """a YASL_State (or a VM) as one object with named fields; everything outside of it is opaque"""
    def __init__(self, m):
        self.m = m
        self.S = atom('obj', 'state')
        self.sid = self.S[1][0][0]
        self.freed = []
        co = m.field('YASL_State', 'compiler')
        self.off = {n: m.field('VM', n) for n in FRAME + ('code', 'status', 'pending', 'next_fp', 'headers', 'headers_size', 'num_constants', 'constants')}
        self.coff = {n: co + m.field('Compiler', n) for n in ('status', 'stack', 'params', 'globals', 'code', 'buffer', 'lines', 'line', 'num')}
        self.coff['parser.status'] = co + m.field('Compiler', 'parser') + m.field('Parser', 'status')

    def at(self, n):
        return add(self.S, const(self.off[n] if n in self.off else self.coff[n[9:]]))

    def get(self, e, s, n):
        return e.load(s, self.at(n), None)

    def classify(self, e, s, a):
        if len(a[1]) == 1 and a[1][0] == (self.sid, 1):
            return ('St',)
        b = cgai.objbase(a)
        return ('B', b) if b is not None and A.tab[b][0] == 'obj' else None

    def mayalias(self, e, s, a, b, d, c):
        return c != ('St',) and cgai.objbase(a) == cgai.objbase(b)

    def inline(self, e, g, depth):
        return base(g.name) not in ('dec_ref', 'inc_ref', 'vm_close_all_helper', 'vm_executenext', 'vm_setupconstants', 'io_cleanup', 'lex_cleanup',
                                    'vm_print_err', 'vvm_print_err', 'compile', 'compile_REPL', 'str_del', 'YASL_String_del', 'ud_del')

    def on_call(self, e, s, f, ins, name, args, ctx, depth, stack):
        b = base(name)
        if b in ('_setjmp', 'setjmp', '__sigsetjmp'):
            # the run was aborted: anything may have happened to the state, except that errors never lower what belongs to the caller
            for n in FRAME:
                old = self.get(e, s, n)
                v = atom('now', n)
                s.mem[self.at(n)] = v
                s.ge = s.ge | {add(v, old, -1)}
            s.mem[self.at('status')] = atom('now', 'status')
            s.mem[self.at('next_fp')] = atom('now', 'next_fp')
            s.p['aborted'] = True
            return [(const(1), s)]
        if b in ('compile', 'compile_REPL'):
            s.add_ne(atom('bytecode'), 0)
            s.ge = s.ge | {add(atom('bytecode'), const(-1))}
            return [(atom('bytecode'), s)]
        if b == 'free':
            self.freed.append((args[0], self.m.loc(ins), base(f.name)))
        if not self.m.functions.get(name) or self.m.functions[name].decl or not self.inline(e, self.m.functions[name], depth):
            rt = self.m.functions.get(name)
            return [(atom('call', (ctx, f.name, ins.res), b) if ins.res is not None else None, s)]
        return None


def check_E03(m, rep):
    rep.rule('unwound: when running a program fails, YASL_execute and YASL_execute_REPL return with the stack, the frames and the loops of the state as they were when called')
    rep.rule('reset: YASL_resetstate and YASL_resetstate_bb clear the error codes, the code and the line table, and do not release bytecode that functions may still refer to')
    rep.rule('compiled: whether or not compiling succeeds, compile and compile_REPL leave no scope, function or loop open, and a failure yields no bytecode')
    rep.rule('restored: after a node that is rejected, the code generator has the scopes, loops and functions it had before')
    ok_codes = {m.enum(n) for n in ('YASL_SUCCESS', 'YASL_MODULE_SUCCESS')}
    for fn in ('YASL_execute', 'YASL_execute_REPL'):
        h = HState(m)
        e = Engine(m, h)
        s = State()
        s.ge = frozenset(add(atom('was', n), const(1)) for n in FRAME)
        for n in FRAME:
            s.mem[h.at(n)] = atom('was', n)
        s.mem[h.at('compiler.num')] = atom('num')
        n = 0
        for rv, st in e.run(m.fn(fn), [h.S], s):
            if 'aborted' not in st.p:
                continue
            n += 1
            vs = st.values(rv) if rv is not None else None
            if isconst(rv) and rv[0] in ok_codes or vs and set(vs) <= ok_codes:
                continue
            for fld in FRAME:
                v = h.get(e, st, fld)
                w = atom('was', fld)
                if v == w or st.nonneg(add(v, w, -1)) and st.nonneg(add(w, v, -1)):
                    rep.ok('unwound', '%s: %s' % (fn, fld))
                else:
                    rep.bad('unwound', '%s: %s' % (fn, fld), m.fnloc(m.fn(fn)), 'after an error %s of the state is %s and not what it was before the run (returned: %s)' % (
                        fld, show(v), show(rv)))
        if not n:
            raise AnalysisBroken('E03: no path through %s returns after an abort' % fn)
    for fn in ('YASL_resetstate', 'YASL_resetstate_bb'):
        h = HState(m)
        e = Engine(m, h)
        s = State()
        code = atom('obj', 'bytecode')
        s.mem[h.at('code')] = code
        f = m.fn(fn)
        n = 0
        cnt = m.field('YASL_ByteBuffer', 'count')
        for x in ('code', 'buffer', 'lines'):
            s.mem[h.at('compiler.' + x)] = atom('obj', 'bb:' + x)
        for rv, st in e.run(f, [h.S] + [atom('arg', p) for p in f.params[1:]], s):
            if st.values(rv) and m.enum('YASL_SUCCESS') not in st.values(rv) or isconst(rv) and rv[0] != m.enum('YASL_SUCCESS'):
                continue
            n += 1
            want = [('compiler.' + x, h.get(e, st, 'compiler.' + x)) for x in ('status', 'parser.status', 'line')]
            want += [('compiler.%s->count' % x, e.load(st, add(atom('obj', 'bb:' + x), const(cnt)), None)) for x in ('code', 'buffer', 'lines')]
            for x, v in want:
                if v == ZERO:
                    rep.ok('reset', '%s: %s' % (fn, x))
                else:
                    rep.bad('reset', '%s: %s' % (fn, x), m.fnloc(f), '%s leaves %s at %s' % (fn, x, show(v)))
        for v, loc, g in h.freed:
            if v == code:
                rep.bad('reset', '%s: frees' % fn, loc, '%s releases bytecode that functions defined by it still refer to' % g)
        if not n:
            raise AnalysisBroken('E03: no successful path through %s' % fn)
    for fn in ('compile', 'compile_REPL'):
        compiled(m, rep, fn)
    for c in codegen.badnames():
        if not c.error:
            continue
        h, e, sts, before = codegen.compile_case(m, c)
        for st in sts:
            after = codegen.snapshot(h, e, st)
            d = sorted(k for k in after if after[k] != before[k] and (k != 'loops' or len(after[k]) != len(before[k])))
            if d:
                rep.bad('restored', '%s: %s' % (c.label, ', '.join(d)), 'compiler/compiler.c (visit of %s)' % c.node.kind, 'a rejected program leaves the compiler with: %s' % (
                    ', '.join('%s %s, was %s' % (k, after[k], before[k]) for k in d)))
            else:
                rep.ok('restored', c.label)
    rep.floor('unwound', 8)
    rep.floor('reset', 12)
    rep.floor('compiled', 4)
    rep.floor('restored', 300)


class HTop(cgai.CG):
    """compile(): the parser is opaque, so are the nodes"""
    def on_call(self, e, s, f, ins, name, args, ctx, depth, stack):
        b = base(name)
        g = self.m.functions.get(name)
        if b == 'visit':
            st = self.S(e, s, 'status')
            v = atom('status after', self.cfield(e, s, 'status'))
            s.mem[st] = v
            s.p['visits'] = min(s.p.get('visits', 0) + 1, 2)
            return [(None, s)]
        if g is not None and not g.decl and self.m.fnloc(g).split(':')[0] in ('compiler/parser.c', 'compiler/lexer.c'):
            ps = add(self.C, const(self.F('Compiler', 'parser') + self.F('Parser', 'status')))
            k = s.p.get('parses', 0)
            s.p['parses'] = k + 1
            if k > 5:
                return []
            s.mem[ps] = atom('parser status', k)
            nd = atom('obj', 'node', k)
            return [(nd if ins.ty == 'ptr' else atom('parsed', k), s)]
        return super().on_call(e, s, f, ins, name, args, ctx, depth, stack)

    def S(self, e, s, n):
        return add(self.C, const(self.F('Compiler', n)))

    def emit(self, e, s, n, kind, data, size):
        return

    def on_store(self, e, s, f, ins, a, v):
        return


def compiled(m, rep, fn):
    h = HTop(m)
    e = Engine(m, h)
    s = h.start(e, locs=None)
    for x, k in (('buffer', 0), ('header', 24), ('code', 0), ('lines', 0)):
        s.mem[h.bbcount(x)] = const(k)
    before = codegen.snapshot(h, e, s)
    n = 0
    for rv, st in e.run(m.fn(fn), [h.C], s):
        n += 1
        after = codegen.snapshot(h, e, st)
        d = sorted(k for k in after if after[k] != before[k])
        if d:
            rep.bad('compiled', '%s: %s' % (fn, ', '.join(d)), m.fnloc(m.fn(fn)), '%s can return with %s' % (fn, ', '.join('%s changed' % k for k in d)))
        else:
            rep.ok('compiled', fn)
        status = h.cfield(e, st, 'status')
        if rv == ZERO:
            continue
        if status != ZERO and not (st.values(status) and set(st.values(status)) == {0}):
            rep.bad('compiled', '%s: bytecode' % fn, m.fnloc(m.fn(fn)), '%s gives bytecode although it failed (status %s)' % (fn, show(status)))
    if not n:
        raise AnalysisBroken('E03: no path through %s' % fn)
