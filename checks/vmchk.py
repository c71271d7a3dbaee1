"""Checks that abstractly execute natives, opcodes and API functions on a symbolic VM."""
import ai, vmai, os
from ai import *
from ir import AnalysisBroken
from report import Report


class H(vmai.VMHooks):
    """collects failed obligations per rule"""
    def __init__(self, m, rules):
        super().__init__(m)
        self.rules = rules
        self.reset()

    def reset(self):
        self.bad = {}
        self.good = {}
        self.entry_sp = None

    def oblige(self, rule, ok, s, f, ins, msg, detail=''):
        if rule not in self.rules:
            return
        k = (rule, f.name, detail)
        if ok:
            g = self.good.setdefault(k, [0, self.m.loc(ins)])
            g[0] += 1
        else:
            self.bad.setdefault(k, (self.m.loc(ins), msg))

    def report(self, rep, label):
        for (rule, fn, det), (n, loc) in self.good.items():
            rep.ok(rule, '%s: %s at %s (%s)' % (label, base(fn), loc, det), n)
        for (rule, fn, det), (loc, msg) in self.bad.items():
            rep.bad(rule, '%s: %s %s' % (label, base(fn), det), loc, '%s [reached from %s]' % (msg, label))


def stackindex(h, a):
    """stack slot index (linear form) and offset of a stack address"""
    d = add(a, h.STK, -1)
    if any(c % 16 for t, c in d[1]):
        return None, None
    return (d[0] // 16, tuple((t, c // 16) for t, c in d[1])), d[0] % 16


def opstate(h, e, opc):
    s = State()
    fp = atom('fp0'); sp = atom('sp0'); pc = atom('arg', 'pc')
    s.ge = frozenset([fp, add(add(sp, fp, -1), const(-4)), add(const(1020), sp, -1)])
    h.setf(e, s, 'fp', fp); h.setf(e, s, 'sp', sp); h.setf(e, s, 'pc', pc)
    s.mem[pc] = const(opc)
    h.setf(e, s, 'stack', h.STK)
    return s


def opcodes(m):
    r = {k: v for k, v in m.enums.items() if k.startswith('O_')}
    if len(r) < 50:
        raise AnalysisBroken('only %d opcodes found' % len(r))
    return r


# opcodes that only occur in the body of a closure: their frame's function slot holds the closure
def closure_frame(h, e, s):
    a = h.slot(h.get(e, s, 'fp'))
    s.mem[a] = const(h.m.enum('Y_CLOSURE'))
    s.mem[add(a, const(8))] = atom('arg', 'closure')


def run(h, rep, label, fn, mkstate, args=None, on_exit=None):
    f = h.m.fn(fn)
    box = {}

    def mk(e):
        s = mkstate(e)
        box['s'] = s
        return e.run(f, args(e, s) if args else [h.VM], s)
    e, r = vmai.run_root(h, mk)
    for rv, st in r:
        if on_exit:
            on_exit(e, rv, st)
    rep.cov['steps'] = rep.cov.get('steps', 0) + e.steps
    rep.cov['states'] = rep.cov.get('states', 0) + e.stats['states']
    rep.cov.setdefault('_fns', set()).update(e.stats['functions'])
    h.report(rep, label)
    return e, r


def done(rep):
    rep.cov['functions_interpreted'] = len(rep.cov.pop('_fns', ()))


def api_functions(m):
    """functions of the public API taking the state first"""
    out = []
    for f in m.functions.values():
        if not f.decl and f.name.startswith(('YASL_', 'YASLX_')) and m.fnloc(f).split(':')[0] in ('yasl.c', 'yasl_aux.c') and \
                m.param_structs(f)[:1] == [('ptr', 'YASL_State')]:
            out.append(f.name)
    return out


API_SKIP = {'YASL_delstate', 'YASL_execute', 'YASL_compile', 'YASL_execute_REPL', 'YASL_resetstate', 'YASL_resetstate_bb', 'YASL_throw_err'}


def check_M01(m, rep):
    rep.rule('payload: on every path the payload of a value is used as a string, list, table, userdata, closure, C function, float or int only where '
             'its type tag is known to be one of the tags whose payload has that form; a value is only built from a payload whose own tag agrees')
    nats = vmai.natives(m)
    for fn in sorted(nats):
        for ar in sorted(nats[fn]):
            h = H(m, {'payload'})
            run(h, rep, '%s/%d' % (base(fn), ar), fn, lambda e: vmai.native_state(h, e, ar))
    rep.cov['natives'] = len(nats)
    ops = opcodes(m)
    for k in sorted(ops):
        h = H(m, {'payload'})

        def mk(e):
            s = opstate(h, e, ops[k])
            closure_frame(h, e, s)
            return s
        run(h, rep, k, 'vm_executenext', mk)
    rep.cov['opcodes'] = len(ops)
    n = 0
    for fn in sorted(api_functions(m)):
        if fn in API_SKIP or 'decllib' in fn:
            continue
        f = m.functions[fn]
        h = H(m, {'payload'})

        def mk(e):
            s = opstate(h, e, 0)
            if fn == 'YASL_peekvargscount':
                s = vmai.native_state(h, e, -1)
            return s
        run(h, rep, fn, fn, mk, args=lambda e, s: [h.VM] + [atom('arg', p) for p in f.params[1:]])
        n += 1
    rep.cov['api_functions'] = n
    # functions the interpretation above treats as primitive
    for fn in ('isequal', 'inc_ref', 'hash_function'):
        f = m.fn(fn)
        h = H(m, {'payload'})
        al = [atom('arg', fn, p) for p in f.params]

        def mk(e):
            for (k, n), a in zip(m.param_structs(f), al):
                if n == 'YASL_Object':
                    h.objs.add(a)
            return State()
        h.noskip = fn
        run(h, rep, fn, fn, mk, args=lambda e, s: al)
    h = H(m, {'payload'})
    run(h, rep, 'vm_CALL', 'vm_CALL', lambda e: opstate(h, e, 0))
    done(rep)
    rep.floor('payload', 400)


# ------------------------------------------------------------------ M02
class HStack(H):
    """native stack discipline: everything stays inside the native's own frame"""
    RULES = {'returns', 'floor', 'reads', 'writes', 'errframe'}

    def __init__(self, m):
        super().__init__(m, self.RULES)

    def _idx(self, e, s, a):
        if not any(t == self.stkid for t, c in a[1]):
            return None
        return stackindex(self, a)[0]

    def lims(self, e, s):
        return self.get(e, s, 'fp'), self.sp(e, s)

    def within(self, e, s, idx, slack):
        fp, sp = self.lims(e, s)
        if not s.nonneg(add(idx, fp, -1)):
            return 'below the frame of the function'
        if s.nonneg(add(add(sp, const(slack)), idx, -1)):
            return None
        return 'above the top of the stack'

    def on_load(self, e, s, f, ins, a, v):
        i = self._idx(e, s, a)
        if i is not None:
            w = self.within(e, s, i, 1)
            self.oblige('reads', w is None, s, f, ins, 'reads stack slot %s %s (sp=%s)' % (show(i), w, show(self.sp(e, s))), 'stack read')
            if 'err' in s.p and f.name not in ('vm_throw_err', ):
                self.oblige('errframe', False, s, f, ins, 'uses the value stack after an error was printed (printing it unwinds the frames)', 'after error')

    def on_memcpy(self, e, s, f, ins, dst, src, n):
        if n != const(16):
            return
        for a, r in ((src, 'reads'), (dst, 'writes')):
            i = self._idx(e, s, a)
            if i is not None:
                w = self.within(e, s, i, 1 if r == 'reads' else 0)
                self.oblige(r, w is None, s, f, ins, '%s stack slot %s %s (sp=%s)' % (r, show(i), w, show(self.sp(e, s))), 'stack copy')

    def on_store(self, e, s, f, ins, a, v):
        if a == self.vmaddr('sp'):
            fp = self.get(e, s, 'fp')
            self.oblige('floor', s.nonneg(add(v, fp, -1)), s, f, ins, 'sets the top of the stack to %s, below the frame of the function' % show(v), 'sp')
            return
        i = self._idx(e, s, a)
        if i is not None:
            w = self.within(e, s, i, 0)
            self.oblige('writes', w is None, s, f, ins, 'writes stack slot %s %s (sp=%s)' % (show(i), w, show(self.sp(e, s))), 'stack write')

    def on_ret(self, e, s, f, ins, rv, depth):
        if depth == 0 and self.native:
            sp = self.sp(e, s); fp = self.get(e, s, 'fp')
            ok = s.nonneg(rv) and s.nonneg(add(add(sp, fp, -1), rv, -1))
            self.oblige('returns', ok, s, f, ins, 'returns %s values although the frame holds %s' % (show(rv), show(add(sp, fp, -1))), 'return')


def check_M02(m, rep):
    rep.rule('returns: a native returns r with 0 <= r <= number of values in its own frame, on every path')
    rep.rule('floor/reads/writes: a native never moves the top of the stack below its frame and only touches slots between its function slot and the top of the stack '
             '(or its registered arguments)')
    rep.rule('errframe: after an error message was printed (which unwinds the frames) the value stack is not used any more')
    nats = vmai.natives(m)
    for fn in sorted(nats):
        for ar in sorted(nats[fn]):
            h = HStack(m)
            h.native = True

            def mk(e):
                s = vmai.native_state(h, e, ar)
                h.entry_sp = h.sp(e, s)
                return s
            run(h, rep, '%s/%d' % (base(fn), ar), fn, mk)
    rep.cov['natives'] = len(nats)
    done(rep)
    rep.floor('returns', 100)
    rep.floor('reads', 200)
