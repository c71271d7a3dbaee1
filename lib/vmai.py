"""Hooks of the abstract interpreter for code that runs against a VM / YASL_State: models the value stack, the
payload/type pairing of objects and the call protocol, and raises proof obligations."""
import ai
from ai import A, atom, const, add, scale, single, isconst, baseatom, State, Engine, Hooks, base, ZERO, UNDEF
from ir import AnalysisBroken
from flow import refs

INLINE_FILES = ('interpreter/', 'yasl.c', 'yasl_aux.c', 'std/')
# leaf effects: reference counting (has its own check) and printing
NOINLINE = {'inc_ref', 'dec_ref', 'isequal', 'hash_function', 'vm_print_err', 'vvm_print_err', 'YASL_print_err', 'vm_print_out',
            'ud_del', 'rcht_del', 'rcls_del', 'rcht_del_data', 'rcls_del_data', 'ud_del_data', 'ud_del_rc', 'str_del', 'vm_print_err_wrapper',
            'vm_init', 'vm_cleanup', 'io_cleanup', 'vm_executenext', 'vm_setupconstants', 'upval_new', 'closure_del_data', 'closure_del_rc',
            'vm_close_all', 'vm_close_all_helper', 'add_upvalue', 'sort', 'YASL_newstate', 'YASL_newstate_num', 'YASL_newstate_bb', 'YASL_delstate',
            'YASL_execute', 'YASL_compile', 'compile', 'vm_run'}


class VMHooks(Hooks):
    def __init__(self, m):
        self.m = m
        F = lambda n: m.field('VM', n)
        self.off = {n: F(n) for n in ('stack', 'sp', 'fp', 'next_fp', 'frames', 'frame_num', 'loopframes', 'loopframe_num', 'constants',
                                      'globals', 'metatables', 'builtins_htable', 'special_strings', 'pc', 'pending', 'out', 'err', 'status', 'headers', 'code',
                                      'num_constants')}
        self.VM = atom('arg', 'vm')
        self.vmid = self.VM[1][0][0]
        self.STK = atom('arg', 'stack')
        self.stkid = self.STK[1][0][0]
        self.files = {}
        self.tagoff = m.field('RC_UserData', 'tag')
        self.Y = m.enumtypes['YASL_Types'] if 'YASL_Types' in m.enumtypes else {k: v for k, v in m.enums.items() if k.startswith('Y_')}
        self.ALLTYPES = frozenset(self.Y.values())
        self.ret_off = {}
        self.objs = set()
        self.purec = {}
        self.contracts = {}
        self.contracts_changed = False
        self.rec = recursive(m)
        self._init_types()

    # ---- helpers
    def vmaddr(self, f):
        return add(self.VM, const(self.off[f]))

    def get(self, e, s, f):
        return e.load(s, self.vmaddr(f), None)

    def sp(self, e, s):
        return self.get(e, s, 'sp')

    def setf(self, e, s, f, v):
        s.mem[self.vmaddr(f)] = v

    def slot(self, idx, off=0):
        return add(add(self.STK, scale(idx, 16)), const(off))

    def setslot(self, e, s, idx, ty, v):
        e.store(s, self.slot(idx), ty)
        e.store(s, self.slot(idx, 8), v)

    def fileof(self, f):
        r = self.files.get(f.name)
        if r is None:
            r = self.m.fnloc(f).split(':')[0]
            self.files[f.name] = r
        return r

    # ---- engine hooks
    def classify(self, e, s, a):
        ids = [t for t, c in a[1]]
        if a[0] == self.tagoff and self.payload((0, a[1])) is not None:
            return ('T', a)
        if self.stkid in ids:
            return ('S',)
        if self.vmid in ids:
            if len(ids) == 1:
                return ('V', a[0])
            return ('W',)
        return None

    def initval(self, e, s, a, ty, c):
        if c[0] == 'V' and a[0] == self.off['stack']:
            return self.STK
        if c[0] == 'S' and s.ep.get(c) is None and s.ep.get('*') is None:
            return None
        return None

    def mayalias(self, e, s, a, b, d, c):
        if c[0] == 'V':
            return False      # different constant offsets
        if c[0] == 'S':
            # distinct cells of one slot never overlap: type at +0, value at +8 (mod 16)
            if (a[0] - b[0]) % 16 and all(k % 16 == 0 for t, k in d[1]):
                return False
            # a - b provably non zero ?
            if s.nonneg(add(d, const(-1)), 1) or s.nonneg(add(scale(d, -1), const(-1)), 1):
                return False
            return True
        return True

    def joinkey(self, e, s):
        return (self.mergekey(e, s), s.mem.get(self.vmaddr('sp')))

    def partkey(self, e, s):
        return s.mem.get(self.vmaddr('sp'))

    def inline(self, e, g, depth):
        if base(g.name) in NOINLINE:
            return False
        return self.fileof(g).startswith(INLINE_FILES) or self.pure(g)

    def pure(self, g):
        """leaf accessor: no loop, writes only its own locals, calls only such functions"""
        r = self.purec.get(g.name)
        if r is None:
            self.purec[g.name] = False
            r = not g.decl
            if r:
                seen = set()
                for b in g.blocks.values():
                    seen.add(b.name)
                    if any(x in seen for x in b.succ):
                        r = False
                    for i in b.ins:
                        if i.op == 'store':
                            v = i.args[1][1]
                            d = g.defs.get(v[1]) if v[0] == 'l' else None
                            while d is not None and d.op in ('getelementptr', 'bitcast'):
                                v = d.args[0][1]
                                d = g.defs.get(v[1]) if v[0] == 'l' else None
                            if d is None or d.op != 'alloca':
                                r = False
                        elif i.op == 'call':
                            n = i.x[1] if i.x[0] == 'g' else None
                            c = self.m.functions.get(n)
                            if n is None or not (n.startswith('llvm.') and not n.startswith(('llvm.memset',)) or c is not None and not c.decl and self.pure(c)):
                                r = False
            self.purec[g.name] = r
        return r

    def opaque_effect(self, e, s, f, ins, name, args, why):
        b = base(name)
        if b in ('inc_ref', 'dec_ref'):
            return
        if name is None:
            # call through a function pointer: a native or an operator function: may do anything to heap
            e.havoc(s, 'H', why)
            return
        g = self.m.functions.get(name)
        if g is not None and g.decl:
            return
        if b in ('vm_print_err', 'vvm_print_err', 'YASL_print_err', 'YASLX_print_err_bad_arg_type'):
            s.p['err'] = (self.m.loc(ins), )
            return
        if b.startswith(('YASL_String_len', 'YASL_String_chars', 'YASL_Table_search', 'isequal', 'obj_', 'YASL_String_cmp', 'YASL_Table_getindex')):
            return
        # containers mutate their own heap object only
        e.havoc(s, 'H', why)

    # type set of the object at address a
    def typeset(self, e, s, tv):
        v = s.values(tv)
        if v is not None:
            return v
        return self.ALLTYPES - s.excluded(tv)



    # ---- object payload provenance
    OBJ = None

    def objcell(self, a):
        """is address a the payload cell of an object (offset +8)?"""
        if any(t == self.stkid for t, c in a[1]):
            return a[0] % 16 == 8
        return add(a, const(-8)) in self.objs

    def payload(self, v):
        """v is (exactly) the payload of some object: returns the form of its type tag, else None"""
        k = single(v)
        if not k:
            return None
        if k[0] == 'ld' and self.objcell(k[1]):
            t = add(k[1], const(-8))
            return (0, ((A.get(('ld', t, k[2], 's')), 1),))
        if k[0] == 'fld' and k[2] == 1:
            return atom('fld', k[1], 0)
        if k[0] == 'objv':
            return atom('objt', k[1])
        return None

    def ptype(self, e, s, v):
        """type set of the object whose payload is v; None if v is not a payload"""
        t = self.payload(v)
        if t is None:
            return None
        ts = self.typeset(e, s, t)
        if len(ts) > 1:
            # the pairing may be through the cell it now lives in
            for a, x in s.mem.items():
                if x == v and self.objcell(a):
                    tv = s.mem.get(add(a, const(-8)))
                    if tv is not None:
                        ts = ts & self.typeset(e, s, tv)
        return ts

    def dataof(self, v):
        """v is the data pointer of a userdata-like object: returns payload form"""
        k = single(v)
        if k and k[0] == 'ld':
            a = add(k[1], const(-self.m.field('RC_UserData', 'data')))
            if single(a) and self.payload(a) is not None:
                return a
        return None

    def _init_types(self):
        Y = self.m.enum
        ud = frozenset(v for k, v in self.Y.items() if k in ('Y_LIST', 'Y_LIST_W', 'Y_TABLE', 'Y_TABLE_W', 'Y_USERDATA', 'Y_USERDATA_W'))
        self.allowed = {'YASL_String': frozenset(v for k, v in self.Y.items() if k in ('Y_STR', 'Y_STR_W')), 'RC_UserData': ud,
                        'CFunction': frozenset(v for k, v in self.Y.items() if k in ('Y_CFN', 'Y_CFN_W')),
                        'Closure': frozenset(v for k, v in self.Y.items() if k in ('Y_CLOSURE', 'Y_CLOSURE_W'))}
        self.dataallowed = {'YASL_List': frozenset(v for k, v in self.Y.items() if k in ('Y_LIST', 'Y_LIST_W')),
                            'YASL_Table': frozenset(v for k, v in self.Y.items() if k in ('Y_TABLE', 'Y_TABLE_W'))}
        self._iso = {}
        self.tagkinds = {}
        self.UDT = frozenset([Y('Y_USERDATA')])
        self.FLOATT = frozenset([Y('Y_FLOAT')])
        self.INTT = frozenset([Y('Y_INT'), Y('Y_BOOL')])

    def tname(self, ts):
        inv = {v: k for k, v in self.Y.items()}
        return '{' + ','.join(sorted(inv.get(t, str(t)) for t in ts)) + '}'

    # ---- obligations
    def sink(self, e, s, f, ins, v, struct, how):
        al = self.allowed.get(struct)
        if al is not None:
            ts = self.ptype(e, s, v)
            if ts is None:
                return
            self.oblige('payload', ts <= al, s, f, ins, 'value used as %s (%s) while its type is only known to be in %s' % (struct, how, self.tname(ts)), struct)
            return
        d = self.dataof(v)
        if d is None:
            return
        al = self.dataallowed.get(struct)
        ts = self.ptype(e, s, d)
        # the linker merged the names of structures with the same layout
        iso = self.iso(struct) if how == 'member access' else ()
        for x in iso:
            if x in self.dataallowed and (al is None or ts <= self.dataallowed[x]):
                al = self.dataallowed[x]
        if al is not None and iso and ts <= self.UDT:
            self.userdata_sink(e, s, f, ins, d, 'YASL_Set' if 'YASL_Set' in iso else struct, how)
        elif al is not None:
            self.oblige('payload', ts <= al, s, f, ins, 'value used as %s (%s) while its type is only known to be in %s' % (struct, how, self.tname(ts)), struct)
        else:
            self.userdata_sink(e, s, f, ins, d, struct, how)

    def tagof(self, e, s, d):
        """tag constants proven equal to the tag of userdata d"""
        t = add(d, const(self.m.field('RC_UserData', 'tag')))
        tv = s.mem.get(t)
        if tv is None:
            return None
        for g in self.tags():
            if s.eq(add(tv, g, -1), 0):
                return g
        # any fact tv == X
        k = single(tv)
        for f, (al, ex) in s.vs.items():
            if al is not None and al == frozenset([0]) and len(f) == 2:
                for (t1, c1), (t2, c2) in ((f[0], f[1]), (f[1], f[0])):
                    if A.tab[t1] == k and c1 == -c2:
                        return (0, ((t2, 1),))
        return None

    def tags(self):
        return ()

    def iso(self, struct):
        r = self._iso.get(struct)
        if r is None:
            a = self.m.fields.get(struct)
            sig = [(o, sz) for o, n, t, sz in a] if a else None
            r = self._iso[struct] = [k for k, v in self.m.fields.items() if k != struct and sig == [(o, sz) for o, n, t, sz in v]]
        return r

    def userdata_sink(self, e, s, f, ins, d, struct, how):
        ts = self.ptype(e, s, d)
        tag = self.tagof(e, s, d)
        ok = ts is not None and ts <= self.UDT and tag is not None
        if ok:
            self.tagkinds.setdefault(tag, {}).setdefault(struct, self.m.loc(ins))
        self.oblige('payload', ok, s, f, ins, 'data of a userdata used as %s (%s) although %s' % (
            struct, how, 'its tag was not compared' if tag is None else 'its type is only known to be in %s' % self.tname(ts or self.ALLTYPES)), struct)

    def oblige(self, rule, ok, s, f, ins, msg, detail=''):
        pass

    def on_gep(self, e, s, f, ins, b, res, t):
        ty = ins.x
        if ty.k == 'struct' and ty.name:
            n = ty.name.split('.')[1] if '.' in ty.name else ty.name
            if n == 'YASL_Object':
                if len(ins.args) == 2 or ins.args[2][1] == ('c', 0):
                    self.objs.add(res)
                else:
                    self.objs.add(add(res, const(-8)))
            elif len(ins.args) > 2:
                self.sink(e, s, f, ins, b, n, 'member access')
        if t.k == 'struct' and t.name == 'struct.YASL_Object':
            self.objs.add(res)

    def on_load(self, e, s, f, ins, a, v):
        if ins.ty.k == 'double':
            ts = self.ptype(e, s, v)
            if ts is not None:
                self.oblige('payload', ts <= self.FLOATT, s, f, ins, 'value read as float while its type is only known to be in %s' % self.tname(ts), 'double')
        elif ins.ty.k == 'i' and ins.ty.n == 64:
            pass
        return None

    def on_scalar(self, e, s, f, ins, vals):
        for i, v in enumerate(vals):
            if isinstance(v[0], str) or ins.args[i][0].k != 'i':
                continue
            ts = self.ptype(e, s, v)
            if ts is None:
                continue
            if ins.op == 'trunc':
                continue       # printing a pointer
            if ins.op == 'icmp':
                o = vals[1 - i]
                if self.ptype(e, s, o) is not None and ins.x in ('eq', 'ne'):
                    continue
            self.oblige('payload', ts <= self.INTT, s, f, ins, 'value used as integer (%s) while its type is only known to be in %s' % (ins.op, self.tname(ts)), 'int')

    def mtstore(self, e, s, f, ins, v):
        d = f.defs.get(ins.args[1][1][1]) if ins.args[1][1][0] == 'l' else None
        if d is None or d.op != 'getelementptr' or d.x.k != 'struct' or d.x.name != 'struct.RC_UserData' or len(d.args) < 3:
            return
        if self.m.fields['RC_UserData'][d.args[2][1][1]][1] != 'mt':
            return
        ts = self.ptype(e, s, v)
        if ts is not None:
            self.oblige('payload', ts <= self.dataallowed['YASL_Table'], s, f, ins, 'value becomes a metatable while its type is only known to be in %s' % self.tname(ts), 'metatable')

    def on_store(self, e, s, f, ins, a, v):
        if not isinstance(v[0], str):
            self.mtstore(e, s, f, ins, v)
        if not self.objcell(a) or isinstance(v[0], str):
            return
        ts = self.ptype(e, s, v)
        if ts is None:
            return
        tv = s.mem.get(add(a, const(-8)))
        if tv is None:
            return
        if tv == self.payload(v):
            return
        want = s.values(tv)
        if want is None:
            return
        src = ts
        if want <= self.INTT and src <= self.INTT:
            return
        self.oblige('payload', src <= want or want <= src and len(want) > 1, s, f, ins, 'object of type %s built from a payload whose own type is only known to be in %s' % (self.tname(want), self.tname(src)), 'retag')

    def check_args(self, e, s, f, ins, name, args):
        g = self.m.functions.get(name)
        if g is None:
            return
        ps = self.m.param_structs(g)
        for (k, n), v in zip(ps, args):
            if k == 'ptr' and n and not isinstance(v[0], str):
                self.sink(e, s, f, ins, v, n, 'passed to %s' % base(name))

    def check_extern(self, e, s, f, ins, name, args):
        for v in args:
            if not isinstance(v[0], str):
                d = self.dataof(v)
                if d is not None:
                    self.userdata_sink(e, s, f, ins, d, 'an external object', 'passed to %s' % base(name))

    # ---- calls
    def foreign(self, g, args):
        """the call works on another state than the one analysed"""
        for (k, n), v in zip(self.m.param_structs(g), args):
            if k == 'ptr' and n in ('YASL_State', 'VM') and v != self.VM:
                return True
        return False

    def on_call(self, e, s, f, ins, name, args, ctx, depth, stack):
        b = base(name)
        if b in ('memcpy', 'memmove'):
            return None
        if b == 'inc_ref':
            return [(None, s)]         # does not change the value it is given
        g = self.m.functions.get(name) if name else None
        if g is not None and self.foreign(g, args):
            if name in self.m.noreturn:
                return []
            return [(atom('call', (ctx, f.name, ins.res), b), s)]
        if name is None and self.VM in args:
            why = (ctx, f.name, ins.bb.name, ins.idx)
            e.havoc(s, 'H', why)
            a = atom('ret', why)
            sp = self.sp(e, s)
            s.ge = s.ge | {add(a, const(-1))}
            self.setf(e, s, 'sp', add(sp, a))
            return [(atom('call', (ctx, f.name, ins.res), None), s)]
        if g is not None and (name in self.rec or name in stack) and not g.decl and b not in NOINLINE and self.inline(e, g, depth):
            if name in stack:
                c = self.contracts.get(name)
                if c is None:
                    if name not in self.rec:
                        self.rec = self.rec | {name}
                        self.contracts_changed = True
                    return []
                return self.apply_contract(e, s, f, ins, ctx, c)
            sp0 = self.sp(e, s)
            nctx = e.newctx(ctx, f, ins)
            res = e.run(g, args, s, nctx, depth + 1, stack + (name,))
            self.learn_contract(e, name, sp0, res)
            return res
        if g is not None and not g.decl and not (depth < e.MAXDEPTH and name not in stack and self.inline(e, g, depth)):
            self.check_args(e, s, f, ins, name, args)
        if g is not None and g.decl and not name.startswith('llvm.'):
            self.check_extern(e, s, f, ins, name, args)
        if b == 'vm_INIT_CALL_offset':
            nfp = args[1]
            s.p['call'] = (nfp, args[2])
            self.on_initcall(e, s, f, ins, args)
            return [(None, s)]
        if b == 'vm_CALL' or b == 'vm_CALL_now':
            return self.model_call(e, s, f, ins, ctx, b)
        return None

    def on_initcall(self, e, s, f, ins, args):
        pass

    # recursion: assume/guarantee on (change of sp, types of the top); iterated to a fixpoint by run_root
    def learn_contract(self, e, name, sp0, res):
        for rv, st in res:
            sp = self.sp(e, st)
            d = add(sp, sp0, -1)
            d = d[0] if isconst(d) else None
            tv = st.mem.get(self.slot(sp))
            ts = self.typeset(e, st, tv) if tv is not None else self.ALLTYPES
            old = self.contracts.get(name)
            new = (d, ts) if old is None else (d if d == old[0] else None, ts | old[1])
            if new != old:
                self.contracts[name] = new
                self.contracts_changed = True

    def apply_contract(self, e, s, f, ins, ctx, c):
        why = (ctx, f.name, ins.bb.name, ins.idx)
        sp0 = self.sp(e, s)
        e.havoc(s, 'H', why)
        lim = self.slot(add(sp0, const(min(c[0], 0) if c[0] is not None else 0)))
        for a in list(s.mem):
            if e.cls(s, a) == ('S',):
                if c[0] is None or not s.nonneg(add(const(-1), add(a, lim, -1), -1)):
                    del s.mem[a]
        s.ep[('S',)] = why
        sp = add(sp0, const(c[0])) if c[0] is not None else atom('sp', why)
        self.setf(e, s, 'sp', sp)
        if c[1] != self.ALLTYPES:
            t = atom('rect', why)
            s.mem[self.slot(sp)] = t
            if not e.h.objs_add(self.slot(sp)):
                pass
            e.restrict(s, t, c[1])
        return [(atom('call', why, 'rec') if ins.ty.k != 'void' else None, s)]

    def objs_add(self, a):
        return True

    def model_call(self, e, s, f, ins, ctx, b):
        c = s.p.pop('call', None)
        why = (ctx, f.name, ins.bb.name, ins.idx)
        e.havoc(s, 'H', why)
        if c is None:
            e.havoc(s, 'S', why)
            self.setf(e, s, 'sp', atom('sp', why))
            return [(None, s)]
        nfp, n = c
        # cells at or above the callee's frame are replaced by its results
        for a in list(s.mem):
            if self.classify(e, s, a) == ('S',):
                d = add(a, self.slot(nfp), -1)
                if s.nonneg(d) or not s.nonneg(add(const(-1), d, -1)):
                    del s.mem[a]
        s.ep[('S',)] = why
        # values below keep their contents: they stay in mem only if they were read before; unread ones get the new epoch
        if isconst(n) and n[0] >= 0:
            self.setf(e, s, 'sp', add(nfp, const(n[0] - 1)))
        else:
            a = atom('ret', why)
            s.ge = s.ge | {a}
            self.setf(e, s, 'sp', add(add(nfp, a), const(-1)))
        return [(None, s)]

    def reset(self):
        pass

    def start(self, e):
        self.objs = set()
        self._init_types()


def recursive(m):
    """functions on a cycle of direct calls"""
    r = getattr(m, '_recf', None)
    if r is not None:
        return r
    g = {}
    for f in m.functions.values():
        if not f.decl:
            g[f.name] = {n for n in refs(m, f) if not m.functions[n].decl
                         and base(n) not in NOINLINE and base(n) not in ('vm_CALL', 'vm_CALL_now')}
    r = set()
    for n in g:
        seen = set(); work = list(g[n])
        while work:
            x = work.pop()
            if x == n:
                r.add(n)
                break
            if x not in seen:
                seen.add(x)
                work.extend(g.get(x, ()))
    m._recf = r
    return r


def run_root(h, mk, limit=6):
    """run mk(engine) until the recursion contracts are stable; mk returns its result"""
    for k in range(limit):
        h.contracts_changed = False
        h.reset()
        e = Engine(h.m, h)
        r = mk(e)
        if not h.contracts_changed:
            return e, r
    raise AnalysisBroken('recursion contracts do not stabilise')


def natives(m):
    """{function name: set of arities} of every function registered as callable from the language"""
    out = {}
    for f in m.functions.values():
        if f.decl:
            continue
        for i in f.instrs():
            if i.op != 'call':
                continue
            for k, (t, v) in enumerate(i.args):
                if v[0] == 'g' and v[1] in m.functions:
                    g = m.functions[v[1]]
                    if g.decl or g.ret.k != 'i' or g.ret.n != 32 or len(g.params) != 1 or m.param_structs(g)[:1] != [('ptr', 'YASL_State')]:
                        continue
                    n = i.args[k + 1][1] if k + 1 < len(i.args) else None
                    if n and n[0] == 'c' and i.args[k + 1][0].k == 'i':
                        out.setdefault(v[1], {}).setdefault(n[1], m.loc(i))
    return out


def native_state(h, e, arity):
    """state at the entry of a native called with the given registered arity"""
    s = State()
    fp = atom('fp0')
    s.ge = frozenset([fp])
    h.setf(e, s, 'fp', fp)
    h.setf(e, s, 'stack', h.STK)
    if arity >= 0:
        h.setf(e, s, 'sp', add(fp, const(arity)))
        s.ge |= {add(const(1023 - arity), fp, -1)}
    else:
        nf = ~arity
        n = atom('nvarargs')
        s.ge |= {n}
        sp = add(add(fp, const(nf + 1)), n)
        h.setf(e, s, 'sp', sp)
        s.ge |= {add(const(1023), sp, -1)}
        a = h.slot(add(fp, const(nf + 1)))
        s.mem[a] = const(h.m.enum('Y_INT'))
        s.mem[add(a, const(8))] = n
    # the function object itself
    a = h.slot(fp)
    s.mem[a] = const(h.m.enum('Y_CFN'))
    c = atom('arg', 'cfn')
    s.mem[add(a, const(8))] = c
    s.mem[add(c, const(h.m.field('CFunction', 'num_args')))] = const(arity)
    return s
