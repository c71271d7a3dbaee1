"""Documented contract of the value-stack interface of the API (yasl.h, yasl_aux.h)."""
import vmai
from ai import *
from ir import AnalysisBroken
from vmchk import H, opstate, run, done, api_functions, API_SKIP

TYPES = {'bool': 'Y_BOOL', 'float': 'Y_FLOAT', 'int': 'Y_INT', 'list': 'Y_LIST', 'str': 'Y_STR', 'table': 'Y_TABLE', 'undef': 'Y_UNDEF',
         'userdata': 'Y_USERDATA', 'userptr': 'Y_USERPTR'}
PUSH = {'bool': 'Y_BOOL', 'float': 'Y_FLOAT', 'int': 'Y_INT', 'cfunction': 'Y_CFN', 'userptr': 'Y_USERPTR', 'list': 'Y_LIST', 'table': 'Y_TABLE',
        'undef': 'Y_UNDEF', 'userdata': 'Y_USERDATA', 'lstr': 'Y_STR', 'zstr': 'Y_STR', 'lit': 'Y_STR'}
SCALARPUSH = {'bool', 'float', 'int', 'userptr'}
# (success delta, failure delta or None if it never returns a failure); success = return value 0
EFFECT = {'YASL_duptop': (1, None), 'YASL_listget': (1, 0), 'YASL_listpush': (-1, -1), 'YASL_loadglobal': (1, 0), 'YASL_loadmt': (1, 0),
          'YASL_registermt': (-1, None), 'YASL_setglobal': (-1, 0), 'YASL_tableset': (-2, -2), 'YASL_declglobal': (0, None), 'YASL_len': (0, None),
          'YASL_pop': (-1, None), 'YASL_print_err': (0, None), 'YASL_peektype': ('any', 0), 'YASL_peektypename': ('any', 0), 'YASL_peekntypename': ('any', 0),
          'YASL_loadprintout': (1, None), 'YASL_loadprinterr': (1, None)}
SAMPLE = ('Y_UNDEF', 'Y_BOOL', 'Y_INT', 'Y_FLOAT', 'Y_STR', 'Y_LIST', 'Y_TABLE', 'Y_USERDATA', 'Y_USERPTR', 'Y_CFN', 'Y_CLOSURE', 'Y_FN')


def delta(h, e, st):
    d = add(h.sp(e, st), atom('sp0'), -1)
    return d


def check_A02(m, rep):
    rep.rule('typed query: YASL_is*/peek*/pop*/YASLX_checkn* are run on a value of every type, at the top of the stack and at a position; '
             'is* returns whether the type is the asked one, peek*/pop* return the payload of exactly that slot for the asked type and zero otherwise')
    rep.rule('push: YASL_push* adds one value of the named type carrying the given payload, everything below unchanged')
    rep.rule('effect: every other function moves the top of the stack by the documented amount, per returned code')
    fns = set(api_functions(m))
    n = 0

    def exits(fn, T=None, atn=False, other='Y_CFN'):
        """[(rv, delta, engine, state)] of fn run with a value of type T at the top (or at position 1)"""
        h = H(m, set())
        f = m.functions[fn]
        out = []

        def mk(e):
            s = opstate(h, e, 0)
            tgt, oth = (add(atom('fp0'), const(2)), h.sp(e, s)) if atn else (h.sp(e, s), add(atom('fp0'), const(2)))
            if T:
                s.mem[h.slot(tgt)] = const(m.enum(T))
                s.mem[h.slot(oth)] = const(m.enum(other))
            return s

        def args(e, s):
            return [h.VM] + [const(1) if atn and p in ('n', 'pos') else atom('arg', p) for p in f.params[1:]]
        run(h, rep, fn, fn, mk, args=args, on_exit=lambda e, rv, st: out.append((rv, delta(h, e, st), e, st)))
        return h, out

    def cell(h, atn, off):
        return h.slot(add(atom('fp0'), const(2)) if atn else atom('sp0'), off)

    def ispayload(h, e, st, rv, atn, T):
        a = cell(h, atn, 8)
        if T == 'Y_STR':
            k = single(rv)
            return bool(k) and k[0] == 'malloc'
        p = (0, ((A.get(('ld', a, 0, 's')), 1),))
        if T == 'Y_USERDATA':
            k = single(rv)
            return bool(k) and k[0] == 'ld' and k[1] == add(p, const(m.field('RC_UserData', 'data')))
        if rv == p:
            return True
        k = single(rv)
        return bool(k) and k[0] == 'cmp' and k[1] == 'ne' and k[2] == p and k[3] == ZERO

    def iszero(rv):
        return rv == ZERO or (single(rv) or ('',))[0] == 'float' and float.fromhex('0x0p0') == _f(single(rv)[1])

    def _f(x):
        try:
            return float(x)
        except ValueError:
            return None

    def loc(fn):
        return m.fnloc(m.functions[fn])
    for fn in sorted(fns):
        if fn in API_SKIP or 'decllib' in fn:
            continue
        done_ = False
        for t, Y in TYPES.items():
            other = 'Y_INT' if Y != 'Y_INT' else 'Y_STR'
            for kind, names in (('is', ('YASL_is' + t, 'YASL_isn' + t)), ('peek', ('YASL_peek' + t, 'YASL_peekn' + t)),
                                ('pop', ('YASL_pop' + t,)), ('check', ('YASLX_checkn' + t,))):
                if t == 'str' and kind in ('peek', 'pop'):
                    names = ('YASL_%scstr' % kind,)
                if fn not in names:
                    continue
                done_ = True
                atn = fn != names[0] or kind == 'check'
                for T in SAMPLE:
                    # the neighbour has the asked type when this one has not, so that reading the wrong slot shows
                    h, out = exits(fn, T, atn, other if T == Y else Y)
                    match = T == Y
                    want = -1 if kind == 'pop' else 0
                    key = '%s on %s' % (fn, T)
                    good = True
                    for rv, d, e, st in out:
                        if d != const(want):
                            rep.bad('typed query', key + ' stack', loc(fn), '%s changes the number of values by %s, documented is %d' % (fn, show(d), want))
                            good = False
                        if kind == 'is':
                            if t == 'userdata':
                                ok = not match and rv == ZERO or match and (st.eq(rv, 0) is not True or any(True for _ in [0]))
                                if match:
                                    k = single(rv)
                                    ok = rv == ZERO or rv == const(1) or bool(k) and k[0] == 'cmp' and k[1] == 'eq' and atom('arg', 'tag') in k[2:]
                            else:
                                ok = rv == const(int(match))
                        elif kind == 'check':
                            ok = match and (rv is None or ispayload(h, e, st, rv, True, Y))
                        elif match:
                            ok = ispayload(h, e, st, rv, atn, Y)
                        else:
                            ok = iszero(rv)
                            if fn == 'YASL_peeknuserdata' and T in ('Y_LIST', 'Y_TABLE'):
                                ok = True      # lists and tables are userdata for natives
                        if not ok:
                            good = False
                            rep.bad('typed query', key, loc(fn), '%s on a value of type %s returns %s' % (fn, T, show(rv) if rv is not None else 'normally'))
                    if not out and (kind != 'check' or match):
                        good = False
                        rep.bad('typed query', key, loc(fn), '%s never returns on a value of type %s' % (fn, T))
                    if kind == 'is' and t == 'userdata' and match and not any(single(rv) for rv, *_ in out) and len({rv for rv, *_ in out}) < 2:
                        good = False
                        rep.bad('typed query', key, loc(fn), '%s does not depend on the tag' % fn)
                    if good:
                        rep.ok('typed query', key)
        if fn.startswith('YASL_push') and fn[9:] in PUSH:
            done_ = True
            h, out = exits(fn)
            good = bool(out)
            for rv, d, e, st in out:
                tv = e.load(st, h.slot(h.sp(e, st)), None)
                pv = e.load(st, h.slot(h.sp(e, st), 8), None)
                ok = d == const(1) and tv == const(m.enum(PUSH[fn[9:]]))
                if fn[9:] in SCALARPUSH:
                    ok = ok and (pv == atom('arg', m.functions[fn].params[1]))
                below = [a for a in st.mem if any(t == h.stkid for t, c in a[1]) and stackbelow(h, a)]
                for a in below:
                    v = st.mem[a]
                    k = single(v)
                    ok = ok and bool(k) and k[0] == 'ld' and k[1] == a
                if not ok:
                    good = False
                    rep.bad('push', fn, loc(fn), '%s leaves %+d values, top of type %s payload %s' % (fn, d[0], show(tv), show(pv)))
            if good:
                rep.ok('push', fn)
            elif not out:
                rep.bad('push', fn, loc(fn), 'never returns')
        if fn in EFFECT:
            done_ = True
            suc, fail = EFFECT[fn]
            h, out = exits(fn)
            good = bool(out)
            for rv, d, e, st in out:
                ok = d == const(fail) if suc == 'any' else \
                    d == const(suc) if rv is None or st.eq(rv, 0) is True or fail is None else d == const(fail)
                if not ok:
                    good = False
                    rep.bad('effect', fn, loc(fn), '%s returns %s and changes the number of values by %s' % (fn, show(rv) if rv is not None else 'void', show(d)))
            rep.ok('effect', fn) if good else None
        if fn == 'YASL_duptop':
            for rv, d, e, st in out:
                new = [e.load(st, h.slot(h.sp(e, st), o), None) for o in (0, 8)]
                old = [e.load(st, h.slot(atom('sp0'), o), None) for o in (0, 8)]
                if new != old:
                    rep.bad('effect', fn + ' copy', loc(fn), 'the new top is not the old top')
                else:
                    rep.ok('effect', fn + ' copy')
        if fn == 'YASL_tablenext':
            done_ = True
            for T in ('Y_UNDEF', 'Y_STR'):
                h, out = exits(fn, T)
                for rv, d, e, st in out:
                    want = {1: 1, 0: -1}.get(rv[0] if isconst(rv) else None)
                    if want is None or d != const(want):
                        rep.bad('effect', fn, loc(fn), '%s returns %s and changes the number of values by %s' % (fn, show(rv), show(d)))
                    else:
                        rep.ok('effect', fn)
        if fn == 'YASL_setmt':
            done_ = True
            h, out = exits(fn, 'Y_TABLE')
            for rv, d, e, st in out:
                if d != const(-1):
                    rep.bad('effect', fn, loc(fn), '%s changes the number of values by %s' % (fn, show(d)))
                else:
                    rep.ok('effect', fn)
        if fn == 'YASL_functioncall':
            done_ = True
            h, out = exits(fn)
            nn = atom('arg', m.functions[fn].params[1])
            for rv, d, e, st in out:
                # d = r - (n + 1)
                if add(add(d, nn), const(1)) != rv:
                    rep.bad('effect', fn, loc(fn), 'replaces the function and its n arguments by %s values but returns %s' % (show(add(add(d, nn), const(1))), show(rv)))
                else:
                    rep.ok('effect', fn)
        if done_:
            n += 1
    missing = (set(EFFECT) | {'YASL_functioncall', 'YASL_tablenext', 'YASL_setmt'}) - fns
    if missing:
        raise AnalysisBroken('API functions not found: %s' % sorted(missing))
    rep.cov['api_functions'] = n
    done(rep)
    rep.floor('typed query', 200)
    rep.floor('push', 10)
    rep.floor('effect', 15)


def stackbelow(h, a):
    d = add(a, h.slot(atom('sp0')), -1)
    return not d[1] and d[0] <= 15
