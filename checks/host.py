"""Host isolation, error discipline and API surface: call-graph, effect and typestate rules."""
import json, os, re, subprocess
import ir
from ai import base
from flow import Flow, callee, reachable, refs, path
from ir import AnalysisBroken, REPO, LLVM, CFLAGS

HEADERS = ('yasl.h', 'yasl_aux.h')


def std_headers():
    d = os.path.join(REPO, 'std')
    return ['std/' + h for h in sorted(os.listdir(d)) if h.endswith('.h')]


def declared_functions(headers):
    """functions declared in the given headers of /repo, from clang's syntax tree: {name: (header, line, rettype)}"""
    out = {}
    for h in headers:
        if not os.path.exists(os.path.join(REPO, h)):
            raise AnalysisBroken('header %s missing' % h)
        src = '#include "%s"\n' % h
        r = subprocess.run([LLVM + 'clang'] + [c for c in CFLAGS if c.startswith(('-std', '-I', '-w'))] +
                           ['-fsyntax-only', '-x', 'c', '-Xclang', '-ast-dump=json', '-'], input=src.encode(), cwd=REPO,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise AnalysisBroken('cannot parse %s: %s' % (h, r.stderr.decode()[:500]))
        ast = json.loads(r.stdout)
        cur = [None]

        def upd(loc):
            for l in (loc, loc.get('spellingLoc', {}), loc.get('expansionLoc', {})):
                if 'file' in l:
                    cur[0] = l['file']
        for d in ast['inner']:
            upd(d.get('loc', {}))
            f = cur[0]
            if d['kind'] == 'FunctionDecl' and f and os.path.normpath(f) == os.path.normpath(h) and d.get('storageClass') != 'static':
                has_body = any(c['kind'] == 'CompoundStmt' for c in d.get('inner', []))
                out[d['name']] = (h, d['loc'].get('line') or d['loc'].get('expansionLoc', {}).get('line'), d['type']['qualType'], has_body)
    return out


def api_roots(m):
    d = declared_functions(list(HEADERS) + std_headers())
    r = [n for n in d if n in m.functions and not m.functions[n].decl]
    if len(r) < 80:
        raise AnalysisBroken('only %d API functions found' % len(r))
    return r


# ------------------------------------------------------------------ H01
TERMINATE = {'exit', '_exit', '_Exit', 'abort', 'quick_exit', 'raise', 'kill', '__assert_fail', '__assert', 'pthread_exit', 'thrd_exit',
             'killpg', 'llvm.trap', 'execv', 'execve', 'execvp', 'execl', 'execlp', 'signal', 'sigaction', 'atexit', 'alarm'}
STDIO = {'printf', 'vprintf', 'puts', 'putchar', 'putchar_unlocked', 'perror', 'getchar', 'getchar_unlocked', 'scanf', 'vscanf', 'gets', 'psignal',
         '__printf_chk', '__vprintf_chk', 'write', 'dprintf'}


def check_H01(m, rep):
    rep.rule('No function reachable (direct calls and address-taken references) from a function declared in yasl.h, yasl_aux.h or '
             'std/*.h calls a process-terminating or process-wide stdio function, or passes the process streams stdout/stdin '
             'to a writing/reading call; stderr/stdout may only be stored into a configurable stream or wrapped as a file value.')
    roots = api_roots(m)
    par = reachable(m, roots)
    rep.cov['api_roots'] = len(roots)
    rep.cov['reachable_functions'] = sum(1 for n in par if not m.functions[n].decl)
    for n in sorted(par):
        f = m.functions[n]
        if f.decl:
            continue
        for i in f.instrs():
            if i.op != 'call':
                continue
            c = callee(i)
            if c in TERMINATE or c in STDIO:
                rep.bad('host-isolation', '%s calls %s' % (base(n), c), m.loc(i), 'library function %s calls %s (reachable: %s)' % (base(n), c, path(par, n)))
            else:
                rep.ok('host-isolation', '%s: %s calls %s' % (m.loc(i), base(n), c) if c and m.functions.get(c) and m.functions[c].decl else None)
            # process streams passed to a libc function
            g = m.functions.get(c) if c else None
            if g is not None and g.decl:
                for t, v in i.args:
                    if v[0] == 'l':
                        d = f.defs.get(v[1])
                        if d is not None and d.op == 'load' and d.args[0][1] in (('g', 'stdout'), ('g', 'stdin'), ('g', 'stderr')):
                            if c == 'fflush':
                                rep.ok('stream-use', '%s fflush' % m.loc(i))
                            else:
                                rep.bad('stream-use', '%s uses %s directly' % (base(n), d.args[0][1][1]), m.loc(i),
                                        '%s passes process stream %s to %s instead of the configured stream' % (base(n), d.args[0][1][1], c))
    # an error is raised with longjmp only where the running flag guarantees a handler: every longjmp target buffer has a setjmp
    jb = {}
    for f in m.functions.values():
        if f.decl:
            continue
        for i in f.instrs():
            c = callee(i)
            if c and c in ('longjmp', '_longjmp', 'siglongjmp', '_setjmp', 'setjmp', 'sigsetjmp', '__sigsetjmp'):
                b = bufname(m, f, i.args[0][1])
                jb.setdefault(b, {}).setdefault('set' if 'setjmp' in c else 'long', []).append(m.loc(i))
    for b, d in sorted(jb.items(), key=str):
        if 'long' in d and 'set' not in d:
            rep.bad('longjmp-target', str(b), d['long'][0], 'longjmp through a buffer %s that no setjmp ever fills' % (b,))
        else:
            rep.ok('longjmp-target', '%s: %s' % (b, d))
    rep.floor('host-isolation', 1500)
    rep.floor('longjmp-target', 2)


def bufname(m, f, v):
    d = f.defs.get(v[1]) if v[0] == 'l' else None
    while d is not None and d.op == 'getelementptr':
        t = d.x
        if t.k == 'struct' and t.name and len(d.args) > 2:
            n = t.name.split('.')[1] if '.' in t.name else t.name
            return '%s.%s' % (n, m.fieldname(n, m.offset(t, d.args[2][1][1])))
        v = d.args[0][1]
        d = f.defs.get(v[1]) if v[0] == 'l' else None
    return str(v)


# ------------------------------------------------------------------ H02
SHARED_LIBC = {'strtok', 'setlocale', 'localeconv', 'asctime', 'ctime', 'gmtime', 'localtime', 'srand', 'srandom', 'setenv', 'putenv', 'chdir', 'umask',
               'tmpnam', 'setvbuf', 'setbuf', 'freopen', 'unsetenv', 'dlclose'}


def check_H02(m, rep):
    rep.rule('Every object with static storage duration in the library is only read: no store, memcpy/memset destination or escaping '
             'pointer argument through which a callee stores can reach it, no address is stored in memory for later writing; '
             'process-wide libc state setters are not called.')
    par = reachable(m, api_roots(m))
    # parameters through which a function (transitively) writes
    writes = {}

    def stores_through(fn, k, seen):
        key = (fn, k)
        if key in writes:
            return writes[key]
        if key in seen:
            return False
        seen = seen | {key}
        g = m.functions.get(fn)
        if g is None or g.decl:
            nm = base(fn)
            r = k == 0 and nm in ('memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strcat', 'sprintf', 'snprintf', 'vsprintf', 'vsnprintf', 'free', 'realloc') \
                or (fn or '').startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')) and k == 0 or nm in ('fread', 'fgets') and k == 0
            writes[key] = r
            return r
        if k >= len(g.params):
            return False
        r = uses(g, ('l', g.params[k]), seen)
        writes[key] = bool(r)
        return r

    def uses(f, v, seen, depth=0):
        """list of writing uses (instr, what) of pointer value v in f"""
        out = []
        work = [v]
        done = set()
        while work:
            x = work.pop()
            if x in done:
                continue
            done.add(x)
            for i in users(f).get(x, ()):
                if i.op == 'store':
                    if i.args[1][1] == x or same(i.args[1][1], x):
                        out.append((i, 'store'))
                    elif same(i.args[0][1], x):
                        out.append((i, 'address stored'))
                elif i.op in ('getelementptr', 'phi', 'select', 'bitcast'):
                    if any(same(a[1], x) for a in i.args if a[0].k == 'ptr'):
                        work.append(('l', i.res))
                elif i.op == 'call':
                    for k, a in enumerate(i.args):
                        if same(a[1], x) and stores_through(callee(i), k, seen):
                            out.append((i, 'passed to %s which writes through it' % base(callee(i) or '?')))
                elif i.op == 'ret':
                    pass
        return out

    def same(v, x):
        if v == x:
            return True
        return v[0] == 'gep' and m.gepoff(v) and m.gepoff(v)[0] == x

    def users(f):
        u = getattr(f, '_users', None)
        if u is None:
            u = {}
            for i in f.instrs():
                vs = [a[1] for a in i.args]
                for v in vs:
                    if v[0] == 'gep' and m.gepoff(v):
                        v = m.gepoff(v)[0]
                    if v[0] in ('l', 'g'):
                        u.setdefault(v, []).append(i)
            f._users = u
        return u
    n = 0
    for g in sorted(m.globals.values(), key=lambda g: g['name']):
        if g['name'] in ('stdin', 'stdout', 'stderr') or g['name'].startswith('llvm.'):
            continue
        n += 1
        for fn in par:
            f = m.functions[fn]
            if f.decl or ('g', g['name']) not in users(f):
                continue
            if g['const']:
                rep.ok('no-shared-state')
                continue
            us = uses(f, ('g', g['name']), frozenset())
            # storing the *address* is fine only when what it points to is never written: report stores only
            w = [x for x in us if x[1] != 'address stored']
            if w:
                rep.bad('no-shared-state', '%s written by %s' % (base(g['name']), base(fn)), m.loc(w[0][0]),
                        'static object %s is modified (%s) in %s: two states in one process influence each other' % (g['name'], w[0][1], base(fn)))
            else:
                rep.ok('no-shared-state', '%s read only in %s' % (g['name'], base(fn)))
    for fn in par:
        f = m.functions[fn]
        if f.decl:
            continue
        for i in f.instrs():
            c = callee(i)
            g = m.functions.get(c) if c else None
            if g is not None and g.decl:
                if c in SHARED_LIBC:
                    rep.bad('no-process-state', '%s calls %s' % (base(fn), c), m.loc(i), '%s changes process-wide state with %s' % (base(fn), c))
                else:
                    rep.ok('no-process-state')
    rep.cov['static_objects'] = n
    rep.floor('no-shared-state', 20)
    rep.floor('no-process-state', 200)


# ------------------------------------------------------------------ E01 / E02
PREFIX = (('TypeError', 'YASL_TYPE_ERROR'), ('ValueError', 'YASL_VALUE_ERROR'), ('DivisionByZeroError', 'YASL_DIVIDE_BY_ZERO_ERROR'),
          ('StackOverflow', 'YASL_STACK_OVERFLOW_ERROR'), ('AssertError', 'YASL_ASSERT_ERROR'), ('SyntaxError', 'YASL_SYNTAX_ERROR'))


def msgkind(m, i):
    for t, v in i.args:
        s = m.cstr(v)
        if s is not None and len(s) > 3:
            for p, c in PREFIX:
                if s.startswith(p):
                    return c
            return 'other'
    return None


def is_reporter(m, name):
    g = m.functions.get(name) if name else None
    return g is not None and not g.decl and 'print_err' in name and g.vararg


def status_store(m, i, struct):
    """constant stored by i to <struct>.status, 'var' when not constant, None if i does not store there"""
    if i.op != 'store' or i.args[1][1][0] != 'l':
        return None
    d = i.fn.defs.get(i.args[1][1][1])
    if d is None or d.op != 'getelementptr' or d.x.k != 'struct' or not d.x.name or len(d.args) < 3:
        return None
    n = d.x.name.split('.')[1] if '.' in d.x.name else d.x.name
    if n != struct or d.args[2][1][0] != 'c' or m.fieldname(n, m.offset(d.x, d.args[2][1][1])) != 'status':
        return None
    v = i.args[0][1]
    return v[1] if v[0] == 'c' else 'var'


def thrower(m, name):
    g = m.functions.get(name) if name else None
    return g is not None and not g.decl and name in m.noreturn and len(g.ptypes) == 2 and g.ptypes[1].k == 'i' and g.ptypes[1].n == 32


def check_E01(m, rep):
    rep.rule('Typestate over all paths of every runtime function (interprocedural, callee summaries): after an error message has been '
             'emitted the path must raise an error before returning to its caller; the error code raised must be the one the '
             'message names; an error code is never raised on a path that emitted no message.')
    codes = m.enumtypes['YASL_Error']
    inv = {v: k for k, v in codes.items()}
    okcodes = {codes['YASL_SUCCESS'], codes['YASL_MODULE_SUCCESS']}
    compile_files = ('compiler/', 'main.c')

    def inscope(f):
        return not m.fnloc(f).startswith(compile_files)
    seen = set()

    def report_bad(rule, f, i, msg, detail):
        rep.bad(rule, '%s %s' % (base(f.name), detail), m.loc(i), msg)

    def event(fl, f, i, st):
        if i.op == 'store':
            k = status_store(m, i, 'VM')
            if k is not None:
                return [(st[0], k)]
            return None
        if i.op != 'call':
            return None
        c = callee(i)
        if is_reporter(m, c):
            k = msgkind(m, i)
            if k is not None:
                return [((k, base(f.name), m.loc(i)), st[1])]
            return None
        if thrower(m, c):
            v = i.args[1][1]
            if v[0] != 'c':
                seen.add((f.name, i.bb.name, i.idx))
                return []
            return raise_(f, i, st, v[1])
        if c in ('longjmp', '_longjmp'):
            if st[1] is None:
                return []
            if st[1] == 'var':
                return []
            return raise_(f, i, st, st[1])
        return None

    def raise_(f, i, st, code):
        if code in okcodes:
            return []
        r = st[0]
        if r is None:
            report_bad('silent-error', f, i, '%s raises %s on a path that printed no error message' % (base(f.name), inv.get(code, code)), inv.get(code, code))
        elif r[0] != 'other' and r[0] != inv.get(code):
            report_bad('error-code', f, i, '%s raises %s although the message printed at %s announces %s' % (base(f.name), inv.get(code, code), r[2], r[0]),
                       '%s vs %s' % (inv.get(code, code), r[0]))
        else:
            rep.ok('error-code', '%s %s raises %s after message at %s' % (m.loc(i), base(f.name), inv.get(code), r[2]))
        return []

    def relevant(f, i):
        return inscope(f) and i.op == 'call' and (is_reporter(m, callee(i)) or thrower(m, callee(i)) or callee(i) in ('longjmp', '_longjmp'))
    fl = Flow(m, event, relevant)
    called = set()
    for f in m.functions.values():
        if not f.decl:
            for i in f.instrs():
                c = callee(i)
                if c in fl.rel and c != f.name:
                    called.add(c)
    n = 0
    for name in sorted(fl.rel):
        f = m.functions[name]
        if not inscope(f) or name in called or is_reporter(m, name) or thrower(m, name):
            continue
        n += 1
        for st in fl.summary(f, (None, None)):
            if st[0] is not None:
                if 'print_err' in base(name):
                    continue
                rep.bad('error-stops', '%s returns after reporting %s' % (base(name), st[0][0]), st[0][2],
                        'the message printed by %s is not followed by a raised error on some path: %s returns normally' % (st[0][1], base(name)))
            else:
                rep.ok('error-stops', '%s' % base(name))
    # helpers that report and return to a caller are covered through their callers; API functions are also entered directly
    for name in api_roots(m):
        f = m.functions[name]
        if name in fl.rel and inscope(f) and name in called and 'print_err' not in name and not thrower(m, name):
            for st in fl.summary(f, (None, None)):
                if st[0] is not None:
                    rep.bad('error-stops', '%s returns after reporting %s' % (base(name), st[0][0]), st[0][2],
                            'the message printed by %s is not followed by a raised error on some path: %s returns normally' % (st[0][1], base(name)))
                else:
                    rep.ok('error-stops', base(name))
    rep.cov['entry_functions'] = n
    rep.floor('error-code', 60)
    rep.floor('error-stops', 100)


def check_E02(m, rep):
    rep.rule('Compile-time errors: (a) in every lexer/parser/compiler function each path through a syntax-error message also records the '
             'failure in the status of its phase before it returns or jumps out; (b) the functions that hand out bytecode return it only '
             'on paths where the compiler status was tested to be zero; (c) execution entry points run bytecode only when it is non-null.')
    STRUCTS = ('Lexer', 'Parser', 'Compiler')

    def is_set(i):
        for s in STRUCTS:
            k = status_store(m, i, s)
            if k is not None:
                return (s, k)
        return None

    def event(fl, f, i, st):
        # st: (pending report loc or None, status recorded?)
        if i.op == 'store':
            r = is_set(i)
            if r and r[1] != 0:
                return [(None, True)]
            if r and r[1] == 0:
                return [(st[0], False)]
            return None
        if i.op == 'call':
            c = callee(i)
            if is_reporter(m, c) and msgkind(m, i):
                if st[1]:
                    rep.ok('status-recorded', '%s' % m.loc(i))
                    return [st]
                return [((base(f.name), m.loc(i)), False)]
            if c in ('longjmp', '_longjmp'):
                if st[0]:
                    rep.bad('status-recorded', '%s jumps out unrecorded' % st[0][0], st[0][1], 'syntax error reported but status not recorded before leaving')
                return []
        return None

    def inscope(f):
        return m.fnloc(f).startswith('compiler/')

    def relevant(f, i):
        return inscope(f) and i.op == 'call' and is_reporter(m, callee(i))
    fl = Flow(m, event, relevant)
    # also follow the functions which record the status
    setters = Flow(m, event, lambda f, i: inscope(f) and (is_set(i) is not None))
    direct = [f for f in m.functions.values() if not f.decl and inscope(f) and any(relevant(f, i) for i in f.instrs()) and not is_reporter(m, f.name)]
    own = {f.name for f in m.functions.values() if not f.decl and inscope(f) and any(is_set(i) for i in f.instrs())}
    # wrappers: functions all of whose status effect is direct
    fl.rel = own
    for f in direct:
        for st in fl.summary(f, (None, False)):
            if st[0]:
                # the caller may record it: accept when every caller does so after the call
                if not callers_record(m, fl, f, st):
                    rep.bad('status-recorded', '%s' % st[0][0], st[0][1], 'a path of %s prints a syntax error and returns without recording the failure: the program would still run' % st[0][0])
            else:
                rep.ok('status-recorded', base(f.name))
    check_status_gate(m, rep)
    check_status_monotone(m, rep, STRUCTS)
    rep.floor('status-recorded', 40)


def check_status_monotone(m, rep, structs):
    rep.rule('(d) while a text is being compiled no store turns a status from failure into success: every store to a status field is a nonzero constant, '
             'an or with a status, or a copy of a status on a path where that is known to be a failure')
    roots = [f.name for f in m.functions.values() if not f.decl and m.fnloc(f).startswith('compiler/compiler.c') and f.ret.k == 'ptr' and
             m.param_structs(f)[:1] == [('ptr', 'Compiler')] and base(f.name).startswith('compile')]
    if len(roots) < 2:
        raise AnalysisBroken('compile entry points not found')
    unk = m.enum('T_UNKNOWN')

    def field_of(f, v, depth=0):
        d = f.defs.get(v[1]) if v[0] == 'l' else None
        if d is None or depth > 4:
            return None
        if d.op in ('zext', 'sext', 'trunc', 'freeze'):
            return field_of(f, d.args[0][1], depth + 1)
        if d.op == 'load' and d.args[0][1][0] == 'l':
            g = f.defs.get(d.args[0][1][1])
            if g is not None and g.op == 'getelementptr' and g.x.k == 'struct' and g.x.name and len(g.args) > 2 and g.args[2][1][0] == 'c':
                n = g.x.name.split('.')[1]
                if n in structs:
                    return m.fieldname(n, m.offset(g.x, g.args[2][1][1])) == 'status'
        return None

    def good_edge(f, t, s):
        if t.op == 'switch':
            hit = [v for v, x in t.x[1] if x == s]
            return hit == [unk] and t.x[0] != s
        if t.op == 'br' and t.args and t.x[0] != t.x[1]:
            c = t.args[0][1]
            d = f.defs.get(c[1]) if c[0] == 'l' else None
            if d is not None and d.op == 'icmp' and d.x in ('eq', 'ne'):
                a0, a1 = d.args[0][1], d.args[1][1]
                if a1 == ('c', unk):
                    return s == t.x[0 if d.x == 'eq' else 1]
                if a1 == ('c', 0) and field_of(f, a0):
                    return s == t.x[1 if d.x == 'eq' else 0]
        return False
    for n in sorted(reachable(m, roots)):
        f = m.functions[n]
        if f.decl or not m.fnloc(f).startswith('compiler/'):
            continue
        bare = None
        for i in f.instrs():
            k = next((k for k in (status_store(m, i, s) for s in structs) if k is not None), None)
            if k is None:
                continue
            if k != 'var':
                if k == 0:
                    rep.bad('status-monotone', '%s clears the status' % base(n), m.loc(i), '%s sets the status of a compilation to success: an error reported before is forgotten' % base(n))
                else:
                    rep.ok('status-monotone', '%s %s' % (base(n), m.loc(i)))
                continue
            v = i.args[0][1]
            d = f.defs.get(v[1]) if v[0] == 'l' else None
            if d is not None and d.op == 'or' and any(field_of(f, x[1]) for x in d.args):
                rep.ok('status-monotone', '%s %s' % (base(n), m.loc(i)))
                continue
            if bare is None:
                bare = {f.entry.name}
                work = [f.entry.name]
                while work:
                    b = f.blocks[work.pop()]
                    for s in b.succ:
                        if s not in bare and not good_edge(f, b.ins[-1], s):
                            bare.add(s)
                            work.append(s)
            if i.bb.name in bare:
                rep.bad('status-monotone', '%s overwrites the status' % base(n), m.loc(i), '%s overwrites the status of a compilation with a value that may be success' % base(n))
            else:
                rep.ok('status-monotone', '%s %s' % (base(n), m.loc(i)))
    rep.floor('status-monotone', 5)


def callers_record(m, fl, f, st, depth=0):
    if depth > 3:
        return False
    cs = [(g, i) for g in m.functions.values() if not g.decl for i in g.instrs() if callee(i) == f.name]
    if not cs:
        return False
    for g in {g.name: g for g, _ in cs}.values():
        memo, rel = fl.memo, fl.rel
        fl.rel = rel | {f.name}
        fl.memo = {}
        bad = [x for x in fl.summary(g, (None, False)) if x[0]]
        fl.rel, fl.memo = rel, memo
        for x in bad:
            if not callers_record(m, fl, g, x, depth + 1):
                return False
    return True


def check_status_gate(m, rep):
    """(b): in every function of the compiler that returns a malloc'ed/!null bytecode pointer, a non-null return is dominated by status == 0;
    (c): the result of compile()/compile_REPL() stored in the VM is null checked before the VM runs"""
    def loads_status(f, v):
        if v[0] != 'l':
            return False
        d = f.defs.get(v[1])
        if d is None:
            return False
        if d.op == 'load' and d.args[0][1][0] == 'l':
            g = f.defs.get(d.args[0][1][1])
            return g is not None and g.op == 'getelementptr' and g.x.k == 'struct' and g.x.name == 'struct.Compiler' and len(g.args) > 2 and \
                m.fieldname('Compiler', m.offset(g.x, g.args[2][1][1])) == 'status'
        return False

    # producers: functions returning a pointer obtained from malloc that is filled with the code buffer: found as those in compiler/ which
    # return ptr and allocate with malloc and read Compiler.status
    prods = [f for f in m.functions.values() if not f.decl and m.fnloc(f).startswith('compiler/compiler.c') and f.ret.k == 'ptr' and
             any(callee(i) in ('malloc', 'calloc') for i in f.instrs()) and m.param_structs(f)[:1] == [('ptr', 'Compiler')]]
    if not prods:
        raise AnalysisBroken('bytecode producer not found')
    for f in prods:
        # edge-sensitive reachability: which blocks are reachable without passing an edge that proves status == 0
        unproven = {f.entry.name}
        work = [f.entry.name]
        while work:
            b = f.blocks[work.pop()]
            t = b.ins[-1]
            for s in b.succ:
                ok = False
                if t.op == 'br' and t.args:
                    c = t.args[0][1]
                    d = f.defs.get(c[1]) if c[0] == 'l' else None
                    if d is not None and d.op == 'icmp':
                        a0, a1 = d.args[0][1], d.args[1][1]
                        if loads_status(f, a0) and a1 == ('c', 0):
                            zero_edge = t.x[0] if d.x == 'eq' else t.x[1] if d.x == 'ne' else None
                            ok = s == zero_edge and t.x[0] != t.x[1]
                if not ok and s not in unproven:
                    unproven.add(s)
                    work.append(s)
        for b in f.blocks.values():
            for i in b.ins:
                if callee(i) in ('malloc', 'calloc'):
                    if b.name in unproven:
                        rep.bad('status-gate', base(f.name), m.loc(i), '%s can hand out bytecode although the compiler status is not known to be zero' % base(f.name))
                    else:
                        rep.ok('status-gate', '%s allocates the bytecode only when status == 0' % base(f.name))
    # consumers: stores of a producer-chain result to VM.code must be followed by a null test before vm_run
    pn = {f.name for f in prods}
    ch = True
    while ch:
        ch = False
        for f in m.functions.values():
            if f.decl or f.name in pn or f.ret.k != 'ptr':
                continue
            rets = [i for i in f.instrs() if i.op == 'ret']
            for r in rets:
                if returns_from(f, r.args[0][1], pn):
                    pn.add(f.name)
                    ch = True
                    break
    runs = {f.name for f in m.functions.values() if not f.decl and any((callee(i) or '').endswith('setjmp') for i in f.instrs()) and m.param_structs(f)[:1] == [('ptr', 'VM')]}
    if not runs:
        raise AnalysisBroken('VM entry not found')
    rc = reach_callers(m, runs)
    nn = 0
    for f in m.functions.values():
        if f.decl:
            continue
        for i in f.instrs():
            if callee(i) in pn and callee(i) not in {x.name for x in prods} | set() and i.res and f.name not in pn:
                nn += 1
                nonnull = set()
                # blocks reachable from the call without passing an edge proving result != null
                bad = unchecked_run(m, f, i, runs)
                if bad is not None:
                    rep.bad('null-gate', base(f.name), m.loc(bad), '%s runs the VM although compilation may have failed (no bytecode)' % base(f.name))
                else:
                    rep.ok('null-gate', '%s tests the result of %s' % (base(f.name), callee(i)))
    if nn < 2:
        raise AnalysisBroken('null-gate anchors lost')
    rep.floor('status-gate', 1)


def reach_callers(m, names):
    out = set(names)
    ch = True
    while ch:
        ch = False
        for f in m.functions.values():
            if not f.decl and f.name not in out and any(callee(i) in out for i in f.instrs()):
                out.add(f.name)
                ch = True
    return out


def returns_from(f, v, names, seen=None):
    seen = seen or set()
    if v[0] != 'l' or v[1] in seen:
        return False
    seen.add(v[1])
    d = f.defs.get(v[1])
    if d is None:
        return False
    if d.op == 'call':
        return callee(d) in names
    if d.op in ('phi', 'select'):
        return any(returns_from(f, a[1], names, seen) for a in d.args)
    return False


def unchecked_run(m, f, call, runs):
    """a call that runs the VM reachable from `call` along edges that do not prove its result non-null"""
    vals = {('l', call.res)}
    # memory copies of the result: cells it is stored to
    cells = set()
    ch = True
    while ch:
        ch = False
        for i in f.instrs():
            if i.op == 'store' and i.args[0][1] in vals:
                k = addrkey(m, f, i.args[1][1])
                if k and k not in cells:
                    cells.add(k)
                    ch = True
            elif i.op == 'load' and addrkey(m, f, i.args[0][1]) in cells and cells and ('l', i.res) not in vals:
                if addrkey(m, f, i.args[0][1]) is not None:
                    vals.add(('l', i.res))
                    ch = True
    runcallers = {g.name for g in m.functions.values() if not g.decl and g.name in reach_callers(m, runs)}
    seen = set()
    work = [(call.bb.name, call.idx + 1)]
    while work:
        bn, k = work.pop()
        b = f.blocks[bn]
        dead = False
        for i in b.ins[k:]:
            if i.op == 'call' and callee(i) in runcallers:
                return i
        t = b.ins[-1]
        for s in b.succ:
            if t.op == 'br' and t.args:
                c = t.args[0][1]
                d = f.defs.get(c[1]) if c[0] == 'l' else None
                if d is not None and d.op == 'icmp' and d.args[0][1] in vals and d.args[1][1] == ('null',):
                    nz = t.x[1] if d.x == 'eq' else t.x[0]
                    if s == nz and t.x[0] != t.x[1]:
                        continue
            if s not in seen:
                seen.add(s)
                work.append((s, 0))
    return None


def addrkey(m, f, v):
    if v[0] == 'g':
        return v
    if v[0] != 'l':
        return None
    d = f.defs.get(v[1])
    if d is None:
        return ('param', v[1])
    if d.op == 'getelementptr':
        b = addrkey(m, f, d.args[0][1])
        if b is None or any(a[1][0] != 'c' for a in d.args[1:]):
            return None
        return (b,) + tuple(a[1][1] for a in d.args[1:])
    if d.op == 'alloca':
        return ('alloca', v[1])
    if d.op == 'load':
        b = addrkey(m, f, d.args[0][1])
        return ('ld', b) if b else None
    return ('v', v[1])


# ------------------------------------------------------------------ A01
def check_A01(m, rep):
    rep.rule('Every function declared in yasl.h, yasl_aux.h and std/*.h (syntax tree of the header) has a definition in the linked library, '
             'with the same number and kind of parameters.')
    d = declared_functions(list(HEADERS) + std_headers())
    for n, (h, line, ty, body) in sorted(d.items()):
        f = m.functions.get(n)
        if body or f is not None and not f.decl:
            rep.ok('declared-defined', '%s %s' % (h, n))
        else:
            rep.bad('declared-defined', n, '%s:%s' % (h, line), 'public function %s is declared in %s but defined nowhere: every program using it fails to link' % (n, h))
    rep.cov['declared_functions'] = len(d)
    rep.floor('declared-defined', 90)
