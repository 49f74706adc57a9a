from front import *

TECHNIQUE = ("abstract interpretation of the output buffer over every combination of attached streams and their results, of the logger over every pair of levels (its loops evaluated over all levels), "
             "and of the naming and set-up of the output files over every path")
ASSUMPTIONS = ["std::ostream, std::streambuf and std::ofstream behave as documented; a stream buffer reports failure as EOF from sputc and -1 from pubsync", "the configuration without std::filesystem"]
U = 'umpire::util::'
OB, LG = U + 'OutputBuffer', U + 'Logger'
PUT = ('sputc', 'sputn')


def last(e):
    return e.fn.split('::')[-1]


def run(C):
    R = C.R
    R.rule('both', 'a character goes to every attached stream, and failure of one is reported')
    R.rule('flush', 'flushing flushes every attached stream and reports failure')
    R.rule('attach', 'a stream is attached, replaced and detached independently of the other; a new buffer has none')
    R.rule('level', 'exactly the levels up to the chosen one are enabled')
    R.rule('choice', 'the level is the one named by the environment, else the default')
    R.rule('message', 'an enabled message is written once with its level, place and text; a disabled one is not')
    R.rule('name', 'an output file gets a name that was seen not to exist')
    R.rule('setup', 'the log goes to its file only when logging is on, errors to the standard error stream; what cannot be set up is reported')
    fields = buffer(C)
    logger(C)
    names(C)
    setup(C, fields)


def buffer(C):
    R = C.R
    loc = {}
    for n in ('setConsoleStream', 'setFileStream'):
        fn = C.fn(f"{OB}::{n}")
        s = ('param', fn['params'][0]['n'])
        for p in C.paths(fn):
            ws = {l: v for l, v in p.mem.items() if l[0] == 'fld' and l[1] == ('this',) and v != ('init', l)}
            if not R.check('attach', site(fn), p.kind == 'return' and len(ws) == 1, f"writes {[pp(l) for l in ws]}: {desc(p)}"):
                continue
            (l, v), = ws.items()
            R.check('attach', site(fn), loc.setdefault(n, l) == l, f"writes both {pp(l)} and {pp(loc[n])}")
            null = isnull(s, p.facts)
            R.check('attach', site(fn), v == ZERO if null is True else v[0] == 'app' and v[1] == 'rdbuf' and contains(v, s), f"attaches {pp(v)}")
            R.check('attach', site(fn), null is not None, f"a null stream is dereferenced: {desc(p)}")
    R.need(len(loc) == 2, 'the members of the output buffer')
    R.check('attach', OB, len(set(loc.values())) == 2, 'both streams share one member')
    con, fil = (('init', loc[n]) for n in ('setConsoleStream', 'setFileStream'))
    rec = [r for r in C.P.recs.values() if r['q'] == OB]
    R.need(rec, OB)
    for f in rec[0]['fields']:
        if any(l[2] == f"{OB}::{f['n']}" for l in loc.values()):
            i = f.get('init')
            ctor = [c for c in C.P.find(OB + '::OutputBuffer') if c.get('body') is not None and not c.get('defaulted') and not c['params']]
            ok = i is not None and nullinit(i)
            if not ok and ctor:
                ok = all(p.get(('fld', ('this',), f"{OB}::{f['n']}")) == ZERO for p in C.paths(ctor[0]))
            R.check('attach', OB, ok, f"{f['n']} is not null in a new buffer")
    # characters
    fn = C.fn(OB + '::overflow')
    ch = ('param', fn['params'][0]['n'])
    EOF = ('int', -1)
    for p in C.paths(fn, noisy=True):
        w = site(fn)
        if not R.check('both', w, p.kind == 'return', desc(p)):
            continue
        puts = [e for e in p.calls() if last(e) in PUT]
        for c in (-1, 65, 255):
            if consistent(p, {ch: c}) is False:
                continue
            if c == -1:
                R.check('both', w, not puts, 'end of file is written as a character')
                R.check('both', w, p.val != EOF and p.val != ch, 'end of file is answered with failure')
                continue
            for s in (con, fil):
                at = isnull(s, p.facts)
                n = [e for e in puts if e.obj == s]
                if not R.check('both', w, at is not None, f"{pp(s)} used without knowing whether it is attached"):
                    continue
                R.check('both', w, len(n) == (0 if at else 1) and all(last(e) == 'sputc' and strip(e.args[0]) == ch for e in n), f"{len(n)} characters to {pp(s)}, which is {'not ' if at else ''}attached: {desc(p)}")
            R.check('both', w, all(e.obj in (con, fil) for e in puts), 'a character goes elsewhere')
            # result: over every combination of results
            import itertools
            for vals in itertools.product((-1, c), repeat=len(puts)):
                env = {ch: c, **{e.ret: v for e, v in zip(puts, vals)}}
                if consistent(p, env) is False:
                    continue
                try:
                    got = evaluate(p.val, env)
                except Unk:
                    R.check('both', w, False, f"returns {pp(p.val)}")
                    continue
                R.check('both', w, (got == -1) == (-1 in vals), f"returns {got} when the streams answer {vals}")
    # flushing
    fn = C.fn(OB + '::sync')
    for p in C.paths(fn, noisy=True):
        w = site(fn)
        syncs = flushes(C, R, w, p, con, fil)
        import itertools
        for vals in itertools.product((-1, 0), repeat=len(syncs)):
            env = {e.ret: v for e, v in zip(syncs, vals)}
            if consistent(p, env) is False:
                continue
            try:
                got = evaluate(p.val, env)
            except Unk:
                R.check('flush', w, False, f"returns {pp(p.val)}")
                continue
            R.check('flush', w, (got == 0) == (-1 not in vals) and got in (0, -1), f"returns {got} when the streams answer {vals}")
    for fn in C.P.find(OB + '::~OutputBuffer'):
        if fn.get('body') is not None:
            for p in C.paths(fn, noisy=True):
                flushes(C, R, site(fn), p, con, fil)
    return loc


def nullinit(i):
    while isinstance(i, dict) and i.get('k') in ('cast', 'list', 'paren'):
        i = i.get('e') or (i.get('a') or [None])[0]
        if i is None:
            return True
    return isinstance(i, dict) and (i.get('k') in ('null', 'nullptr') or str(i.get('v')) == '0')


def strip(v):
    while v[0] in ('trunc', 'cast'):
        v = v[-1]
    return v


def flushes(C, R, w, p, con, fil):
    syncs = [e for e in p.calls() if last(e) in ('pubsync', 'flush')]
    R.check('flush', w, p.kind == 'return', desc(p))
    for s in (con, fil):
        at = isnull(s, p.facts)
        n = [e for e in syncs if e.obj == s]
        R.check('flush', w, at is not None and (not n if at else len(n) >= 1), f"{pp(s)} flushed {len(n)} times: {desc(p)}")
    return syncs


# ---- the logger ------------------------------------------------------------------------------------------------------------
def logger(C):
    R = C.R
    fn = C.fn(LG + '::setLoggingMsgLevel')
    lv = ('param', fn['params'][0]['n'])
    N = 4
    mem = None
    for p in C.paths(fn, noisy=True):
        for lev in range(N):
            got = simulate(p, {lv: lev})
            if got is None:
                continue
            for l in got:
                mem = l[0]
            R.check('level', site(fn), {k[1]: bool(v) for k, v in got.items()} == {i: i <= lev for i in range(N)}, f"level {lev} enables {[(k[1], bool(v)) for k, v in sorted(got.items(), key=repr)]}")
    R.need(mem, 'the table of levels')
    fn = C.fn(LG + '::logLevelEnabled')
    lv = ('param', fn['params'][0]['n'])
    on = ('init', ('elem', mem, lv))
    for p in C.paths(fn, noisy=True):
        for lev in (-1, 0, 1, 2, 3, 4, 5):
            for b in (0, 1):
                if consistent(p, {lv: lev, on: b}) is False:
                    continue
                try:
                    got = bool(evaluate(p.val, {lv: lev, on: b}))
                except Unk:
                    R.check('level', site(fn), False, f"answers {pp(p.val)} for level {lev}")
                    continue
                R.check('level', site(fn), got == (0 <= lev < N and b == 1), f"level {lev}, {'enabled' if b else 'disabled'}, is reported as {'enabled' if got else 'disabled'}")
                if not 0 <= lev < N:
                    R.check('level', site(fn), not any(contains(a, on) for a in p.facts) and not contains(p.val, on), f"level {lev} is looked up outside of the table")
    # the table of names
    tab = {q: names_of(g['init']) for q, g in C.P.globals.items() if q.startswith(U)}
    LEV = ['ERROR', 'WARNING', 'INFO', 'DEBUG']
    tq = [q for q, v in tab.items() if v and len(v) >= 3]
    R.check('choice', 'Logger.cpp', len(tq) == 1 and tab[tq[0]] == LEV, f"level names {[tab[q] for q in tq]}")
    R.need(len(tq) == 1, 'the names of the levels')
    en = C.P.enums.get(U + 'message::Level')
    # the choice
    fn = next((f for f in C.P.find(LG + '::Logger') if f.get('body') is not None and not f.get('defaulted')), None)
    R.need(fn, 'the constructor of the logger')
    w = site(fn)
    kinds = set()
    for p in C.paths(fn, noisy=True, opaque=(LG + '::setLoggingMsgLevel',)):
        cs = [e for e in p.calls() if e.fn == LG + '::setLoggingMsgLevel']
        if not R.check('choice', w, p.kind == 'return' and len(cs) == 1, f"sets the level {len(cs)} times: {desc(p)}"):
            continue
        env = [e for e in p.calls() if last(e) in ('getenv', 'secure_getenv')]
        R.check('choice', w, len(env) == 1 and strval(C, env[0].args[0]) == 'UMPIRE_LOG_LEVEL', f"reads {[pp(e.args[0]) for e in env]}")
        x = strip(cs[0].args[0])
        if len(env) == 1 and x[0] in ('loopv', 'int', 'init') :
            r = env[0].ret
            num = intval(C, x)
            if num is not None:
                kinds.add('default')
                named = [a for a, tv in p.facts.items() if matched(a, tv, r, tq[0]) and not in_loop(a)]
                R.check('choice', w, num == 2 and not named, f"the default is level {num}")
            else:
                kinds.add('named')
                R.check('choice', w, isnull(r, p.facts) is False and any(contains(a, r) and contains(a, x) and tq[0] in pp(a) and positive(a, tv) for a, tv in p.facts.items()), f"a level is chosen without a match: {desc(p)}")
                exact(C, w, p, r, x, fn)
        else:
            R.check('choice', w, False, f"chooses {pp(x)}")
        for e in loop_events(p):
            for q in e.iters:
                for a, tv in q.facts.items():
                    if matched(a, tv, env[0].ret if env else None, tq[0]) and a not in p.facts and pp(a).startswith('(std::equal'):
                        R.check('choice', w, False, 'a match is passed over')
    R.check('choice', w, kinds == {'default', 'named'}, f"the level is always the {'/'.join(sorted(kinds))} one")
    # messages
    fn = C.fn(LG + '::logMessage')
    lv, msg, fil, line = (('param', x['n']) for x in fn['params'])
    seen = set()
    for p in C.paths(fn, noisy=True):
        w = site(fn)
        outs = [e for e in p.calls() if last(e) in ('operator<<', 'put', 'write')]
        for lev in range(N):
            for b in (0, 1):
                if consistent(p, {lv: lev, ('init', ('elem', mem, lv)): b}) is False:
                    continue
                seen.add((lev, b))
                if not b:
                    R.check('message', w, not outs, 'a message of a disabled level is written')
                    continue
                txt = [strip(a) for e in outs for a in e.args]
                streams = {pp(e.obj) for e in outs if e.obj is not None and 'gvar' in pp(e.obj)}
                R.check('message', w, bool(outs) and all('umpire::log' in s for s in streams), f"written to {sorted(streams)}")
                for v, what in ((msg, 'text'), (fil, 'file'), (line, 'line')):
                    n = sum(1 for t in txt if contains(t, v))
                    R.check('message', w, n == 1, f"the {what} is written {n} times")
                R.check('message', w, any(tq[0] in pp(t) and contains(t, lv) for t in txt), 'the level is not written')
                R.check('message', w, 'endl' in pp(txt[-1]) or txt[-1] == ('str', '\n') or any(last(e) == 'flush' for e in p.calls()) if txt else False, 'the message is not ended')
    R.check('message', site(fn), len(seen) == 2 * N, f"levels {sorted(seen)}")


def exact(C, w, p, r, x, fn):
    """the whole name matches, whatever the case of its letters"""
    R = C.R
    eq = [t for a in p.facts if contains(a, r) and contains(a, x) for t in subterms(a) if t[0] == 'app' and t[1] == 'std::equal']
    if not eq:
        return
    size = [a for a, tv in p.facts.items() if a[0] == '==' and tv and all('size' in pp(y) for y in a[1:]) and contains(a, r) and contains(a, x)]
    R.check('choice', w, bool(size) or len(eq[0]) >= 7, 'a name of another length matches')
    calls = []

    def walk(n):
        if isinstance(n, list):
            for y in n:
                walk(y)
        elif isinstance(n, dict):
            if n.get('k') == 'call' and n.get('fn', '').split('::')[-1] in ('toupper', 'tolower'):
                calls.append(n['fn'].split('::')[-1])
            for y in n.values():
                walk(y)
    for f in C.P.fns.values():
        if f['file'] == fn['file'] and '(lambda)' not in f['q']:
            walk(f.get('body'))
    R.check('choice', w, len(calls) >= 2 and len(set(calls)) == 1 and len(calls) % 2 == 0, 'the case of the letters matters')


def simulate(p, env):
    """the writes to an array the path makes, its loops run with the loop's own counters; None when the path is not taken"""
    out = {}
    env = dict(env)

    def put(l, v):
        if l[0] == 'elem':
            try:
                out[(l[1], evaluate(l[2], env))] = evaluate(v, env)
            except Unk:
                pass

    def walk(trace):
        for e in trace:
            if e.kind == 'write' and e.loc[0] == 'elem':
                put(e.loc, e.val)
            if e.kind == 'loop':
                lid = e.extra['id']
                cur = {}
                for k, v in e.extra['entry'].items():
                    try:
                        cur[('loopv', lid, k)] = evaluate(v, env)
                    except Unk:
                        pass
                for _ in range(20):
                    env.update(cur)
                    its = [q for q in e.iters if consistent(q, env)]
                    if len(its) != 1:
                        break
                    walk(its[0].trace)
                    nxt = {}
                    for k in e.extra['entry']:
                        if ('loopv', lid, k) in cur:
                            try:
                                nxt[('loopv', lid, k)] = evaluate(its[0].mem.get(k, ('loopv', lid, k)), env)
                            except Unk:
                                pass
                    cur = nxt
                env.update(cur)
    walk(p.trace)
    return out if consistent(p, env) else None


def names_of(i):
    if not isinstance(i, dict):
        return None
    if i.get('k') == 'list':
        out = [names_of(x) for x in i.get('a', [])]
        return [x[0] for x in out] if out and all(x and len(x) == 1 for x in out) else None
    if i.get('k') in ('cast', 'ctor') and (i.get('e') or i.get('a')):
        return names_of(i.get('e') or i['a'][0])
    return [i['v']] if i.get('k') == 'str' else None


def strval(C, v):
    if v[0] == 'str':
        return v[1]
    if v[0] == 'init' and v[1][0] == 'gvar' and v[1][1] in C.P.globals:
        x = names_of(C.P.globals[v[1][1]]['init'])
        return x[0] if x else None
    return None


def intval(C, v):
    if v[0] == 'int':
        return v[1]
    if v[0] == 'init' and v[1][0] == 'gvar' and v[1][1] in C.P.globals:
        i = C.P.globals[v[1][1]]['init']
        while isinstance(i, dict) and i.get('k') in ('list', 'cast'):
            i = i.get('e') or i['a'][0]
        return int(i['v']) if isinstance(i, dict) and str(i.get('v', '')).lstrip('-').isdigit() else None
    return None


def positive(a, tv):
    """the comparison said yes: a size or a text comparison that is not a no"""
    return tv is False if a[0] == '==' and ZERO in a[1:] else tv is True


def matched(a, tv, r, tab):
    return r is not None and contains(a, r) and tab in pp(a) and positive(a, tv) and 'size' not in pp(a)[:6]


def in_loop(a):
    return any(t[0] == 'loopv' for t in subterms(a))


# ---- files ------------------------------------------------------------------------------------------------------------------
def names(C):
    R = C.R
    fn = C.fn(U + 'make_unique_filename')
    ps = [('param', x['n']) for x in fn['params']]
    w = site(fn)
    for p in C.paths(fn, opaque=(U + 'file_exists',)):
        cs = [e for e in p.calls() if e.fn == U + 'file_exists']
        if not R.check('name', w, p.kind == 'return' and bool(cs), 'a name is returned unseen'):
            continue
        e = cs[-1]
        R.check('name', w, e.args[0] == p.val and isnull(e.ret, p.facts) is True, f"returns {pp(p.val)[:100]} after looking at {pp(e.args[0])[:100]}")
        vals = [p.val]
        if p.val[0] == 'loopv':
            l = next((x for x in loop_events(p) if x.extra['id'] == p.val[1]), None)
            vals = [l.extra['entry'].get(p.val[2])] + [q.mem.get(p.val[2]) for q in l.iters] if l else []
        for v in vals:
            if not R.check('name', w, v is not None and all(contains(v, x) for x in ps), f"the name {pp(v)[:200] if v else None} leaves a part out"):
                continue
            order = [x for x in flat(v) if x in ps]
            R.check('name', w, order == ps, f"the parts come as {[pp(x) for x in order]}")
        # the number differs from one try to the next
        nums = [{t for t in subterms(v) if t[0] == 'loopv' and t[2] != (p.val[2] if p.val[0] == 'loopv' else None)} for v in vals[1:] or vals]
        for e in loop_events(p):
            for q in e.iters:
                ch = {k for k in e.extra['entry'] if q.mem.get(k) not in (None, ('loopv', e.extra['id'], k)) and lin1(q.mem[k], ('loopv', e.extra['id'], k))}
                R.check('name', w, any(t[2] in ch for n in nums for t in n), 'the same name is tried again')
    fn = C.fn(U + 'directory_exists')
    path = ('param', fn['params'][0]['n'])
    for p in C.paths(fn):
        st = [e for e in p.calls() if e.fn in ('stat', 'lstat') and len(e.args) == 2]
        if not st:
            continue
        r = isnull(st[0].ret, p.facts)
        R.check('name', site(fn), contains(st[0].args[0], path), 'looks at something else')
        if r is False:
            R.check('name', site(fn), p.val == ZERO, 'a directory that is not there exists')
        elif p.val in (ZERO, ONE):
            R.check('name', site(fn), any(isdir(a) and tv == (p.val == ONE) for a, tv in p.facts.items()), 'existence does not depend on its being a directory')
        else:
            R.check('name', site(fn), isdir(p.val), f"answers {pp(p.val)}")


def isdir(v):
    return v[0] == '==' and ('int', 0o040000) in v and 'st_mode' in pp(v) and '61440' in pp(v)


def lin1(v, x):
    d = diff(v, x)
    return d is not None and d != 0


def diff(v, x):
    if v == x:
        return 0
    if v[0] == 'lin' and v[2] == ((x, 1),):
        return v[1]
    return None


def flat(v):
    """the leaves of a value, left to right"""
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == 'param':
        yield v
        return
    for x in v[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from flat(x)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        yield from flat(y)


def setup(C, loc):
    R = C.R
    con, fil = loc['setConsoleStream'], loc['setFileStream']
    fn = C.fn(U + 'initialize_io')
    on = ('param', fn['params'][0]['n'])
    w = site(fn)
    opq = lambda f: f.startswith(U + 'MPI::') or f in (U + 'make_unique_filename', U + 'directory_exists', U + 'get_io_output_dir', U + 'get_io_output_basename', U + 'flush_files') or f.startswith(U + 'backtrace')
    bufs = {}
    for k in ('log', 'error'):
        a = C.P.find(f"{U}detail::s_{k}_buffer_accessor")
        R.need(a, f"the {k} buffer")
        bufs[k] = C.paths(a[0])[0].val
    R.check('setup', w, bufs['log'] != bufs['error'], 'the log and the error stream share a buffer')
    f2 = lambda b, l: ('fld', b, l[2])
    for p in C.paths(fn, opaque=opq, noisy=True):
        ex = [e for e in p.calls() if e.fn == U + 'directory_exists']
        mk = [e for e in p.calls() if e.fn in ('mkdir', '_mkdir', 'std::filesystem::create_directories')]
        off = isnull(on, p.facts)
        R.check('setup', w, not mk or off is False, 'a directory is made although logging is off')
        if p.kind == 'throw':
            R.check('setup', w, exc_type(p) == 'umpire::runtime_error', f"fails with {exc_type(p)}")
            continue
        here = any(isnull(e.ret, p.facts) is False for e in ex)
        R.check('setup', w, bool(ex) and (here or any(e.fn.endswith('::isInitialized') and isnull(e.ret, p.facts) is False for e in p.calls())), 'goes on without its directory')
        R.check('setup', w, all(isnull(e.ret, p.facts) is True for e in mk), 'a directory that could not be made is not reported')
        rd = {pp(e.obj): e.args[0] for e in p.calls() if last(e) == 'rdbuf' and e.args}
        R.check('setup', w, any('umpire::log' in k and v == bufs['log'] for k, v in rd.items()) and any('umpire::error' in k and v == bufs['error'] for k, v in rd.items()), f"streams {[(k, pp(v)) for k, v in rd.items()]}")
        R.check('setup', w, 'std::cerr' in pp(p.get(f2(bufs['error'], con))), 'errors do not reach the standard error stream')
        R.check('setup', w, p.get(f2(bufs['log'], con)) == ZERO, 'the log is attached to a console')
        lf = p.get(f2(bufs['log'], fil))
        if off is True:
            R.check('setup', w, lf == ('init', f2(bufs['log'], fil)) or lf == ZERO, 'a log file although logging is off')
        else:
            R.check('setup', w, off is False and lf[0] == 'app' and lf[1] == 'rdbuf', f"the log goes to {pp(lf)}")
            R.check('setup', w, any('operator(conv)' in pp(a) or 'good' in pp(a) or 'is_open' in pp(a) or 'fail' in pp(a) for a in p.facts if contains(a, lf[2] if len(lf) > 2 else lf)), 'a log file that could not be opened is used')
        for e in p.calls():
            if e.fn == U + 'make_unique_filename':
                ks = [('dir' if 'get_io_output_dir' in pp(a) else 'base' if 'get_io_output_basename' in pp(a) else 'pid' if 'getpid' in pp(a) else None) for a in e.args[:3]]
                R.check('setup', w, ks == ['dir', 'base', 'pid'], f"names a file after {ks}")
    for x in C.P.undefined:
        R.check('setup', f"{x['file'].split('/repo/')[-1]}:{x['l']} {x['q']}", not (x['q'].startswith((U + 'finalize', U + 'initialize', U + 'flush', U + 'make', U + 'get_io')) or x['q'].startswith(OB)), 'declared for users, but defined nowhere with these parameters')
    fn = C.fn(U + 'finalize_io')
    for p in C.paths(fn, opaque=(OB + '::sync',), noisy=True):
        w = site(fn)
        for k, b in bufs.items():
            R.check('setup', w, p.get(f2(b, con)) == ZERO and p.get(f2(b, fil)) == ZERO, f"the {k} buffer keeps a stream")
            i = [n for n, e in enumerate(p.trace) if e.kind == 'call' and last(e) in ('sync', 'pubsync') and e.obj == b]
            j = [n for n, e in enumerate(p.trace) if e.kind == 'write' and e.loc in (f2(b, con), f2(b, fil))]
            R.check('setup', w, bool(i) and (not j or min(i) < min(j)), f"the {k} buffer is detached before it is flushed")
    fn = C.fn(U + 'flush_files')
    for p in C.paths(fn, noisy=True):
        fl = {pp(e.obj) for e in p.calls() if last(e) == 'flush'}
        R.check('flush', site(fn), any('umpire::log' in x for x in fl) and any('umpire::error' in x for x in fl), f"flushes {sorted(fl)}")
