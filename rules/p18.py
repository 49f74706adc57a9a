from front import *

TECHNIQUE = ("abstract interpretation of the copy, set and prefetch entry points and of the host operations; the extracted conditions and lengths are decided against the bounds of the two records "
             "by a complete table over a reduced machine word (every record size, offset and requested length)")
ASSUMPTIONS = ["a record lookup answers the record that contains the address (P03, P04)", "device operations obey the contract of the host ones (their toolkits are not installed here)",
               "the conditions use + - and comparisons on unsigned words, for which the reduced word is representative"]
MO = 'umpire::op::MemoryOperation'
MOR = 'umpire::op::MemoryOperationRegistry'
OP = ('umpire::event::record', AM + '::find', AM + '::findRecord', MOR + '::find')
REC = 'umpire::util::AllocationRecord::'
W = Word(4)


def run(C):
    R = C.R
    R.rule('bounds', 'bytes are read and written only between the given address and the end of the allocation that contains it; a request beyond it is refused before any byte moves')
    R.rule('length', 'the number of bytes is the requested one, or for a request of zero everything from the address to the end; a request that fits is not refused')
    R.rule('operands', 'exactly one operation is performed, from the source to the destination address, with their own records and the given value')
    R.rule('kind', 'the operation performed is the one asked for')
    R.rule('host', 'the host operations move or set exactly the given number of bytes between the given addresses')
    R.rule('dispatch', 'an operation is looked up by its name and the platforms of source and destination, in this order; without one the request is refused; the built-in operations are registered under their names and platforms')
    R.rule('async', 'an operation without an asynchronous form waits for the context and performs the same operation')
    for fn in C.fns(RM + '::copy'):
        entry(C, fn, 'COPY', MO + '::transform')
    for fn in C.fns(RM + '::memset'):
        entry(C, fn, 'MEMSET', MO + '::apply')
    for fn in C.fns(RM + '::prefetch'):
        entry(C, fn, 'PREFETCH', MO + '::apply')
    host(C)
    default_async(C)
    dispatch(C)


def bytype(fn, t):
    return [('param', x['n']) for x in fn['params'] if x['t'].replace('const ', '') == t]


def entry(C, fn, op, call):
    R = C.R
    w = site(fn)
    ptrs = bytype(fn, 'void *')
    size = (bytype(fn, 'unsigned long') + [None])[0]
    value = (bytype(fn, 'int') + [None])[0]
    ctx = bytype(fn, 'camp::resources::Resource &')
    copy = op == 'COPY'
    dst, src = (ptrs[0], ptrs[1]) if copy else (ptrs[0], ptrs[0])
    paths = C.paths(fn, opaque=OP)
    done = []
    for p in paths:
        finds = {}
        for e in p.calls():
            if e.fn in (AM + '::find', AM + '::findRecord'):
                finds.setdefault(e.args[0], e.ret)
        p.finds = finds
        ops = [e for e in p.calls() if e.fn in (call, call + '_async')]
        other = [e for e in p.calls() if e.fn.startswith(MO + '::') and e not in ops]
        if p.kind == 'throw':
            R.check('bounds', w, not ops and not other, 'refused after bytes were moved')
            continue
        if not R.check('operands', w, len(ops) == 1 and not other, f"{len(ops)} operations: {desc(p)}"):
            continue
        if not R.check('operands', w, src in finds and dst in finds, f"no record is looked up for {[pp(x) for x in (src, dst) if x not in finds]}"):
            continue
        e = ops[0]
        R.check('operands', w, (e.fn == call + '_async') == bool(ctx), 'the context is not used' if ctx else 'performed asynchronously')
        a = e.args
        if copy:
            to = e.pv[1] if len(e.pv) > 1 else None
            R.check('operands', w, a[0] == src and to == dst, f"copies from {pp(a[0])} to {pp(to) if to else '?'}")
            R.check('operands', w, a[2] == finds[src] and a[3] == finds[dst], 'the records are not those of source and destination')
            p.n = a[4]
        else:
            R.check('operands', w, a[0] == dst and a[1] == finds[dst] and (a[2] == value or decide(EQ(a[2], value), p.facts) is True), f"applied to {pp(a[0])} with {pp(a[2])}")
            p.n = a[3]
        if ctx:
            R.check('operands', w, p.val == e.ret and contains(a[-1], ctx[0]), 'the event returned is not that of the operation')
        lk = [x for x in p.calls() if x.fn == MOR + '::find' and x.ret == e.obj]
        st = lambda q: ('init', ('fld', finds[q], REC + 'strategy'))
        ok = len(lk) == 1 and lk[0].args[0] == ('str', op)
        if R.check('kind', w, ok, f"performs {[pp(x.args[0]) for x in lk]} instead of {op}"):
            rest = lk[0].args[1:]
            plat = [pp(x) for x in rest]
            if len(rest) == 2:
                R.check('kind', w, rest == (st(src), st(dst)), f"operation for {plat}")
        done.append(p)
    R.expect(done or any(not o['ok'] for o in R.obl), f"{fn['q']} never performs an operation")
    if op == 'PREFETCH':
        for p in paths:
            tr = [e for e in p.calls() if short(e) == 'getTraits']
            R.check('kind', w, p.kind != 'return' or len(tr) == 1 and tr[0].obj == ('init', ('fld', p.finds.get(dst, ZERO), REC + 'strategy')) and any(tv and a[0] == '==' and contains(a, tr[0].ret) for a, tv in p.facts.items()),
                    'memory that is not unified is prefetched')
    # the table
    base_s, base_d = 3, 9
    recs = [(z, o) for z in range(0, 5) for o in range(0, max(z, 1))]
    for ss, so in recs:
        for ds, do in (recs if copy else [(ss, so)]):
            for n in (range(0, 16) if size else (0,)):
                want_n = n or ss - so
                fits = want_n <= ss - so and want_n <= ds - do
                hits = 0
                for p in paths:
                    if src not in p.finds or dst not in p.finds:
                        R.check('bounds', w, p.kind == 'throw', 'no record is looked up')
                        continue
                    fs, fd = p.finds[src], p.finds[dst]
                    f = lambda r, x: ('init', ('fld', r, REC + x))
                    env = {src: base_s + so, f(fs, 'ptr'): base_s, f(fs, 'size'): ss}
                    if copy:
                        env.update({dst: base_d + do, f(fd, 'ptr'): base_d, f(fd, 'size'): ds})
                    if size:
                        env[size] = n
                    if not W.possible(p, env):
                        continue
                    if p.kind == 'throw':
                        if fits and (not copy and not size or not other_reason(p)):
                            if op != 'PREFETCH':
                                R.check('length', w, False, f"refused although it fits: {n} bytes at {so} of {ss}" + (f" to {do} of {ds}" if copy else ''))
                                return
                        continue
                    hits += 1
                    if not hasattr(p, 'n'):
                        continue
                    try:
                        got = W.ev(p.n, env)
                    except Unk as x:
                        raise Anchor(f"{fn['q']}: length depends on {pp(x.args[0])[:160]}")
                    if not fits:
                        R.check('bounds', w, False, f"accepted although it does not fit: {n} bytes at {so} of {ss}" + (f" to {do} of {ds}" if copy else ''))
                        return
                    if got != want_n:
                        R.check('length', w, False, f"{got} bytes instead of {want_n} at {so} of {ss}")
                        return
                if fits and not hits:
                    R.check('length', w, False, f"never performed for {n} bytes at {so} of {ss}" + (f" to {do} of {ds}" if copy else ''))
                    return
    R.check('bounds', w, True)
    R.check('length', w, True)


def other_reason(p):
    """the request is refused for something that is no matter of sizes: an operand that is unknown, or no operation for the platforms"""
    return any(a[0] == '==' and ZERO in a[1:] and tv and a[1 if a[2] == ZERO else 2] in p.finds.values() for a, tv in p.facts.items())


def host(C):
    R = C.R
    O = 'umpire::op::'
    fn = C.fn(O + 'HostCopyOperation::transform', 5)
    src, dst, _, _, n = (('param', x['n']) for x in fn['params'])
    for p in C.paths(fn):
        m = [e for e in p.calls() if e.fn in ('memcpy', 'memmove', 'std::memcpy', 'std::memmove')]
        nothing = not m and isnull(n, p.facts) is True
        to = ('init', ('deref', dst))
        R.check('host', site(fn), p.kind == 'return' and (nothing or len(m) == 1 and m[0].args[:3] == (to, src, n)), f"copies {[[pp(a) for a in e.args] for e in m]}")
    fn = C.fn(O + 'HostMemsetOperation::apply', 4)
    ptr, _, v, n = (('param', x['n']) for x in fn['params'])
    for p in C.paths(fn):
        m = [e for e in p.calls() if e.fn in ('memset', 'std::memset')]
        nothing = not m and isnull(n, p.facts) is True
        R.check('host', site(fn), p.kind == 'return' and (nothing or len(m) == 1 and m[0].args == (ptr, v, n)), f"sets {[[pp(a) for a in e.args] for e in m]}")


def default_async(C):
    R = C.R
    for sync in ('transform', 'apply'):
        fn = C.fn(MO + '::' + sync + '_async')
        ps = [('param', x['n']) for x in fn['params']]
        for p in C.paths(fn, opaque=(MO + '::' + sync, 'camp::resources::Resource::get_event', 'camp::resources::Event::wait', 'camp::resources::Resource::wait')):
            c = [e for e in p.calls() if e.fn == MO + '::' + sync]
            wt = [e for e in p.calls() if short(e) in ('wait', 'get_event') and (e.obj in (ps[-1], ('deref', ps[-1])) or contains(e.obj, ps[-1]))]
            ok = len(c) == 1 and c[0].obj == ('this',) and c[0].args == tuple(ps[:-1])
            R.check('async', site(fn), p.kind == 'return' and ok, f"performs {[[pp(a) for a in e.args] for e in c]}")
            R.check('async', site(fn), bool(wt) and (not c or p.trace.index(wt[0]) < p.trace.index(c[0])), 'does not wait for the context first')
        base = C.fn(MO + '::' + sync)
        for p in C.paths(base):
            R.check('async', site(base), p.kind == 'throw', 'an operation that does not exist does nothing silently')


TABLE = {('COPY', 1, 1): 'HostCopyOperation', ('MEMSET', 1, 1): 'HostMemsetOperation', ('REALLOCATE', 1, 1): 'HostReallocateOperation', ('REALLOCATE', 0, 0): 'GenericReallocateOperation'}


def pair(v):
    if v[0] == 'objv':
        d = {k.split('::')[-1]: x for k, x in v[2]}
        return d.get('first'), d.get('second')
    if v[0] == 'obj' and len(v) > 2 and len(v[2]) == 2:
        return tuple(v[2])
    return None, None


def finds_in(v):
    return [t for t in subterms(v) if t and t[0] == 'app' and t[1] in ('find', 'at')]


def dispatch(C):
    R = C.R
    ops = ('fld', ('this',), MOR + '::m_operators')
    for fn in C.fns(MOR + '::find'):
        w = site(fn)
        name = ('param', fn['params'][0]['n'])
        some = False
        for p in C.paths(fn):
            if p.kind == 'throw':
                R.check('dispatch', w, any(tv and a[0] == '==' and finds_in(a) for a, tv in p.facts.items()) or any(not tv and finds_in(a) or a[0] == 'app' for a, tv in p.facts.items()), f"refused: {desc(p)}")
                continue
            some = True
            fs = [t for t in finds_in(p.val) if t[1] == 'find']
            outer = [t for t in fs if t[2] == ops and contains(t[-1], name)]
            keys = [t[-1] for t in fs if t[2] != ops]
            if not R.check('dispatch', w, bool(outer) and bool(keys), f"hands out {pp(p.val)[:300]}"):
                continue
            if len(fn['params']) == 2:
                ok = all(k == ('param', fn['params'][1]['n']) for k in keys)
            else:
                pl = {e.ret: e.obj for e in p.calls() if short(e) == 'getPlatform'}
                ok = all(pl.get(pair(k)[0]) == ('param', fn['params'][1]['n']) and pl.get(pair(k)[1]) == ('param', fn['params'][2]['n']) for k in keys)
            R.check('dispatch', w, ok, f"looked up for {[pp(k) for k in keys]}")
        R.check('dispatch', w, some, 'never finds an operation')
    fn = C.fn(MOR + '::registerOperation', 3)
    nm, pf, op = (('param', x['n']) for x in fn['params'])
    for p in C.paths(fn):
        w = site(fn)
        ins = [e for e in p.calls() if short(e) in ('insert', 'emplace', 'insert_or_assign', 'try_emplace') and any(contains(a, pf) for a in e.args) and any(contains(a, op) for a in e.args)]
        el = [l for l, v in p.mem.items() if l[0] == 'elem' and l[2] == pf and contains(v, op)]
        if R.check('dispatch', w, len(ins) + len(el) == 1, 'an operation is not entered under its platforms'):
            into = ins[0].obj if ins else el[0][1]
            byname = contains(into, nm) or any(contains(into, e.ret) and any(contains(a, nm) for a in e.args) for e in p.calls() if short(e) in ('insert', 'emplace', 'try_emplace'))
            R.check('dispatch', w, byname, f"entered into {pp(into)[:200]}")
    fn = C.fn(MOR + '::MemoryOperationRegistry', 0)
    for p in C.paths(fn, opaque=(MOR + '::registerOperation',)):
        got = {}
        made = {e.ret: e.key or '' for e in p.calls() if short(e) in ('make_shared', 'allocate_shared')}
        for e in p.calls():
            if e.fn == MOR + '::registerOperation':
                f, g = pair(e.args[1])
                v = e.args[2]
                what = ' '.join([str(v)] + [k for r, k in made.items() if contains(v, r)])
                if e.args[0][0] == 'str' and f and g and f[0] == g[0] == 'int':
                    got.setdefault((e.args[0][1], f[1], g[1]), what)
                else:
                    raise Anchor(f"registration of {pp(e.args[0])} not understood")
        for k, cls in TABLE.items():
            R.check('dispatch', site(fn), cls in got.get(k, ''), f"{k[0]} for platforms {k[1:]} is {'another operation' if k in got else 'not registered'} instead of {cls}")
        extra = {k for k in got if k not in TABLE and k[0] != 'MOVE'}
        R.check('dispatch', site(fn), not extra, f"registered for other platforms: {sorted(extra)}")
    fn = C.fn(RM + '::getOperation', 3)
    n, a, b = (('param', x['n']) for x in fn['params'])
    for p in C.paths(fn, opaque=(MOR + '::find',)):
        e = [x for x in p.calls() if x.fn == MOR + '::find']
        ok = len(e) == 1 and p.val == e[0].ret and contains(e[0].args[0], n) and len(e[0].args) == 3 and contains(e[0].args[1], a) and contains(e[0].args[2], b)
        R.check('dispatch', site(fn), ok, f"looks up {[[pp(x) for x in y.args] for y in e]}")
