import json, re
from front import *

TECHNIQUE = ("abstract interpretation of every recorded operation with the event builder kept abstract: the values it is given are compared with those the operation uses and returns, on every path, "
             "with recording on and off; the builders, the recorder and the store are decided on their own, the lines written by parsing their format strings and the data flow of their arguments")
ASSUMPTIONS = ["the JSON library writes any value it is given as a line that it reads back as that value (it escapes line ends), and the C library formats as the standard says",
               "operations that fail may leave a record of the attempt"]
EV = 'umpire::event::'
B = EV + 'builder::'
STORE = EV + 'json_file_store'
METHODS = ('name', 'category', 'arg', 'args', 'tag', 'size', 'ref', 'ptr', 'record')
BUILD = tuple(B + m for m in METHODS)
AM = 'umpire::util::AllocationMap'
MO = 'umpire::op::MemoryOperation'
MOR = 'umpire::op::MemoryOperationRegistry'
REC = 'umpire::util::AllocationRecord::'
MRR = 'umpire::resource::MemoryResourceRegistry'
ON = EV + '(anon)::event_build_enabled'
RMOPS = (AM + '::find', AM + '::findRecord', MOR + '::find', AL + '::allocate', AL + '::deallocate', RM + '::copy', RM + '::deallocate', REG, DEREG, RM + '::getDefaultAllocator', RM + '::getAllocator', RM + '::reallocate_impl')
TRUE = ('str', 'true')


def run(C):
    R = C.R
    R.rule('once', 'a completed operation is recorded exactly once; with recording off nothing is')
    R.rule('values', 'the record carries the values the operation was called with and returned')
    R.rule('builder', 'the event holds each value under its key, and is handed to the store once')
    R.rule('open', 'the file is open before anything is written to it')
    R.rule('line', 'one line is written per event; it is JSON with exactly the values of the event under the keys of the reader')
    R.rule('safe', 'recording does not fail the operation that is recorded')
    R.rule('reader', 'the reader takes every field of an event from the key it was written under')
    allocator(C)
    rm(C)
    others(C)
    builders(C)
    store(C)
    reader(C)


# ---- the operations -------------------------------------------------------------------------------------------------
def events(p):
    """the completed records of a path, each a dictionary of what the builder was given; None if one was never handed over"""
    out, root, cur = [], {}, {}
    for e in p.calls():
        if not e.fn.startswith(B):
            continue
        m = e.fn[len(B):]
        r = root.get(e.obj, e.obj)
        if m == 'record':
            out.append(cur.pop(r, {}))
            continue
        root[e.ret] = r
        d = cur.setdefault(r, {})
        if m in ('arg', 'tag'):
            k = e.args[0]
            d[(m, k[1] if k[0] == 'str' else pp(k))] = e.args[1]
        elif m == 'args':
            d['args'] = e.args
        else:
            d[m] = e.args[0]
    return out, cur


def recording(p):
    for a, tv in p.facts.items():
        if a[0] == '==' and ZERO in a[1:] and any(contains(x, ('gvar', ON)) for x in a[1:]):
            return not tv
    return None


def operation(C, fn, opaque, want, rule='values', skip=None, dyn=None):
    """want(p) -> list of (description, {field: value or predicate}), each to be met by exactly one record"""
    R = C.R
    w = site(fn)
    seen = 0
    for p in C.paths(fn, opaque=tuple(opaque) + BUILD, dyn=dyn):
        if p.kind != 'return' or (skip and skip(p)):
            continue
        evs, left = events(p)
        on = recording(p)
        if not evs and on is None and not left:
            R.check('once', w, want(p) is None, f"nothing is recorded: {desc(p)}")
            continue
        if not on:
            R.check('once', w, not evs, f"{len(evs)} events recorded although recording is {'off' if on is False else 'not tested'}")
            continue
        R.check('once', w, not left, 'an event is prepared and never recorded')
        ws = want(p)
        if ws is None:
            continue
        seen += 1
        free = list(evs)
        for what, fields in ws:
            cand = [d for d in free if all(same(d.get(k), v) for k, v in fields.items() if k in ('name', 'key') or callable(v) and getattr(v, 'key', 0))] or \
                   [d for d in free if set(fields) <= set(d)] or free
            if not R.check('once', w, cand, f"no record of {what}: {desc(p)}"):
                continue
            best = max(cand, key=lambda d: sum(same(d.get(k), v) for k, v in fields.items()))
            free.remove(best)
            for k, v in fields.items():
                R.check(rule, w, same(best.get(k), v), f"{what}: {k if isinstance(k, str) else k[1]} is recorded as {pp(best[k]) if k in best else 'nothing'}{'' if callable(v) else ', not ' + pp(v)}")
        R.check('once', w, not free, f"recorded again: {[sorted(str(k) for k in d) for d in free]}")
    R.expect(seen or any(not o['ok'] for o in R.obl), f"{fn['q']} records nothing on any path")


def same(got, want):
    if got is None:
        return False
    return bool(want(got)) if callable(want) else got == want


def params(fn):
    return {x['n']: ('param', x['n']) for x in fn['params']}


def bytype(fn, t):
    return [('param', x['n']) for x in fn['params'] if x['t'].replace('const ', '').replace(' &', '') == t]


def val(p):
    return lambda v: v == p or v == ('init', ('deref', p)) or (v[0] == 'app' and p in v) or contains(v, p)


def isp(p):
    """the value of a parameter, given by value or by reference"""
    return lambda v: v in (p, ('init', ('deref', p)), ('init', p))


def allocator(C):
    for n in ('allocate', 'deallocate'):
        for fn in C.fns(AL + '::' + n):
            size, names, ptrs = bytype(fn, 'unsigned long'), bytype(fn, 'std::basic_string<char>'), bytype(fn, 'void *')
            if n == 'allocate':
                def want(p):
                    d = {'size': size[0], 'ref': STRAT, 'ptr': p.val}
                    if names:
                        d['name'] = isp(names[0])
                    return [('the named allocation' if names else 'the allocation', d)]
            else:
                def want(p):
                    return [('the release', {'ref': STRAT, 'ptr': ptrs[0]})] if isnull(ptrs[0], p.facts) is not True else None
            operation(C, fn, tuple(x for x in FRONT if x != 'umpire::event::record'), want)
    fn = C.fn(AL + '::release', 0)
    operation(C, fn, (), lambda p: [('the release of memory', {'name': ('str', 'release'), ('arg', 'allocator_ref'): STRAT, ('tag', 'replay'): TRUE})])


def finds(p):
    r = {}
    for e in p.calls():
        if e.fn in (AM + '::find', AM + '::findRecord'):
            r.setdefault(e.args[0], []).append(e.ret)
    return r


def strat(recs):
    return lambda v: v in [('init', ('fld', r, REC + 'strategy')) for r in recs]


def orphan(p):
    return any(isnull(('init', ('fld', r, REC + 'strategy')), p.facts) is True or isnull(r, p.facts) is True for rs in finds(p).values() for r in rs)


def handle(a):
    """the strategy of an allocator given by value"""
    return lambda v: v[0] == 'init' and v[1][0] == 'fld' and v[1][2] == AL + '::m_allocator' and contains(v, a) or v == ('init', ('fld', a, AL + '::m_allocator')) or v[0] == 'fldv' and contains(v, a) or \
        (contains(v, a) and 'm_allocator' in pp(v) and v != a)


def rm(C):
    for fn in C.fns(RM + '::copy'):
        ptrs = bytype(fn, 'void *')
        async_ = bytype(fn, 'camp::resources::Resource')

        def want(p, ptrs=ptrs, async_=async_):
            f = finds(p)
            dst, src = ptrs
            ops = [e for e in p.calls() if e.fn.startswith(MO + '::transform')]
            d = {'name': ('str', 'copy'), ('arg', 'src'): src, ('arg', 'dst'): dst, ('tag', 'replay'): TRUE}
            if ops:
                d[('arg', 'size')] = ops[0].args[4]
            for k, q in (('src', src), ('dst', dst)):
                if q in f:
                    d[('arg', k + '_allocator_ref')] = strat(f[q])
                    d[('arg', k + '_offset')] = lambda v, q=q: v in [sub(q, ('init', ('fld', r, REC + 'ptr'))) for r in f[q]]
            if async_:
                d[('tag', 'async')] = TRUE
            return [('the copy', d)]
        operation(C, fn, RMOPS, want, skip=orphan)
    for fn in C.fns(RM + '::memset'):
        ptr, value = bytype(fn, 'void *')[0], bytype(fn, 'int')[0]

        def want(p, ptr=ptr, value=value):
            d = {'name': ('str', 'memset'), ('arg', 'ptr'): ptr, ('arg', 'value'): value}
            if ptr in finds(p):
                d[('arg', 'allocator_ref')] = strat(finds(p)[ptr])
            return [('the memset', d)]
        operation(C, fn, RMOPS, want, skip=orphan)
    for fn in C.fns(RM + '::reallocate'):
        ptr, size, al = bytype(fn, 'void *')[0], bytype(fn, 'unsigned long')[0], bytype(fn, AL)

        def want(p, ptr=ptr, size=size, al=al):
            if al:
                own = handle(al[0])
            elif isnull(ptr, p.facts) is True:
                ds = [e.ret for e in p.calls() if e.fn == RM + '::getDefaultAllocator']
                own = lambda v: any(contains(v, d) for d in ds)
            else:
                own = strat(finds(p).get(ptr, []))
            return [('the request', {'name': ('str', 'reallocate'), ('arg', 'current_ptr'): ptr, ('arg', 'size'): size, ('arg', 'allocator_ref'): own, ('tag', 'replay'): TRUE}),
                    ('the result', {'name': ('str', 'reallocate'), ('arg', 'new_ptr'): p.val, ('arg', 'allocator_ref'): own})]
        operation(C, fn, RMOPS, want, skip=orphan)
    fn = C.fn(RM + '::move', 2)
    ptr, al = bytype(fn, 'void *')[0], bytype(fn, AL)[0]

    def want(p):
        d = {'name': ('str', 'move'), ('arg', 'ptr'): ptr, ('arg', 'allocator_ref'): handle(al), ('tag', 'replay'): TRUE}
        if p.val != ptr:
            d[('arg', 'result')] = p.val
        return [('the move', d)]
    operation(C, fn, RMOPS, want, skip=orphan)
    fn = C.fn(RM + '::setDefaultAllocator', 1)
    al = bytype(fn, AL)[0]
    operation(C, fn, (), lambda p: [('the choice of the default allocator', {'name': ('str', 'set_default_allocator'), ('arg', 'allocator_ref'): lambda v: handle(al)(v) and v in p.mem.values(), ('tag', 'replay'): TRUE})])
    for fn in C.fns(RM + '::makeResource', 2):
        name = [('param', x['n']) for x in fn['params']][0]

        def want(p, name=name):
            mk = [e for e in p.calls() if e.fn == MRR + '::makeMemoryResource']
            if not mk:
                return None
            return [('the new resource', {'name': ('str', 'make_memory_resource'), ('arg', 'allocator_ref'): lambda v: contains(v, mk[0].ret), ('tag', 'allocator_name'): isp(name), ('tag', 'replay'): TRUE})]
        operation(C, fn, RMOPS + (MRR + '::makeMemoryResource', RM + '::getAllocatorInformation', 'umpire::resource::resource_to_device_id'), want)

    trk = C.accloc(AS + '::isTracked')[2]
    ctors = tuple({f['q'] for f in C.P.fns.values() if f['q'].startswith('umpire::strategy::') and f['q'].split('::')[-1] == f['q'].split('::')[-2]})
    for fn in C.fns(RM + '::makeAllocator'):
        if not any(x['t'] == 'umpire::Tracking' for x in fn['params']):
            continue

        def want(p):
            new = [e.ret for e in p.calls() if e.fn == 'operator new' and e.ret[0] == 'newobj' and e.ret[2].startswith('umpire::strategy::')]
            if not new:
                return None
            return [('the new allocator', {'name': ('str', 'make_allocator'), ('arg', 'allocator_ref'): new[0], ('arg', 'introspection'): lambda v: v == p.get(('fld', new[0], trk)), ('tag', 'replay'): TRUE})]
        operation(C, fn, RMOPS + ctors + (RM + '::getAllocatorInformation',), want)


def others(C):
    fn = C.fn('umpire::mark_event', 1)
    ev = ('param', fn['params'][0]['n'])
    operation(C, fn, (), lambda p: [('the mark', {'name': ('str', 'event'), ('arg', 'name'): isp(ev)})])
    fn = C.fn('umpire::register_external_allocation', 2)
    ptr, rec = (('param', x['n']) for x in fn['params'])

    def fld(v, f):
        return contains(v, rec) and pp(v).split('.')[-1].split('->')[-1].startswith(f)
    operation(C, fn, (REG,), lambda p: [('the external allocation', {'name': ('str', 'register_external_allocation'), ('arg', 'allocator_ref'): lambda v: fld(v, 'strategy'), ('arg', 'size'): lambda v: fld(v, 'size'),
                                                                     ('arg', 'pointer'): lambda v: v == ptr or fld(v, 'ptr')})])
    fn = C.fn('umpire::deregister_external_allocation', 1)
    operation(C, fn, (DEREG,), lambda p: [('the removal', {'name': ('str', 'deregister_external_allocation')})])
    for q in ('umpire::strategy::QuickPool', 'umpire::strategy::DynamicPoolList'):
        fn = C.fn(q + '::coalesce', 0)
        nm = C.accessor(AS + '::getName')
        nm = ('init', nm[1]) if nm[0] == 'addr' else nm
        operation(C, fn, (q + '::do_coalesce', 'DynamicSizePool::coalesce'), lambda p: [('the coalescing', {'name': ('str', 'coalesce'), ('tag', 'allocator_name'): lambda v: v == nm, ('tag', 'replay'): TRUE})])


# ---- the builders ---------------------------------------------------------------------------------------------------
def builders(C):
    R = C.R
    recs = {}
    for m in METHODS:
        for fn in C.P.find(B + m):
            w = site(fn)
            ps = [('param', x['n']) for x in fn['params']]
            if m == 'args':
                continue
            for p in C.paths(fn, opaque=(EV + 'event_store_recorder::record', EV + 'recorder_factory::get_recorder')):
                if not R.check('builder', w, p.kind == 'return', f"ends as {p.kind}: {desc(p)}"):
                    continue
                if m == 'record':
                    hs = [e for e in p.calls() if e.fn == EV + 'event_store_recorder::record']
                    e_ = hs[0].args[0] if hs else None
                    R.check('builder', w, len(hs) == 1 and contains(hs[0].obj, ps[0]) and contains(e_, ('this',)) and pp(e_).split('->')[-1].startswith('e'), f"the event is handed to the recorder {len(hs)} times{': ' + pp(e_) if e_ else ''}")
                    continue
                R.check('builder', w, contains(p.val, ('this',)), f"hands on {pp(p.val)}")
                ws = {l: v for l, v in p.mem.items() if contains(l, ('this',)) and v != ('init', l)}
                key = ps[0] if len(ps) == 2 else None
                vv = ps[-1]
                want = {'name': ('name',), 'category': ('cat',), 'size': ('size',), 'ref': ('ref',), 'ptr': ('ptr',), 'tag': ('tags',), 'arg': ('string_args', 'numeric_args')}[m]
                good = []
                for l, v in ws.items():
                    f = [x for x in flds(l) if x.startswith(EV)]
                    k = last(f)
                    where = k in want and (key is None or isp(key)(elem(l)) or isp(key)(('init', elem(l)) if elem(l) else ZERO))
                    good.append(where and (v == vv or v == ('init', ('deref', vv)) or contains(v, vv)))
                if m == 'arg':
                    t = fn['params'][1]['t']
                    num = t in ('int', 'bool', 'long', 'unsigned long', 'unsigned int', 'long long', 'unsigned long long', 'double', 'float', 'short', 'char')
                    kinds = {last([x for x in flds(l) if x.startswith(EV)]) for l in ws}
                    R.check('builder', w, kinds == {'numeric_args' if num else 'string_args'}, f"a {t} is kept in {sorted(map(str, kinds))}")
                R.check('builder', w, len(ws) == 1 and all(good), f"stores {[(pp(l), pp(v)) for l, v in ws.items()]}")
    for fn in C.fns(EV + 'event_store_recorder::record'):
        for p in C.paths(fn):
            hs = [e for e in p.calls() if short(e) == 'insert']
            R.check('builder', site(fn), p.kind == 'return' and len(hs) == 1 and contains(hs[0].args[0], ('param', fn['params'][0]['n'])) and contains(hs[0].obj, ('this',)), f"{len(hs)} events inserted")


def flds(l):
    out = []
    while isinstance(l, tuple) and l:
        if l[0] == 'fld':
            out.append(l[2])
        l = l[1] if len(l) > 1 else None
    return out


def elem(l):
    while isinstance(l, tuple) and l:
        if l[0] in ('elem', 'idx', 'at'):
            return l[2]
        l = l[1] if len(l) > 1 else None
    return None


def last(f):
    return f[0].split('::')[-1] if f else None


# ---- the store ------------------------------------------------------------------------------------------------------
CONV = re.compile(r'%([-+ #0]*)(\d*)(?:\.\d+)?(hh|h|ll|l|z|j|t)?([diuxXpsc%])')
TOP = ('category', 'name', 'numeric_args', 'string_args', 'tags', 'timestamp')


def store(C):
    R = C.R
    nl = lambda f: f.startswith('nlohmann::')
    F = ('fld', ('this',), STORE + '::m_fstream')
    for fn in C.fns(STORE + '::insert'):
        w = site(fn)
        e_ = ('param', fn['params'][0]['n'])
        kind = fn['params'][0]['t'].replace('const ', '').replace(' &', '').split('::')[-1]
        seen = 0
        for p in C.paths(fn, opaque=nl):
            outs = [e for e in p.calls() if e.fn in ('fprintf', 'fputs', 'fwrite', 'fputc')]
            if p.kind == 'throw':
                R.check('open', w, not outs and any(e.fn == 'fopen' and isnull(e.ret, p.facts) is True for e in p.calls()), f"recording ends as an error although the file is open: {desc(p)}")
                continue
            if not R.check('line', w, outs and all(e.fn == 'fprintf' for e in outs), f"written by {[e.fn for e in outs]}" if outs else 'nothing is written'):
                continue
            seen += 1
            for o in outs:
                f = o.args[0]
                R.check('open', w, isnull(f, p.facts) is False, f"writes to {pp(f)} without having opened it")
            fmt, args = '', []
            for o in outs:
                if o.args[1][0] == 'str':
                    fmt += o.args[1][1]
                    args += list(o.args[2:])
                else:
                    fmt = None
                    break
            if not R.check('line', w, fmt is not None, 'the text of the event is used as a format'):
                continue
            R.check('line', w, fmt.endswith('\n') and fmt.count('\n') == 1, f"not one line: {fmt!r}")
            line(C, fn, w, kind, e_, fmt.rstrip('\n'), args, p)
        R.expect(seen or any(not o['ok'] for o in R.obl), f"{STORE}::insert({kind}) never writes")
    # everything inserted before is still there: only opening for writing truncates, and only once
    for fn in C.P.find(STORE + '::open_store'):
        for p in C.paths(fn):
            op = [e for e in p.calls() if e.fn == 'fopen']
            was = isnull(('init', F), p.facts)
            if was is False:
                R.check('open', site(fn), not op, 'an open file is opened again, which empties it')
            if p.kind == 'return':
                R.check('open', site(fn), isnull(p.get(F), p.facts) is False, 'returns without an open file')


def line(C, fn, w, kind, e_, fmt, args, p):
    R = C.R
    convs = list(CONV.finditer(fmt))
    real = [c for c in convs if c.group(4) != '%']
    if not R.check('line', w, len(real) == len(args), f"{len(args)} values for {len(real)} conversions"):
        return

    def field(a):
        """which member of the event a value is"""
        for l in subterms(a):
            if l[0] == 'fld' and contains(l, e_) and l[2].startswith(EV):
                return l[2].split('::')[-1]
        return None

    def as_json(a):
        """the values a text was made from by the JSON library, and whether that can fail; None if it was not made by it"""
        srcs, todo, seen, strict, made = [], [a], [], [], False
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.append(t)
            for e in p.calls():
                if not e.fn.startswith('nlohmann::') or e.args is None:
                    continue
                outs = [x for x in subterms(t) if x[0] == 'out' and e.ret is not None and e.ret[0] == 'ret' and x[1] == e.ret[1]]
                if e.ret is not None and contains(t, e.ret) or outs or e.obj == t:
                    if short(e) in ('dump', 'operator<<'):
                        made = True
                        if not (short(e) == 'dump' and len(e.args) == 4 and e.args[3] in (('int', 1), ('int', 2))):
                            strict.append(e)
                    srcs += e.args
                    todo += list(e.args) + ([e.obj] if e.obj is not None else [])
        return (srcs, strict) if made else None
    if kind == 'event':
        tx = [a for a in args]
        jj = as_json(tx[0]) if len(tx) == 1 else None
        R.check('line', w, fmt == '%s' and jj and any(contains(x, e_) for x in jj[0]), f"the line is {fmt!r} of {[pp(x)[:80] for x in tx]}")
        R.check('safe', w, not (jj and jj[1]), 'recording an event with text that is not UTF-8 fails the operation')
        return
    text, pos, vals, i = '', 0, {}, 0
    for c in convs:
        text += fmt[pos:c.start()]
        pos = c.end()
        if c.group(4) == '%':
            text += '%'
            continue
        a = args[i]
        inq = (text.count('"') - text.count('\\"')) % 2
        if c.group(4) == 's':
            jj = as_json(a)
            R.check('safe', w, not (jj and jj[1]), 'recording an event with text that is not UTF-8 fails the operation')
            if jj:
                a = tuple(['srcs'] + jj[0])
            R.check('line', w, not inq and jj, f"{pp(a)[:80]} is written as it is: quotes, backslashes and line ends in it make the line unreadable")
            tok = f'"@{i}"' if not inq else f'@{i}'
        elif c.group(4) == 'p':
            R.check('line', w, inq, 'an address is not a JSON value')
            tok = f'@{i}' if inq else f'"@{i}"'
        else:
            R.check('line', w, not inq and c.group(4) in 'diu' and not c.group(1), f"a number is written with {c.group(0)}{' inside quotes' if inq else ''}")
            R.check('line', w, (c.group(3) or '') in ('l', 'll', 'z', 'j'), f"{c.group(0)} cannot hold a size")
            tok = str(900000 + i) if not inq else f'@{i}'
        text += tok
        vals[i] = field(a)
        i += 1
    text += fmt[pos:]
    try:
        j = json.loads(text)
    except ValueError as x:
        R.check('line', w, False, f"not JSON: {x}")
        return

    def at(*path):
        x = j
        for k in path:
            if not isinstance(x, dict) or k not in x:
                return None
            x = x[k]
        if isinstance(x, int) and x >= 900000:
            return vals.get(x - 900000)
        if isinstance(x, str) and re.fullmatch(r'@\d+', x):
            return vals.get(int(x[1:]))
        return ('lit', x)
    want = {('category',): ('lit', 'operation'), ('name',): ('lit', kind), ('string_args', 'allocator_ref'): 'ref', ('string_args', 'pointer'): 'ptr', ('tags', 'replay'): ('lit', 'true'), ('timestamp',): 'timestamp'}
    if kind != 'deallocate':
        want[('numeric_args', 'size')] = 'size'
    if kind == 'named_allocate':
        want[('string_args', 'allocation_name')] = 'name'
    for k, v in want.items():
        R.check('line', w, at(*k) == v, f"{'/'.join(k)} is {at(*k)}, not {v}")
    R.check('line', w, set(j) <= set(TOP), f"keys {sorted(set(j) - set(TOP))}")


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms(x)


# ---- the reader -----------------------------------------------------------------------------------------------------
def reader(C):
    R = C.R
    nl = lambda f: f.startswith('nlohmann::')
    FLD = {'name': 'name', 'category': 'cat', 'string_args': 'string_args', 'numeric_args': 'numeric_args', 'tags': 'tags', 'timestamp': 'timestamp'}
    EVT = EV + 'event'

    def field(a, e_):
        for l in subterms(a):
            if l[0] == 'fld' and contains(l, e_) and l[2].startswith(EVT + '::'):
                return l[2].split('::')[-1]

    w_ = [f for f in C.fns(EV + 'to_json') if 'event::event &' in f['params'][1]['t']]
    r_ = [f for f in C.fns(EV + 'from_json') if 'event::event &' in f['params'][1]['t']]
    R.need(w_ and r_, 'the conversion of events to and from JSON not found')
    for fn in w_:
        e_ = ('param', fn['params'][1]['n'])
        for p in C.paths(fn, opaque=nl):
            keys = {}
            for e in p.calls():
                for a in e.args:
                    for t in subterms(a):
                        if t[0] == 'listv':
                            it = [x for x in t[1]]
                            if len(it) == 2:
                                ks = [y[1] for y in subterms(it[0]) if y[0] == 'str']
                                f = field(it[1], e_)
                                if len(ks) == 1 and f:
                                    keys.setdefault(ks[0], f)
                if e.fn.endswith('operator[]') and e.args and e.args[0][0] == 'str':
                    for e2 in p.calls():
                        if e2.obj == e.ret and e2.args:
                            keys.setdefault(e.args[0][1], field(e2.args[0], e_))
            for k, f in FLD.items():
                R.check('reader', site(fn), keys.get(k) == f, f"{f} is written under {[x for x, y in keys.items() if y == f] or 'no key'}, not {k}")
    for fn in r_:
        j_, e_ = (('param', x['n']) for x in fn['params'][:2])
        full = 0
        for p in C.paths(fn, opaque=nl):
            if p.kind != 'return':
                continue
            key = {}
            got = {}
            for e in p.calls():
                if short(e) in ('at', 'operator[]') and e.args and e.args[0][0] == 'str':
                    key[e.ret] = e.args[0][1]
                elif short(e) == 'get_to' and e.obj in key:
                    f = field(e.args[0], e_)
                    if f:
                        got[f] = key[e.obj]
                    else:
                        key[e.ret] = key[e.obj]
                        got['#%s' % e.id if hasattr(e, 'id') else key[e.obj]] = key[e.obj]
                elif short(e) == 'get' and e.obj in key:
                    key[e.ret] = key[e.obj]
            for l, v in p.mem.items():
                f = field(l, e_)
                if f and f not in got:
                    for r, k in key.items():
                        if contains(v, r):
                            got[f] = k
                    if f not in got and f == 'timestamp' and 'timestamp' in key.values() and any(t[0] == 'out' for t in subterms(v)):
                        got[f] = 'timestamp'
            for k in ('name', 'category', 'tags', 'timestamp'):
                R.check('reader', site(fn), got.get(FLD[k]) == k, f"{FLD[k]} is read from {got.get(FLD[k])}, not {k}")
            for k in ('string_args', 'numeric_args'):
                R.check('reader', site(fn), got.get(k, k) == k, f"{k} is read from {got.get(k)}")
            full += 'string_args' in got and 'numeric_args' in got
        R.check('reader', site(fn), full, 'the arguments are never read')
    fn = C.fn(STORE + '::get_events', 0)
    seen = 0
    for p in C.paths(fn, opaque=nl):
        if p.kind != 'return':
            continue
        for e in p.events(kind='loop'):
            for it in e.iters:
                push = [x for x in it.calls() if short(x) in ('push_back', 'emplace_back')]
                pr = [x for x in it.calls() if short(x) == 'parse']
                if it.kind == 'iter':
                    seen += 1
                    R.check('reader', site(fn), len(pr) == 1 and len(push) == 1, f"{len(pr)} lines parsed and {len(push)} events kept per line")
    R.expect(seen or any(not o['ok'] for o in R.obl), 'get_events reads nothing')
