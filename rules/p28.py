from front import *

TECHNIQUE = ("abstract interpretation of every function of the C interface with the C++ interface kept abstract: the call it makes, its receiver and its arguments are compared, position by position, "
             "with the parameters of the C function, and the C result with the C++ one; what is handed to C is matched with the destructor that releases it")
ASSUMPTIONS = ["handles given to the C interface were obtained from it", "no C++ error reaches C (errors of the C++ interface propagate through these functions)"]
A, M = 'umpire_allocator_', 'umpire_resourcemanager_'
S = 'umpire::strategy::'
METHOD = {
    A + 'allocate': 'allocate', A + 'deallocate': 'deallocate', A + 'release': 'release', A + 'get_size': 'getSize', A + 'get_high_watermark': 'getHighWatermark', A + 'get_current_size': 'getCurrentSize',
    A + 'get_actual_size': 'getActualSize', A + 'get_allocation_count': 'getAllocationCount', A + 'get_name': 'getName', A + 'get_name_bufferify': 'getName', A + 'get_id': 'getId',
    M + 'get_allocator_by_name': 'getAllocator', M + 'get_allocator_by_name_bufferify': 'getAllocator', M + 'get_allocator_by_id': 'getAllocator', M + 'get_allocator_for_ptr': 'getAllocator',
    M + 'add_alias': 'addAlias', M + 'add_alias_bufferify': 'addAlias', M + 'remove_alias': 'removeAlias', M + 'remove_alias_bufferify': 'removeAlias',
    M + 'is_allocator_name': 'isAllocator', M + 'is_allocator_name_bufferify': 'isAllocator', M + 'is_allocator_id': 'isAllocator', M + 'has_allocator': 'hasAllocator',
    M + 'copy_all': 'copy', M + 'copy_with_size': 'copy', M + 'memset_all': 'memset', M + 'memset_with_size': 'memset', M + 'reallocate_default': 'reallocate', M + 'reallocate_with_allocator': 'reallocate',
    M + 'move': 'move', M + 'deallocate': 'deallocate', M + 'get_size': 'getSize', M + 'deregister_allocation': 'deregisterAllocation',
}
MAKE = {'list_pool': 'DynamicPoolList', 'quick_pool': 'QuickPool', 'advisor': 'AllocationAdvisor', 'named': 'NamedAllocationStrategy', 'thread_safe': 'ThreadSafeAllocator', 'fixed_pool': 'FixedPool', 'prefetcher': 'AllocationPrefetcher'}
FREE = ('pointer_overlaps', 'pointer_contains', 'get_process_memory_usage', 'get_process_memory_usage_hwm', 'get_device_memory_usage', 'get_major_version', 'get_minor_version', 'get_patch_version')
CTORS = (AL + '::Allocator', AL + '::operator=', AL + '::~Allocator')


def opq(f):
    return (f.startswith(RM + '::') or f.startswith(AL + '::') and f not in CTORS and '::operator' not in f) or f in tuple('umpire::' + x for x in FREE + ('get_backtrace',))


def run(C):
    R = C.R
    R.rule('call', 'a C function makes exactly the one C++ call it stands for, on the object of its handle')
    R.rule('args', 'its arguments arrive in order, strings with their length, allocators as the object of their handle')
    R.rule('result', 'the result of the C++ call is what the C caller gets')
    R.rule('owner', 'what is handed over is marked with the destructor that releases it, exactly once')
    seen = 0
    for n, m in METHOD.items():
        for fn in C.P.find(n):
            if fn.get('body') is None:
                continue
            seen += 1
            forward(C, fn, m, A if n.startswith(A) else M)
        R.check('call', n, bool(C.P.find(n)), 'not there any more')
    for k, s in MAKE.items():
        for b in ('', 'bufferify_'):
            n = f"{M}make_allocator_{b}{k}"
            fs = [f for f in C.P.find(n) if f.get('body') is not None]
            R.check('call', n, bool(fs), 'not there any more')
            for fn in fs:
                seen += 1
                forward(C, fn, 'makeAllocator', M, s)
    R.need(seen, 'the C interface not found')
    for x in FREE:
        for fn in C.P.find('umpire_' + x):
            if fn.get('body') is not None:
                free(C, fn, 'umpire::' + x)
    register(C)
    instance(C)
    release(C)
    backtrace(C)
    copyout(C)


def expected(fn):
    """the C++ arguments the parameters of a C function stand for, and its result parameter"""
    ps = fn['params']
    out, res = [], None
    i = 0
    while i < len(ps):
        t, n = ps[i]['t'].replace('const ', ''), ps[i]['n']
        p = ('param', n)
        if i == 0 and t in ('s_umpire_allocator *', 's_umpire_resourcemanager *'):
            pass
        elif t in ('s_umpire_allocator *', 's_umpire_SHROUD_array *'):
            res = p
        elif t == 'char *':
            if '_bufferify' in fn['q'] and i + 1 < len(ps) and ps[i + 1]['t'] == 'int':
                out.append(('n', p, ('param', ps[i + 1]['n'])))
                i += 1
            else:
                out.append(('s', p))
        elif t == 's_umpire_allocator':
            out.append(('a', p))
        else:
            out.append(('v', p))
        i += 1
    return out, res


def given(w, v, p):
    if w[0] == 'v':
        return v == w[1]
    if w[0] == 's':
        return v == w[1] or v[0] == 'app' and v[1] == 'std::string' and v[2] == w[1] and len(v) == 4 and v[3][0] == 'app' and 'strlen' in v[3][1] and w[1] in v[3]
    if w[0] == 'n':
        return v[0] == 'app' and v[1] == 'std::string' and v[2] == w[1] and unext(v[3]) == w[2]
    return addr_of(v, w[1])


def unext(v):
    while v[0] in ('trunc', 'ext', 'cast', 'sext', 'zext'):
        v = v[-1]
    return v


def addr_of(v, p, kind='s_umpire_allocator::addr'):
    """the object the handle p refers to"""
    for a in (('proj', p, kind), ('init', ('fld', p, kind)), ('init', ('fld', ('addr', p), kind))):
        if v in (a, ('init', ('deref', a)), ('init', a), ('init', ('deref', ('init', a))), ('addr', ('deref', a))):
            return True
    return v[0] in ('init', 'deref', 'addr', 'snap') and len(v) == 2 and isinstance(v[1], tuple) and addr_of(v[1], p, kind) or v == kind


def cxx(p):
    return [e for e in p.calls() if opq(e.fn)]


def forward(C, fn, meth, pre, strat=None):
    R = C.R
    w = site(fn)
    want, res = expected(fn)
    cls = AL if pre == A else RM
    self_ = ('init', ('fld', ('param', fn['params'][0]['n']), ('s_umpire_allocator' if pre == A else 's_umpire_resourcemanager') + '::addr'))
    for p in C.paths(fn, opaque=opq):
        cs = cxx(p)
        if not R.check('call', w, p.kind == 'return' and len(cs) == 1 and cs[0].fn == cls + '::' + meth, f"calls {[e.fn for e in cs]} instead of {cls}::{meth}: {desc(p)}"):
            continue
        e = cs[0]
        R.check('call', w, e.obj == self_, f"on {pp(e.obj) if e.obj else None}")
        if strat:
            R.check('call', w, f"@{strat}#" in e.key or f"@{strat}>" in e.key, f"makes another allocator than a {strat}")
        args = e.args
        ok = len(args) >= len(want) and all(given(x, v, p) for x, v in zip(want, args))
        R.check('args', w, ok, f"passes ({', '.join(pp(a) for a in args)}) for ({', '.join(pp(x[1]) for x in want)})")
        if meth in ('copy', 'memset'):
            R.check('args', w, all(a == ZERO for a in args[len(want):]), f"a length of {[pp(a) for a in args[len(want):]]}")
        result(C, fn, p, e, res)


def result(C, fn, p, e, res):
    R = C.R
    w = site(fn)
    t = fn['rt']
    if res is not None and 'SHROUD_array' in [x['t'] for x in fn['params'] if x['n'] == res[1]][0]:
        text(C, fn, p, res, e.ret, 0, ('deref', e.ret))
        return
    if res is not None:
        a, d = ('fld', res, 's_umpire_allocator::addr'), ('fld', res, 's_umpire_allocator::idtor')
        obj = p.get(a)
        R.check('result', w, p.val == res, f"returns {pp(p.val)}")
        if R.check('result', w, obj[0] == 'newobj' and obj[2] == AL, f"hands out {pp(obj)}"):
            got = p.get(('deref', obj))
            R.check('result', w, got == e.ret or copyof(C, p, obj, e.ret), f"the allocator handed out is {pp(got)[:120]}, not the one of the call")
            R.check('owner', w, p.get(d) == ONE and not [x for x in p.calls() if x.fn == 'operator delete'], f"marked with {pp(p.get(d))}")
        return
    if t == 'void':
        return
    if 'char *' in t:
        R.check('result', w, p.val != ZERO and (p.val == e.ret or contains(p.val, e.ret)), f"returns {pp(p.val)}")
        return
    v = p.val
    tv = decide_bool(v, e.ret, p) if t == 'bool' else None
    R.check('result', w, unext(v) == e.ret or tv, f"returns {pp(v)}")


def copyof(C, p, obj, ret):
    """every field of a handed out allocator is that of the result"""
    ms = [l for l in p.mem if l[0] == 'fld' and l[1] == obj]
    return bool(ms) and all(contains(p.mem[l], ret) for l in ms if l[2].endswith('::m_allocator')) and any(l[2].endswith('::m_allocator') for l in ms)


def decide_bool(v, r, p):
    if v == r or v == ('not', EQ(r, ZERO)) or v == NE0(r):
        return True
    nz = isnull(r, p.facts)
    if v in (ZERO, ONE) and nz is not None:
        return (v == ONE) == (nz is False)
    return False


def NE0(r):
    return ('!=', r, ZERO)


def text(C, fn, p, arr, src, idtor, strloc):
    """the description of a C++ string left for the Fortran caller"""
    R = C.R
    w = site(fn)
    g = lambda *fs: [v for l, v in p.mem.items() if l[0] == 'fld' and l[2].split('::')[-1] == fs[-1] and contains(l, arr) and (len(fs) < 2 or any(x.split('::')[-1] == fs[0] for x in names(l)))]
    one = lambda xs: xs[0] if len(xs) == 1 else None
    addr, idt, cc, n = one(g('cxx', 'addr')), one(g('idtor')), one(g('ccharp')), one(g('elem_len'))
    if not R.check('result', w, None not in (addr, idt, cc, n), f"the text is incompletely described: {[(pp(l), pp(v)) for l, v in p.mem.items() if contains(l, arr)]}"):
        return
    R.check('result', w, addr == src, f"describes {pp(addr)}")
    empty = [tv for a, tv in p.facts.items() if a[0] == '==' and ZERO in a[1:] and any(x[0] == 'app' and x[1] in ('size', 'length', 'empty') and contains(x, src) for x in a[1:])]
    if cc == ZERO or n == ZERO:
        R.check('result', w, n == ZERO and True in empty, 'no text although it is not empty')
    else:
        R.check('result', w, n[0] == 'app' and n[1] in ('size', 'length') and contains(n, src) and cc != n and (contains(cc, src) or cc == p.get(('deref', src))), f"{pp(n)} characters at {pp(cc)}")
    R.check('owner', w, idt == ('int', idtor), f"marked with {pp(idt)}")


def names(l):
    out = []
    while isinstance(l, tuple) and l:
        if l[0] == 'fld':
            out.append(l[2])
        l = l[1] if len(l) > 1 else None
    return out


def free(C, fn, q):
    R = C.R
    w = site(fn)
    want, _ = expected(fn)
    for p in C.paths(fn, opaque=opq):
        cs = cxx(p)
        if R.check('call', w, p.kind == 'return' and len(cs) == 1 and cs[0].fn == q, f"calls {[e.fn for e in cs]} instead of {q}"):
            R.check('args', w, cs[0].args == tuple(x[1] for x in want), f"passes {[pp(a) for a in cs[0].args]}")
            result(C, fn, p, cs[0], None)


def register(C):
    R = C.R
    fn = C.fn(M + 'register_allocation')
    w = site(fn)
    self_, ptr, size, al = (('param', x['n']) for x in fn['params'])
    for p in C.paths(fn, opaque=opq):
        cs = [e for e in cxx(p) if e.fn == REG]
        if not R.check('call', w, p.kind == 'return' and len(cs) == 1 and cs[0].obj == ('init', ('fld', self_, 's_umpire_resourcemanager::addr')), f"registers {len(cs)} times"):
            continue
        e = cs[0]
        st = [x.ret for x in cxx(p) if x.fn == AL + '::getAllocationStrategy' and x.obj is not None and addr_of(x.obj, al)]
        rec = recfields(e.args[1])
        R.check('args', w, e.args[0] == ptr and rec.get('ptr') == ptr and rec.get('size') == size and rec.get('strategy') in st, f"registers {pp(e.args[0])} as {[(k, pp(v)) for k, v in rec.items()]}")


def instance(C):
    R = C.R
    fn = C.fn(M + 'get_instance')
    r = ('param', fn['params'][0]['n'])
    for p in C.paths(fn, opaque=opq):
        cs = cxx(p)
        ok = p.kind == 'return' and len(cs) == 1 and cs[0].fn == RM + '::getInstance' and p.val == r and p.get(('fld', r, 's_umpire_resourcemanager::addr')) == cs[0].ret
        R.check('result', site(fn), ok, 'not the resource manager')
        R.check('owner', site(fn), p.get(('fld', r, 's_umpire_resourcemanager::idtor')) == ZERO, 'the resource manager is marked as owned by the caller')


def release(C):
    R = C.R
    fn = C.fn(A + 'delete')
    s = ('param', fn['params'][0]['n'])
    loc = ('fld', s, 's_umpire_allocator::addr')
    for p in C.paths(fn, opaque=opq):
        ds = [e for e in p.calls() if e.fn == 'operator delete']
        null = isnull(('init', loc), p.facts) is True
        R.check('owner', site(fn), p.kind == 'return' and (len(ds) == 1 and ds[0].args[0] == ('init', loc) or null and not ds) and p.get(loc) == ZERO, f"{len(ds)} deletions, leaves {pp(p.get(loc))}")
    fn = C.fn('umpire_SHROUD_memory_destructor')
    c = ('param', fn['params'][0]['n'])
    K = 's_umpire_SHROUD_capsule_data::'
    ad, idt = ('fld', c, K + 'addr'), ('fld', c, K + 'idtor')
    seen = {}
    for p in C.paths(fn, opaque=opq):
        ds = [e for e in p.calls() if e.fn == 'operator delete']
        R.check('owner', site(fn), p.kind == 'return' and p.get(ad) == ZERO and p.get(idt) == ZERO, 'it can be released a second time')
        for k in (0, 1, 2):
            if consistent(p, {('init', idt): k}) is False:
                continue
            null = isnull(('init', ad), p.facts) is True
            ty = [e.extra for e in ds]
            seen[k] = seen.get(k, 0) + 1
            if k == 0:
                R.check('owner', site(fn), not ds, 'something not owned is deleted')
            else:
                R.check('owner', site(fn), null and not ds or len(ds) == 1 and ds[0].args[0] == ('init', ad), f"{len(ds)} deletions of kind {k}")
                for t in ty:
                    if isinstance(t, str):
                        R.check('owner', site(fn), (AL in t) if k == 1 else ('string' in t), f"kind {k} deleted as {t}")
    R.check('owner', site(fn), set(seen) == {0, 1, 2}, f"kinds {sorted(seen)} handled")


def backtrace(C):
    R = C.R
    for fn in C.P.find('umpire_get_backtrace_bufferify'):
        ptr, arr = (('param', x['n']) for x in fn['params'])
        for p in C.paths(fn, opaque=opq):
            cs = cxx(p)
            if R.check('call', site(fn), p.kind == 'return' and len(cs) == 1 and cs[0].args == (ptr,), f"calls {[e.fn for e in cs]}"):
                new = [e.ret for e in p.calls() if e.fn == 'operator new']
                if R.check('result', site(fn), len(new) == 1 and p.get(('deref', new[0])) == cs[0].ret, 'the text is not the one of the call'):
                    text(C, fn, p, arr, new[0], 2, None)


def copyout(C):
    R = C.R
    for fn in C.P.find('umpire_ShroudCopyStringAndFree'):
        w = site(fn)
        data, dst, room = (('param', x['n']) for x in fn['params'])
        n = ('init', ('fld', data, 's_umpire_SHROUD_array::elem_len'))
        for p in C.paths(fn, opaque=('umpire_SHROUD_memory_destructor',)):
            ev = [e for e in p.calls() if e.fn.split('::')[-1] in COPY or e.fn == 'umpire_SHROUD_memory_destructor']
            cp, fr = [e for e in ev if e.fn.split('::')[-1] in COPY], [e for e in ev if e.fn == 'umpire_SHROUD_memory_destructor']
            R.check('owner', w, p.kind == 'return' and len(fr) == 1 and ev[-1] is fr[0] and fr[0].args[0][-1] == ('fld', data, 's_umpire_SHROUD_array::cxx'), 'the text is not released once, after it has been copied')
            for a in range(4):
                for b in range(4):
                    asg = {n: a, room: b}
                    if consistent(p, asg) is False:
                        continue
                    got = sum(evaluate(e.args[2], asg) or 0 for e in cp)
                    R.check('result', w, got == min(a, b), f"copies {got} of {a} characters into {b}")
            for e in cp:
                R.check('result', w, e.args[0] == dst and 'ccharp' in pp(e.args[1]) and contains(e.args[1], data), f"copies {pp(e.args[1])} to {pp(e.args[0])}")


COPY = ('strncpy', 'memcpy', 'memmove')
