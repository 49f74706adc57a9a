from front import *

TECHNIQUE = ("lock-set dataflow over every path of the allocator handle's allocate and release operations, normal and exceptional, plus the construction of the handle "
             "that decides whether and which lock is used")
ASSUMPTIONS = ["std::mutex and the standard lock holders behave as specified", "the wrapped allocator is only used through thread-safe handles",
               "queries (sizes, counts) are not part of the guarantee"]

TSA = 'umpire::strategy::ThreadSafeAllocator'


def run(C):
    R = C.R
    R.rule('guarded', 'with a thread-safe allocator every use of the strategy, its statistics and the registration of the result happen under the allocator lock')
    R.rule('atomic', 'the lock is taken once per operation')
    R.rule('released', 'no lock is still held when the operation returns or throws')
    R.rule('handle', 'a handle of a thread-safe allocator locks the mutex that belongs to that allocator; copies keep it')
    R.rule('zero-byte', 'the zero-byte pool, which all allocators share, is only used under one process-wide lock')
    R.rule('forward', 'the thread-safe strategy passes each request to its parent unchanged')
    mutex = ('deref', ('init', ('fld', ('this',), AL + '::m_thread_safe_mutex')))
    zlocks = []
    n = 0
    for fn in C.fns(AL + '::allocate') + C.fns(AL + '::deallocate'):
        for p in C.paths(fn, opaque=FRONT, throws=throwing(OOM, SA, SN, SD, REG, DEREG, ZA, ZD)):
            w = site(fn)
            for e in p.events(kind='lock'):
                R.check('atomic', site(fn, e), e.val not in e.locks, f"{pp(e.val)} requested while it is held")
            R.check('released', w, not p.locks, f"{[pp(x) for x in p.locks]} still held on {p.kind}")
            for e in p.calls():
                if e.fn in (ZA, ZD, ZF):
                    zlocks.append((e, fn, frozenset(l for l in e.locks if l[0] == 'gvar')))
            if truthy(SAFE, p.facts) is False:
                continue
            ev = [e for e in p.events() if e.kind == 'call' and e.fn in (SA, SN, SD, REG, DEREG, ZA, ZD, ZF)
                  or e.kind == 'write' and e.loc[0] == 'fld' and e.loc[1][0] in ('init', 'this')]
            for e in ev:
                n += 1
                R.check('guarded', site(fn, e), mutex in e.locks, f"{short(e) if e.kind == 'call' else 'write of ' + pp(e.loc)} without the allocator lock: {desc(p)}")
            nl = [e for e in p.events(kind='lock') if e.val == mutex]
            R.check('atomic', w, len(nl) <= 1, f"the allocator lock is taken {len(nl)} times in one operation")
    R.need(n, 'no thread-safe path found')
    R.expect(zlocks, 'the zero-byte pool is not used')
    common = frozenset.intersection(*[l for _, _, l in zlocks])
    R.check('zero-byte', AL, bool(common), f"uses of the shared zero-byte pool have no common process-wide lock, e.g. {site(zlocks[0][1], zlocks[0][0])}")
    # ---- the handle
    fn = C.fn(AL + '::Allocator', 1, types=[AS + ' *'])
    src = ('param', fn['params'][0]['n'])
    cast = ('dyncast', TSA + ' *', src)
    for p in C.paths(fn):
        safe = truthy(p.get(SAFE[1]), p.facts)
        is_ts = isnull(cast, p.facts)
        mx = p.get(mutex[1][1])
        if is_ts is None or safe is None:
            R.check('handle', site(fn), False, f"whether the handle locks is decided by {pp(p.get(SAFE[1]))}")
        elif is_ts is False:
            R.check('handle', site(fn), safe is True, 'a thread-safe allocator gets a handle that does not lock')
            R.check('handle', site(fn), mx == ('addr', ('fld', cast, TSA + '::m_mutex')), f"the handle locks {pp(mx)}")
        else:
            R.check('handle', site(fn), safe is False, 'an ordinary allocator gets a handle that locks nothing it owns')
        R.check('handle', site(fn), p.get(STRAT[1]) == src, f"the handle uses {pp(p.get(STRAT[1]))}")
    for f in [f for f in C.fns(AL + '::Allocator', 1) if 'Allocator &' in f['params'][0]['t']] + C.P.find(AL + '::operator=', 1):
        for p in C.paths(f):
            vals = [p.get(('fld', ('this',), AL + '::' + m)) for m in ('m_allocator', 'm_tracking', 'm_thread_safe', 'm_thread_safe_mutex')]
            ok = all(v[0] == 'init' and v[1][0] == 'fld' and v[1][1] != ('this',) and v[1][2].endswith(m) for v, m in zip(vals, ('m_allocator', 'm_tracking', 'm_thread_safe', 'm_thread_safe_mutex')))
            R.check('handle', site(f), ok, f"a copied handle has {[pp(v) for v in vals]}")
    # ---- the strategy
    par = None
    fn = C.fn(TSA + '::allocate', 1)
    INT_ = (AS + '::allocate_internal', AS + '::deallocate_internal')
    for q in ('allocate', 'deallocate'):
        fn = C.fn(TSA + '::' + q)
        for p in C.paths(fn, opaque=INT_):
            cs = [e for e in p.calls() if e.fn in INT_]
            ok = len(cs) == 1 and cs[0].args == tuple(('param', x['n']) for x in fn['params']) and cs[0].obj == ('init', ('fld', ('this',), TSA + '::m_allocator'))
            R.check('forward', site(fn), ok and short(cs[0]) == q + '_internal', f"forwards {[(short(e), [pp(x) for x in e.args]) for e in cs]}")
            if q == 'allocate':
                R.check('forward', site(fn), bool(cs) and p.val == cs[0].ret, f"returns {pp(p.val)}")
