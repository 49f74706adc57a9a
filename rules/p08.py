from front import *

TECHNIQUE = ("trace-partitioned abstract interpretation of every function that updates allocator statistics; final values of current size, count and high watermark are "
             "compared with the specification on every normal and exceptional path")
ASSUMPTIONS = ["a release that throws is outside the guarantee", "pools that report their own sizes are judged by P11/P15", "one thread per allocator, or a thread-safe one (P06)"]


def run(C):
    R = C.R
    R.rule('allocated', 'a successful allocation adds its size once, one to the count, and raises the watermark to the largest current size')
    R.rule('failed', 'a failed allocation leaves all statistics as they were')
    R.rule('released', 'a release takes the recorded size and one allocation away and never lowers the watermark')
    R.rule('untracked', 'an allocator with tracking off counts nothing in its handle')
    R.rule('nothing-else', 'no other statistics are touched')
    R.rule('query', 'the queries report exactly these numbers')
    S = Stats(C)
    # ---- as a parent
    for q in ('allocate_internal', 'allocate_named_internal'):
        fn = C.fn(AS + '::' + q)
        n = ('param', fn['params'][-1]['n'])
        threw = False
        for p in C.paths(fn, opaque=(SN,), throws=throwing('umpire::runtime_error', SA, SN)):
            w = site(fn)
            if p.kind == 'throw':
                threw = True
                R.check('failed', w, S.unchanged(p, ('this',)), f"after a failed allocation: {[(pp(l), pp(p.mem[l])) for l in S.changed(p)]}")
                continue
            why = S.grown(p, ('this',), n)
            R.check('allocated', w, why is None, why or '')
            cs = [e for e in p.calls() if e.fn in (SA, SN)]
            R.check('allocated', w, len(cs) == 1 and cs[0].args[-1] == n and p.val == cs[0].ret and cs[0].obj == ('this',), 'the memory is not obtained once from the strategy itself')
            if q == 'allocate_named_internal':
                R.check('allocated', w, bool(cs) and cs[0].fn == SN and cs[0].args[0] == ('init', ('deref', ('param', fn['params'][0]['n']))), 'the name is not passed on')
        R.expect(threw, f"{q}: failure not seen")
    fn = C.fn(AS + '::deallocate_internal', 2)
    a, n = (('param', q['n']) for q in fn['params'])
    for p in C.paths(fn):
        why = S.shrunk(p, ('this',), n)
        R.check('released', site(fn), why is None, why or '')
        cs = [e for e in p.calls() if e.fn == SD]
        R.check('released', site(fn), len(cs) == 1 and cs[0].args == (a, n) and cs[0].obj == ('this',), 'the memory is not released once')
    # ---- through a handle
    for fn in C.fns(AL + '::allocate'):
        n = ('param', fn['params'][-1]['n'])
        for p in C.paths(fn, opaque=FRONT, throws=throwing('umpire::runtime_error', SA, SN, ZA)):
            w = site(fn)
            tr = truthy(TRACK, p.facts)
            if p.kind == 'throw':
                R.check('failed', w, not S.changed(p), f"after a failed allocation: {[(pp(l), pp(p.mem[l])) for l in S.changed(p)]}")
            elif tr is False:
                R.check('untracked', w, not S.changed(p), 'an untracked allocation is counted in the handle')
            else:
                why = S.grown(p, STRAT, n)
                R.check('allocated', w, why is None, (why or '') + ': ' + desc(p))
                R.check('nothing-else', w, all(l[1] == STRAT for l in S.changed(p)), f"{[pp(l) for l in S.changed(p)]} changed")
    fn = C.fn(AL + '::deallocate', 1)
    ptr = ('param', fn['params'][0]['n'])
    for p in C.paths(fn, opaque=FRONT):
        w = site(fn)
        der = [e for e in p.calls() if e.fn == DEREG]
        if p.kind == 'throw' or isnull(ptr, p.facts) is True or truthy(TRACK, p.facts) is False:
            R.check('released', w, not S.changed(p), f"{[(pp(l), pp(p.mem[l])) for l in S.changed(p)]} although nothing tracked was released: {desc(p)}")
            continue
        R.expect(der, 'release without a record')
        why = S.shrunk(p, STRAT, ('proj', der[0].ret, 'umpire::util::AllocationRecord::size'))
        R.check('released', w, why is None, why or '')
        R.check('nothing-else', w, all(l[1] == STRAT for l in S.changed(p)), f"{[pp(l) for l in S.changed(p)]} changed")
    # ---- queries
    for q, own in (('getCurrentSize', 0), ('getHighWatermark', 1), ('getAllocationCount', 2)):
        fn = C.fn(AL + '::' + q, 0)
        for p in C.paths(fn):
            cs = [e for e in p.calls() if e.fn == AS + '::' + q]
            R.check('query', site(fn), p.val == ('init', S.locs(STRAT)[own]) or (len(cs) == 1 and cs[0].obj == STRAT and p.val == cs[0].ret), f"{q} answers {pp(p.val)}")
    fn = C.fn(AL + '::getActualSize', 0)
    for p in C.paths(fn):
        cs = [e for e in p.calls() if e.fn == AS + '::getActualSize']
        R.check('query', site(fn), len(cs) == 1 and cs[0].obj == STRAT and p.val == cs[0].ret, f"getActualSize answers {pp(p.val)}")
    # who else writes them?
    R.rule('writers', 'only the functions above, and resource reallocation (P19), write the statistics')
    stats = {S.cur, S.high, S.count}
    for f in C.P.fns.values():
        for line, q in field_writes(f):
            if q in stats:
                R.check('writers', site(f, line), f['q'] in R.funcs or f['q'].startswith('umpire::op::') or f.get('mk') == 'ctor', f"{f['q']} changes {q.split('::')[-1]}")
    R.rule('own-figures', 'no kind of allocator replaces these figures by its own, except pools that hand out a fixed capacity and resources without memory of their own')
    own = {FP, 'umpire::strategy::MonotonicAllocationStrategy', 'umpire::resource::NullMemoryResource', 'umpire::resource::NoOpMemoryResource'}
    n = 0
    for q, k in (('getCurrentSize', 0), ('getHighWatermark', 1), ('getAllocationCount', 2)):
        for f in C.P.fns.values():
            cls = f['q'].rsplit('::', 1)[0]
            if not f['q'].endswith('::' + q) or f.get('mk') == 'ctor' or AS not in C.P.bases(cls):
                continue
            n += 1
            if cls in own and k != 2:
                continue
            for p in C.paths(f, dyn=cls):
                cs = [e for e in p.calls() if e.fn == AS + '::' + q]
                R.check('own-figures', site(f), p.val == ('init', S.locs(('this',))[k]) or cs and p.val == cs[-1].ret, f"{cls}::{q} answers {pp(p.val)}")
    R.need(n >= 3, 'the statistics queries were not found')
