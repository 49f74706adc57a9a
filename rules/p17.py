from front import *

TECHNIQUE = ("trace-partitioned abstract interpretation of the allocator handle and the registry facade; on every path the obtained pointer, the registration, "
             "the removal and the release are paired and their arguments compared as value numbers")
ASSUMPTIONS = ["a strategy's own allocate/deallocate is judged by its own property", "the registry behaves as specified by P01/P02"]


def run(C):
    R = C.R
    R.rule('register', 'a successful tracked allocation is registered once, with the returned address, requested size, owning allocator and name')
    R.rule('untracked', 'an allocator with tracking off touches the registry neither on allocation nor on release')
    R.rule('failed', 'a failed allocation registers nothing')
    R.rule('release', 'a tracked release removes the record first and releases exactly that address with the recorded size')
    R.rule('foreign', 'releasing an address another allocator owns leaves it registered to its owner and throws without releasing')
    R.rule('facade', 'queries by address answer from the record the registry holds')
    for fn in C.fns(AL + '::allocate'):
        bytes_ = ('param', fn['params'][-1]['n'])
        name = ('init', ('deref', ('param', fn['params'][0]['n']))) if len(fn['params']) == 2 else None
        seen = set()
        for thr in (OOM, 'umpire::runtime_error'):
            for p in C.paths(fn, opaque=FRONT, throws=throwing(thr, SA, SN)):
                w = site(fn)
                tr = truthy(TRACK, p.facts)
                regs = [e for e in p.calls() if e.fn == REG]
                der = [e for e in p.calls() if e.fn == DEREG]
                R.check('register', w, not der, 'an allocation removes a record')
                if p.kind == 'throw':
                    R.check('failed', w, not regs, 'a failed allocation leaves a record: ' + desc(p))
                    continue
                got = [e for e in p.calls() if e.fn in (SA, SN, ZA) and not e.threw]
                if not R.check('register', w, len(got) == 1 and p.val == got[0].ret, f"returns {pp(p.val)}, obtained {[pp(e.ret) for e in got]}"):
                    continue
                if tr is False:
                    seen.add('untracked')
                    R.check('untracked', w, not regs, 'an allocator with tracking off registers its allocation')
                    continue
                if tr is None and not regs:
                    R.check('register', w, False, 'allocation is not registered: ' + desc(p))
                    continue
                seen.add('tracked')
                if not R.check('register', w, len(regs) == 1, f"{len(regs)} registrations for one allocation: {desc(p)}"):
                    continue
                e = regs[0]
                f = recfields(e.args[1])
                R.check('register', site(fn, e), e.args[0] == p.val and f.get('ptr') == p.val, f"registers {pp(e.args[0])} / {pp(f.get('ptr'))} instead of the returned address")
                R.check('register', site(fn, e), f.get('size') == bytes_, f"registers size {pp(f.get('size'))} instead of the requested one")
                R.check('register', site(fn, e), f.get('strategy') == STRAT, f"registers owner {pp(f.get('strategy'))}")
                if name is not None:
                    R.check('register', site(fn, e), strip_copy(f.get('name')) == name, f"registers name {pp(f.get('name'))}")
                i = p.trace.index(e)
                R.check('register', site(fn, e), i > p.trace.index(got[0]), 'registered before the memory was obtained')
        R.expect(seen == {'tracked', 'untracked'}, f"{fn['q']}: tracked and untracked allocation not both seen")
    # ---- release
    fn = C.fn(AL + '::deallocate', 1)
    ptr = ('param', fn['params'][0]['n'])
    seen = set()
    for p in C.paths(fn, opaque=FRONT):
        w = site(fn)
        tr = truthy(TRACK, p.facts)
        der = [e for e in p.calls() if e.fn == DEREG]
        regs = [e for e in p.calls() if e.fn == REG]
        rel = [e for e in p.calls() if e.fn in (SD, ZD)]
        if isnull(ptr, p.facts) is True:
            continue
        if tr is False:
            seen.add('untracked')
            R.check('untracked', w, not der and not regs, 'an allocator with tracking off changes the registry on release')
            R.check('release', w, len(rel) == 1 and rel[0].args[0] == ptr, f"releases {[pp(e.args[0]) for e in rel]}")
            continue
        if not R.check('release', w, len(der) == 1 and der[0].args == (ptr,), f"the record is removed {len(der)} times: {desc(p)}"):
            continue
        rec = der[0].ret
        owner = ('proj', rec, 'umpire::util::AllocationRecord::strategy')
        size = ('proj', rec, 'umpire::util::AllocationRecord::size')
        same = decide(EQ(owner, STRAT), p.facts)
        if same is False:
            seen.add('foreign')
            f = recfields(regs[0].args[1]) if regs else {}
            whole = regs and regs[0].args[1] == rec
            R.check('foreign', w, p.kind == 'throw' and not rel, f"a foreign address is released ({p.kind})")
            R.check('foreign', w, len(regs) == 1 and regs[0].args[0] == ptr, 'a foreign address is left unregistered')
            if f and not whole:
                R.check('foreign', w, f.get('ptr') in (ptr, projf(rec, 'ptr')) and f.get('size') == size and f.get('strategy') == owner and strip_copy(f.get('name')) == projf(rec, 'name'),
                        f"the record put back differs: {[(k, pp(v)) for k, v in f.items()]}")
            continue
        if not R.check('foreign', w, same is True, 'the owner of the address is not tested: ' + desc(p)):
            continue
        seen.add('own')
        R.check('release', w, p.kind == 'return' and not regs, 'an own address is not released')
        if R.check('release', w, len(rel) == 1 and rel[0].args[0] == ptr, f"releases {[pp(e.args[0]) for e in rel]}"):
            e = rel[0]
            R.check('release', w, p.trace.index(e) > p.trace.index(der[0]), 'the memory is released while its record still exists')
            if e.fn == SD:
                R.check('release', w, e.args[1] == size and e.obj == STRAT, f"released with size {pp(e.args[1])} to {pp(e.obj)}")
    R.expect(seen == {'untracked', 'foreign', 'own'}, f"release outcomes not all seen: {seen}")
    # ---- facade
    INS, REM, FND, CON = (AM + '::' + x for x in ('insert', 'remove', 'find', 'contains'))
    OPQ = (INS, REM, FND, CON, AM + '::findRecord')
    fn = C.fn(REG, 2)
    a, r = (('param', q['n']) for q in fn['params'])
    for p in C.paths(fn, opaque=OPQ):
        ins = [e for e in p.calls() if e.fn == INS]
        if isnull(a, p.facts) is True:
            R.check('facade', site(fn), p.kind == 'throw' and not ins, 'the null address is registered')
        else:
            R.check('facade', site(fn), p.kind == 'return' and len(ins) == 1 and ins[0].args == (a, r), f"registers {[tuple(pp(x) for x in e.args) for e in ins]}")
    fn = C.fn(DEREG, 1)
    for p in C.paths(fn, opaque=OPQ):
        rm = [e for e in p.calls() if e.fn == REM]
        R.check('facade', site(fn), p.kind == 'return' and len(rm) == 1 and rm[0].args[0] == ('param', fn['params'][0]['n']) and p.val == rm[0].ret, 'removal does not return the removed record')
    for q, field in ((RM + '::getSize', 'size'), (RM + '::findAllocatorForPointer', 'strategy'), (RM + '::findAllocationRecord', None)):
        fn = C.fn(q, 1)
        for p in C.paths(fn, opaque=OPQ):
            f = [e for e in p.calls() if e.fn == FND]
            ok = len(f) == 1 and f[0].args[0] == ('param', fn['params'][0]['n'])
            R.check('facade', site(fn), ok, f"{fn['q']} does not look the given address up")
            if not ok:
                continue
            own = ('init', ('fld', f[0].ret, 'umpire::util::AllocationRecord::strategy'))
            if p.kind == 'throw':
                R.check('facade', site(fn), field != 'size' and isnull(own, p.facts) is True, 'a registered address is refused: ' + desc(p))
            else:
                want = f[0].ret if field is None else ('init', ('fld', f[0].ret, 'umpire::util::AllocationRecord::' + field))
                R.check('facade', site(fn), p.val == want, f"answers {pp(p.val)} instead of the record's {field or 'address'}")
    fn = C.fn(RM + '::hasAllocator', 1)
    for p in C.paths(fn, opaque=OPQ):
        f = [e for e in p.calls() if e.fn in (CON, AM + '::findRecord')]
        R.check('facade', site(fn), len(f) == 1 and f[0].args[0] == ('param', fn['params'][0]['n']) and (p.val == f[0].ret or truthy(p.val, p.facts) == truthy(f[0].ret, p.facts) is not None or contains(p.val, f[0].ret)), f"answers {pp(p.val)}")
    fn = C.fn(AL + '::getSize', 1)
    for p in C.paths(fn, opaque=OPQ):
        f = [e for e in p.calls() if e.fn == FND]
        R.check('facade', site(fn), len(f) == 1 and f[0].args[0] == ('param', fn['params'][0]['n']) and p.val == ('init', ('fld', f[0].ret, 'umpire::util::AllocationRecord::size')), f"answers {pp(p.val)}")
    fn = C.fn(RM + '::deallocate', 1)
    for p in C.paths(fn, opaque=OPQ + (AL + '::deallocate', AL + '::Allocator')):
        d = [e for e in p.calls() if e.fn == AL + '::deallocate']
        if p.kind == 'return':
            R.check('facade', site(fn), len(d) == 1 and d[0].args[0] == ('param', fn['params'][0]['n']), 'the address is not released through its allocator')
            f = [e for e in p.calls() if e.fn == FND]
            own = f and ('init', ('fld', f[0].ret, 'umpire::util::AllocationRecord::strategy'))
            R.check('facade', site(fn), own and d and (contains_any(p, d[0], own)), 'the releasing allocator is not the recorded owner')


def contains_any(p, d, own):
    for e in p.calls():
        if e.fn == AL + '::Allocator' and own in e.args:
            return True
    return any(contains(v, own) for v in p.mem.values()) or contains(d.obj, own)


def projf(rec, f):
    return ('proj', rec, 'umpire::util::AllocationRecord::' + f)


def strip_copy(v):
    while v is not None and v[0] == 'obj' and len(v) == 3 and len(v[2]) == 1:
        v = v[2][0]
    return v
