from front import *

TECHNIQUE = ("abstract interpretation of the inspection functions down to the registry's operations; the overlap and containment predicates are decided over every ordering of "
             "the two allocations' bounds, the selection of records over both truth values of ownership")
ASSUMPTIONS = ["the registry finds, registers and removes as P01/P02 decide, and is walked as P03 decides", "base+size does not wrap around the address space"]

AM = 'umpire::util::AllocationMap'
REC = 'umpire::util::AllocationRecord'
FIND = (AM + '::find', AM + '::findRecord')
ITER = tuple(AM + '::' + x for x in ('begin', 'end', 'ConstIterator::operator++', 'ConstIterator::operator!=', 'ConstIterator::operator==', 'ConstIterator::operator*', 'ConstIterator::operator->'))
UNKNOWN = 'umpire::unknown_pointer_error'


def run(C):
    R = C.R
    R.rule('overlap', 'overlap: the right allocation starts inside the left one and ends beyond it')
    R.rule('contain', 'containment: the right allocation starts inside the left one and ends inside it')
    R.rule('unknown', 'an unregistered address is an error')
    R.rule('records', 'exactly the registered records of the allocator are reported, each once, unchanged')
    R.rule('external', 'an external allocation is registered and removed with exactly the given address and record')
    R.rule('coalesce', 'coalescing is done once by the pools that support it and refused for everything else')
    R.rule('default', 'malloc and free use the default allocator and the owner of the address')
    for q, rule, want in (('umpire::pointer_overlaps', 'overlap', lambda l, ls, r, rs: l <= r < l + ls < r + rs), ('umpire::pointer_contains', 'contain', lambda l, ls, r, rs: l <= r < l + ls and r + rs <= l + ls)):
        bounds(C, C.fn(q, 2), rule, want)
    for q in ('umpire::get_allocator_records', 'umpire::get_leaked_allocations'):
        records(C, C.fn(q, 1))
    external(C)
    coalesce(C)
    default(C)


def bounds(C, fn, rule, want):
    R = C.R
    a, b = (('param', x['n']) for x in fn['params'])
    threw = seen = 0
    for p in C.paths(fn, opaque=FIND, throws=throwing(UNKNOWN, *FIND)):
        fs = [e for e in p.calls() if e.fn in FIND]
        if [e for e in fs if e.threw]:
            threw += 1
            R.check('unknown', site(fn), p.kind == 'throw' and exc_type(p) == UNKNOWN, f"an unregistered address ends as {exc_type(p) or p.kind}")
            continue
        recs = {x.args[0]: x.ret for x in fs}
        if p.kind == 'throw':
            nostrat = [r for r in recs.values() if isnull(('init', ('fld', r, REC + '::strategy')), p.facts) is True]
            absent = [x for x in fs if isnull(x.ret, p.facts) is True]
            R.check(rule, site(fn), nostrat or absent, f"registered addresses end as {exc_type(p)}: {desc(p)}")
            continue
        if not R.check(rule, site(fn), set(recs) <= {a, b} and recs, f"looks up {[pp(x) for x in recs]}"):
            continue
        t = truthy(p.val, p.facts)
        def fld(r, k):
            return ('init', ('fld', r, REC + '::' + k))
        rl, rr = recs.get(a), recs.get(b)
        bad = []
        n = 0
        for l in range(0, 5):
            for ls in range(0, 4):
                for r in range(0, 5):
                    for rs in range(0, 4):
                        if rl == rr and (l, ls) != (r, rs):
                            continue
                        env = {}
                        if rl is not None:
                            env.update({fld(rl, 'ptr'): l + 10, fld(rl, 'size'): ls})
                        if rr is not None:
                            env.update({fld(rr, 'ptr'): r + 10, fld(rr, 'size'): rs})
                        if not consistent(p, env):
                            continue
                        v = t
                        if v is None:
                            try:
                                v = bool(evaluate(p.val, env))
                            except Unk as x:
                                raise Anchor(f"{fn['q']} depends on {pp(x.args[0])[:200]}")
                        n += 1
                        if v != want(l, ls, r, rs):
                            bad.append((l, ls, r, rs, v))
        seen += n
        R.check(rule, site(fn), not bad, f"answers {bad[0][4] if bad else ''} for (left, size, right, size) = {bad[0][:4] if bad else ''}: {desc(p)}")
    R.expect(threw and seen, f"{fn['q']}: lookups not seen")


def records(C, fn):
    R = C.R
    ps = C.paths(fn, opaque=ITER)
    n = 0
    for p in ps:
        w = site(fn)
        if not R.check('records', w, p.kind == 'return', f"ends in {exc_type(p)}"):
            continue
        bs = [e for e in p.calls() if e.fn == AM + '::begin']
        lps = [e for e in p.trace if e.kind == 'loop']
        R.check('records', w, len(bs) == 1 or not bs and any('m_allocations' in pp((lp.extra or {}).get('range') or ZERO) for lp in lps), f"walks the registry {len(bs)} times")
        less = [e for e in p.calls() if e.fn.startswith('std::') and e.fn.split('::')[-1] in ('erase', 'pop_back', 'clear', 'resize', 'assign', 'remove_if', 'unique', 'swap')]
        R.check('records', w, not less, f"records are taken out again: {[e.fn for e in less]}")
        top = [e for e in p.trace if e.kind == 'call' and adds(e)]
        R.check('records', w, not top, 'adds a record that is not from the walk')
        for lp in lps:
            for it in lp.iters:
                cur = {e.ret: e.obj for e in it.trace if e.kind == 'call' and e.fn.split('::')[-1] in ('operator*', 'operator->')}
                pushed = [e for e in it.trace if e.kind == 'call' and adds(e)]
                own = [(a, tv) for a, tv in it.facts.items() if a[0] == '==' and any(is_strat(x) for x in a[1:])]
                other = [a for a in it.facts if any(x[0] == 'fld' and str(x[2]).startswith(REC) and not str(x[2]).endswith('::strategy') for x in subterms(a))]
                R.check('records', w, not other, f"the selection depends on {pp(other[0]) if other else ''}")
                if it.kind not in ('iter', 'normal', 'continue'):
                    R.check('records', w, not pushed and not own, f"the walk ends early: {it.kind}")
                    continue
                if not own:
                    R.check('records', w, not pushed, 'reports a record whoever owns it')
                    continue
                n += 1
                a, tv = own[0]
                el = [x for x in a[1:] if is_strat(x)][0]
                me = [x for x in a[1:] if x != el]
                R.check('records', w, me and is_handle(me[0], fn), f"compares the owner with {pp(me[0]) if me else ''}")
                R.check('records', w, len(pushed) == (1 if tv else 0), f"a record {'of' if tv else 'not of'} this allocator is reported {len(pushed)} times")
                base = ident(el, cur)
                for e in pushed:
                    v = e.args[0]
                    rf = recfields(v)
                    same = all(ident(x, cur) == base for x in rf.values()) if rf else ident(v, cur) == base
                    R.check('records', w, same, f"reports {pp(v)} instead of the record")
    R.expect(n >= 2, f"{fn['q']}: the selection was not seen")


def ident(v, cur):
    """which element of the walk a value is (part of)"""
    while isinstance(v, tuple) and v not in cur and v[0] in ('init', 'fld', 'deref', 'addr', 'loopv', 'proj'):
        v = v[2] if v[0] == 'loopv' else v[1]
    return cur.get(v, v)


def adds(e):
    return e.fn.split('::')[-1] in ('push_back', 'emplace_back', 'insert') and e.fn.startswith('std::')


def is_strat(x):
    return x[0] in ('init', 'loopv') and any(isinstance(y, tuple) and y[0] == 'fld' and y[2] == REC + '::strategy' for y in x[1:])


def is_handle(v, fn):
    return any(isinstance(t, tuple) and t and t[0] in ('fld', 'proj') and t[-1] == AL + '::m_allocator' for t in subterms(v)) or contains(v, ('param', fn['params'][0]['n']))


def external(C):
    R = C.R
    fn = C.fn('umpire::register_external_allocation', 2)
    a, r = (('param', x['n']) for x in fn['params'])
    for p in C.paths(fn, opaque=(AM + '::insert', 'umpire::event::record')):
        if p.kind == 'throw':
            R.check('external', site(fn), isnull(a, p.facts) is True or any('strategy' in pp(f) for f in p.facts), f"refused: {desc(p)}")
            continue
        es = [e for e in p.calls() if e.fn == AM + '::insert']
        ok = len(es) == 1 and es[0].args[0] == a and (es[0].args[1] == r or contains(es[0].args[1], r) and all(contains(x, r) for x in recfields(es[0].args[1]).values()))
        R.check('external', site(fn), ok, f"registers {[tuple(pp(x) for x in e.args) for e in es]}")
    fn = C.fn('umpire::deregister_external_allocation', 1)
    a = ('param', fn['params'][0]['n'])
    for p in C.paths(fn, opaque=(AM + '::remove', 'umpire::event::record')):
        es = [e for e in p.calls() if e.fn == AM + '::remove']
        R.check('external', site(fn), p.kind == 'return' and len(es) == 1 and es[0].args == (a,), f"removes {[tuple(pp(x) for x in e.args) for e in es]}")
        R.check('external', site(fn), es and (p.val == es[0].ret or contains(p.val, es[0].ret)), f"returns {pp(p.val)}")


def coalesce(C):
    R = C.R
    S = 'umpire::strategy::'
    POOLS = {S + 'QuickPool', S + 'DynamicPoolList'}
    co = tuple(x + '::coalesce' for x in POOLS)
    for q in ('umpire::try_coalesce', 'umpire::coalesce'):
        fn = C.fn(q, 1)
        for p in C.paths(fn, opaque=co):
            w = site(fn)
            casts = {t for a in p.facts for t in subterms(a) if t[0] == 'dyncast'}
            hit = {t[1].replace(' *', '').replace('const ', ''): isnull(t, p.facts) for t in casts}
            R.check('coalesce', w, set(hit) <= POOLS and all(is_handle(t[2], fn) for t in casts), f"tests for {sorted(hit)}")
            is_ = {k for k, v in hit.items() if v is False}
            not_ = {k for k, v in hit.items() if v is True}
            cs = [e for e in p.calls() if e.fn in co]
            for e in cs:
                R.check('coalesce', w, isinstance(e.obj, tuple) and e.obj[0] == 'dyncast' and e.fn == e.obj[1].replace(' *', '') + '::coalesce', f"coalesces {pp(e.obj)} through {e.fn}")
            R.check('coalesce', w, sorted(e.fn for e in cs) == sorted(k + '::coalesce' for k in is_), f"a pool of type {sorted(is_)} is coalesced by {[e.fn for e in cs]}")
            if not is_:
                R.check('coalesce', w, not_ == POOLS, f"gives up after testing only {sorted(not_)}")
            if q.endswith('try_coalesce'):
                t = truthy(p.val, p.facts) if p.kind == 'return' else None
                R.check('coalesce', w, t is bool(is_), f"answers {t if t is not None else p.kind} although {len(cs)} pools were coalesced")
            else:
                R.check('coalesce', w, (p.kind == 'return') == bool(is_) and (bool(is_) or exc_type(p) == 'umpire::runtime_error'), f"ends as {exc_type(p) or p.kind} although {len(cs)} pools were coalesced")


def default(C):
    R = C.R
    fn = C.fn('umpire::malloc', 1)
    n = ('param', fn['params'][0]['n'])
    for p in C.paths(fn, opaque=(AL + '::allocate', RM + '::getDefaultAllocator')):
        es = [e for e in p.calls() if e.fn == AL + '::allocate']
        ds = [e for e in p.calls() if e.fn == RM + '::getDefaultAllocator']
        R.check('default', site(fn), p.kind == 'return' and len(es) == 1 and len(ds) == 1 and es[0].args == (n,) and p.val == es[0].ret, f"allocates {[tuple(pp(x) for x in e.args) for e in es]}")
    fn = C.fn('umpire::free', 1)
    a = ('param', fn['params'][0]['n'])
    for p in C.paths(fn, opaque=(RM + '::deallocate',)):
        es = [e for e in p.calls() if e.fn == RM + '::deallocate']
        R.check('default', site(fn), p.kind == 'return' and len(es) == 1 and es[0].args == (a,), f"releases {[tuple(pp(x) for x in e.args) for e in es]}")
