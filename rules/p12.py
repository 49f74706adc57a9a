from pools import *

TECHNIQUE = ("trace-partitioned abstract interpretation of the release loops with a failing parent; per-iteration specification of what goes back and what stays, "
             "cursor discipline, and call pairing of the coalescing operations")
ASSUMPTIONS = ["every chunk in the free map is marked free (P10)", "the internal fixed-block pool behaves as specified (P07)"]
DL = 'umpire::strategy::DynamicPoolList'


def run(C):
    R = C.R
    R.rule('exactly-free', 'a release visits every free chunk and gives back exactly those that are wholly free, each once, by the address it was obtained under')
    R.rule('forget', 'a chunk given back leaves the free structure and its bookkeeping is returned once; every other chunk stays as it is')
    R.rule('live', 'a release does not touch live blocks')
    R.rule('destroy', 'destroying the pool releases what is free, and goes on when the parent fails')
    R.rule('coalesce', 'coalescing releases, obtains memory only up to the suggested size and gives it straight back to the pool; a failure is not passed on')
    R.rule('reach', 'releasing an allocator releases the pool behind it')
    quick(C)
    dynamic(C)
    coalesce(C)
    reach(C)


def gone_once(C, i, c, data, free_fn, w):
    R = C.R
    back = [e for e in i.calls() if e.fn == ADE]
    R.check('exactly-free', w, len(back) == 1 and back[0].args == (data,), f"gives back {[pp(e.args[0]) for e in back]} for the chunk at {pp(data)}")
    fr = [e for e in i.calls() if e.fn == free_fn]
    R.check('forget', w, len(fr) == 1 and fr[0].args[0] == c, f"returns the bookkeeping of {[pp(e.args[0]) for e in fr]}")
    if fr:
        k = i.trace.index(fr[0]) if fr[0] in i.trace else None
        if k is not None:
            late = [x for x in i.trace[k + 1:] if x.kind == 'write' and x.loc[0] == 'fld' and x.loc[1] == c]
            R.check('forget', w, not late, 'the bookkeeping is used after it was returned')


def quick(C):
    R = C.R
    (fn, ps), its = quick_release(C)
    w = site(fn)
    sm, pm = qfld('m_size_map'), qfld('m_pointer_map')
    n = 0
    for i, l, c, gone in its:
        z = lambda f: ('init', chunk(f, c))
        it = iter_of(c)
        whole = decide(EQ(z('size'), z('chunk_size')), i.facts)
        free = flag(z('free'), i.facts)
        if free is False:
            continue      # does not occur: chunks in the free map are free
        R.check('exactly-free', w, whole is not None or not gone and False, f"whether the chunk is wholly free is not tested: {desc(i)}")
        R.check('exactly-free', w, gone == bool(whole), f"a chunk that is {'' if whole else 'not '}wholly free {'goes back' if gone else 'is kept'}: {desc(i)}")
        ok = it[0] == 'loopv' and it[1] == l.extra['id']
        if R.check('exactly-free', w, ok, f"looks at {pp(it)}, not at the free chunks in turn"):
            ent = l.extra['entry'].get(it[2])
            R.check('exactly-free', w, ent is not None and ent[0] == 'app' and ent[1] == 'begin' and ent[2] == sm, f"the walk starts at {pp(ent) if ent else None}")
            new = i.mem.get(it[2])
            er = [e for k, e in drops(i, sm)]
            if gone:
                n += 1
                ok = len(er) == 1 and er[0].args[0] in (it, z('size_map_it')) and len(er[0].args) == 1
                R.check('forget', w, ok, f"a chunk given back leaves the free map {len(er)} times ({[pp(a) for e in er for a in e.args]})")
                nx = [er[0].ret] if er else []
                # post-increment before erasing is fine as well
                before = ('app', 'next', it)
                R.check('exactly-free', w, new in nx or new == before and er and er[0].args[0] == it and step_first(i, it[2], er[0]), f"the walk continues at {pp(new)} after removing {pp(it)}")
            else:
                R.check('exactly-free', w, new == ('app', 'next', it), f"the walk continues at {pp(new)} after {pp(it)}")
                R.check('forget', w, not er and not [e for e in i.calls() if e.fn == FMP + '::deallocate'], 'a chunk is kept but leaves the bookkeeping')
        if gone:
            gone_once(C, i, c, z('data'), FMP + '::deallocate', w)
            u = used_after_free(i, {c})
            R.check('forget', w, not [x for x in u if x[1] == 'read' or x[1] == 'write'], f"chunk used after its bookkeeping was returned: {[(k, ln) for _, k, ln in u]}")
        R.check('live', w, not puts(i, pm) and not drops(i, pm) and not puts(i, sm), 'a release changes the map of live blocks or adds free chunks')
        R.check('live', w, not [1 for o, f in chunks_written(i) if i.mem[chunk(f, o)] != ('loopv', l.extra['id'], chunk(f, o))], f"a release changes {[(pp(o)[:60], f) for o, f in chunks_written(i)]}")
    R.check('exactly-free', w, n > 0, 'no chunk is ever given back')
    for p in ps:
        ends = [e for e in p.events(deep=False, kind='loop')]
        if p.kind == 'return':
            it = [('loopv', l.extra['id'], k) for l in ends for k, v in l.extra['entry'].items() if v[0] == 'app' and v[1] == 'begin' and v[2] == sm]
            ok = it and any(tv and a[0] == '==' and it[0] in a[1:] and any(x[0] == 'app' and x[1] == 'end' and x[2] == sm for x in a[1:]) for a, tv in p.facts.items())
            empty = any(tv and a[0] == '==' and contains(a, ('app', 'size', sm, ('ver', 0))) for a, tv in p.facts.items()) or any(a[0] == 'app' and a[1] == 'empty' for a in p.facts)
            R.check('exactly-free', w, ok or not ends and empty, f"the walk over the free chunks ends early: {desc(p)}")
        else:
            R.check('destroy', w, isnull(('init', qfld('m_is_destructing')), p.facts) is True, 'a failing parent is reported while the pool is being destroyed: ' + desc(p))
        R.check('live', w, not drops(p, pm) and not puts(p, pm), 'a release changes the map of live blocks')
    destroys(C, QP, QP + '::release', qfld('m_is_destructing'), QP)


def step_first(i, var, er):
    for e in i.trace:
        if e is er:
            return False
        if e.kind in ('write', 'step') and e.loc == var:
            return True
    return False


def destroys(C, cls, rel, flagloc, dyn=None):
    R = C.R
    fn = C.fn(f"{cls}::~{cls.split('::')[-1]}")
    for p in C.paths(fn, opaque=(rel,), dyn=dyn):
        cs = [e for e in p.calls() if e.fn == rel]
        before = False
        for e in p.trace:
            if cs and e is cs[0]:
                break
            if e.kind == 'write' and e.loc == flagloc:
                before = e.val != ZERO
        R.check('destroy', site(fn), p.kind == 'return' and len(cs) >= 1 and before, 'the pool is destroyed without releasing its free chunks, or without saying that it is being destroyed')


def dynamic(C):
    R = C.R
    (fn, ps), its = dyn_release(C)
    w = site(fn)
    U, F = dfld('usedBlocks'), dfld('freeBlocks')
    n = 0
    for i, l, c, gone in its:
        z = lambda f, x=c: ('init', blk(f, x))
        whole = decide(EQ(z('size'), z('blockSize')), i.facts)
        R.check('exactly-free', w, whole is not None, f"whether the block is a wholly free chunk is not tested: {desc(i)}")
        R.check('exactly-free', w, gone == bool(whole), f"a block that is {'' if whole else 'not '}a wholly free chunk {'goes back' if gone else 'is kept'}: {desc(i)}")
        R.check('exactly-free', w, i.mem.get(c[2]) == z('next'), f"the walk continues at {pp(i.mem.get(c[2]))}")
        # the variable that trails the cursor: null at first
        trail = [k for k, v in l.extra['entry'].items() if v == ZERO and any(j.mem.get(k) == c for j, _, _, g in its if not g)]
        if not R.check('forget', w, len(trail) == 1, f"{len(trail)} variables follow the walk"):
            continue
        pv = ('loopv', l.extra['id'], trail[0])
        R.check('forget', w, i.mem.get(trail[0]) == (pv if gone else c), f"what precedes the next block is taken to be {pp(i.mem.get(trail[0]))}")
        head = ('loopv', l.extra['id'], F) if F in l.extra['entry'] else ('init', F)
        wr = {(o, f) for o, f in blocks_written(i) if i.mem[blk(f, o)] != ('loopv', l.extra['id'], blk(f, o))}
        pn = isnull(pv, i.facts)
        if gone:
            n += 1
            if R.check('forget', w, pn is not None, 'whether anything precedes the block is not tested'):
                link = F if pn else blk('next', pv)
                R.check('forget', w, i.mem.get(link) == z('next'), f"the block given back stays in the free list ({pp(link)} = {pp(i.mem.get(link, ('init', link)))})")
                if not pn:
                    R.check('forget', w, i.mem.get(F, head) == head, 'the head of the free list changes although something precedes the block')
                R.check('live', w, wr <= ({(pv, 'next')} if not pn else set()), f"a release changes {[(pp(o)[:60], f) for o, f in wr]}")
            gone_once(C, i, c, z('data'), FSD, w)
            for k, e in enumerate(i.trace):
                if e.kind == 'call' and e.fn == FSD:
                    R.check('forget', w, not any(r[0][0] == 'fld' and r[0][1] == c and r[5] - i.n0 > k for r in i.reads), 'the bookkeeping is read after it was returned')
        else:
            R.check('forget', w, not [e for e in i.calls() if e.fn == FSD] and i.mem.get(F, head) == head and not wr, 'a block is kept but the free list changes')
    R.check('exactly-free', w, n > 0, 'no chunk is ever given back')
    for p in ps:
        if p.kind == 'return':
            cur = [c for i, l, c, g in its][:1]
            ok = cur and isnull(cur[0], p.facts) is True or decide(EQ(('init', F), ZERO), p.facts) is True
            R.check('exactly-free', w, ok, f"the walk over the free blocks ends early: {desc(p)}")
        else:
            R.check('destroy', w, isnull(('init', dfld('m_is_destructing')), p.facts) is True, 'a failing parent is reported while the pool is being destroyed: ' + desc(p))
        R.check('live', w, p.get(U) == ('init', U), 'a release changes the live list')
    destroys(C, DP, DREL, dfld('m_is_destructing'))
    for m in (DP + '::release',):
        f = C.fn(m, 0)
        for p in C.paths(f, opaque=(DREL,)):
            R.check('reach', site(f), len([e for e in p.calls() if e.fn == DREL]) == 1, 'does not release the free chunks')


def coalesce(C):
    R = C.R
    fn = C.fn(QP + '::do_coalesce', 1)
    ops = (QP + '::release', QP + '::allocate', QP + '::deallocate')
    pairs(C, fn, C.paths(fn, opaque=ops, throws=throwing('std::exception', ops[1]), dyn=QP, havoc=HAV), *ops, C.accloc(QP + '::getActualSize'))
    fn = C.fn(DP + '::coalesce', 1)
    ops = (DREL, DP + '::allocate', DP + '::deallocate')
    pairs(C, fn, C.paths(fn, opaque=ops + (DP + '::getFreeBlocks',), throws=throwing('std::exception', ops[1]), havoc=DHAV), *ops, C.accloc(DP + '::getActualSize'))
    for q, inner in ((QP + '::coalesce', QP + '::do_coalesce'), (DL + '::coalesce', DP + '::coalesce')):
        fn = C.fn(q, 0)
        cls = q.rsplit('::', 1)[0]
        for p in C.paths(fn, opaque=(inner, 'umpire::event::record'), dyn=cls):
            hs = [e for e in p.events(kind='call') if 'm_should_coalesce' in pp(e.obj or ZERO) or 'm_should_coalesce' in e.fn]
            cs = [e for e in p.calls() if e.fn == inner]
            if not hs:
                raise Anchor(f"{q}: the heuristic is not consulted in a known way")
            v = truthy(hs[-1].ret, p.facts)
            R.check('coalesce', site(fn), len(cs) == (1 if v else 0) and all(e.args == (hs[-1].ret,) for e in cs), f"coalesces {len(cs)} times when the heuristic says {v}")


def pairs(C, fn, ps, rel, al, de, actual):
    R = C.R
    w = site(fn)
    want = ('param', fn['params'][0]['n'])
    n = 0
    for p in ps:
        R.check('coalesce', w, p.kind == 'return', 'a failure to obtain memory for coalescing is passed on')
        cs = [e for e in p.calls() if e.fn in (rel, al, de)]
        got = [e for e in cs if e.fn == al]
        if not got:
            R.check('coalesce', w, not [e for e in cs if e.fn == de], 'gives a block back it did not obtain')
            continue
        n += 1
        R.check('coalesce', w, len(got) == 1 and cs[0].fn == rel, 'obtains memory before the free chunks were released')
        g = got[0]
        # the actual size as it was before memory was obtained: after the first or a later release
        known = [('after', e.ret[1], actual) for e in cs if e.fn == rel and p.trace.index(e) < p.trace.index(g)]
        ok = any(g.args[0] == sub(want, a) and (decide(LT(a, want, True), p.facts) is True or decide(LT(want, a, True), p.facts) is False) for a in known)
        R.check('coalesce', w, ok, f"asks for {pp(g.args[0])}, not for what is missing to the suggested size")
        ds = [e for e in cs if e.fn == de]
        if g.threw:
            R.check('coalesce', w, not ds, 'gives back a block it did not get')
        else:
            R.check('coalesce', w, len(ds) == 1 and ds[0].args[0] == g.ret and p.trace.index(ds[0]) > p.trace.index(g), 'the block obtained for coalescing is not given back to the pool')
    R.expect(n, f"{fn['q']}: memory is never obtained")


def reach(C):
    R = C.R
    fn = C.fn(AL + '::release', 0)
    for p in C.paths(fn, opaque=('umpire::event::record',)):
        cs = [e for e in p.calls() if e.fn == AS + '::release']
        R.check('reach', site(fn), len(cs) == 1 and cs[0].obj == STRAT, f"releasing an allocator releases {len(cs)} strategies")
    fn = C.fn(DL + '::release', 0)
    for p in C.paths(fn, opaque=(DREL,)):
        cs = [e for e in p.calls() if e.fn == DREL]
        R.check('reach', site(fn), len(cs) == 1, 'does not release the pool')
