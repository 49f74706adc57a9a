from pools import *

TECHNIQUE = ("trace-partitioned abstract interpretation of the growing pools; the final state of the block structures on every path is compared with the split and merge "
             "transitions, which preserve disjointness, containment and the order of neighbours")
ASSUMPTIONS = ["the internal fixed-block pool behaves as specified (P07)", "memory obtained from the parent is disjoint from memory the pool holds", "one thread per pool, or a thread-safe allocator (P06)"]


def run(C):
    R = C.R
    R.rule('take', 'a request is served from one free chunk of sufficient size, which leaves the free map, or from new memory of sufficient size')
    R.rule('hand-out', 'the address handed out is the start of the chunk taken, and the chunk is recorded for it and no longer free')
    R.rule('split', 'what is not needed becomes a free chunk directly behind, with the rest of the size, linked between its neighbours and entered in the free map')
    R.rule('merge', 'a released chunk is merged with exactly those neighbours that are free, and the result is linked, free and entered in the free map under its size')
    R.rule('no-dangling', 'the bookkeeping of a merged chunk is dropped from the maps, returned once and not touched afterwards')
    R.rule('retry', 'when the parent cannot supply memory the free chunks are given up and the request repeated once; then the error is passed on')
    quick_take(C)
    quick_give(C)
    dyn_take(C)
    dyn_give(C)


def quick_take(C):
    R = C.R
    fn, ps = quick_alloc(C)
    sm, pm = qfld('m_size_map'), qfld('m_pointer_map')
    seen = set()
    for p in ps:
        w = site(fn)
        failed = [e for e in p.calls() if e.fn == AAL and e.threw]
        rel = [e for e in p.calls() if e.fn == QP + '::release']
        if p.kind == 'throw':
            if any(e.fn == RUP and e.threw for e in p.calls()):
                R.check('retry', w, not chunks_written(p) and not puts(p, pm) and not drops(p, sm), 'a refused size changes the pool')
                continue
            seen.add('fail')
            R.check('retry', w, len(failed) == 2 and len(rel) == 1 and exc_type(p) == OOM, f"a failing parent: asked {len(failed)} times, gave up free chunks {len(rel)} times, ends in {exc_type(p)}")
            R.check('retry', w, not puts(p, pm) and not chunks_written(p), 'a failed request leaves a block behind')
            continue
        if failed:
            seen.add('retry')
            R.check('retry', w, len(failed) == 1 and len(rel) == 1, f"{len(failed)} failures, {len(rel)} releases")
            i = [p.trace.index(e) for e in (failed[0], rel[0])] if rel else [0, 0]
            ok = [p.trace.index(e) for e in p.calls() if e.fn == AAL and not e.threw]
            R.check('retry', w, bool(ok) and i[0] < i[1] < ok[0], 'the free chunks are not given up between the two attempts')
        t = Took(fn, p)
        if not R.check('take', w, not t.err, f"{t.err}: {desc(p)}"):
            continue
        c = t.c
        seen.add(('new' if t.new else 'reuse', 'split' if t.split else 'whole'))
        R.check('hand-out', w, p.val == t.data == t.key, f"hands out {pp(p.val)}, recorded under {pp(t.key)}, chunk at {pp(t.data)}")
        R.check('hand-out', w, p.get(chunk('free', c)) == ZERO, f"the chunk handed out has free = {pp(p.get(chunk('free', c)))}")
        R.check('hand-out', w, not drops(p, pm), 'an entry of the map of live blocks is dropped')
        if t.new:
            want = {'data': t.data, 'chunk_size': t.s0, 'prev': ZERO}
            for f, v in want.items():
                R.check('take', w, p.get(chunk(f, c)) == v, f"a new chunk gets {f} = {pp(p.get(chunk(f, c)))} instead of {pp(v)}")
            R.check('take', w, leq(t.r, t.s0, p.facts), f"{pp(t.s0)} bytes obtained for a request of {pp(t.r)}: {desc(p)}")
            R.check('take', w, not [k for k, e in drops(p, sm)], 'a free chunk is dropped although new memory is used')
        else:
            for f in ('data', 'chunk_size', 'prev'):
                R.check('take', w, p.get(chunk(f, c)) == ('init', chunk(f, c)), f"{f} of the chunk taken becomes {pp(p.get(chunk(f, c)))}")
            it = t.it
            lb = it is not None and it[0] == 'app' and it[1] == 'lower_bound' and it[2] == sm and it[4:] == (t.r,)
            big = lb or leq(t.r, t.s0, p.facts) or (it is not None and leq(t.r, ('init', ('fld', ('app', 'at', it), 'std::pair::first')), p.facts))
            R.check('take', w, big, f"the chunk taken is {pp(c)}, not known to hold {pp(t.r)} bytes")
            if lb:
                end = [a for a in p.facts if a[0] == '==' and it in a[1:] and any(x[0] == 'app' and x[1] == 'end' and x[2] == sm for x in a[1:])]
                R.check('take', w, any(p.facts[a] is False for a in end), 'a chunk is taken without knowing that there is one')
            ds = drops(p, sm)
            R.check('take', w, len(ds) == 1 and ds[0][0] in (it, ('init', chunk('size_map_it', c))), f"the chunk taken leaves the free map {len(ds)} times ({[pp(k)[:80] for k, e in ds]})")
        ins = puts(p, sm)
        wr = chunks_written(p)
        allowed = {(c, f) for f in ('free',) + (('data', 'size', 'chunk_size', 'prev', 'next', 'size_map_it') if t.new else ())}
        if t.split:
            R.check('split', w, t.s1 == t.r, f"the chunk handed out is cut to {pp(t.s1)} instead of {pp(t.r)}")
            R.check('split', w, decide(EQ(t.s0, t.r), p.facts) is False or decide(LT(t.r, t.s0, True), p.facts) is True, 'a chunk is split although nothing may remain')
            n = p.get(chunk('next', c))
            fresh = n[0] == 'ret' and n[2] == FMP + '::allocate' and n != c
            if R.check('split', w, fresh, f"the remainder is not linked behind the chunk handed out (next = {pp(n)})"):
                want = {'data': add(t.data, t.s1), 'size': sub(t.s0, t.s1), 'chunk_size': t.whole, 'free': ONE, 'prev': c, 'next': t.next0}
                for f, v in want.items():
                    R.check('split', w, p.get(chunk(f, n)) == v, f"the remainder has {f} = {pp(p.get(chunk(f, n)))} instead of {pp(v)}")
                if t.next0 != ZERO:
                    nn = isnull(t.next0, p.facts)
                    if nn is not True:
                        R.check('split', w, p.get(chunk('prev', t.next0)) == n, 'the following chunk is not linked back to the remainder')
                    allowed.add((t.next0, 'prev'))
                R.check('split', w, len(ins) == 1 and ins[0][:2] == (sub(t.s0, t.s1), n), f"entered in the free map: {[(pp(k), pp(v)) for k, v, r, e in ins]}")
                if len(ins) == 1:
                    R.check('split', w, p.get(chunk('size_map_it', n)) == ins[0][2], 'the remainder does not know its entry in the free map')
                allowed |= {(n, f) for f in ('data', 'size', 'chunk_size', 'free', 'prev', 'next', 'size_map_it')} | {(c, 'size'), (c, 'next')}
        else:
            R.check('split', w, not ins, 'entered in the free map without a split')
            if t.new:
                R.check('take', w, p.get(chunk('next', c)) == ZERO, 'a new chunk has a neighbour')
        R.check('split', w, wr <= allowed, f"also changes {[(pp(o)[:60], f) for o, f in wr - allowed]}")
        R.check('no-dangling', w, not [e for e in p.calls() if e.fn == FMP + '::deallocate'], 'bookkeeping returned during an allocation')
    R.expect({('new', 'whole'), ('new', 'split'), ('reuse', 'whole'), ('reuse', 'split')} <= seen, f"QuickPool::allocate: outcomes not all seen: {seen}")
    R.check('retry', site(fn), 'retry' in seen and 'fail' in seen, 'a failing parent is not retried')


def leq(a, b, facts):
    if a == b:
        return True
    if b[0] == 'app' and b[1] == 'std::max' and a in b[2:]:
        return True
    return decide(LT(b, a, True), facts) is False or decide(LT(a, b, True), facts) is True


def quick_give(C):
    R = C.R
    fn, ps = quick_free(C)
    sm, pm = qfld('m_size_map'), qfld('m_pointer_map')
    ptr = ('param', fn['params'][0]['n'])
    seen = set()
    for p in ps:
        w = site(fn)
        finds = {t for l in list(p.mem) + list(p.facts) for t in subterms(l) if t[0] == 'app' and t[1] == 'find' and len(t) > 4 and t[2] == pm}
        if p.kind == 'throw' or not chunks_written(p):
            ends = [a for a in p.facts if a[0] == '==' and any(x in finds for x in a[1:])]
            R.check('merge', w, any(p.facts[a] for a in ends) and not puts(p, sm), 'a live block is not given back: ' + desc(p))
            continue
        if not R.check('merge', w, len(finds) == 1 and next(iter(finds))[4] == ptr, 'the block is not looked up by its address'):
            continue
        it = next(iter(finds))
        c = second_of(it)
        P_, A, N_, B = merged(p, c)
        F = P_ if A else c
        freed = [e.args[0] for e in p.calls() if e.fn == FMP + '::deallocate']
        gone = ([c] if A else []) + ([N_] if B else [])
        know = A is not None and B is not None
        if not R.check('merge', w, know, f"whether the {'previous' if A is None else 'next'} chunk is free is not tested: {desc(p)}"):
            continue
        seen.add((A, B))
        z = lambda f, x: ('init', chunk(f, x))
        size = z('size', c)
        if A:
            size = add(size, z('size', P_))
        if B:
            size = add(size, z('size', N_))
        nxt = z('next', N_) if B else z('next', c)
        R.check('merge', w, p.get(chunk('size', F)) == size, f"size becomes {pp(p.get(chunk('size', F)))} instead of {pp(size)}")
        R.check('merge', w, p.get(chunk('free', F)) == ONE or A and flag(z('free', P_), p.facts) is True, 'the released chunk is not free')
        R.check('merge', w, p.get(chunk('next', F)) == nxt, f"next becomes {pp(p.get(chunk('next', F)))} instead of {pp(nxt)}")
        for f in ('data', 'chunk_size', 'prev'):
            R.check('merge', w, p.get(chunk(f, F)) == z(f, F), f"{f} becomes {pp(p.get(chunk(f, F)))}")
        if (A or B) and isnull(nxt, p.facts) is not True:
            R.check('merge', w, p.get(chunk('prev', nxt)) == F, f"the following chunk is linked back to {pp(p.get(chunk('prev', nxt)))}: {desc(p)}")
        elif not (A or B):
            R.check('merge', w, p.get(chunk('prev', nxt)) in (('init', chunk('prev', nxt)), F), 'the following chunk is linked back elsewhere')
        ins = puts(p, sm)
        R.check('merge', w, len(ins) == 1 and ins[0][:2] == (size, F), f"entered in the free map: {[(pp(k), pp(v)) for k, v, r, e in ins]}")
        if len(ins) == 1:
            R.check('merge', w, p.get(chunk('size_map_it', F)) == ins[0][2], 'the free chunk does not know its entry in the free map')
        ds = [k for k, e in drops(p, sm)]
        want = [z('size_map_it', x) for x, y in ((P_, A), (N_, B)) if y]
        R.check('no-dangling', w, sorted(map(str, ds)) == sorted(map(str, want)), f"dropped from the free map: {[pp(k) for k in ds]} instead of {[pp(k) for k in want]}")
        if len(ins) == 1 and ins[0][3] is not None:
            late = [e for k, e in drops(p, sm) if p.trace.index(e) > p.trace.index(ins[0][3]) and k == p.get(chunk('size_map_it', F))]
            R.check('no-dangling', w, not late, 'the entry just made is dropped')
        R.check('no-dangling', w, sorted(map(str, freed)) == sorted(map(str, gone)), f"bookkeeping returned for {[pp(k) for k in freed]} instead of {[pp(k) for k in gone]}")
        dm = [k for k, e in drops(p, pm)]
        R.check('no-dangling', w, len(dm) == 1 and dm[0] in (ptr, it) and not puts(p, pm), f"the map of live blocks loses {[pp(k)[:60] for k in dm]}")
        u = used_after_free(p, set(freed))
        R.check('no-dangling', w, not u, f"chunk used after its bookkeeping was returned: {[(pp(c_)[:60], k, l) for c_, k, l in u]}")
        allowed = {(F, f) for f in ('size', 'free', 'next', 'size_map_it')} | {(c, 'free')} | {(x, 'prev') for x in (nxt, z('next', c))} | {(g, f) for g in gone for f in ('size', 'free', 'next', 'prev', 'size_map_it', 'data')}
        wr = chunks_written(p)
        R.check('merge', w, wr <= allowed, f"also changes {[(pp(o)[:60], f) for o, f in wr - allowed]}")
        co = [e for e in p.calls() if e.fn == QP + '::do_coalesce']
        if co and len(ins) == 1 and ins[0][3] is not None:
            R.check('merge', w, p.trace.index(co[0]) > p.trace.index(ins[0][3]), 'coalesces before the block is back')
    R.expect(len(seen) == 4, f"QuickPool::deallocate: neighbour cases not all seen: {seen}")


def dyn_take(C):
    R = C.R
    fn, ps = dyn_alloc(C)
    U, F = dfld('usedBlocks'), dfld('freeBlocks')
    seen = set()
    for p in ps:
        w = site(fn)
        failed = [e for e in p.calls() if e.fn == AAL and e.threw]
        rel = [e for e in p.calls() if e.fn == DREL]
        if p.kind == 'throw':
            quiet = not blocks_written(p) and p.get(U) == ('init', U)
            if any(e.fn == RUP and e.threw for e in p.calls()):
                R.check('retry', w, quiet and p.get(F) == ('init', F), 'a refused size changes the pool')
                continue
            seen.add('fail')
            R.check('retry', w, len(failed) == 2 and len(rel) == 1 and exc_type(p) == OOM, f"a failing parent: asked {len(failed)} times, gave up free chunks {len(rel)} times, ends in {exc_type(p)}")
            R.check('retry', w, quiet and p.get(F)[0] in ('init', 'after'), 'a failed request leaves a block behind')
            continue
        if failed:
            seen.add('retry')
            R.check('retry', w, len(failed) == 1 and len(rel) == 1, f"{len(failed)} failures, {len(rel)} releases")
            i = [p.trace.index(e) for e in (failed[0], rel[0])] if rel else [0, 0]
            ok = [p.trace.index(e) for e in p.calls() if e.fn == AAL and not e.threw]
            R.check('retry', w, bool(ok) and i[0] < i[1] < ok[0], 'the free chunks are not given up between the two attempts')
        t = DTook(fn, p)
        if not R.check('take', w, not t.err, f"{t.err}: {desc(p)}"):
            continue
        c, L = t.c, t.L
        seen.add(('new' if t.new else 'reuse', 'split' if t.split else 'whole'))
        R.check('hand-out', w, p.val == t.data, f"hands out {pp(p.val)}, block at {pp(t.data)}")
        R.check('hand-out', w, p.get(blk('next', c)) == ('init', U), 'the block handed out is not put in front of the live list')
        R.check('take', w, p.get(blk('data', c)) == t.data and p.get(blk('blockSize', c)) == t.whole, f"block at {pp(p.get(blk('data', c)))}, of a chunk of {pp(p.get(blk('blockSize', c)))}")
        if t.new:
            R.check('take', w, leq(t.r, t.s0, p.facts), f"{pp(t.s0)} bytes obtained for a request of {pp(t.r)}: {desc(p)}")
        else:
            big = L.always(c, lambda v, fs: v[0] != 'int' and leq(t.r, ('init', blk('size', v)), fs), p.facts)
            R.check('take', w, big and isnull(c, p.facts) is False, f"the block taken is {pp(c)}, not known to hold {pp(t.r)} bytes")
        # the remainder
        rest = None
        if t.split:
            R.check('split', w, t.s1 == t.r, f"the block handed out is cut to {pp(t.s1)} instead of {pp(t.r)}")
            R.check('split', w, decide(EQ(t.s0, t.r), p.facts) is False or decide(LT(t.r, t.s0, True), p.facts) is True, 'a block is split although nothing may remain')
            ns = {o for o, f in blocks_written(p) if o[0] == 'ret' and o[2] == FSA and o != c}
            if not R.check('split', w, len(ns) == 1, f"{len(ns)} remainders"):
                continue
            n = ns.pop()
            for f, v in {'data': add(t.data, t.s1), 'size': sub(t.s0, t.s1), 'blockSize': ZERO}.items():
                R.check('split', w, p.get(blk(f, n)) == v, f"the remainder has {f} = {pp(p.get(blk(f, n)))} instead of {pp(v)}")
            rest = n
        else:
            R.check('split', w, decide(EQ(t.s0, t.r), p.facts) is True, 'a larger block is handed out whole and recorded with its full size: ' + desc(p)) if t.new else None
        # the free list
        if t.new and not t.split and not t.links:
            continue
        if not R.check('take', w, len(t.links) == 1, f"links of the free list changed: {[pp(l) for l, v in t.links]}"):
            continue
        l, v = t.links[0]
        q = ZERO if l == F else l[1]
        qn = isnull(q, p.facts)
        behind = p.get(blk('next', rest)) if rest else v
        if rest:
            R.check('split', w, v == rest, f"the remainder is not linked where the block was (link becomes {pp(v)})")
        if l == F:
            # the path must know that nothing precedes the block
            prevs = [k for k in p.facts if k[0] == '==' and ZERO in k[1:] and p.facts[k] is True]
            cands = [x for k in prevs for x in k[1:] if x != ZERO] + [ZERO]
        else:
            cands = [q]
            R.check('take', w, qn is False, f"a link of {pp(q)} changed, which may be null")
        if t.new:
            ok = any(L.pred(x, behind, F, p.facts) for x in cands)
            R.check('take', w, ok, f"{pp(behind)} is not what follows {pp(q)} in the free list")
            data = t.data
            lo = q == ZERO or L.always(q, lambda y, fs: y[0] != 'int' and decide(LT(('init', blk('data', y)), data, True), fs) is True, p.facts)
            hi = isnull(behind, p.facts) is True or decide(LT(('init', blk('data', behind)), data, True), p.facts) is False
            R.check('take', w, lo and hi, f"the remainder of new memory is not put in order of address between {pp(q)} and {pp(behind)}")
        else:
            R.check('take', w, behind == ('init', blk('next', c)), f"what follows the block taken becomes {pp(behind)}")
            R.check('take', w, any(L.pred(x, c, F, p.facts) for x in cands), f"the link changed ({pp(l)}) is not the one that leads to the block taken")
        allowed = {(c, 'next'), (c, 'size')} | ({(c, f) for f in ('data', 'blockSize')} if t.new else set()) | ({(rest, f) for f in ('data', 'size', 'blockSize', 'next')} if rest else set()) | {(q, 'next')}
        wr = blocks_written(p)
        R.check('split', w, wr <= allowed, f"also changes {[(pp(o)[:60], f) for o, f in wr - allowed]}")
        R.check('no-dangling', w, not [e for e in p.calls() if e.fn == FSD], 'bookkeeping returned during an allocation')
    R.expect({('new', 'split'), ('reuse', 'whole'), ('reuse', 'split')} <= seen, f"DynamicSizePool::allocate: outcomes not all seen: {seen}")
    R.check('retry', site(fn), 'retry' in seen and 'fail' in seen, 'a failing parent is not retried')


def conj(*xs):
    if any(x is False for x in xs):
        return False
    return True if all(x is True for x in xs) else None


def dyn_give(C):
    R = C.R
    fn, ps = dyn_free(C)
    U, F = dfld('usedBlocks'), dfld('freeBlocks')
    ptr = ('param', fn['params'][0]['n'])
    seen = set()
    z = lambda f, x: ('init', blk(f, x))
    for p in ps:
        w = site(fn)
        L = Lists(p, BL + '::next')
        wr = blocks_written(p)
        if p.kind == 'throw' or not wr and p.get(U) == ('init', U) and p.get(F) == ('init', F):
            # nothing done: only when the walk over the live list ran out
            out = [x for a, tv in p.facts.items() if tv and a[0] == '==' and ZERO in a[1:] for x in a[1:] if x[0] == 'loopv']
            ok = any(L.member(x, U, p.facts) and stops(L, x, ptr) for x in out)
            R.check('merge', w, ok, 'a live block is not given back: ' + desc(p))
            continue
        cs = [x[1][1] for a, tv in p.facts.items() if tv and a[0] == '==' and ptr in a[1:] for x in a[1:] if x[0] == 'init' and x[1][0] == 'fld' and x[1][2] == BL + '::data']
        if not R.check('merge', w, len(cs) == 1 and L.member(cs[0], U, p.facts) and isnull(cs[0], p.facts) is False, 'the block released is not looked up by its address in the live list'):
            continue
        c = cs[0]
        # unlinking from the live list
        frees = [e.args[0] for e in p.calls() if e.fn == FSD]
        ul = []
        if p.get(U) != ('init', U):
            ul.append((U, p.get(U)))
        ul += [(blk('next', o), p.get(blk('next', o))) for o, f in wr if f == 'next' and o != c and L.member(o, U, p.facts)]
        if not R.check('merge', w, len(ul) == 1, f"links of the live list changed: {[pp(l) for l, v in ul]}"):
            continue
        l, v = ul[0]
        q = nulls(p) if l == U else [l[1]]
        R.check('merge', w, v == z('next', c) and any(L.pred(x, c, U, p.facts) for x in q), f"the block leaves the live list through {pp(l)} = {pp(v)}")
        # its place in the free list
        place = [(a, b) for a, b in places(p, L, F, c)]
        if not R.check('merge', w, place, 'the place of the released block in the free list is not known: ' + desc(p)):
            continue
        verdicts = []
        for a, b in place:
            verdicts.append(give_at(p, L, c, a, b, F, U, z, wr, frees, l, seen))
            if not verdicts[-1]:
                break
        bad = [] if [] in verdicts else min(verdicts, key=len)
        for r in ('merge', 'no-dangling'):
            R.check(r, w, not [m for k, m in bad if k == r], '; '.join(m for k, m in bad if k == r))
    R.expect(len(seen) == 4, f"DynamicSizePool::deallocate: neighbour cases not all seen: {seen}")


def stops(L, x, ptr):
    """the walk of x passes every block whose address is not ptr"""
    w = L.ways(x)
    return w is not None and all(decide(EQ(('init', blk('data', x)), ptr), i.facts) is False for v, i in w[1])


def nulls(p):
    return [ZERO] + [x for a, tv in p.facts.items() if tv and a[0] == '==' and ZERO in a[1:] for x in a[1:] if x != ZERO]


def places(p, L, F, c):
    """pairs (a, b) of neighbours in the free list between which c belongs by address"""
    terms = {t for a in p.facts for t in subterms(a) if t[0] == 'loopv'}
    z = ('init', blk('data', c))
    out = []
    for a in terms | {ZERO}:
        an = isnull(a, p.facts)
        if a != ZERO and an is None:
            continue
        if not (an or L.member(a, F, p.facts) and L.always(a, lambda y, fs: y[0] != 'int' and decide(LT(('init', blk('data', y)), z, True), fs) is True, p.facts)):
            continue
        bs = set(terms) | ({('init', blk('next', a))} if not an else set()) | {('init', F)}
        for b in bs:
            if not L.pred(a, b, F, p.facts):
                continue
            walk = [t for t in terms if t == b or L.pred(a, t, F, p.facts)]
            if isnull(b, p.facts) is True or any(isnull(t, p.facts) is True or decide(LT(('init', blk('data', t)), z, True), p.facts) is False for t in walk):
                out.append((a, b))
    return out


def give_at(p, L, c, a, b, F, U, z, wr, frees, ulink, seen):
    """what is wrong with the final state when c belongs between a and b"""
    bad = []
    an, bn = isnull(a, p.facts), isnull(b, p.facts)
    A = conj(an is False, adjacent(p, [add(z('data', a), z('size', a))], z('data', c)) if not an else False, decide(EQ(z('blockSize', c), ZERO), p.facts))
    ends = [add(z('data', c), z('size', c))] + ([add(add(z('data', a), z('size', a)), z('size', c))] if A else [])
    B = conj(None if bn is None else not bn, adjacent(p, ends, z('data', b)), decide(EQ(z('blockSize', b), ZERO), p.facts))
    if A is None or B is None:
        return [('merge', f"whether the {'previous' if A is None else 'next'} block can be merged is not tested: {desc(p)}")]
    seen.add((A, B))
    G = a if A else c
    size = add(z('size', c), z('size', a)) if A else z('size', c)
    if B:
        size = add(size, z('size', b))
    nxt = z('next', b) if B else b
    say = lambda k, m: bad.append((k, m))
    if p.get(blk('size', G)) != size:
        say('merge', f"size becomes {pp(p.get(blk('size', G)))} instead of {pp(size)}")
    gn = p.get(blk('next', G))
    if gn != nxt and not (isnull(gn, p.facts) is True and isnull(nxt, p.facts) is True) and not (A and not B and L.pred(a, nxt, F, p.facts) and gn == z('next', a)):
        say('merge', f"next becomes {pp(gn)} instead of {pp(nxt)}")
    for f in ('data', 'blockSize'):
        if p.get(blk(f, G)) != z(f, G):
            say('merge', f"{f} becomes {pp(p.get(blk(f, G)))}")
    link = F if an else blk('next', a)
    if not A and p.get(link) != c:
        say('merge', f"the released block is not linked into the free list ({pp(link)} = {pp(p.get(link))})")
    if an is False and p.get(F) != ('init', F) or A and an and True:
        say('merge', 'the head of the free list changes')
    gone = ([c] if A else []) + ([b] if B else [])
    if sorted(map(str, frees)) != sorted(map(str, gone)):
        say('no-dangling', f"bookkeeping returned for {[pp(k) for k in frees]} instead of {[pp(k) for k in gone]}")
    for i, e in enumerate(p.trace):
        if e.kind == 'call' and e.fn == FSD:
            g = e.args[0]
            if any(x.kind == 'write' and x.loc[0] == 'fld' and x.loc[1] == g for x in p.trace[i + 1:]) or any(r[0][0] == 'fld' and r[0][1] == g and r[5] > i for r in p.reads):
                say('no-dangling', f"{pp(g)} used after its bookkeeping was returned")
    allowed = {(G, 'size'), (G, 'next'), (c, 'next')} | {(g, f) for g in gone for f in ('size', 'next', 'data', 'blockSize')} | ({(a, 'next')} if not an else set()) | ({(ulink[1], 'next')} if ulink != U else set())
    if not wr <= allowed:
        say('merge', f"also changes {[(pp(o)[:60], f) for o, f in wr - allowed]}")
    return bad


def adjacent(p, ends, start):
    rs = [decide(EQ(e, start), p.facts) for e in ends]
    return True if True in rs else False if False in rs else None
