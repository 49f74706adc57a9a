from pools import *

TECHNIQUE = ("trace-partitioned abstract interpretation of the growing pools: on every path the change of each statistic is compared with what the path did to the chunks; "
             "folds over the block lists checked by induction over an arbitrary iteration")
ASSUMPTIONS = ["every chunk in the free map is marked free (P10)", "the internal fixed-block pool behaves as specified (P07)", "giving memory back to the parent does not fail"]


class PStats:
    """the statistics members of a pool, found through their accessors"""

    def __init__(self, C, cls):
        self.cls = cls
        g = lambda n: C.accloc(f"{cls}::{n}")
        self.actual, self.actual_high, self.aligned, self.aligned_high = g('getActualSize'), g('getActualHighwaterMark'), g('getAlignedSize'), g('getAlignedHighwaterMark')
        self.total, self.rblocks = g('getTotalBlocks'), g('getReleasableBlocks')
        self.rbytes = g('getReleasableSize') if cls == QP else None

    def all(self):
        return [l for l in (self.actual, self.actual_high, self.aligned, self.aligned_high, self.total, self.rblocks, self.rbytes) if l]


def run(C):
    R = C.R
    R.rule('obtained', 'actual size and number of chunks grow by what is obtained from the parent, and by nothing else; the watermark follows')
    R.rule('in-use', 'the aligned size grows by the rounded size of a block handed out and shrinks by the size of a block given back; the watermark follows')
    R.rule('releasable', 'the releasable size and count change exactly when a chunk becomes or ceases to be wholly free')
    R.rule('given-back', 'releasing lowers actual size, chunk count, releasable size and count by what goes back to the parent')
    R.rule('query', 'the queries answer from those statistics or by a complete walk over the blocks')
    quick(C)
    dynamic(C)
    forwards(C)


def moved(R, rule, w, p, loc, by, what):
    b = base(p, loc)
    R.check(rule, w, p.get(loc) == add(b, by), f"{what} becomes {pp(p.get(loc))} instead of {pp(add(b, by))}: {desc(p, 200)}")


def high(R, rule, w, p, loc, cur, grew, what):
    old = base(p, loc)
    if not grew:
        R.check(rule, w, p.get(loc) == old, f"{what} becomes {pp(p.get(loc))} although nothing was obtained")
        return
    m = maxed(p, old, p.get(cur), p.get(loc), what)
    R.check(rule, w, m is None, m or '')


def failing(R, S, p, w):
    """a failed request changes nothing but what a release in between did"""
    ch = [l for l in S.all() if p.get(l) != ('init', l) and p.get(l)[0] != 'after']
    R.check('obtained', w, not ch, f"a failed request changes {[pp(l) for l in ch]}")


def was_whole(p, t):
    return decide(EQ(t.s0, t.whole), p.facts)


def quick(C):
    R = C.R
    S = PStats(C, QP)
    fn, ps = quick_alloc(C)
    w = site(fn)
    n = 0
    for p in ps:
        if p.kind == 'throw':
            failing(R, S, p, w)
            continue
        t = Took(fn, p)
        if t.err:
            continue
        if not t.new and flag(('init', chunk('free', t.c)), p.facts) is False:
            continue
        n += 1
        took(R, S, p, t, w)
    R.need(n, 'QuickPool::allocate: no successful path understood')
    fn, ps = quick_free(C)
    w = site(fn)
    n = 0
    for p in ps:
        if not chunks_written(p):
            R.check('in-use', w, all(p.get(l) == ('init', l) for l in S.all()), 'statistics change although no block is given back')
            continue
        its = {t for l in list(p.mem) + list(p.facts) for t in subterms(l) if t[0] == 'app' and t[1] == 'find' and len(t) > 4 and t[2] == qfld('m_pointer_map')}
        if len(its) != 1:
            continue
        c = second_of(its.pop())
        P_, A, N_, B = merged(p, c)
        if A is None or B is None:
            continue
        n += 1
        z = lambda f, x: ('init', chunk(f, x))
        F = P_ if A else c
        size = z('size', c)
        for x, y in ((P_, A), (N_, B)):
            if y:
                size = add(size, z('size', x))
        gave(R, S, p, w, z('size', c), decide(EQ(size, z('chunk_size', F)), p.facts), z('chunk_size', F), size)
    R.need(n, 'QuickPool::deallocate: no path understood')
    for i, l, c, gone in quick_release(C)[1]:
        given(R, S, i, l, gone, ('init', chunk('chunk_size', c)), ('init', chunk('size', c)), site(C.fn(QP + '::release', 0)))
    outside(C, S, *quick_release(C)[0])
    # queries
    bq = C.fn(QP + '::getBlocksInPool', 0)
    sz = lambda f: ('app', 'size', qfld(f), ('ver', 0))
    for p in C.paths(bq):
        R.check('query', site(bq), p.val == add(sz('m_pointer_map'), sz('m_size_map')), f"the number of blocks is given as {pp(p.val)}")
    lq = C.fn(QP + '::getLargestAvailableBlock', 0)
    for p in C.paths(lq):
        empty = [tv if a[0] == '==' else not tv for a, tv in p.facts.items() if contains(a, sz('m_size_map'))] + [tv for a, tv in p.facts.items() if a[0] == '==' and any(x[0] == 'app' and x[1] in ('begin', 'rbegin', 'end', 'rend') for x in a[1:])]
        last = p.val is not None and p.val[0] == 'init' and contains(p.val, qfld('m_size_map')) and p.val[1][0] == 'fld' and p.val[1][2] == 'std::pair::first' and any(
            x[0] == 'app' and x[1] == 'rbegin' or x[0] == 'app' and x[1] == 'prev' and x[2][0] == 'app' and x[2][1] == 'end' for x in subterms(p.val))
        R.check('query', site(lq), p.val == ZERO if True in empty else last, f"the largest free block is given as {pp(p.val)}: {desc(p)}")


def took(R, S, p, t, w):
    got = t.s0 if t.new else ZERO
    moved(R, 'obtained', w, p, S.actual, got, 'actual size')
    moved(R, 'obtained', w, p, S.total, ONE if t.new else ZERO, 'number of chunks')
    high(R, 'obtained', w, p, S.actual_high, S.actual, t.new, 'actual high watermark')
    moved(R, 'in-use', w, p, S.aligned, t.r, 'aligned size')
    high(R, 'in-use', w, p, S.aligned_high, S.aligned, True, 'aligned high watermark')
    whole = True if t.new else was_whole(p, t)
    if t.new:
        n, b = ZERO, ZERO
    elif whole:
        n, b = INT(-1), sub(ZERO, t.whole)
    else:
        n, b = ZERO, ZERO
    if not R.check('releasable', w, whole is not None, f"whether the chunk taken was wholly free is not tested: {desc(p, 300)}"):
        return
    moved(R, 'releasable', w, p, S.rblocks, n, 'number of releasable chunks')
    if S.rbytes:
        bs = base(p, S.rbytes)
        alt = add(bs, sub(ZERO, t.s0)) if whole and not t.new else None
        R.check('releasable', w, p.get(S.rbytes) in (add(bs, b), alt), f"releasable size becomes {pp(p.get(S.rbytes))} instead of {pp(add(bs, b))}")


def gave(R, S, p, w, size, whole, chunk_size, total):
    moved(R, 'in-use', w, p, S.aligned, sub(ZERO, size), 'aligned size')
    for l in (S.actual, S.actual_high, S.aligned_high, S.total):
        R.check('in-use', w, p.get(l) == ('init', l), f"{pp(l)} becomes {pp(p.get(l))} on a release of a block")
    if not R.check('releasable', w, whole is not None, f"whether the chunk is now wholly free is not tested: {desc(p, 300)}"):
        return
    moved(R, 'releasable', w, p, S.rblocks, ONE if whole else ZERO, 'number of releasable chunks')
    if S.rbytes:
        b = ('init', S.rbytes)
        ok = {add(b, chunk_size), add(b, total)} if whole else {b}
        R.check('releasable', w, p.get(S.rbytes) in ok, f"releasable size becomes {pp(p.get(S.rbytes))}")


def given(R, S, i, l, gone, whole, size, w):
    """one iteration of a release loop"""
    def start(loc):
        return ('loopv', l.extra['id'], loc) if loc in l.extra['entry'] else ('init', loc)
    for loc, d in ((S.actual, (whole, size)), (S.rbytes, (whole, size)), (S.rblocks, (ONE,)), (S.total, (ONE,))):
        if loc is None:
            continue
        want = {sub(start(loc), x) for x in d} if gone else {start(loc)}
        v = i.mem.get(loc, ('init', loc))
        R.check('given-back', w, v in want, f"{pp(loc)} becomes {pp(v)} when a chunk of {pp(whole)} bytes {'goes back' if gone else 'is kept'}")
    for loc in (S.actual_high, S.aligned, S.aligned_high):
        R.check('given-back', w, i.mem.get(loc, start(loc)) == start(loc), f"{pp(loc)} changes in a release")


def outside(C, S, fn, ps):
    """outside its loop a release leaves the statistics alone"""
    for p in ps:
        if p.kind == 'throw':
            continue
        ids = {e.extra['id'] for e in p.events(kind='loop')}
        for loc in S.all():
            v = p.get(loc)
            C.R.check('given-back', site(fn), v == ('init', loc) or v[0] == 'loopv' and v[1] in ids and v[2] == loc, f"{pp(loc)} becomes {pp(v)} after a release")


def dynamic(C):
    R = C.R
    S = PStats(C, DP)
    fn, ps = dyn_alloc(C)
    w = site(fn)
    n = 0
    for p in ps:
        if p.kind == 'throw':
            failing(R, S, p, w)
            continue
        t = DTook(fn, p)
        if t.err:
            continue
        n += 1
        took(R, S, p, t, w)
    R.need(n, 'DynamicSizePool::allocate: no successful path understood')
    fn, ps = dyn_free(C)
    w = site(fn)
    z = lambda f, x: ('init', blk(f, x))
    ptr = ('param', fn['params'][0]['n'])
    n = 0
    for p in ps:
        wr = blocks_written(p)
        if not wr and p.get(dfld('usedBlocks')) == ('init', dfld('usedBlocks')):
            R.check('in-use', w, all(p.get(l) == ('init', l) for l in S.all()), 'statistics change although no block is given back')
            continue
        cs = [x[1][1] for a, tv in p.facts.items() if tv and a[0] == '==' and ptr in a[1:] for x in a[1:] if x[0] == 'init' and x[1][0] == 'fld' and x[1][2] == BL + '::data']
        if len(cs) != 1:
            continue
        c = cs[0]
        # the block c ended up in: the one whose size changed, or c itself
        gone = [e.args[0] for e in p.calls() if e.fn == FSD]
        F = [o for o, f in wr if f == 'size' and o not in gone] if c in gone else [c]
        if len(F) != 1:
            continue
        F = F[0]
        size = p.get(blk('size', F))
        n += 1
        whole = decide(EQ(size, z('blockSize', F)), p.facts)
        if whole is None and decide(EQ(z('blockSize', F), ZERO), p.facts) is True:
            whole = False      # no block has size zero
        gave(R, S, p, w, z('size', c), whole, z('blockSize', F), size)
    R.need(n, 'DynamicSizePool::deallocate: no path understood')
    for i, l, c, gone in dyn_release(C)[1]:
        given(R, S, i, l, gone, ('init', blk('blockSize', c)), ('init', blk('size', c)), site(C.fn(DREL, 0)))
    outside(C, S, *dyn_release(C)[0])
    U, F = dfld('usedBlocks'), dfld('freeBlocks')
    whole = lambda c, fs: decide(EQ(('init', blk('size', c)), ('init', blk('blockSize', c))), fs)
    fold(C, 'getReleasableSize', [F], lambda c, fs: None if whole(c, fs) is None else {('init', blk('blockSize', c)), ('init', blk('size', c))} if whole(c, fs) else {ZERO})
    fold(C, 'getFreeBlocks', [F], lambda c, fs: None if whole(c, fs) is None else {ONE} if whole(c, fs) else {ZERO})
    fold(C, 'getBlocksInPool', [U, F], lambda c, fs: {ONE})
    fold(C, 'getLargestAvailableBlock', [F], None)


def fold(C, name, heads, f):
    """the function adds f(block) over all blocks of the lists, or takes the largest size"""
    R = C.R
    fn = C.fn(f"{DP}::{name}", 0)
    w = site(fn)
    for p in C.paths(fn):
        if p.kind != 'return':
            R.check('query', w, False, f"{name} does not return")
            continue
        L = Lists(p, BL + '::next')
        done = []
        v = p.val
        const = ZERO
        ok = True
        why = ''
        acc = [v]
        while acc:
            v = acc.pop()
            if v == ZERO:
                continue
            if v[0] == 'lin':
                if v[1] != 0 or any(k != 1 for t, k in v[2]):
                    ok, why = False, f"returns {pp(v)}"
                    break
                acc += [t for t, k in v[2]]
                continue
            ways = L.ways(v) if v[0] == 'loopv' else None
            if ways is None:
                ok, why = False, f"returns {pp(v)}"
                break
            l = L.loops[v[1]]
            cur = [('loopv', v[1], k) for k in l.extra['entry'] if l.extra['entry'][k] in [('init', h) for h in heads] and all(i.mem.get(k) == ('init', blk('next', ('loopv', v[1], k))) for i in l.iters)]
            if len(cur) != 1 or isnull(cur[0], p.facts) is not True:
                ok, why = False, 'the walk over the blocks is not complete'
                break
            cur = cur[0]
            done.append(l.extra['entry'][cur[2]][1])
            acc.append(ways[0])
            for x, i in ways[1]:
                if f is None:
                    s = ('init', blk('size', cur))
                    m = maxed(i, v, s, x, 'largest block')
                    if m:
                        ok, why = False, m
                else:
                    want = f(cur, i.facts)
                    if want is None or x not in {add(v, y) for y in want}:
                        ok, why = False, f"adds {pp(sub(x, v))} for a block: {desc(i)}"
        if ok:
            # a list known to be empty needs no walk
            for h in heads:
                if h not in done and decide(EQ(('init', h), ZERO), p.facts) is True:
                    done.append(h)
            ok, why = sorted(map(str, done)) == sorted(map(str, heads)), f"walks {[pp(h) for h in done]}"
        R.check('query', w, ok, why)


def forwards(C):
    R = C.R
    DL = 'umpire::strategy::DynamicPoolList'
    for n in ('getReleasableBlocks', 'getTotalBlocks', 'getActualSize', 'getActualHighwaterMark', 'getAlignedSize', 'getAlignedHighwaterMark', 'getReleasableSize', 'getBlocksInPool', 'getLargestAvailableBlock'):
        fn = C.fn(f"{DL}::{n}", 0)
        for p in C.paths(fn, opaque=(f"{DP}::{n}",)):
            cs = [e for e in p.calls() if e.fn == f"{DP}::{n}"]
            R.check('query', site(fn), len(cs) >= 1 and p.val == cs[-1].ret, f"answers {pp(p.val)} instead of what the pool says")
