from pools import *

TECHNIQUE = ("abstract interpretation of each heuristic applied to an arbitrary pool (the function it makes is analysed in place), decided over a table of pool states; "
             "data flow of the answer into coalescing on every path that gives a block back or coalesces on request")
ASSUMPTIONS = ["the pool's own numbers are right (P11)", "a share of the pool may be rounded by less than one percent"]

GETS = ('getActualSize', 'getReleasableSize', 'getReleasableBlocks', 'getTotalBlocks', 'getAlignedHighwaterMark', 'getActualHighwaterMark', 'getAlignedSize', 'getBlocksInPool')
DL = 'umpire::strategy::DynamicPoolList'
POOLS_ = (QP, DL)


def worlds():
    """(sizes of the chunks, which of them are wholly free)"""
    for n in range(0, 4):
        for sizes in ([1000] * n, [1000 * (3 ** k) for k in range(n)], [1000 * (3 ** (n - k)) for k in range(n)]):
            for m in range(2 ** n):
                yield sizes, [bool(m >> k & 1) for k in range(n)]


def env_of(p, cls, sizes, free, hwm):
    vals = {'getActualSize': sum(sizes), 'getReleasableSize': sum(s for s, f in zip(sizes, free) if f), 'getReleasableBlocks': sum(free), 'getTotalBlocks': len(sizes),
            'getAlignedHighwaterMark': hwm, 'getActualHighwaterMark': hwm + 7, 'getAlignedSize': max(0, sum(s for s, f in zip(sizes, free) if not f) - 1), 'getBlocksInPool': len(sizes) + 2}
    env = {}
    for e in p.calls():
        k = e.fn.split('::')[-1]
        if e.fn.startswith(cls) and k in vals:
            env[e.ret] = vals[k]
    return env


class FP_:
    """evaluation with real division, for the share of the pool"""

    def ev(self, v, env):
        if v in env:
            return env[v]
        k = v[0]
        if k == 'int':
            return v[1]
        if k == 'float':
            return float(v[1])
        if k == 'f2i':
            return int(self.ev(v[1], env))
        if k in ('i2f', 'trunc', 'cast'):
            return self.ev(v[-1], env)
        if k == 'lin':
            return v[1] + sum(c * self.ev(t, env) for t, c in v[2])
        if k == '==':
            return self.ev(v[1], env) == self.ev(v[2], env)
        if k == '<':
            return self.ev(v[1], env) < self.ev(v[2], env)
        if k == 'not':
            return not self.ev(v[1], env)
        if k == 'op' and v[1] in '*/+-%':
            a, b = self.ev(v[2], env), self.ev(v[3], env)
            if v[1] in '/%' and b == 0:
                raise Unk(v)
            if v[1] == '/':
                fl = any(t[0] in ('float', 'i2f') for t in subterms(v))
                return a / b if fl or isinstance(a, float) or isinstance(b, float) else a // b
            return {'*': lambda: a * b, '+': lambda: a + b, '-': lambda: a - b, '%': lambda: a % b}[v[1]]()
        raise Unk(v)

    def possible(self, p, env):
        for a, tv in p.facts.items():
            try:
                if bool(self.ev(a, env)) != tv:
                    return False
            except Unk:
                pass
        return True


F = FP_()


def run(C):
    R = C.R
    R.rule('refused', 'a percentage outside 0..100 is refused, any other accepted')
    R.rule('percent', 'the percent heuristic answers the size to keep exactly when that share of the pool is releasable; all of it for 100, never for 0')
    R.rule('blocks', 'the block heuristic answers the size to keep exactly when that many blocks are releasable')
    R.rule('size', 'the size to keep is the actual size, or the aligned high watermark in the variants named after it')
    R.rule('kept', 'a pool uses the heuristic it was made with')
    R.rule('followed', 'after a block is given back the heuristic is asked once, and the pool coalesces to its answer exactly when that is not zero')
    for name in ('percent', 'percent_hwm', 'blocks', 'blocks_hwm'):
        fns = C.fns('verif_inst::' + name, 2)
        R.expect(len(fns) == 2, f"{name}: heuristics of both pools not seen")
        for fn in fns:
            cls = QP if 'QuickPool' in fn['params'][1]['t'] else DL
            heuristic(C, fn, cls, name.startswith('percent'), name.endswith('hwm'))
    for cls in POOLS_:
        kept(C, cls)
    followed(C)


def heuristic(C, fn, cls, percent, hwm_):
    R = C.R
    x = ('param', fn['params'][0]['n'])
    w = f"{cls}::{'percent' if percent else 'blocks'}_releasable{'_hwm' if hwm_ else ''}"
    ps = C.paths(fn, opaque=tuple(cls + '::' + g for g in GETS))
    for h in ((-5, -1, 0, 1, 10, 25, 50, 90, 99, 100, 101, 1000) if percent else (0, 1, 2, 3, 4)):
        for sizes, free in worlds():
            A, Rl, hwm = sum(sizes), sum(s for s, f in zip(sizes, free) if f), 777
            n = 0
            for p in ps:
                env = env_of(p, cls, sizes, free, hwm)
                env[x] = h
                if not F.possible(p, env):
                    continue
                n += 1
                if percent and not 0 <= h <= 100:
                    R.check('refused', w, p.kind == 'throw' and exc_type(p) == 'umpire::runtime_error', f"{h} percent is accepted")
                    continue
                if not R.check('refused', w, p.kind == 'return', f"{h} is refused with {exc_type(p)}"):
                    continue
                try:
                    v = F.ev(p.val, env)
                except Unk as u:
                    raise Anchor(f"{w} depends on {pp(u.args[0])[:200]}")
                if not percent:
                    want = sum(free) >= h
                elif h == 0:
                    want = False
                elif h == 100:
                    want = A == Rl
                elif Rl * 100 >= h * A:
                    want = True
                elif Rl * 100 + A <= h * A - 100:
                    want = False
                else:
                    continue
                size = hwm if hwm_ else A
                what = f"answers {v} for {h}{' percent' if percent else ' blocks'} with chunks {sizes}, of which free {[s for s, f in zip(sizes, free) if f]}"
                if want:
                    R.check('size' if v else ('percent' if percent else 'blocks'), w, v == size, what)
                else:
                    R.check('percent' if percent else 'blocks', w, v == 0, what)
            R.expect(n, f"{w}: no path for {h}")


def kept(C, cls):
    R = C.R
    n = 0
    for f in C.P.fns.values():
        if f['q'] != cls + '::' + cls.split('::')[-1] or f.get('body') is None:
            continue
        hp = [x for x in f['params'] if 'function' in x['t'] or 'Heuristic' in x['t']]
        if not hp:
            continue
        n += 1
        for p in C.paths(f, opaque=QOPQ + DOPQ + (DP + '::DynamicSizePool', QP + '::allocate', QP + '::deallocate', 'umpire::event::record')):
            if p.kind != 'return':
                continue
            v = [v for l, v in p.mem.items() if l[0] == 'fld' and l[1] == ('this',) and 'm_should_coalesce' in l[2]]
            R.check('kept', site(f), len(v) == 1 and contains(v[0], ('param', hp[0]['n'])), f"the pool keeps {[pp(t) for t in v]}")
    R.need(n, f"{cls}: no constructor that takes a heuristic")


def asked(p):
    return [e for e in p.events(kind='call') if 'm_should_coalesce' in pp(e.obj or ZERO) or 'm_should_coalesce' in e.fn]


def followed(C):
    R = C.R
    fn = C.fn(QP + '::deallocate', 2)
    todo = [(fn, C.paths(fn, opaque=QOPQ + (QP + '::do_coalesce',), dyn=QP), QP + '::do_coalesce')]
    fn = C.fn(DL + '::deallocate', 2)
    todo.append((fn, C.paths(fn, opaque=(DP + '::coalesce', DP + '::deallocate'), dyn=DL), DP + '::coalesce'))
    for q, inner in ((QP + '::coalesce', QP + '::do_coalesce'), (DL + '::coalesce', DP + '::coalesce')):
        fn = C.fn(q, 0)
        todo.append((fn, C.paths(fn, opaque=(inner, 'umpire::event::record'), dyn=q.rsplit('::', 1)[0]), inner))
    for fn, ps, inner in todo:
        n = 0
        for p in ps:
            if p.kind != 'return':
                continue
            hs = asked(p)
            cs = [e for e in p.calls() if e.fn == inner]
            w = site(fn)
            if not R.check('followed', w, len(hs) == 1, f"the heuristic is asked {len(hs)} times: {desc(p)}"):
                continue
            n += 1
            h = hs[0]
            v = truthy(h.ret, p.facts)
            if v is None:
                v = len(cs) == 0 and None
                R.check('followed', w, not cs, 'coalesces whatever the heuristic says')
                R.check('followed', w, False, 'does not look at the answer of the heuristic')
                continue
            R.check('followed', w, len(cs) == (1 if v else 0), f"coalesces {len(cs)} times although the heuristic's answer is {'not ' if v else ''}zero: {desc(p)}")
            R.check('followed', w, all(e.args == (h.ret,) for e in cs), f"coalesces to {[pp(a) for e in cs for a in e.args]} instead of the heuristic's answer")
            if fn['q'] == DL + '::deallocate':
                d = [e for e in p.calls() if e.fn == DP + '::deallocate']
                R.check('followed', w, len(d) == 1 and p.trace.index(d[0]) < p.trace.index(h), 'the heuristic is asked before the block is back')
            R.check('followed', w, all(p.trace.index(e) > p.trace.index(h) for e in cs), 'coalesces before asking')
        R.expect(n, f"{fn['q']}: the heuristic is never asked")
