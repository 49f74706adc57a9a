from front import *

TECHNIQUE = ("abstract interpretation of constructor, allocate and deallocate; the extracted state transitions are run against the specification machine over a complete reduced machine word "
             "(every limit, every reachable state, every request), with the parent failing at any call")
ASSUMPTIONS = ["the formulas use only + - and comparisons on unsigned words, for which the reduced word is representative", "only live allocations are released, with their size",
               "one thread per allocator, or a thread-safe one (P06)"]
ST = 'umpire::strategy::'
AI, DI = AS + '::allocate_internal', AS + '::deallocate_internal'
OP = (AI, DI, 'umpire::event::record')
T = ('this',)
W = Word(5)


class Machine:
    """the members of a strategy as a finite state machine over a reduced word"""

    def __init__(self, C, cls, nctor):
        self.C, R = C, C.R
        self.ctor = C.fn(ST + cls + '::' + cls, nctor)
        self.limit = ('param', self.ctor['params'][-1]['n'])
        self.cp = C.paths(self.ctor, opaque=OP, throws=throwing('umpire::runtime_error', AI))
        self.alloc = C.fn(ST + cls + '::allocate', 1)
        self.free = C.fn(ST + cls + '::deallocate', 2)
        self.size = ('param', self.alloc['params'][0]['n'])
        self.fsize = ('param', self.free['params'][1]['n'])
        self.fptr = ('param', self.free['params'][0]['n'])
        self.ap = C.paths(self.alloc, opaque=OP, throws=throwing('umpire::runtime_error', AI))
        self.fp = C.paths(self.free, opaque=OP)
        # members that matter: read in a formula of allocate/deallocate, closed under what they are set from
        self.locs = set()
        for p in self.ap + self.fp:
            for a in list(p.facts) + ([p.val] if p.val is not None else []) + [v for l, v in p.mem.items() if l[0] == 'fld' and l[1] == T]:
                for t in subterms(a):
                    if t[0] == 'init' and t[1][0] == 'fld' and t[1][1] == T:
                        self.locs.add(t[1])
            for l, v in p.mem.items():
                if l[0] == 'fld' and l[1] == T and v != ('init', l):
                    self.locs.add(l)
        own = {l for l in self.locs if l[2].startswith(ST + cls + '::')}
        self.locs = sorted(own)

    def state(self, p, env):
        """values of the members after a path, None where a member is not a number"""
        out = {}
        for l in self.locs:
            v = p.get(l)
            try:
                out[l] = W.ev(v, env)
            except Unk:
                if self.text(l):
                    out[l] = 0
                else:
                    raise Anchor(f"{pp(l)} becomes {pp(v)}")
        return out

    def text(self, l):
        f = self.C.P.field(l[2])
        return f is not None and ('*' in f.get('t', '') or 'string' in f.get('t', ''))

    def env(self, st, **kw):
        return {('init', l): v for l, v in st.items()}


def hits(paths, env, threw):
    """paths possible under env; with threw: those where the parent fails"""
    return [p for p in paths if W.possible(p, env) and any(getattr(e, 'threw', None) for e in p.calls()) == threw]


def run(C):
    R = C.R
    R.rule('refused', 'a request is refused exactly when it does not fit, with an error and without any effect')
    R.rule('granted', 'a request that fits is granted and counted once')
    R.rule('failed', 'a request the parent fails is not counted')
    R.rule('released', 'what is released is taken out of the count, exactly')
    R.rule('range', 'what a monotonic allocator hands out lies inside its block, behind everything handed out before')
    R.rule('block', 'a monotonic allocator obtains its capacity once, when it is constructed, and gives back exactly that when it is destroyed')
    R.rule('query', 'the queries report the bytes handed out and the capacity')
    limiter(C)
    monotonic(C)


def limiter(C):
    R = C.R
    M = Machine(C, 'SizeLimiter', 4)
    w, wf = site(M.alloc), site(M.free)
    bad = {}
    n = 0
    for lim in range(W.m + 1):
        cps = [p for p in M.cp if p.kind == 'return']
        R.need(len(cps) >= 1, 'SizeLimiter cannot be constructed')
        todo = [(M.state(cps[0], {M.limit: lim}), 0)]
        seen = set()
        while todo:
            st, tot = todo.pop()
            key = (tuple(sorted(st.items())), tot)
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 4 * (W.m + 2):
                bad.setdefault('granted', (w, f"the count drifts: with limit {lim}, {tot} bytes in use, members {[(pp(l), v) for l, v in st.items()]}"))
                break
            for s in range(W.m + 1):
                env = {**M.env(st), M.size: s}
                n += 1
                for threw in (False, True):
                    hs = hits(M.ap, env, threw)
                    if threw and tot + s > lim:
                        continue
                    if not hs:
                        bad.setdefault('granted' if tot + s <= lim else 'refused', (w, f"nothing happens for {s} bytes, {tot} of {lim} in use"))
                    for p in hs:
                        after = M.state(p, env)
                        calls = [e for e in p.calls() if e.fn in (AI, DI)]
                        txt = f"limit {lim}, {tot} in use, {s} requested (words of {W.w} bits)"
                        if tot + s > lim:
                            if p.kind != 'throw' or calls:
                                bad.setdefault('refused', (w, f"granted: {txt}"))
                            elif exc_type(p) != OOM:
                                bad.setdefault('refused', (w, f"refused with {exc_type(p)}"))
                            elif after != st:
                                bad.setdefault('refused', (w, f"a refused request is counted: {txt}"))
                        elif threw:
                            if p.kind == 'throw' and after != st:
                                bad.setdefault('failed', (w, f"a request the parent fails is counted: {txt}"))
                        elif p.kind == 'throw':
                            bad.setdefault('granted', (w, f"refused: {txt}"))
                        else:
                            if s == 0 and after != st:
                                bad.setdefault('granted', (w, f"an empty request is counted: {txt}"))
                            todo.append((after, tot + s))
            for s in range(tot + 1):
                env = {**M.env(st), M.fsize: s, M.size: s}
                hs = [p for p in M.fp if W.possible(p, env) and p.kind == 'return']
                if not hs:
                    bad.setdefault('released', (wf, f"a release of {s} bytes fails, {tot} in use"))
                for p in hs:
                    todo.append((M.state(p, env), tot - s))
        # one state per count: the count is a function of what is live
        by = {}
        for st, tot in seen:
            by.setdefault(tot, set()).add(st)
        for tot, sts in by.items():
            if len(sts) > 1:
                bad.setdefault('released', (wf, f"with limit {lim} and {tot} bytes in use the members depend on the history: {sorted(sts)[:2]}"))
    for r in ('refused', 'granted', 'failed', 'released'):
        R.check(r, bad[r][0] if r in bad else (wf if r == 'released' else w), r not in bad, bad.get(r, ('', ''))[1])
    R.notes.append(f"SizeLimiter: {n} request rows")


def monotonic(C):
    R = C.R
    M = Machine(C, 'MonotonicAllocationStrategy', 4)
    w, wf = site(M.alloc), site(M.free)
    bad = {}
    for p in M.cp:
        e = [x for x in p.calls() if x.fn == AI]
        if any(getattr(x, 'threw', None) for x in e):
            R.check('block', site(M.ctor), p.kind == 'throw', 'a constructor without memory succeeds')
            continue
        if R.check('block', site(M.ctor), p.kind == 'return' and len(e) == 1 and e[0].args == (M.limit,), f"obtains {[[pp(a) for a in x.args] for x in e]}"):
            base, cp, parent = e[0].ret, p, e[0].obj
    if any(not o['ok'] for o in R.obl):
        return
    mem = {('init', l): v for l, v in cp.mem.items() if l[0] == 'fld' and l[1] == T}
    n = 0
    cur = C.paths(C.fn(ST + 'MonotonicAllocationStrategy::getCurrentSize', 0))
    hwm = C.paths(C.fn(ST + 'MonotonicAllocationStrategy::getHighWatermark', 0))
    for cap in range(W.m // 2 + 1):
        b = W.m - cap if cap % 2 else 3
        todo = [(M.state(cp, {M.limit: cap, base: b}), 0)]
        seen = set()
        while todo:
            st, used = todo.pop()
            key = (tuple(sorted(st.items())), used)
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 4 * (W.m + 2):
                bad.setdefault('granted', (w, 'the count drifts'))
                break
            env0 = M.env(st)
            for q, want, what in ((cur, used, 'current size'), (hwm, cap, 'high watermark')):
                for p in q:
                    try:
                        v = W.ev(p.val, env0)
                    except Unk:
                        bad.setdefault('query', (w, f"{what} answers {pp(p.val)}"))
                        continue
                    if W.possible(p, env0) and v != want:
                        bad.setdefault('query', (w, f"{what} is {v} instead of {want}"))
            for s in range(W.m + 1):
                env = {**env0, M.size: s}
                n += 1
                txt = f"capacity {cap}, {used} handed out, {s} requested (words of {W.w} bits)"
                hs = [p for p in M.ap if W.possible(p, env)]
                if not hs:
                    bad.setdefault('granted', (w, 'nothing happens: ' + txt))
                for p in hs:
                    after = M.state(p, env)
                    if any(e.fn in (AI, DI) for e in p.calls()):
                        bad.setdefault('block', (w, 'asks the parent again: ' + txt))
                    if used + s > cap:
                        if p.kind != 'throw':
                            bad.setdefault('refused', (w, 'granted: ' + txt))
                        elif after != st:
                            bad.setdefault('refused', (w, 'a refused request has an effect: ' + txt))
                    elif p.kind == 'throw':
                        bad.setdefault('granted', (w, 'refused: ' + txt))
                    else:
                        v = W.ev(p.val, env)
                        if v != (b + used) & W.m and (v < b + used or v + s > b + cap):
                            bad.setdefault('range', (w, f"hands out {v} (block at {b}): " + txt))
                        todo.append((after, used + s))
            for p in M.fp:
                env = {**env0, M.fsize: 1, M.fptr: b}
                if p.kind != 'return' or any(e.fn in (AI, DI) for e in p.calls()) or M.state(p, env) != st:
                    bad.setdefault('released', (wf, 'a release has an effect'))
    for r in ('refused', 'granted', 'range', 'released', 'query', 'block'):
        R.check(r, bad[r][0] if r in bad else w, r not in bad, bad.get(r, ('', ''))[1])
    fn = [f for f in C.P.fns.values() if f['q'].startswith(ST + 'MonotonicAllocationStrategy::~')]
    R.need(fn, 'no destructor')
    for p in C.paths(fn[0], opaque=OP):
        e = [x for x in p.calls() if x.fn == DI]
        ok = p.kind == 'return' and len(e) == 1 and subst(e[0].obj, mem) == parent and tuple(subst(a, mem) for a in e[0].args) == (base, M.limit)
        R.check('block', site(fn[0]), ok, f"gives back {[[pp(subst(a, mem)) for a in x.args] for x in e]}")
    R.notes.append(f"MonotonicAllocationStrategy: {n} request rows")
