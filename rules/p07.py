from common import *

TECHNIQUE = ("trace-partitioned abstract interpretation of the fixed-block pool; every piece of a path that touches a pool is compared with the free-list "
             "transition system (take, lazily initialise, give back), and the ownership test of the release is decided on every ordering of its quantities")
ASSUMPTIONS = ["malloc succeeds and returns storage of the requested size", "every given-back pointer was handed out by the same pool object and is given back once",
               "blocks are at least as large as the link index (4 bytes)", "fewer than 2^32 blocks per pool"]

PL = FMP + '::Pool'
F = {k: PL + '::' + k for k in ('data', 'next', 'num_initialized', 'num_free')}


def start(seg, loc):
    """value a pool member had when the piece began"""
    for e in seg.evs:
        if e.kind == 'write' and e.loc == loc:
            return e.old
    return seg.mem.get(loc, ('init', loc))


def bases(seg):
    return {e.loc[1] for e in seg.evs if e.kind == 'write' and e.loc[0] == 'fld' and e.loc[2] in F.values()}


def run(C):
    R = C.R
    R.rule('take', 'a block is handed out exactly when the free count is not zero; it is the head of the free list, the count drops by one and the head moves to the linked block')
    R.rule('initialise', 'each take first prepares the next untouched block, if there is one, with the index following it')
    R.rule('once', 'a block taken from the free list is the one handed out')
    R.rule('grow', 'an exhausted pool gets a new one of the configured block size and count')
    R.rule('give-back', 'a released block becomes the head of the free list of the pool that owns it, linked to the former head')
    R.rule('ownership', 'the owning pool is found exactly when the address lies in its storage')
    R.rule('link-width', 'links are stored in four bytes, the smallest block size in use')
    R.rule('storage', 'a pool owns storage for exactly its blocks and gives it back once')
    for k in F.values():
        R.need(k.split('::')[-1] in {f['n'] for f in C.P.fields(PL)} if hasattr(C.P, 'fields') else True, f"member {k} not found")
    obj = ('init', ('fld', ('this',), FMP + '::m_obj_bytes'))
    per = ('init', ('fld', ('this',), FMP + '::m_obj_per_pool'))
    dat = ('init', ('fld', ('this',), FMP + '::m_data_bytes'))
    # ---- storage
    ctor = [f for f in C.fns(PL + '::Pool', 2)][0]
    a0, a1 = (('param', q['n']) for q in ctor['params'])
    for p in C.paths(ctor):
        w = site(ctor)
        g = {k: p.get(('fld', ('this',), f)) for k, f in F.items()}
        ms = [e for e in p.calls('malloc')]
        R.check('storage', w, len(ms) == 1 and ms[0].args[0] == mul(a0, a1) and g['data'] == ms[0].ret, f"pool storage is {pp(g['data'])} of {[pp(e.args[0]) for e in ms]} bytes")
        R.check('storage', w, g['next'] == g['data'] and g['num_initialized'] == ZERO and g['num_free'] == a1, f"a fresh pool starts with {[(k, pp(v)) for k, v in g.items()]}")
    fctor = C.fn(FMP + '::FixedMallocPool', 2)
    b0, b1 = (('param', q['n']) for q in fctor['params'])
    for p in C.paths(fctor):
        w = site(fctor)
        R.check('storage', w, p.get(obj[1]) == b0 and p.get(per[1]) == b1 and p.get(dat[1]) == mul(b0, b1), f"block size {pp(p.get(obj[1]))}, count {pp(p.get(per[1]))}, bytes {pp(p.get(dat[1]))}")
        for e in p.calls('emplace_back'):
            R.check('grow', w, e.args == (b0, b1), f"first pool created with {[pp(x) for x in e.args]}")
    d = C.fn(FMP + '::~FixedMallocPool', 0)
    for p in C.paths(d):
        w = site(d)
        fr = [s for s in segments(p) for e in s.calls('free') if (e.args[0][0] == 'init' and e.args[0][1][0] == 'fld' and e.args[0][1][2] == F['data']
                                                                   or e.args[0][0] == 'loopv' and e.args[0][2][0] == 'fld' and e.args[0][2][2] == F['data'])]
        R.check('storage', w, len(fr) >= 1 and len(list(p.calls('free'))) == len(fr), 'the destructor does not give back the storage of each pool once')
        R.check('storage', w, all(s.kind == 'iter' for s in fr), 'storage given back outside the walk over the pools')
    # ---- allocate
    fn = C.fn(FMP + '::allocate', 1)
    takes = grows = 0
    for p in C.paths(fn, track_reads=True):
        for s in segments(p):
            w = site(fn, s.evs[0].line if s.evs else None)
            for B in bases(s):
                L = {k: ('fld', B, f) for k, f in F.items()}
                o = {k: start(s, l) for k, l in L.items()}
                n = {k: s.mem.get(l, ('init', l)) for k, l in L.items()}
                if isnull(o['num_free'], s.facts) is False and isnull(o['next'], s.facts) is True:
                    continue        # free blocks but no head: excluded by the invariant the obligations establish
                R.check('initialise', w, n['data'] == o['data'], 'the pool storage pointer is changed')
                room = decide(LT(o['num_initialized'], per), s.facts)
                link = [(i, e) for i, e in enumerate(s.evs) if e.kind == 'write' and e.loc[0] == 'deref']
                for _, e in link:
                    R.check('link-width', site(fn, e), sizeof(e.tw or '') == INT(4), f"link stored as {e.tw}")
                if n['num_initialized'] != o['num_initialized'] or link:
                    ok = (room is True and len(link) == 1 and link[0][1].loc == ('deref', add(o['data'], mul(obj, o['num_initialized'])))
                          and untrunc(link[0][1].val) == add(o['num_initialized'], ONE) and n['num_initialized'] == add(o['num_initialized'], ONE))
                    R.check('initialise', w, ok, f"prepares {[pp(e.loc) for _, e in link]} := {[pp(e.val) for _, e in link]}, count {pp(n['num_initialized'])}, guarded by room: {room}")
                if n['num_free'] == o['num_free'] and n['next'] == o['next']:
                    continue
                takes += 1
                R.check('initialise', w, room is False or link, 'a block is taken without preparing the next untouched one')
                R.check('take', w, isnull(o['num_free'], s.facts) is False, 'a block is taken without testing that one is free')
                R.check('take', w, n['num_free'] == sub(o['num_free'], ONE), f"free count becomes {pp(n['num_free'])}")
                left = isnull(sub(o['num_free'], ONE), s.facts)
                if left is None:
                    left = decide(EQ(o['num_free'], ONE), s.facts)
                want = add(o['data'], mul(obj, ('init', ('deref', o['next']))))
                if left is True:
                    R.check('take', w, n['next'] in (ZERO, want), f"head becomes {pp(n['next'])} although no block is left")
                else:
                    R.check('take', w, n['next'] == want, f"head becomes {pp(n['next'])}")
                    if link and n['next'] == want:
                        i = s.owner.trace.index(link[0][1])
                        rd = [r for r in s.owner.reads if r[0] == ('deref', o['next'])]
                        R.check('initialise', w, rd and all(r[5] > i or s.kind == 'iter' for r in rd), 'the link is followed before the block that may hold it is prepared')
                R.check('once', w, s.kind == 'return' and s.val == o['next'] or s.kind == 'iter' and carried(p, s, o['next']), f"block {pp(o['next'])} is taken but the result is {pp(s.val) if s.kind == 'return' else 'something else'}")
            gs = [e for e in s.evs if e.kind == 'call' and short(e) in ('emplace_back', 'push_back', 'emplace')]
            for e in gs:
                grows += 1
                R.check('grow', site(fn, e), e.args == (obj, per), f"new pool created with {[pp(x) for x in e.args]}")
            if gs:
                again = [e for e in s.evs if e.kind == 'call' and e.fn.startswith(FMP) and s.evs.index(e) > s.evs.index(gs[-1])]
                R.check('grow', w, s.kind == 'return' and (again and s.val == again[-1].ret or bases(s)), f"after growing, {pp(s.val)} is handed out")
        if p.kind == 'return' and p.val == ZERO:
            R.check('take', site(fn), False, 'null is handed out: ' + desc(p))
    R.expect(takes >= 2 and grows, 'taking a block and growing not both seen')
    # ---- deallocate
    fn = C.fn(FMP + '::deallocate', 1)
    ptr = ('param', fn['params'][0]['n'])
    acc = empty = 0
    ps = C.paths(fn)
    segs = [s for p in ps for s in segments(p)]
    for s in segs:
        for B in bases(s):
            w = site(fn, s.evs[-1].line)
            L = {k: ('fld', B, f) for k, f in F.items()}
            o = {k: start(s, l) for k, l in L.items()}
            n = {k: s.mem.get(l, ('init', l)) for k, l in L.items()}
            acc += 1
            R.check('give-back', w, n['next'] == ptr, f"head of the free list becomes {pp(n['next'])}")
            R.check('give-back', w, n['num_free'] == add(o['num_free'], ONE), f"free count becomes {pp(n['num_free'])}")
            R.check('give-back', w, n['data'] == o['data'] and n['num_initialized'] == o['num_initialized'], 'releasing changes the pool storage or its prepared part')
            R.check('give-back', w, s.kind == 'return', 'after giving a block back the search goes on')
            st = [e for e in s.evs if e.kind == 'write' and e.loc[0] == 'deref']
            for e in st:
                R.check('link-width', site(fn, e), e.loc == ('deref', ptr) and sizeof(e.tw or '') == INT(4), f"{pp(e.loc)} stored as {e.tw}")
            nn = isnull(o['next'], s.facts)
            if nn is True:
                empty += 1
            else:
                want = ('op', '/', sub(o['next'], o['data']), obj)
                R.check('give-back', w, bool(st) and untrunc(st[-1].val) == want, f"link to the former head is {pp(st[-1].val) if st else 'not stored'}")
            # ownership, on every ordering
            for off in (-40, -1, 0, 1, 8, 31, 32, 33, 400):
                env = {o['data']: 1000, ptr: 1000 + off, obj: 8, per: 4, dat: 32, o['next']: 1008, mul(obj, per): 32}
                try:
                    ok = consistent(s, env)
                except Unk:
                    ok = True
                inside = 0 <= off < 32
                if nn is True:
                    env[o['next']] = 0
                    ok = consistent(s, env)
                R.check('ownership', w, ok == inside, f"a block at offset {off} of a pool of 32 bytes is {'accepted' if ok else 'refused'}")
    R.expect(acc, 'no path gives a block back')
    for p in ps:
        if p.kind == 'return' and not bases(Seg(p, p.facts, [e for e in p.trace if e.kind != 'loop'], p.kind, p.mem, p.val)):
            R.check('ownership', site(fn), False, 'an address no pool owns is silently accepted: ' + desc(p))
        # a pool passed over must not own the address
        for s in segments(p):
            if s.kind != 'iter' or bases(s):
                continue
            datas = {t for a in s.facts for t in subterms(a) if t[0] == 'init' and t[1][0] == 'fld' and t[1][2] == F['data']}
            if not datas:
                R.check('ownership', site(fn), False, 'a pool is passed over without testing whether it owns the address')
            for dv in datas:
                for off in (0, 1, 8, 31):
                    env = {dv: 1000, ptr: 1000 + off, obj: 8, per: 4, dat: 32, mul(obj, per): 32}
                    R.check('ownership', site(fn), not consistent(s, env), f"a pool owning the address (offset {off} of 32) is passed over")
    R.expect(any(p.kind == 'throw' for p in ps), 'an unknown address is not reported')


def carried(p, s, v):
    """one iteration leaves v in a variable, does so only while that is null, and what is in it after the loop is handed out"""
    for l in p.trace:
        if l.kind != 'loop' or s.owner not in l.iters:
            continue
        for k, x in s.mem.items():
            lv = ('loopv', l.extra['id'], k)
            if k[0] == 'var' and x == v and isnull(lv, s.facts) is True and l.extra['entry'].get(k) == ZERO:
                have = isnull(lv, p.facts)
                if have is True or have is False and p.kind == 'return' and p.val == lv:
                    return True
    return False


def untrunc(v):
    while v[0] == 'trunc' and sizeof(v[1])[1] >= 4:         # the link itself is four bytes wide
        v = v[2]
    return v
