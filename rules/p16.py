from front import *

TECHNIQUE = ("trace-partitioned abstract interpretation of the allocator handle for the special requests: zero bytes, null addresses, addresses from the zero-byte pool; "
             "the calls made on each path are compared with the specification")
ASSUMPTIONS = ["the zero-byte pool hands out distinct addresses (P15)"]


def run(C):
    R = C.R
    R.rule('zero', 'a request for zero bytes is served by the zero-byte pool and never reaches the strategy; any other request reaches the strategy with its exact size')
    R.rule('zero-release', 'an address of the zero-byte pool goes back there, with the size it was taken with, and any other to the strategy')
    R.rule('null', 'releasing the null address does nothing')
    R.rule('same-pool', 'every handle uses the one zero-byte pool')
    taken = set()
    for fn in C.fns(AL + '::allocate'):
        n = ('param', fn['params'][-1]['n'])
        seen = set()
        for p in C.paths(fn, opaque=FRONT):
            w = site(fn)
            z = isnull(n, p.facts)
            st = strat_calls(p, SA, SN)
            zs = [e for e in p.calls() if e.fn == ZA]
            if z is True:
                seen.add(0)
                R.check('zero', w, not st and len(zs) == 1 and p.val == zs[0].ret, f"zero bytes: strategy {len(st)} times, zero-byte pool {len(zs)} times")
                for e in zs:
                    taken.add(e.args[0])
                    R.check('same-pool', site(fn, e), is_zero_pool(p, e.obj), f"takes from {pp(e.obj)}")
            elif z is False:
                seen.add(1)
                R.check('zero', w, not zs and len(st) == 1 and st[0].args[-1] == n and st[0].obj == STRAT, f"a request of n bytes reaches {[(short(e), [pp(x) for x in e.args]) for e in st + zs]}")
                R.check('zero', w, p.kind == 'throw' or bool(st) and p.val == st[0].ret, f"returns {pp(p.val)}")
            else:
                R.check('zero', w, False, 'zero-byte requests are not told apart: ' + desc(p))
        R.expect(seen == {0, 1}, f"{fn['q']}: zero and non-zero requests not both seen")
    fn = C.fn(AL + '::deallocate', 1)
    ptr = ('param', fn['params'][0]['n'])
    seen = set()
    for p in C.paths(fn, opaque=FRONT):
        w = site(fn)
        rel = [e for e in p.calls() if e.fn in (SD, ZD)]
        oth = [e for e in p.calls() if e.fn in (REG, DEREG)]
        nl = isnull(ptr, p.facts)
        if nl is True:
            seen.add('null')
            R.check('null', w, p.kind == 'return' and not rel and not oth and not [e for e in p.events(kind='write')], f"releasing null does {[short(e) for e in rel + oth]}")
            continue
        if not R.check('null', w, nl is False, 'null addresses are not told apart: ' + desc(p)):
            continue
        if p.kind == 'throw':
            continue
        ask = [e for e in p.calls() if e.fn == ZF]
        if not R.check('zero-release', w, len(ask) == 1 and ask[0].args[0] == ptr, 'the zero-byte pool is not asked about the address'):
            continue
        R.check('same-pool', site(fn, ask[0]), is_zero_pool(p, ask[0].obj), f"asks {pp(ask[0].obj)}")
        t = truthy(ask[0].ret, p.facts)
        seen.add(t)
        want = ZD if t else SD
        if R.check('zero-release', w, t is not None and [e.fn for e in rel] == [want] and rel[0].args[0] == ptr, f"address {'from' if t else 'not from'} the zero-byte pool: {[(e.fn, [pp(x) for x in e.args]) for e in rel]}"):
            if t:
                R.check('same-pool', w, rel[0].obj == ask[0].obj, f"goes back to {pp(rel[0].obj)}")
    R.expect(seen == {'null', True, False}, 'release outcomes not all seen')
    # a named request is an ordinary one unless the strategy says otherwise
    fn = C.fn(SN, 2)
    for p in C.paths(fn):
        st = strat_calls(p, SA)
        R.check('zero', site(fn), len(st) == 1 and st[0].args == (('param', fn['params'][1]['n']),) and st[0].obj == ('this',) and p.val == st[0].ret,
                f"a named request reaches the strategy as {[(short(e), [pp(x) for x in e.args]) for e in st]}")
    fn = C.fn(GETZ, 0)
    for p in C.paths(fn):
        R.check('same-pool', site(fn), p.val == ('init', ('fld', ('this',), RM + '::m_zero_byte_pool')), f"the zero-byte pool is {pp(p.val)}")
    # ---- is an address from the pool?
    fn = C.fn(ZF, 1)
    ptr = ('param', fn['params'][0]['n'])
    dat = ('init', ('fld', ('this',), FP + '::m_data_bytes'))
    ps = C.paths(fn)
    hit = 0
    for p in ps:
        t = truthy(p.val, p.facts)
        pieces = segments(p)
        for s in pieces:
            datas = {x for a in s.facts for x in subterms(a) if x[0] == 'init' and x[1][0] == 'fld' and x[1][2].endswith('Pool::data')}
            for d in datas:
                for off in (-64, -1, 0, 1, 63, 64, 65, 4096):
                    inside = 0 <= off < 64
                    ok = consistent(s, {d: 1000, ptr: 1000 + off, dat: 64})
                    if s.kind == 'return' and t is True:
                        hit += 1
                        R.check('zero-release', site(fn), ok == inside, f"an address at offset {off} of 64 bytes is {'accepted' if ok else 'refused'}")
                    elif s.kind == 'iter':
                        R.check('zero-release', site(fn), not (ok and inside), f"a pool holding the address (offset {off} of 64) is passed over")
    R.need(hit, 'pool membership test not found')
    R.check('zero-release', site(fn), any(truthy(p.val, p.facts) is False for p in ps), 'every address is taken for one of the pool')


def is_zero_pool(p, v):
    if v[0] == 'ret' and v[2] == GETZ:
        return True
    return v[0] == 'init' and v[1][0] == 'fld' and v[1][2].endswith('AllocateNull::m_zero_byte_pool')
