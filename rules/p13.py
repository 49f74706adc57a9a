from pools import *

TECHNIQUE = ("abstract interpretation of the aligning layers down to the parent's allocation; the extracted size and address formulas are decided by a complete table over a reduced machine word; "
             "path-wise symmetry of what is obtained and what is given back")
ASSUMPTIONS = ["the alignment given to a pool is a power of two, as documented", "the parent hands out memory of the size asked for, which does not wrap around the address space",
               "the formulas use only + - * / % and bitwise operations on unsigned words, for which the reduced word is representative"]
AN = 'umpire::strategy::AlignedAllocator'
W = Word(10)
PURE = ('umpire::event::record',)
AI, DI = AS + '::allocate_internal', AS + '::deallocate_internal'


def run(C):
    R = C.R
    R.rule('round-up', 'a size is rounded up to the next multiple of the alignment, and refused exactly when that does not fit')
    R.rule('aligned', 'the address handed out is a multiple of the alignment')
    R.rule('inside', 'the block handed out, and the note in front of it, lie inside the memory obtained from the parent; a size that does not fit is refused')
    R.rule('symmetric', 'what is given back to the parent is exactly what was obtained for that address: same address, same size, once')
    R.rule('configured', 'the alignment asked for is the one used')
    mixin(C)
    allocator(C)
    pools(C)


def sizes():
    m = W.m
    return sorted(set(range(0, 70)) | set(range(m - 140, m + 1)) | {100, 127, 128, 129, 255, 256, 257, 300, 500, 511, 512, 513})


def aligns(lo=1):
    return [a for a in (1, 2, 4, 8, 16, 32, 64, 128) if a >= lo]


def view(p, sub_):
    """facts and value of a path with the members replaced by what the constructor gives them"""
    class V:
        pass
    v = V()
    v.facts = {subst(a, sub_): tv for a, tv in p.facts.items()}
    v.kind = p.kind
    v.val = subst(p.val, sub_) if p.val is not None else None
    v.p = p
    return v


def mixin(C):
    R = C.R
    ctor = C.fn(AA + '::AlignedAllocation', 2)
    mem = set_by_ctor(C, ctor)
    al = [('param', q['n']) for q in ctor['params'] if 'long' in q['t'] or 'size_t' in q['t']]
    R.need(len(al) == 1, 'AlignedAllocation: alignment parameter not found')
    al = al[0]
    # round up
    fn = C.fn(RUP, 1)
    sz = ('param', fn['params'][0]['n'])
    ps = [view(p, mem) for p in C.paths(fn)]
    for a in aligns():
        for s in range(0, W.m + 1, 1 if a <= 16 else 3):
            env = {al: a, sz: s}
            want = -(-s // a) * a
            hit = [p for p in ps if W.possible(p, env)]
            R.expect(hit, f"aligned_round_up: no path for {s}")
            for p in hit:
                ok = p.kind == 'throw' and exc_type(p) == OOM if want > W.m else p.kind == 'return' and W.ev(p.val, env) == want
                if not ok:
                    R.check('round-up', site(fn), False, f"{s} bytes, alignment {a}, words of {W.w} bits: {'refused' if p.kind == 'throw' else W.ev(p.val, env)} instead of {want if want <= W.m else 'refused'}")
                    break
            else:
                continue
            break
        R.check('round-up', site(fn), True)
    # obtain
    fn = C.fn(AAL, 1)
    ps = C.paths(fn, opaque=(AI, DI))
    sz = ('param', fn['params'][0]['n'])
    bm = ('fld', TH, AA + '::base_pointer_map')
    for p in ps:
        if p.kind == 'return':
            e = [x for x in p.calls() if x.fn == AI]
            if not R.check('symmetric', site(fn), len(e) == 1, f"the parent is asked {len(e)} times"):
                continue
            ent = puts(p, bm)
            R.check('symmetric', site(fn), len(ent) == 1 and ent[0][0] == p.val and tup(ent[0][1]) == (e[0].ret, e[0].args[0]),
                    f"remembers {[(pp(k), pp(v)) for k, v, _, _ in ent]} for {pp(p.val)}, obtained {pp(e[0].ret)} of {pp(e[0].args[0])} bytes")
    table(C, fn, ps, mem, al, sz, AI, 1, 0)
    # give back
    fn = C.fn(ADE, 1)
    ptr = ('param', fn['params'][0]['n'])
    for p in C.paths(fn, opaque=(AI, DI)):
        e = [x for x in p.calls() if x.fn == DI]
        cell = ('init', ('elem', bm, ptr))
        w = site(fn)
        if p.kind == 'throw' or not e:
            R.check('symmetric', w, unknown(p, bm, ptr), 'memory is not given back: ' + desc(p))
            continue
        ok = len(e) == 1 and from_entry(e[0].args[0], bm, ptr, 0) and from_entry(e[0].args[1], bm, ptr, 1)
        R.check('symmetric', w, ok, f"gives back {[pp(a) for x in e for a in x.args]}")
        ds = drops(p, bm)
        R.check('symmetric', w, len(ds) == 1 and (ds[0][0] == ptr or is_find(ds[0][0], bm, ptr)), 'the entry for the address is not dropped')


def is_find(v, bm, ptr):
    return v is not None and v[0] == 'app' and v[1] == 'find' and v[2] == bm and ptr in v[3:]


def unknown(p, bm, ptr):
    return any(tv and a[0] == '==' and any(is_find(x, bm, ptr) for x in a[1:]) for a, tv in p.facts.items()) or any(a[0] == '==' and contains(a, ('app', 'count', bm, ('ver', 0), ptr)) for a in p.facts)


def from_entry(v, bm, ptr, i):
    """the i-th part of what is remembered for ptr"""
    names = (('0', 'first'), ('1', 'second'))[i]
    def cell(x):
        return x == ('init', ('elem', bm, ptr)) or x == ('elem', bm, ptr) or x[0] == 'init' and x[1][0] == 'fld' and x[1][2].endswith('pair::second') and x[1][1][0] == 'app' and is_find(x[1][1][2], bm, ptr) \
            or x[0] == 'fld' and x[2].endswith('pair::second') and x[1][0] == 'app' and is_find(x[1][2], bm, ptr)
    if v[0] == 'init':
        v = v[1]
    if v[0] in ('proj', 'fld') and len(v) > 2:
        last = str(v[2]).split('::')[-1]
        return last in names and cell(v[1])
    return False


def tup(v):
    if v[0] == 'tuplev':
        return tuple(v[1])
    q = pair_of(v)
    return q


def table(C, fn, ps, mem, al, sz, call, lo, head):
    """address and size formulas of a path that obtains memory"""
    R = C.R
    w = site(fn)
    vs = []
    for p in ps:
        e = [x for x in p.calls() if x.fn == call]
        if p.kind == 'return' and len(e) != 1:
            continue
        vs.append((view(p, mem), e[0].ret if e else None, subst(e[0].args[0], mem) if e else None))
    R.expect(any(v.kind == 'return' for v, _, _ in vs), f"{fn['q']}: no path that hands out memory")
    bad = {}
    for a in aligns(lo):
        for s in sizes():
            hit = 0
            for v, ret, tot in vs:
                env = {al: a, sz: s}
                if not W.possible(v, env):
                    continue
                hit += 1
                try:
                    if v.kind == 'throw':
                        if s <= W.m - 2 * a - head:
                            bad.setdefault('inside', f"{s} bytes refused with alignment {a}, words of {W.w} bits")
                        elif exc_type(v) != OOM:
                            bad.setdefault('inside', f"{s} bytes refused with {exc_type(v)}")
                        continue
                    T = W.ev(tot, env)
                    for b in list(range(16, 16 + 2 * a + 1)) + [W.m - T]:
                        if b < 16 or b + T > W.m:
                            continue
                        env[ret] = b
                        if not W.possible(v, env):
                            continue
                        q = W.ev(v.val, env)
                        if q % a:
                            bad.setdefault('aligned', f"hands out {q} for memory at {b}, alignment {a}")
                        if q - head < b or q + s > b + T:
                            bad.setdefault('inside', f"hands out {q} for {s} bytes from {T} bytes at {b}, alignment {a} (words of {W.w} bits)")
                except Unk as x:
                    raise Anchor(f"{fn['q']}: the formula depends on {pp(x.args[0])[:200]}")
            R.expect(hit, f"{fn['q']}: no path for {s} bytes, alignment {a}")
    for r in ('aligned', 'inside'):
        R.check(r, w, r not in bad, bad.get(r, ''))


def allocator(C):
    R = C.R
    ctor = C.fn(AN + '::AlignedAllocator', 4)
    al = ('param', ctor['params'][3]['n'])
    mem = set_by_ctor(C, ctor)
    ps = C.paths(ctor)
    for a in range(0, W.m + 1):
        good = a >= 16 and a & (a - 1) == 0
        for p in ps:
            if not W.possible(p, {al: a}):
                continue
            if not good:
                R.check('configured', site(ctor), p.kind == 'throw', f"alignment {a} is accepted") if p.kind != 'throw' else None
            elif p.kind == 'throw':
                plat = [e for e in p.calls() if e.fn.endswith('::getPlatform')]
                why = plat and any(contains(f, plat[0].ret) and not tv for f, tv in p.facts.items())
                if not why:
                    R.check('configured', site(ctor), False, f"alignment {a} is refused")
    R.check('configured', site(ctor), True)
    fn = C.fn(AN + '::allocate', 1)
    sz = ('param', fn['params'][0]['n'])
    ps = C.paths(fn, opaque=(AI, DI))
    tot = set()
    for p in ps:
        if p.kind != 'return':
            continue
        e = [x for x in p.calls() if x.fn == AI]
        if not R.check('symmetric', site(fn), len(e) == 1, f"the parent is asked {len(e)} times"):
            continue
        tot.add(subst(e[0].args[0], {sz: ('size',)}))
        hs = [(l, v) for l, v in p.mem.items() if l[0] in ('deref', 'elem', 'fld') and contains(l, e[0].ret)]
        loc = ('deref', sub(p.val, INT(8)))
        R.check('symmetric', site(fn), [(l, v) for l, v in hs if v != ('init', l)] == [(loc, e[0].ret)], f"notes {[(pp(l), pp(v)) for l, v in hs]}, obtained {pp(e[0].ret)}, hands out {pp(p.val)}")
    table(C, fn, ps, mem, al, sz, AI, 16, 8)
    fd = C.fn(AN + '::deallocate', 2)
    ptr, size = (('param', q['n']) for q in fd['params'])
    for p in C.paths(fd, opaque=(AI, DI)):
        e = [x for x in p.calls() if x.fn == DI]
        ok = p.kind == 'return' and len(e) == 1 and e[0].args[0] == ('init', ('deref', sub(ptr, INT(8)))) and {subst(e[0].args[1], {size: ('size',)})} == tot
        R.check('symmetric', site(fd), ok, f"gives back {[pp(a) for x in e for a in x.args]}; obtained {[pp(t) for t in tot]}")


def pools(C):
    """the alignment a pool is constructed with reaches the layer that aligns"""
    R = C.R
    for q, n in ((QP + '::QuickPool', 7), (DP + '::DynamicSizePool', 4)):
        fn = C.fn(q, n)
        al = [('param', x['n']) for x in fn['params'] if x['n'].startswith('align')]
        R.need(len(al) == 1, f"{q}: alignment parameter not found")
        for p in C.paths(fn, opaque=('umpire::event::record', AA + '::AlignedAllocation')):
            e = [x for x in p.calls() if x.fn == AA + '::AlignedAllocation']
            if not e:
                v = p.get(('fld', TH, AA + '::m_alignment'))
                R.check('configured', site(fn), v == al[0], f"aligns to {pp(v)}")
            else:
                R.check('configured', site(fn), len(e) == 1 and e[0].args[0] == al[0], f"aligns to {pp(e[0].args[0])}")
    fn = C.fn('umpire::strategy::DynamicPoolList::DynamicPoolList', 7)
    ps = [('param', x['n']) for x in fn['params']]
    for p in C.paths(fn, opaque=(DP + '::DynamicSizePool',)):
        e = [x for x in p.calls() if x.fn == DP + '::DynamicSizePool']
        if not e:
            vals = [v for l, v in p.mem.items() if l[0] == 'fld' and l[2] == AA + '::m_alignment']
            R.check('configured', site(fn), vals == [ps[5]], f"aligns to {[pp(v) for v in vals]}")
            continue
        R.check('configured', site(fn), len(e) == 1 and e[0].args[1:4] == tuple(ps[3:6]), f"configures the pool with {[pp(a) for a in e[0].args[1:]]}")
