from front import *
from pools import drops

TECHNIQUE = ("abstract interpretation of the fixed-size, slot and mixed pools; the extracted bitmap and address formulas of taking and giving back are decided against each other by a complete table "
             "over bit positions; path-wise comparison with the slot and dispatch specifications")
ASSUMPTIONS = ["a fixed pool is asked for its object size (asserted by the code)", "only live blocks are given back", "the first-set-bit primitive returns the lowest set bit, counted from one",
               "one thread per allocator, or a thread-safe one (P06)"]
ST = 'umpire::strategy::'
AI, DI = AS + '::allocate_internal', AS + '::deallocate_internal'
T = ('this',)
EV = 'umpire::event::record'
FFS = ('ffs', '__builtin_ffs', 'umpire::util::find_first_set')
CTZ = ('__builtin_ctz',)
FSP = 'FixedSizePool'
D, A = 100000, 700000


def run(C):
    R = C.R
    R.rule('bitmap', 'taking a block clears exactly the bit of a free block and giving it back sets exactly that bit; different bits are different blocks')
    R.rule('inside', 'every block taken lies inside its chunk; addresses outside every chunk are refused')
    R.rule('count', 'the number of free blocks of a chunk, the size in use, its watermark and the size held follow every step')
    R.rule('chunk', 'a chunk is obtained with the size of all its objects and with every block free')
    R.rule('serve', 'a request is served from a chunk with a free block, and only if there is none from one new chunk')
    R.rule('release', 'releasing gives back exactly the chunks without a live block, each once, and forgets them')
    R.rule('slots', 'a slot pool serves a request from a free slot of exactly that size or an empty one, obtained once; a slot in use is never handed out again')
    R.rule('dispatch', 'a mixed pool serves a request from a pool whose blocks are large enough, and gives a block back to the pool it came from')
    fixed(C)
    fixed_size(C)
    C.either(slots)
    mixed(C)
    for v in [v for v in NARROW if sizeof(v[1])[1] >= 4 or not any(t[0] in ('init', 'param', 'ret', 'loopv') for t in subterms(v))]:
        del NARROW[v]           # block numbers inside one chunk: chunks are counted in unsigned int



def consts(mem, params, env):
    """values of the members for given constructor parameters"""
    out = {}
    for k, v in mem.items():
        try:
            out[k] = evaluate(v, {**params, **env})
        except Unk:
            pass
    return out


def words(p, avail):
    """(byte offset formula, value) of the bitmap words the path changes"""
    out = []
    for l, v in p.mem.items():
        if l[0] in ('deref', 'elem') and contains(l, avail) and v != ('init', l):
            a = l[1] if l[0] == 'deref' else None
            if a is None and l[0] == 'elem':
                a = add(l[1], l[2])
            out.append((l, a, v))
    return out


def take(C, fn, ps, base, fields, conf, key):
    """table of the block-taking function: {(conf, word, bit): address}"""
    R = C.R
    data, avail, num = (('fld', base, f) for f in fields)
    table = {}
    good = [p for p in ps if p.kind == 'return' and p.val != ZERO]
    R.expect(good, f"{fn['q']} never hands out a block")
    w = site(fn)
    for p in good:
        fs = [e for e in p.calls() if e.fn in FFS + CTZ]
        ws = words(p, ('init', avail))
        if not R.check('bitmap', w, len(ws) == 1, f"changes {len(ws)} words of the bitmap"):
            return None
        if not R.check('count', w, p.get(num) == sub(('init', num), ONE), f"free blocks become {pp(p.get(num))}"):
            return None
    for cname, env0, n_words, per, size in conf:
        got = {}
        for i in range(n_words):
            for bit in range(32):
                idx = i * 32 + bit
                hit = False
                for p in good:
                    l, a, v = words(p, ('init', avail))[0]
                    word = (0xffffffff << bit) & 0xffffffff
                    env = {**env0, ('init', data): D, ('init', avail): A, ('init', l): word}
                    for t in set(x for z in list(p.facts) + [p.val, v, a] for x in subterms(z)):
                        if t[0] == 'loopv':
                            env[t] = i
                    for e in p.calls():
                        if e.fn in FFS and e.args and e.args[0] == ('init', l):
                            env[e.ret] = bit + 1
                        elif e.fn in CTZ and e.args and e.args[0] == ('init', l):
                            env[e.ret] = bit
                    env.setdefault(('init', num), 1)
                    if not consistent(p, env):
                        continue
                    try:
                        off, new, addr = evaluate(a, env) - A, evaluate(v, env), evaluate(p.val, env)
                    except Unk as x:
                        raise Anchor(f"{fn['q']}: depends on {pp(x.args[0])[:160]}")
                    hit = True
                    if new & 0xffffffff != word & ~(1 << bit) or off != 4 * i:
                        R.check('bitmap', w, False, f"{cname}: taking bit {bit} of word {i} changes the word at byte {off} from {word:#x} to {new & 0xffffffff:#x}")
                        return None
                    if not D <= addr <= D + (per - 1) * size:
                        R.check('inside', w, False, f"{cname}: bit {bit} of word {i} hands out the block at {addr - D} of {per * size} bytes")
                        return None
                    if (addr - D) % size:
                        R.check('bitmap', w, False, f"{cname}: bit {bit} of word {i} hands out the block at {addr - D}")
                        return None
                    if addr in got.values():
                        R.check('bitmap', w, False, f"{cname}: bit {bit} of word {i} is the block of another bit, at {addr - D}")
                        return None
                    got[(i, bit)] = addr
                if idx < per and not hit:
                    R.check('serve', w, False, f"{cname}: block {idx} of {per} is never handed out")
                    return None
        table[cname] = got
        R.check('bitmap', w, True)
        R.check('inside', w, True)
    return table


def give(C, fn, ps, ptr, fields, conf, table, bases):
    R = C.R
    w = site(fn)
    eff = [p for p in ps if p.kind == 'return']
    for p in eff:
        bs = {l[1] for l, v in p.mem.items() if l[0] == 'fld' and l[2] == fields[2] and v != ('init', l)}
        if not R.check('count', w, len(bs) == 1, f"the free blocks of {len(bs)} chunks change: {desc(p)}"):
            return
        b = bs.pop()
        p.base = b
        R.check('count', w, p.get(('fld', b, fields[2])) == add(('init', ('fld', b, fields[2])), ONE), f"free blocks become {pp(p.get(('fld', b, fields[2])))}")
        if not R.check('bitmap', w, len(words(p, ('init', ('fld', b, fields[1])))) == 1, 'not exactly one word of the bitmap changes'):
            return
    R.check('inside', w, any(p.kind == 'throw' for p in ps), 'an address of no chunk is accepted')
    for i in (i for p in ps for e in loop_events(p) for i in e.iters):
        R.check('count', w, not [l for l, v in i.mem.items() if l[0] in ('fld', 'deref', 'elem') and v != ('init', l) and not contains(v, ('loopv',)) and l[1] != T and l[0] == 'fld' and l[2] == fields[2]], 'a chunk that is passed over changes')
    for cname, env0, n_words, per, size in conf:
        rows = [(i, bit, addr) for (i, bit), addr in table[cname].items()]
        rows += [(None, None, x) for x in (D - 1, D - size, D + per * size, D + per * size + 1)]
        for i, bit, addr in rows:
            hit = 0
            for p in eff:
                l, a, v = words(p, ('init', ('fld', p.base, fields[1])))[0]
                word = 0xffffffff & ~(1 << bit) if bit is not None else 0
                env = {**env0, ('init', ('fld', p.base, fields[0])): D, ('init', ('fld', p.base, fields[1])): A, ptr: addr, ('init', l): word}
                for t in set(x for z in p.facts for x in subterms(z)):
                    if t[0] == 'loopv':
                        env.setdefault(t, 4096)
                if not consistent(p, env):
                    continue
                hit += 1
                if i is None:
                    R.check('inside', w, False, f"{cname}: the address {addr - D} outside the chunk of {per * size} bytes is taken for one of its blocks")
                    return
                try:
                    off, new = evaluate(a, env) - A, evaluate(v, env)
                except Unk as x:
                    raise Anchor(f"{fn['q']}: depends on {pp(x.args[0])[:160]}")
                if off != 4 * i or new & 0xffffffff != word | 1 << bit:
                    R.check('bitmap', w, False, f"{cname}: giving back the block of bit {bit} of word {i} changes the word at byte {off} from {word:#x} to {new & 0xffffffff:#x}")
                    return
            if i is not None and not hit:
                R.check('bitmap', w, False, f"{cname}: the block of bit {bit} of word {i} cannot be given back")
                return
        R.check('bitmap', w, True)


def fixed(C):
    R = C.R
    q = ST + 'FixedPool'
    P_ = q + '::Pool::'
    fields = (P_ + 'data', P_ + 'avail', P_ + 'num_avail')
    ctor = C.fn(q + '::FixedPool', 5)
    mem = set_by_ctor(C, ctor)
    op, np_ = (('param', x['n']) for x in ctor['params'][3:5])
    # a chunk
    pc = [f for f in C.fns(q + '::Pool::Pool') if len(f['params']) == 4]
    R.need(pc, 'Pool constructor')
    pc = pc[0]
    pp_ = [('param', x['n']) for x in pc['params']]
    for p in C.paths(pc, opaque=(AI, DI)):
        w = site(pc)
        e = [x for x in p.calls() if x.fn == AI]
        d = [x for x in p.calls() if x.fn == DI]
        if p.kind == 'throw':
            R.check('chunk', w, len(e) == len(d) and all(x.args[0] == y.ret and x.args[1] == y.args[0] for x, y in zip(d, e)), 'a chunk that could not be set up is not given back')
            continue
        if not R.check('chunk', w, len(e) == 1 and not d, f"obtains memory {len(e)} times"):
            continue
        R.check('chunk', w, p.get(('fld', T, fields[0])) == e[0].ret, f"blocks start at {pp(p.get(('fld', T, fields[0])))}")
        R.check('chunk', w, e[0].obj == pp_[0] and p.get(('fld', T, P_ + 'strategy')) == pp_[0], 'obtained from another allocator')
        nm = p.get(('fld', T, fields[1]))
        m = [x for x in p.calls() if x.fn == 'malloc' and x.ret == nm]
        s = [x for x in p.calls() if x.fn == 'memset' and x.args[0] == nm]
        ok = len(m) == 1 and len(s) == 1 and s[0].args[2] == m[0].args[0] and isnull(nm, p.facts) is False
        R.check('chunk', w, ok and val(s[0].args[1]) & 255 == 255, 'the bitmap does not start with every bit set')
        chunk = (e[0].args[0], m[0].args[0] if m else None, p.get(('fld', T, fields[2])))
    new = C.fn(q + '::newPool', 0)
    pool = ('fld', T, q + '::m_pool')
    held = None
    grown = []
    for p in C.paths(new, opaque=(AI, DI)):
        e = [x for x in p.calls() if x.obj in (('addr', pool), pool) and short(x) in ('emplace_back', 'push_back')]
        if not R.check('chunk', site(new), p.kind == 'return' and len(e) == 1, 'not exactly one new chunk'):
            continue
        R.need(len(e[0].args) == 4, 'FixedPool::newPool: construction of the chunk not understood')
        grown.append(e[0].args)
        act = C.accloc(q + '::getActualSize')
        held = sub(p.get(act), ('init', act))
    for p in C.paths(new, opaque=(AI, DI), throws=throwing('umpire::out_of_memory_error', 'std::vector::emplace_back', 'std::vector::push_back')):
        if p.kind == 'throw':
            act = C.accloc(q + '::getActualSize')
            R.check('count', site(new), p.get(act) == ('init', act), 'a chunk that could not be made is counted')
    if not grown or any(not o['ok'] for o in R.obl):
        return
    conf = []
    for size in (1, 3, 8, 24, 100):
        for per in (1, 2, 31, 32, 33, 63, 64, 65, 100):
            pr = {op: size, np_: per}
            env0 = consts(mem, pr, {})
            a = dict(zip(pp_, grown[0]))
            try:
                got, bits, free = (evaluate(subst(x, a), env0) for x in chunk)
                strat = subst(grown[0][0], mem)
                heldv = evaluate(held, env0)
            except Unk as x:
                raise Anchor(f"FixedPool: chunk depends on {pp(x.args[0])}")
            cname = f"{per} objects of {size} bytes"
            R.check('chunk', site(new), got == size * per and free == per, f"{cname}: obtains {got} bytes for {free} free blocks")
            R.check('count', site(new), heldv >= got and heldv <= got + bits, f"{cname}: the size held grows by {heldv}")
            R.check('chunk', site(new), bits % 4 == 0 and bits * 8 >= per, f"{cname}: bitmap of {bits} bytes")
            conf.append((cname, env0, bits // 4, per, size))
    R.check('chunk', site(ctor), strat == mem.get(('init', ('fld', T, AS + '::m_parent'))), f"chunks come from {pp(strat)}")
    refused_sizes(C, ctor, op, np_)
    fn = C.fn(q + '::allocInPool', 1)
    base = ('param', fn['params'][0]['n'])
    ps = C.paths(fn)
    table = take(C, fn, ps, base, fields, conf, q)
    for p in ps:
        if p.kind == 'return' and p.val == ZERO and not loop_events(p):
            R.check('serve', site(fn), isnull(('init', ('fld', base, fields[2])), p.facts) is True, 'a chunk with a free block refuses')
    if not table:
        return
    fd = C.fn(q + '::deallocate', 2)
    ptr = ('param', fd['params'][0]['n'])
    psd = C.paths(fd, opaque=(AI, DI))
    give(C, fd, psd, ptr, fields, conf, table, None)
    cur = C.accloc(q + '::getCurrentSize')
    hwm = C.accloc(q + '::getHighWatermark')
    obj = [k for k, v in mem.items() if v == op]
    R.need(obj, 'object size member')
    for p in psd:
        if p.kind == 'return':
            R.check('count', site(fd), p.get(cur) == sub(('init', cur), obj[0]), f"size in use becomes {pp(p.get(cur))}")
            R.check('count', site(fd), p.get(hwm) == ('init', hwm), 'the watermark falls')
    owns(C, C.fn(q + '::pointerIsFromPool', 1), fields, conf)
    # serving
    fa = C.fn(q + '::allocate', 1)
    names = (q + '::allocInPool', q + '::newPool', q + '::allocate', AI, DI)
    for p in C.paths(fa, opaque=names):
        if infeasible(p):
            continue
        w = site(fa)
        it = [e for e in p.events(kind='call') if e.fn == q + '::allocInPool']
        nw = [e for e in p.events(kind='call') if e.fn == q + '::newPool']
        rec = [e for e in p.events(kind='call') if e.fn == q + '::allocate']
        iters = [i for e in loop_events(p) for i in e.iters]
        for i in iters:
            cs = [e for e in i.events(kind='call') if e.fn == q + '::allocInPool']
            R.check('serve', w, all(isnull(e.ret, i.facts) is True for e in cs) or all(e.ret in set(i.mem.values()) for e in cs), 'a block taken is dropped')
        if p.kind == 'throw':
            R.check('serve', w, not any(isnull(e.ret, p.facts) is False for e in it), 'a block taken is dropped')
            continue
        v = p.val
        if any(v == e.ret for e in rec):
            R.check('serve', w, len(nw) == 1, f"{len(nw)} new chunks")
            R.check('count', w, p.get(cur) == ('init', cur), 'counted twice')
            R.check('serve', w, all(isnull(e.ret, p.facts) is not False for e in it), 'a new chunk although one had a free block')
        else:
            ok = any(v == e.ret for e in it)
            lists_ok = v[0] == 'loopv'
            R.check('serve', w, ok or lists_ok, f"hands out {pp(v)}")
            R.check('serve', w, isnull(v, p.facts) is False, 'may hand out null')
            R.check('count', w, p.get(cur) == add(('init', cur), obj[0]), f"size in use becomes {pp(p.get(cur))}")
            why = maxed(p, ('init', hwm), add(('init', cur), obj[0]), p.get(hwm), 'watermark')
            R.check('count', w, why is None, why or '')
            last = [e for e in it if e.ret == v]
            R.check('serve', w, not nw or bool(last), 'a new chunk is not used')
    # release
    fr = C.fn(q + '::release', 0)
    per = [k for k, v in mem.items() if v == np_]
    gone = False
    for p in C.paths(fr, opaque=(AI, DI)):
        w = site(fr)
        for g in segments(p):
            ds = [e for e in g.evs if e.kind == 'call' and e.fn == DI]
            free = [e for e in g.evs if e.kind == 'call' and e.fn == 'free']
            if not ds:
                R.check('release', w, not free, 'the bitmap of a chunk that is kept is freed')
                for a, tv in g.facts.items():
                    if g.kind == 'iter' and tv and a[0] == '==' and any(x[0] == 'init' and x[1][0] == 'fld' and x[1][2] == fields[2] for x in a[1:]) and any(x in per for x in a[1:]):
                        R.check('release', w, False, 'a wholly free chunk is kept')
                continue
            gone = True
            R.check('release', w, len(ds) == 1 and g.kind == 'iter', 'given back more than once')
            b = ds[0].args[0]
            R.need(b[0] == 'init' and b[1][0] == 'fld' and b[1][2] == fields[0], f"gives back {pp(b)}")
            b = b[1][1]
            nfree = ('init', ('fld', b, fields[2]))
            R.check('release', w, any(decide(EQ(nfree, k), g.facts) is True for k in per), f"a chunk is given back although {desc(p, 200)}")
            R.check('release', w, ds[0].obj == ('init', ('fld', b, P_ + 'strategy')), 'given back to another allocator')
            for cname, env0, n_words, pr, size in conf:
                R.check('release', w, number(ds[0].args[1], {**env0, nfree: pr}) == pr * size, f"{cname}: gives back {pp(ds[0].args[1])}")
            R.check('release', w, len(free) == 1 and free[0].args[0] == ('init', ('fld', b, fields[1])), 'the bitmap is not freed once')
            act = C.accloc(q + '::getActualSize')
            v = g.mem.get(act)
            lv = [t for t in subterms(v) if t[0] == 'loopv' and t[2] == act] if v else []
            R.check('count', w, bool(lv) and sub(lv[0], v) == held, f"the size held becomes {pp(v)}; a chunk adds {pp(held)}")
        R.check('release', w, forgets(p, pool, fields[2], per, DI), f"released chunks are not exactly the ones forgotten")
    R.expect(gone, 'FixedPool::release gives nothing back')
    # destruction
    dt = [f for f in C.P.fns.values() if f['q'] == q + '::~FixedPool']
    R.need(dt, 'no destructor')
    back = 0
    for p in C.paths(dt[0], opaque=(AI, DI)):
        for g in segments(p):
            ds = [e for e in g.evs if e.kind == 'call' and e.fn == DI]
            if ds:
                back += 1
                b = ds[0].args[0]
                ok = g.kind == 'iter' and len(ds) == 1 and b[0] == 'init' and b[1][0] == 'fld' and b[1][2] == fields[0] and all(number(ds[0].args[1], env0) == pr * size for _, env0, _, pr, size in conf)
                R.check('release', site(dt[0]), ok, f"the destructor gives back {[pp(a) for e in ds for a in e.args]}")
    R.check('release', site(dt[0]), back > 0, 'the destructor gives nothing back')


def number(v, env):
    try:
        return evaluate(v, env)
    except Unk:
        return None


class Alt:
    def __init__(self, facts):
        self.facts = facts


def owns(C, fn, fields, conf):
    """the ownership query answers yes exactly for the addresses inside a chunk"""
    R = C.R
    w = site(fn)
    ptr = ('param', fn['params'][0]['n'])
    yes, no = [], []
    look = lambda p: {t for z in list(p.facts) for t in subterms(z) if t and t[0] == 'init' and t[1][0] == 'fld' and t[1][2] == fields[0]}
    for p in C.paths(fn):
        its = [(e, i) for e in loop_events(p) for i in e.iters]
        if p.val and p.val[0] == 'loopv':        # a flag set in the loop
            for e, i in its:
                v = i.mem.get(p.val[2], ZERO)
                alts = [(i.facts, truthy(v, i.facts))]
                if alts[0][1] is None:
                    alts = [({**i.facts, v: tv}, tv) for tv in (True, False)]
                for fs, tv in alts:
                    (yes if tv else no).append(Alt(fs))
            continue
        R.need(p.val is not None and truthy(p.val, p.facts) is not None, f"{fn['q']} answers {pp(p.val)}")
        if truthy(p.val, p.facts):
            yes.append(Alt(p.facts))
        no += [Alt(i.facts) for e, i in its]
    for k in yes + no:
        ds = look(k)
        if not R.check('inside', w, len(ds) == 1, 'answers without looking at a chunk'):
            return
        k.data = ds.pop()
    for cname, env0, n_words, per, size in conf:
        for i in no:
            for a in {D, D + per * size // 2, D + per * size - 1}:
                if consistent(i, {**env0, i.data: D, ptr: a}):
                    R.check('inside', w, False, f"{cname}: the address {a - D} inside a chunk is passed over")
                    return
    for cname, env0, n_words, per, size in conf:
        for a, want in [(D, True), (D + per * size - 1, True), (D - 1, False), (D - size, False), (D + per * size, False), (D + per * size + 1, False)]:
            hit = any(consistent(p, {**env0, p.data: D, ptr: a}) for p in yes)
            if hit != want:
                R.check('inside', w, False, f"{cname}: the address {a - D} of {per * size} is {'not ' if want else ''}taken for one of the pool")
                return
    R.check('inside', w, True)


def val(v):
    try:
        return evaluate(v, {})
    except Unk:
        return 0


def refused_sizes(C, ctor, op, np_):
    """a chunk whose size does not fit is refused"""
    R = C.R
    W = Word(8)
    ps = C.paths(ctor, opaque=(EV, ST + 'FixedPool::newPool'))
    for size in (0, 1, 2, 3, 7, 16, 17, 100, 128, 255):
        for per in (0, 1, 2, 3, 15, 16, 17, 85, 86, 128, 255):
            for p in ps:
                ok = True
                for a, tv in p.facts.items():
                    try:
                        if bool(W.ev(a, {op: size, np_: per})) != tv:
                            ok = False
                    except Unk:
                        pass
                if ok and p.kind == 'return':
                    R.check('chunk', site(ctor), size * per <= W.m and per > 0, f"{per} objects of {size} bytes are accepted (words of {W.w} bits)")


def forgets(p, pool, num, per, DI):
    """the chunks given back are the ones taken out of the list"""
    rm = [e for e in p.events(kind='call') if e.fn == 'std::remove_if' and e.obj in (('addr', pool), pool)]
    er = drops(p, pool)
    if rm:
        if len(rm) != 1 or len(er) != 1 or er[0][0] != rm[0].ret or len(er[0][1].args) != 2 or er[0][1].args[1][1] != 'end':
            return False
        for el, facts, v in rm[0].extra:
            nums = {x for z in list(facts) + [v] for x in subterms(z) if x[0] == 'init' and x[1][0] == 'fld' and x[1][2] == num}
            if len(nums) != 1:
                return False
            n = nums.pop()
            t = truthy(v, facts)
            want = any(v in (EQ(n, k), EQ(k, n)) for k in per) or t is not None and any(decide(EQ(n, k), facts) is t for k in per)
            if not want:
                return False
        return True
    # chunks taken out one by one, where they are given back
    its = [i for e in loop_events(p) for i in e.iters]
    return bool(its) and all(bool([e for e in i.events(False, 'call') if e.fn == DI]) == bool([1 for e in i.events(False, 'call') if e.obj in (('addr', pool), pool) and short(e) == 'erase']) for i in its)


def fixed_size(C):
    R = C.R
    if not C.P.find(FSP + '::allocInPool'):
        raise Anchor('FixedSizePool not instantiated')
    P_ = FSP + '::Pool::'
    fields = (P_ + 'data', P_ + 'avail', P_ + 'numAvail')
    ctor = C.fn(FSP + '::FixedSizePool', 0)
    mem = {}
    for p in C.paths(ctor, opaque=(FSP + '::newPool',)):
        for l, v in p.mem.items():
            if l[0] == 'fld' and l[1] == T:
                mem[('init', l)] = v
    sz = {}
    for f in C.fns(FSP + '::allocInPool') + C.fns(FSP + '::newPool'):
        for p in C.paths(f):
            for z in [p.val] + list(p.facts) + [a for e in p.calls() for a in e.args]:
                for t in subterms(z) if z else ():
                    if t and t[0] == 'sizeof':
                        sz[t] = 24 if 'Block' in t[1].split('::')[-1] or t[1].endswith('Block') else 40
    size = 24
    env0 = {**sz, **consts(mem, {}, sz)}
    per = [v for k, v in env0.items() if k[0] == 'init' and k[1][2] == FSP + '::numPerPool']
    R.need(per, 'FixedSizePool::numPerPool')
    new = C.fn(FSP + '::newPool', 1)
    out = ('param', new['params'][0]['n'])
    for p in C.paths(new):
        if p.kind == 'throw':
            continue
        w = site(new)
        c = p.get(('deref', out))
        ms = [e for e in p.calls() if e.fn == 'malloc']
        own = [e for e in ms if e.ret == c]
        dat = [e for e in ms if e.ret == p.get(('fld', c, fields[0]))]
        if not R.check('chunk', w, len(own) == 1 and len(dat) == 1, 'a chunk is not set up'):
            continue
        R.check('chunk', w, evaluate(dat[0].args[0], env0) >= size * per[0], f"obtains {pp(dat[0].args[0])} for {per[0]} blocks")
        av = p.get(('fld', c, fields[1]))
        off = evaluate(av, {**env0, c: 0})
        total = evaluate(own[0].args[0], env0)
        R.check('chunk', w, off >= 40 and off + per[0] // 8 <= total, f"the bitmap at {off} of {total} bytes does not hold {per[0]} bits")
        R.check('chunk', w, evaluate(p.get(('fld', c, fields[2])), env0) == per[0] and isnull(p.get(('fld', c, P_ + 'next')), p.facts) is True, 'not every block starts free')
        full = 0
        for e in loop_events(p):
            for i in e.iters:
                for l, v in i.mem.items():
                    if l[0] == 'deref' and contains(l, c) and val(v) & 0xffffffff == 0xffffffff:
                        lv = [t for t in subterms(l) if t[0] == 'loopv']
                        n = [k for k in range(0, 300) if consistent(i, {lv[0]: k})] if lv else []
                        full = len(n) if n == list(range(len(n))) and evaluate(l[1], {**env0, c: 0, lv[0]: 1}) - evaluate(l[1], {**env0, c: 0, lv[0]: 0}) == 4 else 0
        ms2 = [e for e in p.calls() if e.fn == 'memset' and e.args[0] == av and val(e.args[1]) & 255 == 255]
        if ms2:
            full = evaluate(ms2[0].args[2], env0) // 4
        R.check('chunk', w, full * 32 >= per[0] and off + 4 * full <= total, f"{full} words of the bitmap are set")
    conf = [(f"{per[0]} blocks", env0, per[0] // 32, per[0], size)]
    fn = C.fn(FSP + '::allocInPool', 1)
    ps = C.paths(fn)
    base = ('param', fn['params'][0]['n'])
    table = take(C, fn, ps, base, fields, conf, FSP)
    if not table:
        return
    fd = C.fn(FSP + '::deallocate', 1)
    give(C, fd, C.paths(fd), ('param', fd['params'][0]['n']), fields, conf, table, None)
    nb = ('fld', T, FSP + '::numBlocks')
    for p in C.paths(fd):
        if p.kind == 'return':
            R.check('count', site(fd), p.get(nb) == sub(('init', nb), ONE), f"blocks in use become {pp(p.get(nb))}")
    fa = C.fn(FSP + '::allocate', 0)
    for p in C.paths(fa, opaque=(FSP + '::allocInPool', FSP + '::newPool', FSP + '::allocate')):
        if p.kind != 'return' or infeasible(p):
            continue
        rec = [e for e in p.events(kind='call') if e.fn == FSP + '::allocate']
        nw = [e for e in p.events(kind='call') if e.fn == FSP + '::newPool']
        if any(e.ret == p.val for e in rec):
            R.check('serve', site(fa), len(nw) == 1 and p.get(nb) == ('init', nb), 'counted twice')
        else:
            R.check('count', site(fa), p.get(nb) == add(('init', nb), ONE), f"blocks in use become {pp(p.get(nb))}")
            R.check('serve', site(fa), isnull(p.val, p.facts) is False or any(e.ret == p.val for e in p.events(kind='call')), 'may hand out null')


def settle(p, arrays):
    """no iteration that goes on changes an element (checked): at the head of the loop they are what they were"""
    def m(v):
        return {t: ('init', t[2]) for t in subterms(v) if t[0] == 'loopv' and t[2][0] == 'deref' and any(contains(t[2], a) for a in arrays)}
    for q in [p] + [i for e in loop_events(p) for i in e.iters]:
        q.mem = {k: subst(v, m(v)) for k, v in q.mem.items()}
        q.facts = {renorm(subst(a, m(a))): t for a, t in q.facts.items()}
        for e in q.events(kind='call'):
            e.args = tuple(subst(a, m(a)) if isinstance(a, tuple) else a for a in e.args)
    if p.val is not None:
        p.val = subst(p.val, m(p.val))


def slots(C):
    R = C.R
    q = ST + 'SlotPool'
    arr = {f: ('init', ('fld', T, q + '::' + f)) for f in ('m_lengths', 'm_pointers')}
    nslots = ('init', ('fld', T, q + '::m_slots'))

    def cells(mem):
        """{(array, index): value} of the slot cells changed"""
        out = {}
        for l, v in mem.items():
            for f, a in arr.items():
                if l[0] in ('deref', 'elem') and contains(l, a) and v != ('init', l):
                    out[(f, sub(l[1], a) if l[0] == 'deref' else l[2])] = v
        return out

    def cell(f, i):
        return ('init', ('deref', add(arr[f], i)))
    fn = C.fn(q + '::allocate', 1)
    n = ('param', fn['params'][0]['n'])
    seen = set()
    for p in C.paths(fn, opaque=(AI, DI), throws=throwing('umpire::runtime_error', AI)):
        w = site(fn)
        if infeasible(p):
            continue
        if C.peel:
            settle(p, arr.values())
            for e in loop_events(p):
                # memory is obtained or an error raised (P27), and a slot with a length has memory
                e.iters = [i for i in e.iters if not any(x.fn == AI and isnull(x.ret, i.facts) is True for x in i.events(kind='call'))
                           and not any(isnull(cell('m_pointers', k[1]), i.facts) is True and isnull(cell('m_lengths', k[1]), i.facts) is False for k in cells(i.mem))]
        for e in loop_events(p):
            for i in e.iters:
                R.check('slots', w, not cells(i.mem) and not [x for x in i.events(kind='call') if x.fn in (AI, DI)], 'a slot that is passed over changes')
        al = [e for e in p.calls() if e.fn == AI]
        ch = cells(p.mem)
        if any(e.threw for e in al):
            R.check('slots', w, p.kind == 'throw' and not ch, f"a failed allocation changes the slots: {[(k[0], pp(v)) for k, v in ch.items()]}")
            seen.add('failed')
            continue
        if p.kind == 'throw':
            if al:
                R.check('slots', w, isnull(al[0].ret, p.facts) is True, 'memory obtained is dropped')
            elif ch:
                R.check('slots', w, isnull(n, p.facts) is not False and all((v2 == neg(cell('m_lengths', i)) or v2 == neg(n) and decide(EQ(cell('m_lengths', i), n), p.facts) is True) and isnull(cell('m_pointers', i), p.facts) is True for (f, i), v2 in ch.items() if f == 'm_lengths'), 'a refused request changes the slots')
            continue
        idx = {k[1] for k in ch}
        if not R.check('slots', w, len(idx) == 1, f"{len(idx)} slots change: {desc(p)}"):
            continue
        i = idx.pop()
        ln, pt = cell('m_lengths', i), cell('m_pointers', i)
        iv = [t for t in subterms(i) if t[0] == 'loopv']
        R.check('slots', w, any(decide(LT(t, nslots, True), p.facts) is True or decide(LT(t, nslots), p.facts) is True for t in iv), 'the slot may lie behind the last one')
        R.check('slots', w, ch.get(('m_lengths', i)) in (neg(n), neg(ln)) and (ch[('m_lengths', i)] == neg(n) or decide(EQ(ln, n), p.facts) is True), f"the length of the slot becomes {pp(ch.get(('m_lengths', i)))}")
        if al:
            seen.add('new')
            R.check('slots', w, len(al) == 1 and al[0].args == (n,) and p.val == al[0].ret and ch.get(('m_pointers', i)) == al[0].ret, f"hands out {pp(p.val)}, remembers {pp(ch.get(('m_pointers', i)))}")
            R.check('slots', w, isnull(ln, p.facts) is True, 'a slot that holds memory is overwritten')
        else:
            seen.add('reuse')
            R.check('slots', w, p.val == pt and ('m_pointers', i) not in ch, f"hands out {pp(p.val)}")
            R.check('slots', w, decide(EQ(ln, n), p.facts) is True and decide(LT(n, ZERO), p.facts) is False, 'a slot of another size, or in use, is handed out')
        R.check('slots', w, isnull(p.val, p.facts) is False, 'may hand out null')
    R.expect({'new', 'reuse', 'failed'} <= seen, f"SlotPool::allocate: only {sorted(seen)} seen")
    fd = C.fn(q + '::deallocate', 2)
    ptr = ('param', fd['params'][0]['n'])
    freed = 0
    for p in C.paths(fd, opaque=(AI, DI)):
        w = site(fd)
        R.check('slots', w, not [x for x in p.events(kind='call') if x.fn in (AI, DI)], 'the slot is given back to the parent')
        for e in loop_events(p):
            for i in e.iters:
                R.check('slots', w, not cells(i.mem), 'a slot that is passed over changes, or several are freed')
        ch = cells(p.mem)
        if not ch:
            continue
        freed += 1
        i = next(iter(ch))[1]
        ok = list(ch) == [('m_lengths', i)] and ch[('m_lengths', i)] == neg(cell('m_lengths', i)) and decide(EQ(cell('m_pointers', i), ptr), p.facts) is True
        R.check('slots', w, ok, f"a release changes {[(k[0], pp(v)) for k, v in ch.items()]}")
    R.check('slots', site(fd), freed > 0, 'a release frees no slot')
    ct = C.fn(q + '::SlotPool', 4)
    for p in C.paths(ct, opaque=(EV,)):
        init = {}
        for e in loop_events(p):
            for i in e.iters:
                for l, v in i.mem.items():
                    for f in arr:
                        a = p.get(arr[f][1])
                        if l[0] == 'deref' and contains(l, a) and v == ZERO:
                            t = [x for x in subterms(l) if x[0] == 'loopv']
                            if t and e.extra['entry'].get(t[0][2]) == ZERO and i.mem.get(t[0][2]) == add(t[0], ONE) and decide(LT(t[0], p.get(nslots[1])), i.facts) is True:
                                init[f] = True
        for f in arr:
            zeroed = init.get(f) or any(e.fn in ('memset', 'std::fill', 'std::fill_n', 'calloc') and e.args and contains(e.args[0] if e.fn != 'calloc' else e.ret, p.get(arr[f][1])) for e in p.calls())
            R.check('slots', site(ct), zeroed, f"{f} is not empty at the start")
        for f, t in (('m_lengths', 8), ('m_pointers', 8)):
            nw = [e for e in p.calls() if e.fn.startswith('operator new') and e.ret == p.get(arr[f][1])]
            R.check('slots', site(ct), len(nw) == 1 and nw[0].args[1] == ('param', ct['params'][3]['n']) == p.get(nslots[1]), f"{f} has not one cell per slot")
    dt = [f for f in C.P.fns.values() if f['q'] == q + '::~SlotPool']
    R.need(dt, 'no destructor')
    some = False
    for p in C.paths(dt[0], opaque=(AI, DI)):
        for e in loop_events(p):
            for i in e.iters:
                ds = [x for x in i.events(kind='call') if x.fn == DI]
                # inside the loop the cells read as loop values
                cur = {f: [t for z in list(i.facts) + [a for x in ds for a in x.args] for t in subterms(z) if t[0] in ('loopv', 'init') and t[-1][0] in ('deref', 'elem') and contains(t[-1], arr[f])] for f in arr}
                if ds:
                    some = True
                    pv = ds[0].args[0]
                    ok = len(ds) == 1 and pv in cur['m_pointers'] and isnull(pv, i.facts) is False
                    lens = set(cur['m_lengths'])
                    sz = ds[0].args[1]
                    ok = ok and len(lens) == 1
                    if ok:
                        ln = lens.pop()
                        ng = decide(LT(ln, ZERO), i.facts)
                        ok = sz == (neg(ln) if ng else ln) and ng is not None or sz[0] == 'app' and 'abs' in sz[1] and ln in sz[2:]
                    R.check('slots', site(dt[0]), ok, f"the destructor gives back {[pp(a) for x in ds for a in x.args]}")
                else:
                    R.check('slots', site(dt[0]), any(isnull(t, i.facts) is True for t in cur['m_pointers']), 'a slot that holds memory is not given back')
    R.check('slots', site(dt[0]), some, 'the destructor gives nothing back')


def neg(v):
    return sub(ZERO, v)


def wide(v):
    """there are far fewer pools than an int can count"""
    while v[0] == 'trunc' and sizeof(v[1])[1] >= 4:
        v = v[2]
    return v


def end(m):
    return ('app', 'end', m, ('ver', 0))


def is_lower_bound(i, sizes, n):
    """i is the position of the first size that is not smaller than n: the sizes ascend"""
    i = wide(i)
    beg = ('app', 'begin', sizes, ('ver', 0))
    want = ('app', 'std::lower_bound', beg, end(sizes), n)
    return i[0] == 'app' and (i[1].endswith('operator-') and i[2:] == (want, beg) or i[1] == 'std::distance' and i[2:] == (beg, want))


def mixed(C):
    R = C.R
    q = ST + 'MixedPool'
    fp, fm, qp, mp = (('fld', T, q + '::' + f) for f in ('m_fixed_pool', 'm_fixed_pool_map', 'm_quick_pool', 'm_map'))
    OP = (AI, DI, ST + 'QuickPool::QuickPool', ST + 'FixedPool::FixedPool', EV)
    # construction: one size per fixed pool, in the same place
    ct = C.fn(q + '::MixedPool', 11)
    made = 0
    for p in C.paths(ct, opaque=OP):
        if p.kind != 'return':
            continue
        w = site(ct)
        for g in segments(p):
            a = [e for e in g.evs if e.kind == 'call' and e.obj in (('addr', fp), fp) and short(e) in ('emplace_back', 'push_back')]
            b = [e for e in g.evs if e.kind == 'call' and e.obj in (('addr', fm), fm) and short(e) in ('emplace_back', 'push_back')]
            mk = [e for e in g.evs if e.kind == 'call' and e.fn == ST + 'FixedPool::FixedPool']
            if not a and not b:
                continue
            made += 1
            ok = len(a) == len(b) == len(mk) == 1 and len(mk[0].args) >= 4 and mk[0].args[3] == b[0].args[0] and a[0].args[0] in (mk[0].obj, mk[0].obj[1][1] if mk[0].obj[0] == 'addr' and mk[0].obj[1][0] == 'deref' else None)
            R.check('dispatch', w, ok, f"pool for {[pp(e.args[3]) for e in mk]}, remembered as {[pp(e.args[0]) for e in b]}")
    R.check('dispatch', site(ct), made > 0, 'no fixed pool is made')
    fn = C.fn(q + '::allocate', 1)
    n = ('param', fn['params'][0]['n'])
    same = {('app', 'size', fm, ('ver', 0)): ('app', 'size', fp, ('ver', 0))}
    # an entry that is only inserted must have been taken out when the address was given back
    erased = all([e for e in p.calls() if e.obj in (('addr', mp), mp) and short(e) == 'erase'] for p in C.paths(C.fn(q + '::deallocate', 2), opaque=OP) if [e for e in p.calls() if e.fn == DI])
    kinds = set()
    for p in C.paths(fn, opaque=OP):
        if infeasible(p, same):
            continue
        w = site(fn)
        al = [e for e in p.calls() if e.fn == AI]
        if not R.check('dispatch', w, p.kind == 'return' and len(al) == 1 and p.val == al[0].ret, f"{len(al)} allocations"):
            continue
        ent = [(l[2], v) for l, v in p.mem.items() if l[0] == 'elem' and l[1] == mp]
        ent += [(e.args[0], e.args[1]) for e in p.calls() if e.obj in (('addr', mp), mp) and short(e) in (('emplace', 'insert_or_assign') if erased else ('insert_or_assign',)) and len(e.args) == 2]
        if not R.check('dispatch', w, len(ent) == 1 and ent[0][0] == al[0].ret, 'the pool a block came from is not remembered'):
            continue
        tag = ent[0][1]
        if al[0].obj == ('addr', qp):
            kinds.add('quick')
            R.check('dispatch', w, al[0].args == (n,) and decide(LT(tag, ZERO), p.facts) is True or tag[0] == 'int' and tag[1] < 0 and al[0].args == (n,), f"the growing pool is asked for {pp(al[0].args[0])}, remembered as {pp(tag)}")
            continue
        o = al[0].obj
        if not R.check('dispatch', w, o[0] == 'init' and o[1][0] == 'elem' and o[1][1] == fp and wide(o[1][2]) == wide(tag), f"served by {pp(o)}, remembered as {pp(tag)}"):
            continue
        kinds.add('fixed')
        i = o[1][2]
        sz = ('init', ('elem', fm, i))
        small = decide(LT(sz, n, True), p.facts)
        found = is_lower_bound(i, fm, n)
        R.check('dispatch', w, small is False or found or decide(LT(n, sz, True), p.facts) is True, f"a block of {pp(sz)} is handed out for a request that may be larger: {desc(p)}")
        R.check('dispatch', w, any(decide(LT(j, x, u), p.facts) is True for x in list(same) + list(same.values()) for u in (True, False) for j in (i, wide(i))) or found and any(t[0] == 'app' and t[1] == 'std::lower_bound' and decide(EQ(t, end(fm)), p.facts) is False for t in subterms(i)), f"pool {pp(i)} may not exist")
        R.check('dispatch', w, al[0].args == (sz,), f"the fixed pool is asked for {pp(al[0].args[0])}")
    R.expect(kinds == {'quick', 'fixed'}, f"MixedPool::allocate: only {sorted(kinds)} seen")
    fd = C.fn(q + '::deallocate', 2)
    ptr, size = (('param', x['n']) for x in fd['params'])
    from p13 import is_find
    kinds = set()
    for p in C.paths(fd, opaque=OP):
        w = site(fd)
        ds = [e for e in p.calls() if e.fn == DI]
        if not ds:
            known = [a for a, tv in p.facts.items() if tv and a[0] == '==' and any(is_find(x, mp, ptr) for x in a[1:])] or [a for a, tv in p.facts.items() if contains(a, ('app', 'count', mp, ('ver', 0), ptr))]
            R.check('dispatch', w, bool(known), 'a block of the pool is not given back: ' + desc(p))
            continue
        tags = {t for z in list(p.facts) + [ds[0].obj] for t in subterms(z) if t[0] == 'init' and (t[1][0] == 'fld' and t[1][2] == 'std::pair::second' and t[1][1][0] == 'app' and is_find(t[1][1][2], mp, ptr) or t[1] == ('elem', mp, ptr))}
        if not R.check('dispatch', w, len(ds) == 1 and ds[0].args == (ptr, size) and len(tags) == 1, f"gives back {[pp(a) for e in ds for a in e.args]}"):
            continue
        tag = tags.pop()
        neg_ = decide(LT(tag, ZERO), p.facts)
        if ds[0].obj == ('addr', qp):
            kinds.add('quick')
            R.check('dispatch', w, neg_ is True or decide(EQ(tag, INT(-1)), p.facts) is True, 'a block of a fixed pool is given to the growing pool')
        else:
            kinds.add('fixed')
            R.check('dispatch', w, ds[0].obj == ('init', ('elem', fp, tag)) and (neg_ is False or decide(EQ(tag, INT(-1)), p.facts) is False), f"given back to {pp(ds[0].obj)}")
    R.expect(kinds == {'quick', 'fixed'}, f"MixedPool::deallocate: only {sorted(kinds)} seen")
    # actual size
    fn = C.fn(q + '::getActualSize', 0)
    for p in C.paths(fn):
        loops = [e for e in loop_events(p) if e.extra.get('range') == fp or True]
        qs = [e for e in p.calls(False) if short(e) == 'getActualSize'] if False else [e for e in p.trace if e.kind == 'call' and short(e) == 'getActualSize' and e.obj == ('addr', qp)]
        ok = len(qs) == 1 and len(loops) == 1
        if ok:
            rest = sub(p.val, qs[0].ret)
            ok = rest[0] == 'loopv' and loops[0].extra['entry'].get(rest[2]) == ZERO or rest[0] == 'loopv' and loops[0].extra['entry'].get(rest[2]) == qs[0].ret
            if not ok and p.val[0] == 'loopv' and loops[0].extra['entry'].get(p.val[2]) == qs[0].ret:
                rest, ok = p.val, True
            for i in loops[0].iters:
                g = [e for e in i.events(kind='call') if short(e) == 'getActualSize']
                ok = ok and len(g) == 1 and contains(g[0].obj, fp) and sub(i.mem.get(rest[2], rest), rest) == g[0].ret
        R.check('count', site(fn), ok, f"the size held is {pp(p.val)}")
