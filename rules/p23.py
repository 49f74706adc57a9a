from lists import *

TECHNIQUE = ("trace-partitioned abstract interpretation of the shared segment's allocator: lock typestate of the process-shared mutex over every exit, inductive facts about "
             "the offset-linked lists, value-number specification of every link and size written, and a table over a reduced word for the block layout")
ASSUMPTIONS = ["the lists of a segment are disjoint and well-formed when an operation starts (what the rules establish for every operation)",
               "a block is released only after it was handed out, so it is found in the list of used blocks"]
HS = 'umpire::resource::HostSharedMemoryResource'
IM = HS + '::impl'
SB, SH = IM + '::SharedMemoryBlock::', IM + '::SharedMemorySegmentHeader::'
S = ('init', ('fld', ('this',), IM + '::m_segment'))
BF = ('next_block_off', 'name_offset', 'memory_offset', 'block_size', 'reference_count')
HF = ('segment_size', 'actual_size', 'free_blocks_off', 'used_blocks_off')
AL16 = ('init', ('fld', ('this',), IM + '::m_alignment'))


def blk(n, f):
    return ('fld', n, SB + f)


def hdr(f, seg=S):
    return ('fld', seg, SH + f)


def z(l):
    return ('init', l)


def node(off):
    return add(S, off)


def off(n):
    return ZERO if n == ZERO else sub(n, S)


class OffLists(Lists):
    """lists linked by offsets from the segment's base; 0 ends a list"""

    def __init__(self, p):
        super().__init__(p, SB + 'next_block_off')

    def heads(self, head):
        return {node(('init', head))}

    def linkof(self, v):
        r = sub(v, S)
        return r[1][1] if r[0] == 'init' and r[1][0] == 'fld' and r[1][2] == self.nxt else None

    def nextof(self, a):
        return node(('init', ('fld', a, self.nxt)))

    def ended(self, a, b, facts):
        """b is null because the link of a, which is in the list, is 0"""
        return b == ZERO and (decide(EQ(('init', ('fld', a, self.nxt)), ZERO), facts) is True)


def ptrs(p):
    out = {S} | {('param', x) for x in ('ptr',)}
    return out


def unreal(p):
    """an address or offset computed from a non-null pointer is taken to be 0, or a live block has no memory: neither occurs"""
    for a, t in p.facts.items():
        if not t or a[0] != '==' or ZERO not in a[1:]:
            continue
        v = a[1] if a[2] == ZERO else a[2]
        if v[0] == 'lin' and len(v[2]) + (v[1] != 0) > 1 and any(x == S or x[0] in ('loopv', 'param') and x != ('param', 'requested_size') or x[0] == 'ret' for x, c in v[2]):
            return True
        if v[0] == 'init' and v[1][0] == 'fld' and v[1][2] == SB + 'memory_offset':
            return True
        if v[0] == 'param' and v[1] == 'ptr' or v[0] == 'ret' and v[2] in ('mmap', 'mmap64') or v[0] == 'sizeof':
            return True
    return False


def shared(l):
    return l[0] == 'fld' and (l[2].startswith(SB) or l[2].startswith(SH))


def changed(p):
    return {l: v for l, v in p.mem.items() if shared(l) and not l[2].endswith('::mutex') and v != ('init', l)}


def run(C):
    R = C.R
    R.rule('lock', "the segment's lists, sizes and counts are read and written only while its mutex is held, and the mutex is released on every way out")
    R.rule('same-name', 'asking for a name that exists yields the same memory with one more reference, never a smaller block, and never a second block of that name')
    R.rule('new-block', 'a new name gets a free block that is large enough, which leaves the free list; what is left over stays free')
    R.rule('layout', 'header, memory and name of a block lie inside it without overlapping, for every size and name length; sizes that overflow are refused')
    R.rule('refused', 'a request that cannot be met changes nothing and is reported; it is reported only after all free blocks were looked at')
    R.rule('release', 'releasing drops one reference; the last one takes the block out of the used list and back into the free list, in address order and merged with its neighbours')
    R.rule('find', 'finding a name yields the memory allocated under it, or nothing')
    R.rule('segment', 'one process creates and initialises a segment and publishes it last; all others wait for that and change nothing')
    R.rule('teardown', 'mapping, descriptor and name are given back exactly once, also when setting up fails')
    R.rule('forward', 'the resource passes requests on unchanged; memory without a name is refused')
    h = allocate(C)
    release(C, h)
    find(C)
    setup(C)
    teardown(C)
    forward(C)


# ---- the mutex ----------------------------------------------------------------------------------------------------
def guarded(C, fn, p, w):
    R = C.R
    lk = [k for k, e in enumerate(p.trace) if e.kind == 'call' and e.fn in ('pthread_mutex_lock', 'pthread_mutex_timedlock')]
    un = [k for k, e in enumerate(p.trace) if e.kind == 'call' and e.fn == 'pthread_mutex_unlock']
    mtx = ('addr', hdr('mutex'))
    if not R.check('lock', w, len(lk) == 1 and p.trace[lk[0]].args[0] == mtx, f"the segment's mutex is locked {len(lk)} times: {desc(p)}"):
        return False
    ok = decide(EQ(p.trace[lk[0]].ret, ZERO), p.facts)
    if ok is not True:
        R.check('lock', w, ok is False and p.kind == 'throw' and not un and not changed(p), f"goes on although the mutex could not be locked: {desc(p)}")
        return False
    if not R.check('lock', w, len(un) == 1 and p.trace[un[0]].args[0] == mtx and un[0] > lk[0], f"the mutex is unlocked {len(un)} times after being locked ({p.kind}): {desc(p)}"):
        return True
    for k, e in enumerate(p.trace):
        if e.kind == 'write' and shared(e.loc) and not e.loc[2].endswith('::mutex'):
            R.check('lock', site(fn, e), lk[0] < k < un[0], f"{pp(e.loc)[-60:]} is written without the mutex")
        if e.kind == 'loop' and any(True for i in e.iters for x in i.facts if any(y[0] == 'init' and shared(y[1]) for y in subterms(x))):
            R.check('lock', site(fn, e), lk[0] < k < un[0], "a list of the segment is walked without the mutex")
    for loc, line, file, locks, func, n in p.reads:
        if shared(loc) and not loc[2].endswith('::mutex'):
            late = n > un[0]
            if late and loc[2] in (SB + 'memory_offset', SB + 'name_offset'):
                continue        # fixed for as long as the block is referenced, which it is by this caller
            R.check('lock', f"{file}:{line} {func}", lk[0] < n <= un[0], f"{loc[2].split('::')[-1]} is read without the mutex")
    return True


# ---- walks --------------------------------------------------------------------------------------------------------
def cursors(L, head, facts):
    """loop variables that walk a list from its head, one link at a time"""
    out = []
    for lid, l in L.loops.items():
        for k, v in l.extra['entry'].items():
            if v in L.heads(head):
                c = ('loopv', lid, k)
                if all(stepped(L, c, i.mem.get(k, c), i.facts) for i in l.iters):
                    out.append((c, l))
    return out


def stepped(L, c, v, facts):
    return v == L.nextof(c) or L.ended(c, v, facts)


def matches(v, name, c, facts):
    """decides whether the fact says that the block c carries the name (True / False / None)"""
    for a, t in facts.items():
        if a[0] == '==' and ZERO in a[1:]:
            x = a[1] if a[2] == ZERO else a[2]
            if x[0] == 'app' and whole(x, node(z(blk(c, 'name_offset'))), name):
                return t
        if a[0] == 'app' and a[1].split('::')[-1] in ('operator==', 'operator!=') and contains(a, node(z(blk(c, 'name_offset')))) and any(y in name for y in subterms(a)):
            return t == (a[1].split('::')[-1] == 'operator==')
        if a[0] == '==' and any(contains(y, node(z(blk(c, 'name_offset')))) for y in a[1:]) and any(y in name for y in a[1:]):
            return t
    return None


def whole(x, stored, name):
    """the whole name is compared with the whole stored one"""
    f = x[1].split('::')[-1]
    if f == 'compare' and len(x) > 4 and x[3][0] == 'ver':
        return x[2] in name and x[4:] == (stored,)
    return f == 'strcmp' and stored in x[2:] and any(y in name for a in x[2:] for y in subterms(a))


def unnamed(c, facts):
    return decide(EQ(z(blk(c, 'name_offset')), ZERO), facts) is True or decide(EQ(node(z(blk(c, 'name_offset'))), ZERO), facts) is True


def searched(C, fn, p, L, name, w, rule):
    """-> (block found or None); the search looks at every used block until one carries the name"""
    R = C.R
    head = hdr('used_blocks_off')
    if decide(EQ(z(head), ZERO), p.facts) is True:
        return None
    cs = [(c, l) for c, l in cursors(L, head, p.facts) if any(matches(None, name, c, i.facts) is not None for i in l.iters) or matches(None, name, c, p.facts) is not None]
    if not R.check(rule, w, len(cs) == 1, f"used blocks are not searched one after the other for the name: {desc(p)}"):
        return 'bad'
    c, l = cs[0]
    for i in l.iters:
        R.check(rule, w, matches(None, name, c, i.facts) is False or unnamed(c, i.facts), f"a used block is passed over without comparing its name: {desc(i)}")
    if matches(None, name, c, p.facts) is True:
        return c
    R.check(rule, w, isnull(c, p.facts) is True, f"the search ends before all used blocks were looked at: {desc(p)}")
    return None


# ---- allocation ---------------------------------------------------------------------------------------------------
def allocate(C):
    R = C.R
    fn = C.fn(IM + '::allocate_named', 2)
    w = site(fn)
    nm, req = fn['params'][0]['n'], ('param', fn['params'][1]['n'])
    name = {('init', ('deref', ('param', nm))), ('deref', ('param', nm)), ('param', nm)}
    hs = set()
    seen = dict(new=0, old=0, split=0, oom=0)
    for p in C.paths(fn, track_reads=True):
        if unreal(p) or not guarded(C, fn, p, w):
            continue
        L = OffLists(p)
        b = searched(C, fn, p, L, name, w, 'same-name')
        if b == 'bad':
            continue
        ch = changed(p)
        if b is not None:
            room = sub(z(blk(b, 'name_offset')), z(blk(b, 'memory_offset')))
            if p.kind == 'throw':
                R.check('same-name', w, not ch, f"a refused request changes {[pp(l)[-40:] for l in ch]}")
                fits(C, p, room, req, w, False)
                continue
            seen['old'] += 1
            cnt = blk(b, 'reference_count')
            R.check('same-name', w, set(ch) == {cnt} and ch[cnt] == add(z(cnt), ONE), f"an existing block is changed: {[(pp(l)[-40:], pp(v)) for l, v in ch.items()]}")
            R.check('same-name', w, p.val == node(z(blk(b, 'memory_offset'))), f"hands out {pp(p.val)} for an existing name")
            fits(C, p, room, req, w, True)
            continue
        if p.kind == 'throw':
            R.check('refused', w, not ch, f"a refused request changes {[pp(l)[-40:] for l in ch]}")
            if exhausted(C, p, L, req, fn, w):
                seen['oom'] += 1
            R.check('refused', w, exc_type(p) == OOM, f"out of memory is reported as {exc_type(p)}")
            continue
        seen['new'] += 1
        # the block handed out: the one the used list now starts with
        uh = p.get(hdr('used_blocks_off'))
        if not R.check('new-block', w, uh != z(hdr('used_blocks_off')), f"memory is handed out although no block became used: {desc(p)}"):
            continue
        b = add(uh, S)
        g = lambda f: p.get(blk(b, f))
        R.check('new-block', w, L.member(b, hdr('free_blocks_off'), p.facts), f"the block {pp(b)} is not one of the free ones: {desc(p)}")
        R.check('new-block', w, g('next_block_off') == z(hdr('used_blocks_off')), 'the other used blocks are lost')
        size0 = z(blk(b, 'block_size'))
        mo, no = g('memory_offset'), g('name_offset')
        h, m = sub(mo, off(b)), sub(no, mo)
        hs.add(h)
        R.check('new-block', w, p.val == node(mo), f"hands out {pp(p.val)} of the block {pp(b)}")
        R.check('new-block', w, g('reference_count') == ONE, f"a new block starts with {pp(g('reference_count'))} references")
        need = None
        news = {l[1] for l in ch if l[2] == SB + 'block_size' and l[1] != b}
        links = {l: v for l, v in ch.items() if l in (hdr('free_blocks_off'),) or l[2] == SB + 'next_block_off' and l[1] != b and l[1] not in news}
        want = z(blk(b, 'next_block_off'))
        if g('block_size') != size0:
            seen['split'] += 1
            need = g('block_size')
            n = add(b, need)
            if not R.check('new-block', w, news == {n}, f"the rest of the block is kept as {[pp(x) for x in news]}: {desc(p)}"):
                continue
            R.check('new-block', w, p.get(blk(n, 'block_size')) == sub(size0, need), f"the rest of the block has size {pp(p.get(blk(n, 'block_size')))}")
            R.check('new-block', w, p.get(blk(n, 'next_block_off')) == z(blk(b, 'next_block_off')), 'the free blocks behind the one that was split are lost')
            R.check('new-block', w, room_for_header(C, p, size0, need, req, nm), f"a rest too small for a block header is split off: {desc(p)}")
            want = off(n)
        else:
            R.check('new-block', w, not news, f"changes the size of {[pp(x) for x in news]}")
        if isnull_next(p, b) and want == z(blk(b, 'next_block_off')):
            want = ZERO
        if R.check('new-block', w, len(links) == 1 or not links and False, f"changes {len(links)} links of the free list: {desc(p)}"):
            (l, v), = links.items()
            prev = ZERO if l == hdr('free_blocks_off') else l[1]
            R.check('new-block', w, v in (want, z(blk(b, 'next_block_off')) if want == ZERO else want), f"the free list continues with {pp(v)} instead of {pp(want)}")
            if prev == ZERO:
                ok = first(p, L, b)
            else:
                ok = L.pred(prev, b, hdr('free_blocks_off'), p.facts)
            R.check('new-block', w, ok, f"{pp(l)[-60:]} is not the link to the block taken: {desc(p)}")
        R.check('new-block', w, p.get(hdr('actual_size')) == add(z(hdr('actual_size')), g('block_size')), f"the size in use becomes {pp(p.get(hdr('actual_size')))}")
        ok = {blk(x, f) for x in {b} | news for f in BF} | set(links) | {hdr('used_blocks_off'), hdr('actual_size')}
        R.check('new-block', w, not set(ch) - ok, f"also changes {[pp(l)[-50:] for l in set(ch) - ok]}")
        layout(C, p, L, b, h, m, need, size0, req, nm, w)
        named(C, fn, p, node(no), nm, w)
    R.check('new-block', w, seen['new'] and seen['split'], 'no new block is ever handed out or split')
    R.check('same-name', w, seen['old'], 'an existing name is never found')
    R.check('refused', w, seen['oom'], 'running out of memory is never reported')
    R.need(len(hs) == 1, f"memory starts at different distances from its block: {[pp(x) for x in hs]}")
    return hs.pop()


def room_for_header(C, p, size0, need, req, nm):
    fs = [(a, t) for a, t in p.facts.items() if contains(a, size0) and a[0] in ('<', '==')]
    W, a = Word(10), align(C)
    for r in (0, 7, 16, 40, 100):
        for n in (0, 5, 16):
            for sb in (24, 40, 56):
                env = envof({AL16: a, req: r}, [need] + [x for x, t in fs], sb, n, nm)
                N = W.ev(need, env)
                for rest in range(0, sb):
                    env[size0] = N + rest
                    hit = True
                    for x, t in fs:
                        try:
                            hit &= bool(W.ev(x, env)) == t
                        except Unk:
                            pass
                    if hit:
                        return False
    return True


def isnull_next(p, b):
    return decide(EQ(z(blk(b, 'next_block_off')), ZERO), p.facts) is True


def first(p, L, b):
    """b is the head of the free list on this path: the tracked predecessor is null"""
    if b in L.heads(hdr('free_blocks_off')):
        return True
    if b[0] != 'loopv':
        return False
    for k in L.loops[b[1]].extra['entry']:
        v = ('loopv', b[1], k)
        if v != b and isnull(v, p.facts) is True and L.pred(v, b, hdr('free_blocks_off'), p.facts):
            return True
    return False


def align(C):
    v = None
    for fn in C.fns(IM + '::impl'):
        if fn.get('inits') is not None or fn.get('body'):
            for p in C.paths(fn):
                x = p.get(AL16[1])
                if x[0] == 'int':
                    v = x[1]
    return v


def words(C, req, lens=(0, 1, 5, 14, 15, 16, 17, 31, 64)):
    a = align(C)
    C.R.need(a, 'the alignment of a segment is not a constant')
    W = Word(10)
    base = {AL16: a}
    for sb in (24, 40, 48, 56):
        for n in lens:
            for r in list(range(0, 80)) + list(range(500, 520)) + list(range(860, 1024)):
                yield W, a, sb, n, r, {**base, req: r}


def envof(env, vals, sb, n, nm):
    for v in vals:
        for x in subterms(v):
            if x[0] == 'sizeof' and x[1].endswith('SharedMemoryBlock'):
                env[x] = sb
            elif x[0] == 'sizeof' and x[1].endswith('SegmentHeader'):
                env[x] = 80
            elif x[0] == 'app' and x[1].split('::')[-1] in ('size', 'length', 'strlen') and contains(x, ('param', nm)):
                env[x] = n
    return env


CACHE = {}


def layout(C, p, L, b, h, m, need, size0, req, nm, w):
    """over a reduced word: whatever the path lets through is laid out inside the block"""
    R = C.R
    # a lower bound on the block's size: what it was compared with when it was chosen
    if need is None:
        need = bound(p, L, b)
        if not R.check('layout', w, need is not None, f"the block is not known to be large enough: {desc(p)}"):
            return
    else:
        bd = bound(p, L, b)
        R.check('layout', w, bd == need or decide(LT(size0, need), p.facts) is False, f"a block is cut to {pp(need)} without being known to be that large")
    fs = tuple((a, t) for a, t in p.facts.items() if contains(a, req) and not any(x[0] in ('loopv', 'ret') or x == S for x in subterms(a)))
    key = (h, m, need, fs)
    if key not in CACHE:
        CACHE[key] = table(C, key, req, nm)
    R.check('layout', w, not CACHE[key], CACHE[key])


def table(C, key, req, nm):
    h, m, need, fs = key
    for W, a, sb, n, r, env in words(C, req):
        env = envof(env, [h, m, need] + [x for x, t in fs], sb, n, nm)
        try:
            if any(bool(W.ev(x, env)) != t for x, t in fs):
                continue
            H, M, N = W.ev(h, env), W.ev(m, env), W.ev(need, env)
        except Unk as u:
            raise Anchor(f"layout depends on something unforeseen: {pp(u.args[0])[:200]}")
        what = f"for {r} bytes and a name of {n} characters (header of {sb}) in a word of 10 bits"
        if H < sb or H % a:
            return f"memory starts {H} bytes into the block {what}"
        if M < r:
            return f"{M} bytes of memory {what}"
        if N < H + M + n + 1:
            return f"{N} bytes are taken where {H}+{M}+{n + 1} are used {what}"
        if N % a:
            return f"a block of {N} bytes leaves the next one misaligned {what}"
    return ''


def bound(p, L, b):
    """the size the block is known not to be smaller than"""
    def cand(v, facts):
        out = set()
        for a, t in facts.items():
            s = z(blk(v, 'block_size'))
            if a[0] == '<' and not t and a[1] == s:
                out.add(a[2])
            if a[0] == '==' and t and s in a[1:]:
                out.add(a[1] if a[2] == s else a[2])
        return out
    cs = set()
    for a in [p.facts] + [i.facts for l in L.loops.values() for i in l.iters]:
        for x in list(a):
            if x[0] in ('<', '=='):
                for y in subterms(x):
                    if y[0] == 'init' and y[1][0] == 'fld' and y[1][2] == SB + 'block_size':
                        cs |= cand(y[1][1], a)
    for n in sorted(cs, key=repr):
        if any(x[0] == 'init' and shared(x[1]) for x in subterms(n)):
            continue
        if L.always(b, lambda v, f: n in cand(v, f), p.facts, True):
            return n
    return None


def exhausted(C, p, L, req, fn, w):
    """every free block was looked at and found too small, or the sizes overflow"""
    R = C.R
    head = hdr('free_blocks_off')
    if decide(EQ(z(head), ZERO), p.facts) is True:
        return True
    cs = cursors(L, head, p.facts)
    if not cs:
        # refused before looking: only sums that overflow
        fs = [(a, t) for a, t in p.facts.items() if contains(a, req) and not any(x[0] in ('loopv', 'ret') for x in subterms(a))]
        if not R.check('refused', w, fs, f"a request is refused although no free block was looked at: {desc(p)}"):
            return False
        nm = fn['params'][0]['n']
        for W, a, sb, n, r, env in words(C, req, (0, 5, 16)):
            env = envof(env, [x for x, t in fs], sb, n, nm)
            try:
                hit = all(bool(W.ev(x, env)) == t for x, t in fs)
            except Unk:
                return True
            if hit and r + sb + n + 1 + 4 * a < 1024:
                R.check('refused', w, False, f"a request for {r} bytes is refused although nothing overflows (10-bit word)")
                return False
        return True
    ok = False
    for c, l in cs:
        if isnull(c, p.facts) is not True:
            continue
        ok = True
        for i in l.iters:
            small = any(a[0] == '<' and t and a[1] == z(blk(c, 'block_size')) and not any(x[0] == 'init' and shared(x[1]) for x in subterms(a[2])) for a, t in i.facts.items())
            taken = any(v == c for k, v in i.mem.items() if k[0] == 'var' and k != c[2])
            had = any(isnull(('loopv', l.extra['id'], k), i.facts) is False for k in l.extra['entry'] if ('loopv', l.extra['id'], k) != c)
            R.check('refused', w, small or taken or had, f"a free block is passed over without being too small: {desc(i)}")
    R.check('refused', w, ok, f"a request is refused before all free blocks were looked at: {desc(p)}")
    return ok


def fits(C, p, room, req, w, handed):
    """an existing block is handed out only when it has room; it is refused only when it might not have"""
    R = C.R
    fs = [(a, t) for a, t in p.facts.items() if contains(a, room) or contains(a, z(list(x for x in subterms(room) if x[0] == 'init')[0][1]))]
    fs = [(a, t) for a, t in fs if contains(a, req) and a[0] in ('<', '==')]
    if not R.check('same-name', w, fs, f"an existing block is {'handed out' if handed else 'refused'} without comparing its room with the request: {desc(p)}"):
        return
    W = Word(10)
    a = align(C)
    for n in range(0, 1024, a):
        for r in list(range(0, 70)) + list(range(480, 530)) + list(range(940, 1024)):
            env = {AL16: a, req: r, room: n}
            for x in subterms(room):
                if x[0] == 'init':
                    env[x] = n + 64 if x[1][2].endswith('name_offset') else 64
            envof(env, [x for x, t in fs], 40, 5, '')
            try:
                hit = all(bool(W.ev(x, env)) == t for x, t in fs)
            except Unk:
                continue
            if hit and handed and n < r:
                return R.check('same-name', w, False, f"an existing block with room for {n} bytes is handed out for {r} (10-bit word)")
            if hit and not handed and r < 960 and n >= (r + a) // a * a:
                return R.check('same-name', w, False, f"an existing block with room for {n} bytes is refused for {r} (10-bit word)")
    R.check('same-name', w, True, '')


def named(C, fn, p, dest, nm, w):
    """the name is stored behind the memory, with its terminator"""
    R = C.R
    n = None
    term = any(e.kind == 'write' and e.val == ZERO and e.loc[0] in ('deref', 'elem') and is_end(e.loc, dest, nm) for e in p.trace)
    cp = []
    for e in p.calls():
        s = e.fn.split('::')[-1]
        if dest in e.args and s in ('copy', 'memcpy', 'strcpy', 'strncpy', 'memmove', 'copy_n', '__builtin_memcpy'):
            cp.append(e)
            if s == 'strcpy':
                term = True
            elif any(is_len(a, nm, 1) for a in e.args):
                term = True
            elif s != 'copy' or len(e.args) > 1:
                R.check('new-block', site(fn, e), any(is_len(a, nm, 0) for a in e.args), f"copies {[pp(a) for a in e.args]} as the name")
    R.check('new-block', w, len(cp) == 1, f"the name is stored {len(cp)} times: {desc(p)}")
    R.check('new-block', w, term, f"the stored name is not terminated: {desc(p)}")


def is_len(a, nm, k):
    a = sub(a, INT(k))
    return a[0] == 'app' and a[1].split('::')[-1] in ('size', 'length', 'strlen') and contains(a, ('param', nm))


def is_end(loc, dest, nm):
    if loc[0] == 'deref':
        return is_len(sub(loc[1], dest), nm, 0)
    return loc[1] in (dest, ('deref', dest)) and is_len(loc[2], nm, 0)


# ---- release ------------------------------------------------------------------------------------------------------
def release(C, h):
    R = C.R
    fn = C.fn(IM + '::deallocate', 1)
    w = site(fn)
    ptr = ('param', fn['params'][0]['n'])
    b = sub(ptr, h)
    g = dict(kept=0, left=0, right=0, both=0, none=0)
    for p in C.paths(fn, track_reads=True):
        if unreal(p) or not guarded(C, fn, p, w):
            continue
        ch = changed(p)
        if not R.check('release', w, p.kind == 'return', f"releasing throws: {desc(p)}"):
            continue
        cnt = blk(b, 'reference_count')
        if not R.check('release', w, ch.get(cnt) == sub(z(cnt), ONE), f"the block at {pp(b)} loses no reference: {[pp(l)[-70:] for l in ch][:4]}"):
            continue
        last = decide(EQ(sub(z(cnt), ONE), ZERO), p.facts)
        if not R.check('release', w, last is not None, f"whether references are left is not tested: {desc(p)}"):
            continue
        if not last:
            g['kept'] += 1
            R.check('release', w, set(ch) == {cnt}, f"a block that is still referenced is changed: {[pp(l)[-40:] for l in ch]}")
            continue
        L = OffLists(p)
        uh, fh = hdr('used_blocks_off'), hdr('free_blocks_off')
        R.check('release', w, p.get(hdr('actual_size')) == sub(z(hdr('actual_size')), z(blk(b, 'block_size'))), f"the size in use becomes {pp(p.get(hdr('actual_size')))}")
        # out of the used list
        cs = cursors(L, uh, p.facts)
        if decide(EQ(z(uh), ZERO), p.facts) is True or any(isnull(c, p.facts) is True for c, l in cs):
            continue        # not in the list: does not occur
        at = [c for c, l in cs if decide(EQ(c, b), p.facts) is True]
        if not at and decide(EQ(node(z(uh)), b), p.facts) is True:
            at = [node(z(uh))]
        if not R.check('release', w, len(at) >= 1, f"the block is not looked for in the used list: {desc(p)}"):
            continue
        cur = at[0]
        nxt = (z(blk(b, 'next_block_off')), z(blk(cur, 'next_block_off')))
        fc = cursors(L, fh, p.facts)
        if decide(EQ(z(fh), ZERO), p.facts) is True:
            c, x, l = ZERO, ZERO, None
        elif R.check('release', w, len(fc) == 1, f"the place in the free list is not looked for: {desc(p)}"):
            c, l = fc[0]
            vs = [('loopv', c[1], k) for k in l.extra['entry'] if ('loopv', c[1], k) != c]
            vs = [v for v in vs if L.pred(v, c, fh, p.facts)]
            if not R.check('release', w, vs, f"the free block before the place is not known: {desc(p)}"):
                continue
            x = vs[0]
        else:
            continue
        xnull = x == ZERO or isnull(x, p.facts) is True
        if not R.check('release', w, xnull or isnull(x, p.facts) is False, f"whether there is a free block before is not tested: {desc(p)}"):
            continue
        link = fh if xnull else blk(x, 'next_block_off')
        # used list: through its predecessor
        up = [l2 for l2 in ch if l2 != link and (l2 == uh or l2[2] == SB + 'next_block_off' and l2[1] not in (b, x))]
        if R.check('release', w, len(up) == 1, f"the used list is changed in {len(up)} places: {desc(p)}"):
            l2 = up[0]
            R.check('release', w, ch[l2] in nxt, f"the used list continues with {pp(ch[l2])}")
            if l2 == uh:
                ok = cur in L.heads(uh) or any(isnull(('loopv', cur[1], k), p.facts) is True and L.pred(('loopv', cur[1], k), cur, uh, p.facts) for k in L.loops[cur[1]].extra['entry'] if cur[0] == 'loopv' and ('loopv', cur[1], k) != cur)
            else:
                ok = L.pred(l2[1], cur, uh, p.facts)
            R.check('release', w, ok, f"{pp(l2)[-60:]} is not the link to the block: {desc(p)}")
        # order
        lt = lambda v, f: decide(LT(v, b), f) is True or decide(LT(b, v), f) is False or decide(LT(off(v), off(b)), f) is True
        R.check('release', w, xnull or L.always(x, lt, p.facts), f"the free block before is not known to lie before the block: {desc(p)}")
        R.check('release', w, c == ZERO or isnull(c, p.facts) is True or decide(LT(c, b), p.facts) is False or decide(LT(b, c), p.facts) is True or decide(LT(off(c), off(b)), p.facts) is False,
                f"the walk through the free list stops too early: {desc(p)}")
        # what follows x
        y = node(z(link))
        m = {c: y} if c != ZERO else {}
        fs = {renorm(subst(a, m)): t for a, t in p.facts.items()}
        ynull = decide(EQ(z(link), ZERO), fs)
        if c != ZERO and isnull(c, p.facts) is not None:
            if ynull is not None and ynull != isnull(c, p.facts):
                continue        # the cursor is what the link leads to
            ynull = isnull(c, p.facts)
        if not R.check('release', w, ynull is not None, f"whether a free block follows is not tested: {desc(p)}"):
            continue
        size = z(blk(b, 'block_size'))
        left = False
        if not xnull:
            left = decide(renorm(EQ(add(off(x), z(blk(x, 'block_size'))), off(b))), fs)
            if left is None:
                left = decide(renorm(EQ(add(x, z(blk(x, 'block_size'))), b)), fs)
        cur_, sz = (x, add(z(blk(x, 'block_size')), size)) if left else (b, size)
        right = False
        if not ynull:
            right = decide(renorm(EQ(add(off(cur_), sz), z(link))), fs)
            if right is None:
                right = decide(renorm(EQ(add(cur_, sz), y)), fs)
            if right is None and not left:
                right = decide(renorm(EQ(add(b, size), y)), fs)
        if not R.check('release', w, left is not None and right is not None, f"whether the neighbours touch the block is not tested: {desc(p)}"):
            continue
        g['both' if left and right else 'left' if left else 'right' if right else 'none'] += 1
        got = lambda l2: subst(p.get(l2), m)
        if right:
            sz, after = add(sz, z(blk(y, 'block_size'))), z(blk(y, 'next_block_off'))
        else:
            after = ZERO if ynull else z(link)
        R.check('release', w, got(blk(cur_, 'block_size')) == sz, f"the free block has size {pp(got(blk(cur_, 'block_size')))} instead of {pp(sz)}")
        v = got(blk(cur_, 'next_block_off'))
        R.check('release', w, v == after or ynull and v == z(link), f"the free list continues with {pp(v)} instead of {pp(after)}")
        if not left:
            R.check('release', w, got(link) == off(b), f"the free list does not lead to the block: {pp(got(link))}")
        ok = {blk(b, f) for f in BF} | {link, uh, hdr('actual_size'), blk(cur_, 'block_size'), blk(cur_, 'next_block_off')} | set(up)
        R.check('release', w, not set(ch) - ok, f"also changes {[pp(l2)[-50:] for l2 in set(ch) - ok]}")
    R.check('release', w, all(g.values()), f"missing cases: {g}")


# ---- lookup -------------------------------------------------------------------------------------------------------
def find(C):
    R = C.R
    fn = C.fn(IM + '::find_pointer_from_name', 1)
    w = site(fn)
    nm = fn['params'][0]['n']
    name = {('init', ('deref', ('param', nm))), ('deref', ('param', nm)), ('param', nm)}
    hit = 0
    for p in C.paths(fn, track_reads=True):
        if unreal(p) or not guarded(C, fn, p, w):
            continue
        R.check('find', w, not changed(p), f"a lookup changes {[pp(l)[-40:] for l in changed(p)]}")
        b = searched(C, fn, p, OffLists(p), name, w, 'find')
        if b == 'bad' or not R.check('find', w, p.kind == 'return', f"throws: {desc(p)}"):
            continue
        hit += b is not None
        R.check('find', w, p.val == (ZERO if b is None else node(z(blk(b, 'memory_offset')))), f"yields {pp(p.val)}: {desc(p)}")
    R.check('find', w, hit, 'a name is never found')
    fn = C.fn(IM + '::getActualSize', 0)
    for p in C.paths(fn):
        R.check('find', site(fn), p.kind == 'return' and p.val == z(hdr('actual_size')), f"the size in use is reported as {pp(p.val)}")


# ---- setting up ---------------------------------------------------------------------------------------------------
def events(p):
    out = []
    for e in p.trace:
        if e.kind == 'loop':
            for i in e.iters:
                out += events(i)
        else:
            out.append(e)
    return out


def fld(n):
    return ('fld', ('this',), IM + '::' + n)


def failed(r, facts):
    return decide(EQ(r, ZERO), facts) is False or decide(LT(r, ZERO), facts) is True or decide(EQ(r, INT(-1)), facts) is True


def setup(C):
    R = C.R
    fn = C.fn(IM + '::impl', 2)
    w = site(fn)
    size = ('param', fn['params'][1]['n'])
    made = att = 0
    for p in C.paths(fn, track_reads=True):
        if unreal(p):
            continue
        evs = events(p)
        opens = [e for e in evs if e.kind == 'call' and e.fn == 'shm_open']
        fd = p.get(fld('m_segment_fd'))
        created, opened = obtained(C, fn, p, fd)
        top = p.trace
        mm = [e for e in top if e.kind == 'call' and e.fn in ('mmap', 'mmap64')]
        mapped = [e for e in mm if decide(EQ(e.ret, INT(-1)), p.facts) is False]
        cl = [e for e in top if e.kind == 'call' and e.fn == 'close']
        un = [e for e in top if e.kind == 'call' and e.fn == 'shm_unlink']
        mu = [e for e in top if e.kind == 'call' and e.fn == 'munmap']
        if p.kind == 'throw':
            if not opened:
                R.check('teardown', w, not cl and not un and not mm, f"gives back what was not obtained: {desc(p)}")
                continue
            R.check('teardown', w, len(cl) == 1 and cl[0].args[0] == fd, f"a failed set-up leaves the descriptor open: {desc(p)}")
            R.check('teardown', w, len(mu) == len(mapped) and all(e.args[0] == x.ret and same_len(p, e.args[1], x.args[1]) for e, x in zip(mu, mapped)), f"a failed set-up leaves a mapping: {desc(p)}")
            R.check('teardown', w, len(un) == int(created is True) and all(e.args[0] == p.get(fld('m_segment_name')) for e in un), f"a failed set-up {'leaves the segment it created' if created else 'removes a segment of another process'}: {desc(p)}")
            continue
        R.check('teardown', w, not cl and not un and not mu, f"a segment that was set up is given back: {desc(p)}")
        if not R.check('segment', w, opened and created is not None and len(mapped) == 1, f"no segment, or unknown who created it: {desc(p)}"):
            continue
        e = mapped[0]
        seg = e.ret
        ln = e.args[1]
        R.check('segment', site(fn, e), len(e.args) == 6 and e.args[2] == INT(3) and e.args[3][0] == 'int' and e.args[3][1] & 0x3f == 1 and e.args[4] == fd and e.args[5] == ZERO and e.args[0] == ZERO,
                f"maps {[pp(a) for a in e.args]}")
        st = ln[0] == 'proj' and ln[-1].split('::')[-1] == 'st_size' or created and ln == size or pp(ln).endswith('st_size')
        R.check('segment', site(fn, e), st, f"maps {pp(ln)} bytes of the segment")
        R.check('segment', w, p.get(fld('m_segment')) == seg and p.get(fld('m_segment_size')) == ln, 'the mapping is not remembered as it was made')
        at = [(k, x) for k, x in enumerate(top) if x.kind == 'call' and x.fn == '__atomic' and x.args and x.args[0] == ('addr', hdr('init_flag', seg))]
        ws = {l: v for l, v in p.mem.items() if shared(l) and v != ('init', l)}
        done = publish_value(C, fn)
        if created:
            made += 1
            ft = [x for x in top if x.kind == 'call' and x.fn in ('ftruncate', 'ftruncate64')]
            if R.check('segment', w, len(ft) == 1 and ft[0].args == (fd, size) and decide(EQ(ft[0].ret, ZERO), p.facts) is True and top.index(ft[0]) < top.index(e), f"a new segment is not given its size: {desc(p)}"):
                pass
            small = [a for a, t in p.facts.items() if a[0] == '<' and not t and a[1] == size]
            ok = False
            for a in small:
                W = Word(12)
                env = envof({}, [a], 40, 0, '')
                try:
                    ok |= W.ev(a[2], env) >= 120
                except Unk:
                    pass
            R.check('segment', w, ok, f"a segment too small for its bookkeeping is set up: {desc(p)}")
            first_ = add(seg, ('sizeof', hdr_type(p, seg)))
            H = sub(first_, seg)
            n = next((l[1] for l in ws if l[2] == SB + 'block_size'), None)
            if R.check('segment', w, n is not None and len({l[1] for l in ws if l[2].startswith(SB)}) == 1, 'the free memory of a new segment is not set up as one block'):
                o = sub(n, seg)
                R.check('segment', w, o == H, f"the free memory of a new segment starts at {pp(o)}")
                R.check('segment', w, p.get(hdr('free_blocks_off', seg)) == o, f"the free list of a new segment starts at {pp(p.get(hdr('free_blocks_off', seg)))}")
                R.check('segment', w, p.get(blk(n, 'next_block_off')) == ZERO, 'the free list of a new segment does not end')
                R.check('segment', w, p.get(blk(n, 'block_size')) == sub(size, o), f"the free memory of a new segment has size {pp(p.get(blk(n, 'block_size')))}")
            R.check('segment', w, p.get(hdr('used_blocks_off', seg)) == ZERO, 'a new segment has used blocks')
            R.check('segment', w, p.get(hdr('segment_size', seg)) == size, f"a new segment has size {pp(p.get(hdr('segment_size', seg)))}")
            mi = [(k, x) for k, x in enumerate(top) if x.kind == 'call' and x.fn == 'pthread_mutex_init']
            sp = [(k, x) for k, x in enumerate(top) if x.kind == 'call' and x.fn == 'pthread_mutexattr_setpshared']
            ok = len(mi) == 1 and len(sp) == 1 and mi[0][1].args[0] == ('addr', hdr('mutex', seg)) and sp[0][1].args[1] == ONE and mi[0][1].args[1] == sp[0][1].args[0] and sp[0][0] < mi[0][0] \
                and decide(EQ(mi[0][1].ret, ZERO), p.facts) is True and decide(EQ(sp[0][1].ret, ZERO), p.facts) is True
            R.check('segment', w, ok, f"the mutex of a new segment is not shared between processes: {desc(p)}")
            pub = [(k, x) for k, x in at if done is not None and x.args[-1] == done]
            if R.check('segment', w, len(pub) == 1 and pub[0][1].args[1] in (INT(3), INT(4), INT(5)), f"a new segment is published {len(pub)} times"):
                k = pub[0][0]
                late = [x for x in top[k + 1:] if x.kind == 'write' and shared(x.loc) or x.kind == 'call' and x.fn.startswith('pthread_mutex') or x.kind == 'call' and x.fn == '__atomic']
                R.check('segment', site(fn, pub[0][1]), not late, f"a segment is still being set up after it was published: {[str(x)[:80] for x in late]}")
        else:
            att += 1
            R.check('segment', w, not ws and not [x for x in evs if x.kind == 'call' and x.fn in ('ftruncate', 'ftruncate64', 'pthread_mutex_init')] and not [1 for k, x in at if len(x.args) > 2],
                    f"a process that attaches changes the segment: {[pp(l)[-40:] for l in ws]}")
            # waits for the published value
            vals = {x.ret for x in evs if x.kind == 'call' and x.fn == '__atomic' and x.args[0] == ('addr', hdr('init_flag', seg)) and x.args[1] in (INT(1), INT(2), INT(4), INT(5))}
            ok = any(t and a[0] == '==' and done in a[1:] and from_vals(p, a[1] if a[2] == done else a[2], vals) for a, t in p.facts.items())
            R.check('segment', w, ok, f"a process goes on before the segment was set up: {desc(p)}")
            zero = [a for a, t in p.facts.items() if not t and a[0] == '==' and ZERO in a[1:] and any('st_size' in pp(v) for v in sizes_of(p, a[1] if a[2] == ZERO else a[2]))]
            R.check('segment', w, zero, f"a process does not wait for the segment to get its size: {desc(p)}")
    R.check('segment', w, made and att, f"{made} ways to create and {att} ways to attach")


def hdr_type(p, seg):
    for a in list(p.facts) + list(p.mem.values()):
        for x in subterms(a):
            if x[0] == 'sizeof' and x[1].endswith('SegmentHeader'):
                return x[1]
    return IM + '::SharedMemorySegmentHeader'


def same_len(p, a, b):
    return a == b


def publish_value(C, fn):
    """the value every attaching process waits for"""
    out = set()
    for p in C.paths(fn, track_reads=True):
        if p.kind != 'return':
            continue
        lv = set()
        for lid, l in OffLists(p).loops.items():
            for k in l.extra['entry']:
                e = l.extra['entry'][k]
                if e[0] == 'ret' and e[2] == 'atomic':
                    lv.add(('loopv', lid, k))
        for e in events(p):
            if e.kind == 'call' and e.fn == '__atomic' and len(e.args) == 2:
                lv.add(e.ret)
        for a, t in p.facts.items():
            if t and a[0] == '==' and (a[1] in lv and a[2][0] == 'int' or a[2] in lv and a[1][0] == 'int'):
                out.add(a[1] if a[1][0] == 'int' else a[2])
    return out.pop() if len(out) == 1 else None


def from_vals(p, v, vals):
    if v in vals:
        return True
    if v[0] != 'loopv':
        return False
    L = OffLists(p)
    w = L.ways(v)
    return w is not None and (w[0] in vals or w[0][0] in ('int', 'undef')) and all(x in vals or x == v for x, i in w[1]) and (w[0] in vals or w[1])


def sizes_of(p, v):
    if v[0] != 'loopv':
        return [v]
    w = OffLists(p).ways(v)
    return [x for x, i in w[1]] if w else []


def obtained(C, fn, p, fd):
    """(who created the segment, whether there is one): from the way the descriptor was obtained"""
    R = C.R
    w = site(fn)
    if fd[0] == 'ret':
        e = next((x for x in events(p) if x.kind == 'call' and x.ret == fd), None)
        if e is None or e.fn != 'shm_open':
            return None, False
        ok = decide(LT(fd, ZERO), p.facts)
        if ok is not False:
            return None, False
        return flags(C, fn, p, e, p.get(fld('m_segment_name'))), True
    if fd[0] != 'loopv':
        return None, False
    L = OffLists(p)
    l = L.loops[fd[1]]
    res = set()
    known = {}
    for i in l.iters:
        v = i.mem.get(fd[2], fd)
        leaves = [k for k in l.extra['entry'] if k[0] == 'var' and l.extra['entry'][k] == ZERO and i.mem.get(k) == ONE]
        e = next((x for x in i.trace if x.kind == 'call' and x.ret == v and x.fn == 'shm_open'), None)
        good = e is not None and decide(LT(v, ZERO), i.facts) is False
        # iterations that lead out of the loop: those after which the loop's condition (the facts on its variables at the exit) holds
        out = True
        for a, t in p.facts.items():
            if any(x[0] == 'loopv' and x[1] == fd[1] for x in subterms(a)):
                m = {('loopv', fd[1], k): i.mem.get(k, ('loopv', fd[1], k)) for k in l.extra['entry']}
                d = decide(renorm(subst(a, m)), i.facts)
                if d is not None and d != t:
                    out = False
        if not out:
            if good:
                pass
            continue
        R.check('segment', w, good, f"goes on without a segment: {desc(i)}")
        if good:
            res.add(flags(C, fn, p, e, p.get(fld('m_segment_name'))))
    if len(res) == 1:
        return res.pop(), True
    return None, bool(res)


def flags(C, fn, p, e, name):
    R = C.R
    f = e.args[1]
    R.check('segment', site(fn, e), e.args[0] == name or e.args[0][0] in ('loopv', 'init'), f"opens {pp(e.args[0])}")
    if f[0] != 'int':
        return None
    cr = bool(f[1] & 0o100)
    R.check('segment', site(fn, e), f[1] & 3 == 2 and cr == bool(f[1] & 0o200) and not f[1] & 0o1000, f"opens the segment with flags {f[1]:#o}: creating must be exclusive, attaching must not create or truncate")
    return cr


def teardown(C):
    R = C.R
    fn = C.fn(IM + '::~impl', 0)
    w = site(fn)
    for p in C.paths(fn):
        cl, un, mu = ([e for e in p.calls() if e.fn == f] for f in ('close', 'shm_unlink', 'munmap'))
        R.check('teardown', w, p.kind == 'return' and len(cl) == len(un) == len(mu) == 1, f"{len(mu)} times unmapped, {len(un)} times unlinked, {len(cl)} times closed: {desc(p)}")
        R.check('teardown', w, all(e.args[0] == z(fld('m_segment_fd')) for e in cl) and all(contains(e.args[0], fld('m_segment_name')) for e in un)
                and all(e.args == (z(fld('m_segment')), z(fld('m_segment_size'))) for e in mu), f"gives back {[pp(a) for e in cl + un + mu for a in e.args]}")


# ---- the resource -------------------------------------------------------------------------------------------------
def forward(C):
    R = C.R
    pim = None
    for name, n, ret in (('allocate_named', 2, True), ('deallocate', 2, False), ('getActualSize', 0, True), ('find_pointer_from_name', 1, True)):
        fn = C.fn(HS + '::' + name, n)
        for p in C.paths(fn, opaque=tuple(IM + '::' + x for x in ('allocate_named', 'deallocate', 'getActualSize', 'find_pointer_from_name', 'impl'))):
            cs = [e for e in p.calls() if e.fn.startswith(IM + '::')]
            if name == 'deallocate' and p.kind == 'return' and not cs and isnull(('param', fn['params'][0]['n']), p.facts) is True:
                continue
            if not R.check('forward', site(fn), len(cs) == 1 and cs[0].fn == IM + '::' + name, f"{[e.fn for e in cs]}: {desc(p)}"):
                continue
            a = [fwd(x) for x in cs[0].args]
            want = [('param', q['n']) for q in fn['params']][:1 if name == 'deallocate' else None]
            R.check('forward', site(fn), a == want and (not ret or p.kind == 'return' and p.val == cs[0].ret), f"passes on {[pp(x) for x in a]} and yields {pp(p.val) if p.kind == 'return' else p.kind}")
    fn = C.fn(HS + '::allocate', 1)
    R.check('forward', site(fn), all(p.kind == 'throw' for p in C.paths(fn)), 'memory without a name is handed out')
    fn = C.fn(HS + '::HostSharedMemoryResource', 4)
    for p in C.paths(fn, opaque=(IM + '::impl',)):
        cs = [e for e in p.calls() if e.fn == IM + '::impl']
        ok = len(cs) == 1 and fwd(cs[0].args[0]) == ('param', fn['params'][1]['n']) and pp(cs[0].args[1]).replace("'0", '').endswith(fn['params'][3]['n'] + '.' + 'size') or len(cs) == 1 and 'size' in pp(cs[0].args[1])
        R.check('forward', site(fn), ok, f"the segment is set up with {[pp(a) for e in cs for a in e.args]}")
    fn = C.fn('umpire::find_pointer_from_name', 2)
    for p in C.paths(fn, opaque=(HS + '::find_pointer_from_name', 'umpire::util::unwrap_allocator')):
        cs = [e for e in p.calls() if e.fn == HS + '::find_pointer_from_name']
        if cs:
            R.check('forward', site(fn), len(cs) == 1 and any(x[0] in ('dyncast', 'app') and 'dyn' in str(x[0:2]) for x in subterms(cs[0].obj)), f"{pp(cs[0].obj)} is taken for shared memory unchecked")
            R.check('forward', site(fn), p.kind == 'return' and p.val == cs[0].ret and isnull(cs[0].obj, p.facts) is False, f"yields {pp(p.val)}: {desc(p)}")
        else:
            R.check('forward', site(fn), p.kind == 'throw', f"an allocator that is not shared memory yields {pp(p.val)}")


def fwd(v):
    while v[0] in ('addr', 'deref', 'init') and len(v) == 2:
        v = v[1]
    return v
