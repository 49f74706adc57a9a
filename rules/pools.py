"""The growing pools: vocabulary shared by the rules about them."""
from front import *

QP = 'umpire::strategy::QuickPool'
CH = QP + '::Chunk'
AA = 'umpire::strategy::mixins::AlignedAllocation'
RUP, AAL, ADE = AA + '::aligned_round_up', AA + '::aligned_allocate', AA + '::aligned_deallocate'
TH = ('this',)
QOPQ = (RUP, AAL, ADE, FMP + '::allocate', FMP + '::deallocate')
SANI = ('__asan_poison_memory_region', '__asan_unpoison_memory_region')


def qfld(f):
    return ('fld', TH, QP + '::' + f)


def flag(v, facts):
    """truth of a bool that may be compared with 0 or with 1"""
    if v[0] == 'int':
        return v[1] != 0
    t = decide(EQ(v, ONE), facts)
    if t is not None:
        return t
    return truthy(v, facts)


def pair_of(v):
    if v is not None and v[0] == 'objv':
        d = {k.split('::')[-1]: x for k, x in v[2]}
        if 'first' in d and 'second' in d:
            return d['first'], d['second']
    return None


def puts(p, loc):
    """entries put into the map at loc: (key, value, result, event)"""
    out = []
    for e in p.events(kind='call'):
        if e.obj != ('addr', loc) and e.obj != loc:
            continue
        s = short(e)
        if s in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
            a = e.args[1:] if s == 'emplace_hint' or (s == 'insert' and len(e.args) == 2 and pair_of(e.args[1])) else e.args
            if len(a) == 1 and pair_of(a[0]):
                k, v = pair_of(a[0])
            elif len(a) == 2:
                k, v = a
            else:
                raise Anchor(f"insertion into {pp(loc)} not understood: {[pp(x)[:80] for x in e.args]}")
            out.append((k, v, e.ret, e))
    for l, v in p.mem.items():
        if l[0] == 'elem' and l[1] == loc:
            out.append((l[2], v, ('addr', l), None))
    return out


def drops(p, loc):
    return [(e.args[0] if e.args else None, e) for e in p.events(kind='call') if e.obj in (('addr', loc), loc) and short(e) in ('erase', 'extract', 'clear')]


def second_of(it):
    """the mapped value an iterator refers to, as read at the start"""
    return ('init', ('fld', ('app', 'at', it), 'std::pair::second'))


def iter_of(c):
    """the iterator whose mapped value c is"""
    if c[0] == 'init' and c[1][0] == 'fld' and c[1][2] == 'std::pair::second' and c[1][1][0] == 'app' and c[1][1][1] == 'at':
        return c[1][1][2]
    return None


def chunk(f, c):
    return ('fld', c, CH + '::' + f)


def chunks_written(p):
    return {(l[1], l[2].split('::')[-1]) for l, v in p.mem.items() if l[0] == 'fld' and l[2].startswith(CH + '::') and v != ('init', l)}


def used_after_free(p, freed):
    """reads or writes of a chunk after its storage went back"""
    out = []
    for i, e in enumerate(p.trace):
        if e.kind == 'call' and e.fn == FMP + '::deallocate' and e.args and e.args[0] in freed:
            c = e.args[0]
            for x in p.trace[i + 1:]:
                if x.kind == 'write' and x.loc[0] == 'fld' and x.loc[1] == c:
                    out.append((c, 'write', x.line))
            for r in p.reads:
                if r[0][0] == 'fld' and r[0][1] == c and r[5] - p.n0 > i:
                    out.append((c, 'read', r[1]))
    return out


def base(p, loc):
    """the value a member had before the last write: at entry, or after the last summarised call"""
    for e in reversed(p.trace):
        if e.kind == 'call' and e.ret and e.ret[0] == 'ret':
            a = ('after', e.ret[1], loc)
            if contains(p.get(loc), a):
                return a
    return ('init', loc)


# ---- QuickPool ----------------------------------------------------------------------------------------------------
HAV = {QP + '::release': tuple(QP + '::' + f for f in ('m_actual_bytes', 'm_releasable_bytes', 'm_releasable_blocks', 'm_total_blocks', 'm_size_map'))}


def linked(loc):
    """the chunks of one piece of memory are linked both ways"""
    for a, b in (('next', 'prev'), ('prev', 'next')):
        if loc[0] == 'fld' and loc[2] == CH + '::' + a and loc[1][0] == 'init' and len(loc[1]) == 2 and loc[1][1][0] == 'fld' and loc[1][1][2] == CH + '::' + b:
            return loc[1][1][1]
    return None


def quick_alloc(C):
    """the successful and failing paths of QuickPool::allocate, with what each did"""
    if 'qa' not in C.memo:
        fn = C.fn(QP + '::allocate', 1)
        ps = C.paths(fn, opaque=QOPQ + (QP + '::release',), throws=throwing(OOM, AAL, RUP), track_reads=True, havoc=HAV, inv=linked)
        C.memo['qa'] = fn, ps
    return C.memo['qa']


def quick_free(C):
    if 'qd' not in C.memo:
        fn = C.fn(QP + '::deallocate', 2)
        ps = C.paths(fn, opaque=QOPQ + (QP + '::do_coalesce',), track_reads=True, dyn=QP, inv=linked)
        C.memo['qd'] = fn, ps
    return C.memo['qd']


class Took:
    """what a path of allocate took: chunk c, new or from the free map, size before and after, rounded request"""

    def __init__(self, fn, p):
        self.err = None
        bytes_ = ('param', fn['params'][0]['n'])
        ru = [e for e in p.calls() if e.fn == RUP and not e.threw]
        self.r = ru[0].ret if ru else None
        if len(ru) != 1 or ru[0].args != (bytes_,):
            self.err = 'the request is not rounded up once'
            return
        pm = puts(p, qfld('m_pointer_map'))
        if len(pm) != 1:
            self.err = f"{len(pm)} entries for one allocation in the map of live blocks"
            return
        self.key, self.c = pm[0][0], pm[0][1]
        got = [e for e in p.calls() if e.fn == AAL and not e.threw]
        self.got = got
        c = self.c
        if c[0] == 'ret' and c[2] == FMP + '::allocate':
            self.new = True
            if len(got) != 1:
                self.err = f"a new chunk although memory was obtained {len(got)} times"
                return
            self.s0 = got[0].args[0]
            self.data = got[0].ret
            self.whole = self.s0
            self.next0 = ZERO
        else:
            self.new = False
            self.it = iter_of(c)
            if got:
                self.err = 'memory obtained from the parent and not used'
                return
            self.s0 = ('init', chunk('size', c))
            self.data = ('init', chunk('data', c))
            self.whole = ('init', chunk('chunk_size', c))
            self.next0 = ('init', chunk('next', c))
        self.s1 = p.get(chunk('size', c))
        self.split = self.s1 != self.s0


def merged(p, c):
    """which neighbours of the chunk being released are free, as the path knows it: (prev, A, next, B)"""
    P, N = ('init', chunk('prev', c)), ('init', chunk('next', c))
    out = []
    for x in (P, N):
        nul = isnull(x, p.facts)
        if nul is True:
            out += [x, False]
        else:
            f = flag(('init', chunk('free', x)), p.facts)
            out += [x, f if nul is False or f is False else None]
    return out


# ---- DynamicSizePool ------------------------------------------------------------------------------------------------
from lists import Lists
DP = 'DynamicSizePool'
BL = DP + '::Block'
FSA, FSD = 'FixedSizePool::allocate', 'FixedSizePool::deallocate'
DREL = DP + '::freeReleasedBlocks'
DOPQ = (RUP, AAL, ADE, FSA, FSD)
DHAV = {DREL: tuple(DP + '::' + f for f in ('m_actual_bytes', 'm_releasable_blocks', 'm_total_blocks', 'freeBlocks'))}


def dfld(f):
    return ('fld', TH, DP + '::' + f)


def blk(f, c):
    return ('fld', c, BL + '::' + f)


def blocks_written(p):
    return {(l[1], l[2].split('::')[-1]) for l, v in p.mem.items() if l[0] == 'fld' and l[2].startswith(BL + '::') and v != ('init', l)}


def unfold(ps):
    """an object assigned as a whole is the assignment of its members"""
    for p in ps:
        for l, v in list(p.mem.items()):
            if l[0] == 'deref' and v[0] == 'objv':
                for f, x in v[2]:
                    p.mem.setdefault(('fld', l[1], f), x)
        for l in [l for l in p.mem if l[0] == 'fld' and l[1][0] == 'addr' and l[1][1][0] == 'var']:
            del p.mem[l]
    return ps


def dyn_alloc(C):
    if 'da' not in C.memo:
        fn = C.fn(DP + '::allocate', 1)
        ps = C.paths(fn, opaque=DOPQ + (DREL,), throws=throwing(OOM, AAL, RUP), track_reads=True, havoc=DHAV)
        unfold(ps)
        # the bookkeeping pool grows on demand and never answers null (P15)
        C.memo['da'] = fn, [p for p in ps if not any(e.fn == FSA and isnull(e.ret, p.facts) is True for e in p.calls())]
    return C.memo['da']


def dyn_free(C):
    if 'dd' not in C.memo:
        fn = C.fn(DP + '::deallocate', 1)
        C.memo['dd'] = fn, unfold(C.paths(fn, opaque=DOPQ + (DREL,), track_reads=True))
    return C.memo['dd']


class DTook:
    """what a path of DynamicSizePool::allocate took: block c (new or from the free list), its place (q before it, x behind), sizes"""

    def __init__(self, fn, p):
        self.err = None
        bytes_ = ('param', fn['params'][0]['n'])
        ru = [e for e in p.calls() if e.fn == RUP and not e.threw]
        self.r = ru[0].ret if ru else None
        if len(ru) != 1 or ru[0].args != (bytes_,):
            self.err = 'the request is not rounded up once'
            return
        U, F = dfld('usedBlocks'), dfld('freeBlocks')
        self.c = c = p.get(U)
        if c == ('init', U):
            self.err = 'no block added to the live list'
            return
        L = self.L = Lists(p, BL + '::next')
        got = [e for e in p.calls() if e.fn == AAL and not e.threw]
        self.new = c[0] == 'ret' and c[2] == FSA
        if self.new:
            if len(got) != 1:
                self.err = f"a new block although memory was obtained {len(got)} times"
                return
            self.s0, self.data, self.whole = got[0].args[0], got[0].ret, got[0].args[0]
        else:
            if got:
                self.err = 'memory obtained from the parent and not used'
                return
            self.s0, self.data, self.whole = (('init', blk(f, c)) for f in ('size', 'data', 'blockSize'))
        self.s1 = p.get(blk('size', c))
        self.split = self.s1 != self.s0
        # the link that used to lead to c (or to where c belongs) and now leads past it
        cand = [(l, v) for l, v in p.mem.items() if (l == F or l[0] == 'fld' and l[2] == BL + '::next' and l[1] != c and not (l[1][0] == 'ret' and l[1][2] == FSA))
                and v != ('init', l) and not (l == F and v[0] == 'after')]
        self.links = cand


# ---- release loops --------------------------------------------------------------------------------------------------
def quick_release(C):
    """((fn, paths), [(iteration, loop, chunk looked at, whether it goes back)])"""
    if 'qr' not in C.memo:
        fn = C.fn(QP + '::release', 0)
        ps = C.paths(fn, opaque=QOPQ, throws=throwing('std::exception', ADE), track_reads=True)
        its, seen = [], set()
        for p in ps:
            for l in p.events(deep=False, kind='loop'):
                if l.extra['id'] in seen:
                    continue
                seen.add(l.extra['id'])
                for i in l.iters:
                    c = [iter_of(v) and v for m in (i.mem, ) for v in m.values() if iter_of(v) is not None]
                    c += [t for a in i.facts for t in subterms(a) if iter_of(t) is not None]
                    c += [t for e in i.events(kind='call') for a in e.args for t in subterms(a) if iter_of(t) is not None]
                    c = set(c)
                    if len(c) != 1:
                        raise Anchor(f"QuickPool::release: an iteration looks at {len(c)} chunks")
                    its.append((i, l, c.pop(), any(e.fn == ADE for e in i.calls())))
        if not its:
            raise Anchor('QuickPool::release: no loop over the free chunks')
        C.memo['qr'] = (fn, ps), its
    return C.memo['qr']


def dyn_release(C):
    if 'dr' not in C.memo:
        fn = C.fn(DREL, 0)
        ps = C.paths(fn, opaque=DOPQ, throws=throwing('std::exception', ADE), track_reads=True)
        its, seen = [], set()
        F = dfld('freeBlocks')
        for p in ps:
            for l in p.events(deep=False, kind='loop'):
                if l.extra['id'] in seen:
                    continue
                seen.add(l.extra['id'])
                cur = [k for k, v in l.extra['entry'].items() if v == ('init', F) and k != F]
                if len(cur) != 1:
                    raise Anchor(f"{DREL}: {len(cur)} cursors over the free list")
                for i in l.iters:
                    its.append((i, l, ('loopv', l.extra['id'], cur[0]), any(e.fn == ADE for e in i.calls())))
        if not its:
            raise Anchor(f"{DREL}: no loop over the free blocks")
        C.memo['dr'] = (fn, ps), its
    return C.memo['dr']
