from front import *

TECHNIQUE = ("abstract interpretation of every reallocation and move entry point and of the reallocating operations, with an exception injected at every allocation and copy; "
             "path-wise comparison with the specification; copied lengths decided by a complete table over a reduced machine word")
ASSUMPTIONS = ["copying obeys P18, handles obey P17", "the system realloc keeps min(old, new) bytes and leaves the old block alone when it fails", "records have an owner (P17)",
               "NUMA moves in place are not part of the analysed configuration"]
MO = 'umpire::op::MemoryOperation'
MOR = 'umpire::op::MemoryOperationRegistry'
REC = 'umpire::util::AllocationRecord::'
ALLOC, FREE, COPY = AL + '::allocate', AL + '::deallocate', RM + '::copy'
OP = ('umpire::event::record', AM + '::find', AM + '::findRecord', MOR + '::find', ALLOC, FREE, COPY, REG, DEREG, RM + '::getDefaultAllocator', RM + '::getAllocator', AL + '::getName')
W = Word(3)
T = ('this',)


def run(C):
    R = C.R
    R.rule('fresh', 'reallocating null is exactly one allocation of that size')
    R.rule('owner', 'memory is reallocated only by the allocator it came from; anything else is refused and changes nothing')
    R.rule('base', 'an address inside an allocation is refused by reallocation and move, and nothing changes')
    R.rule('zero', 'reallocating to zero bytes releases the block once and hands out one zero-byte allocation')
    R.rule('operation', 'other reallocations are exactly one operation on that block and size, whose result is handed out; the system realloc is used for HOST memory only')
    R.rule('steps', 'the new block is obtained once with the new size, the smaller of both sizes is copied into it, then the old one is released once')
    R.rule('failure', 'a failing step leaves the old block live and registered, leaves no new one behind, and reaches the caller')
    R.rule('record', 'after the system realloc the registry and the statistics describe the new block; the old address is deregistered before the system may reuse it')
    R.rule('move', 'a move hands out a block of the same size from the given allocator with the same contents, and releases the old one once; a move to the owner does nothing')
    fs = C.fns(RM + '::reallocate')
    R.need(len(fs) >= 4, 'reallocate overloads')
    for fn in fs:
        reallocate(C, fn)
    for name in ('transform', 'transform_async'):
        generic(C, C.fn('umpire::op::GenericReallocateOperation::' + name))
    host(C, C.fn('umpire::op::HostReallocateOperation::transform', 5))
    move(C, C.fn(RM + '::move', 2))


def handle(p, e):
    """the strategy behind the handle an event was called on"""
    if e.ov is not None and e.ov[0] == 'objv':
        v = dict(e.ov[2]).get(AL + '::m_allocator')
        if v is not None:
            return v
    if e.ov is not None:
        return ('proj', e.ov, AL + '::m_allocator')
    return ('init', ('fld', e.obj, AL + '::m_allocator'))


def param(fn, t):
    return [('param', x['n']) for x in fn['params'] if x['t'].replace('const ', '') == t]


def strat_of_param(v, q):
    return v is not None and contains(v, q) and AL + '::m_allocator' in str(v)


def finds(p, ptr):
    return [e.ret for e in p.calls() if e.fn in (AM + '::find', AM + '::findRecord') and e.args[0] == ptr]


def fld(r, x):
    return ('init', ('fld', r, REC + x))


def effects(p):
    return [e for e in p.calls() if e.fn in (ALLOC, FREE, COPY, REG, DEREG) or e.fn.startswith(MO + '::')]


def orphan(p, recs):
    """a record without owner, or two lookups of one address that disagree"""
    return infeasible(p, {r: recs[0] for r in recs[1:]}) or any(isnull(fld(r, 'strategy'), p.facts) is True for r in recs)


def reallocate(C, fn):
    R = C.R
    w = site(fn)
    ptr, size = param(fn, 'void *')[0], param(fn, 'unsigned long')[0]
    given = param(fn, AL)
    ctx = param(fn, 'camp::resources::Resource &')
    seen = set()
    for p in C.paths(fn, opaque=OP):
        recs = finds(p, ptr)
        if orphan(p, recs):
            continue
        ef = effects(p)
        al, fr = [e for e in ef if e.fn == ALLOC], [e for e in ef if e.fn == FREE]
        ops = [e for e in ef if e.fn.startswith(MO + '::')]
        if isnull(ptr, p.facts) is True:
            seen.add('fresh')
            ok = p.kind == 'return' and len(ef) == 1 and len(al) == 1 and al[0].args == (size,) and p.val == al[0].ret
            if R.check('fresh', w, ok, f"{[e.fn.split('::')[-1] for e in ef]}, hands out {pp(p.val)}"):
                s = handle(p, al[0])
                dflt = any(contains(s, e.ret) for e in p.calls() if e.fn == RM + '::getDefaultAllocator')
                R.check('fresh', w, strat_of_param(s, given[0]) if given else dflt, f"allocated from {pp(s)}")
            continue
        if not R.check('owner', w, bool(recs), 'no record is looked up'):
            continue
        if p.kind == 'throw':
            R.check('owner', w, not ef, f"refused after {[short(e) for e in ef]}")
            base = [decide(EQ(fld(r, 'ptr'), ptr), p.facts) for r in recs]
            same = [tv for a, tv in p.facts.items() if a[0] == '==' and given and any(a_ in [fld(r, 'strategy') for r in recs] for a_ in a[1:]) and contains(a, given[0])]
            R.check('owner', w, False in base or False in same, f"refused although it is a block of that allocator: {desc(p)}")
            continue
        if given:
            same = [a for a, tv in p.facts.items() if tv and a[0] == '==' and any(x in [fld(r, 'strategy') for r in recs] for x in a[1:]) and contains(a, given[0])]
            R.check('owner', w, bool(same), f"reallocated by another allocator: {desc(p)}")
        owners = [fld(r, 'strategy') for r in recs]
        if isnull(size, p.facts) is True:
            seen.add('zero')
            ok = len(ef) == 2 and len(al) == len(fr) == 1 and al[0].args in ((size,), (ZERO,)) and fr[0].args == (ptr,) and p.val == al[0].ret
            if R.check('zero', w, ok, f"{[e.fn.split('::')[-1] for e in ef]}, hands out {pp(p.val)}"):
                hs = {handle(p, al[0]), handle(p, fr[0])}
                R.check('zero', w, all(h in owners or given and strat_of_param(h, given[0]) for h in hs), f"done by {[pp(h) for h in hs]}")
            continue
        if not R.check('operation', w, len(ef) == 1 and len(ops) == 1 and isnull(size, p.facts) is False, f"{[e.fn.split('::')[-1] for e in ef]}: {desc(p)}"):
            continue
        e = ops[0]
        R.check('base', w, any(decide(EQ(fld(r, 'ptr'), ptr), p.facts) is True for r in recs), f"an offset address is reallocated: {desc(p)}")
        ok = e.fn.split('::')[-1] in ('transform', 'transform_async') and e.args[0] == ptr and e.args[2] in recs and e.args[3] in recs and e.args[4] == size
        R.check('operation', w, ok, f"{short(e)}({', '.join(pp(a) for a in e.args)})")
        R.check('operation', w, p.val == ('out', e.ret[1], 1), f"hands out {pp(p.val)}")
        lk = [x for x in p.calls() if x.fn == MOR + '::find' and x.ret == e.obj]
        if not R.check('operation', w, len(lk) == 1 and lk[0].args[0] == ('str', 'REALLOCATE'), f"operation {[[pp(a) for a in x.args] for x in lk]}"):
            continue
        rest = lk[0].args[1:]
        if len(rest) == 1:
            seen.add('generic')
            f = {k.split('::')[-1]: v for k, v in rest[0][2]} if rest[0][0] == 'objv' else {}
            R.check('operation', w, f.get('first') == ZERO and f.get('second') == ZERO, f"operation for {pp(rest[0])}")
        else:
            seen.add('platform')
            R.check('operation', w, all(x in owners for x in rest), f"operation for {[pp(x) for x in rest]}")
            plat = {decide(EQ(g.ret, ONE), p.facts) for g in p.calls() if short(g) == 'getPlatform' and g.obj in owners}
            R.check('operation', w, is_host(p, owners) or (plat and None not in plat and False in plat), f"host memory that is not from HOST is handed to the system realloc: {desc(p)}")
    R.expect(seen >= {'fresh', 'zero', 'generic', 'platform'} or any(not o['ok'] for o in R.obl), f"{fn['q']}: only {sorted(seen)} seen")


def is_host(p, owners):
    """the path has established that the owner is the HOST resource"""
    h = [e.ret for e in p.calls() if e.fn == RM + '::getAllocator' and e.args == (('str', 'HOST'),)]
    for a, tv in p.facts.items():
        if tv and a[0] == '==' and any(contains(a, x) for x in h) and any(contains(a, o) for o in owners):
            return True
    return False


def min_length(C, rule, fn, v, p, old, new, what):
    """v is the smaller of old and new, for every old and every new of at least one byte"""
    for o in range(8):
        for n in range(1, 8):
            env = {old: o, new: n}
            if not W.possible(p, env):
                continue
            try:
                got = W.ev(v, env)
            except Unk as x:
                raise Anchor(f"{fn['q']}: length depends on {pp(x.args[0])[:160]}")
            if got != min(o, n):
                return C.R.check(rule, site(fn), False, f"{what} {got} of {o} bytes into {n}")
    return C.R.check(rule, site(fn), True)


def copyargs(e):
    """(to, from, length) of a copy, with or without context"""
    return e.args[0], e.args[1], e.args[-1]


def by_copy(C, fn, p, cur, out, old, new, strats, event=None):
    """one path that reallocates by allocating, copying and releasing"""
    R = C.R
    w = site(fn)
    al, fr, cp = ([e for e in p.calls() if e.fn == x] for x in (ALLOC, FREE, COPY))
    other = [e for e in p.calls() if e.fn in (REG, DEREG) or e.fn in ('realloc', 'free')]
    tr = p.trace
    if not R.check('steps', w, len(al) == 1 and not other and al[0].args == (new,) and handle(p, al[0]) in strats, f"obtains {[[pp(a) for a in e.args] for e in al]}"):
        return
    if al[0].threw:
        R.check('failure', w, p.kind == 'throw' and not cp and not fr, 'continues after a failed allocation')
        return
    if any(e.threw for e in cp):
        ok = p.kind == 'throw' and len(fr) == 1 and fr[0].args == (al[0].ret,) and handle(p, fr[0]) in strats
        R.check('failure', w, ok, f"after a failed copy releases {[[pp(a) for a in e.args] for e in fr]}")
        return
    if not R.check('steps', w, p.kind == 'return', f"throws: {desc(p)}"):
        return
    R.check('steps', w, p.get(('deref', out)) == al[0].ret, f"hands out {pp(p.get(('deref', out)))}")
    none = isnull(old, p.facts) is True
    if R.check('steps', w, len(cp) == 1 or not cp and none, f"{len(cp)} copies"):
        if cp:
            to, fro, n = copyargs(cp[0])
            R.check('steps', w, to == al[0].ret and fro == cur, f"copies from {pp(fro)} to {pp(to)}")
            min_length(C, 'steps', fn, n, p, old, new, 'copies')
    ok = len(fr) == 1 and fr[0].args == (cur,) and handle(p, fr[0]) in strats and (not cp or tr.index(cp[0]) < tr.index(fr[0]))
    R.check('steps', w, ok, f"releases {[[pp(a) for a in e.args] for e in fr]}" + (' before copying' if fr and cp and tr.index(cp[0]) > tr.index(fr[0]) else ''))


def generic(C, fn):
    cur, out, ca, na, new = (('param', x['n']) for x in fn['params'][:5])
    strats = (fld(ca, 'strategy'), fld(na, 'strategy'))
    for p in C.paths(fn, opaque=OP, throws=throwing('umpire::runtime_error', ALLOC, COPY)):
        by_copy(C, fn, p, cur, out, fld(ca, 'size'), new, strats)


def host(C, fn):
    R = C.R
    w = site(fn)
    S = Stats(C)
    cur, out, ca, na, new = (('param', x['n']) for x in fn['params'][:5])
    strats = (fld(ca, 'strategy'), fld(na, 'strategy'))
    old = fld(ca, 'size')
    seen = set()
    for p in C.paths(fn, opaque=OP, throws=throwing('umpire::runtime_error', ALLOC)):
        rl = [e for e in p.calls() if e.fn == 'realloc']
        if not rl:
            R.check('steps', w, isnull(old, p.facts) is True or bool([e for e in p.calls() if e.fn == ALLOC]), 'nothing is reallocated')
            by_copy(C, fn, p, cur, out, old, new, strats)
            continue
        seen.add('realloc')
        R.check('operation', w, isnull(old, p.facts) is False, 'the system realloc is given a zero-byte allocation')
        dr, rg = ([e for e in p.calls() if e.fn == x] for x in (DEREG, REG))
        other = [e for e in p.calls() if e.fn in (ALLOC, FREE, COPY)]
        tr = p.trace
        ok = len(rl) == 1 and rl[0].args == (cur, new) and not other
        R.check('steps', w, ok, f"realloc({[[pp(a) for a in e.args] for e in rl]}), {[short(e) for e in other]}")
        if not R.check('record', w, len(dr) == 1 and dr[0].args == (cur,) and len(rg) == 1, f"deregisters {[[pp(a) for a in e.args] for e in dr]}, registers {len(rg)} records"):
            continue
        R.check('record', w, tr.index(dr[0]) < tr.index(rl[0]) < tr.index(rg[0]), 'the old address is still registered when the system may reuse it')
        n = isnull(rl[0].ret, p.facts)
        objs = [o for o in strats if S.changed(p) and any(l[1] == o or l[1] == ('deref', o) for l in S.changed(p))]
        if n is not False:
            seen.add('failed')
            R.check('failure', w, p.kind == 'throw' and n is True, 'a failed realloc is handed out')
            rec = rg[0].args[1]
            f = recfields(rec)
            whole = rec == dr[0].ret or contains(rec, dr[0].ret)
            same = f.get('ptr') == cur and f.get('size') == old and f.get('strategy') in strats
            R.check('failure', w, rg[0].args[0] == cur and (whole or same), f"after a failure registers {pp(rec)[:160]}")
            R.check('failure', w, not S.changed(p), 'a failure changes the statistics')
            continue
        R.check('failure', w, p.kind == 'return', f"throws after the block was moved: {desc(p)}")
        f = recfields(rg[0].args[1])
        R.check('record', w, rg[0].args[0] == rl[0].ret and f.get('ptr') == rl[0].ret and f.get('size') == new and f.get('strategy') in strats, f"registers {pp(rg[0].args[1])[:200]} at {pp(rg[0].args[0])}")
        R.check('steps', w, p.get(('deref', out)) == rl[0].ret, f"hands out {pp(p.get(('deref', out)))}")
        if R.check('record', w, len(objs) == 1, 'the size in use does not follow the reallocation'):
            c, h, k = S.locs(objs[0])
            want = add(('init', c), sub(new, old))
            R.check('record', w, p.get(c) == want, f"size in use becomes {pp(p.get(c))}")
            R.check('record', w, p.get(k) == ('init', k), f"number of allocations becomes {pp(p.get(k))}")
            why = maxed(p, ('init', h), want, p.get(h), 'watermark')
            R.check('record', w, why is None, why or '')
    R.expect(seen >= {'realloc', 'failed'} or any(not o['ok'] for o in R.obl), f"{fn['q']}: only {sorted(seen)} seen")


def move(C, fn):
    R = C.R
    w = site(fn)
    ptr = param(fn, 'void *')[0]
    given = param(fn, AL)[0]
    seen = set()
    for p in C.paths(fn, opaque=OP, throws=throwing('umpire::runtime_error', ALLOC, COPY)):
        recs = finds(p, ptr)
        if not R.check('move', w, bool(recs), 'no record is looked up') or orphan(p, recs):
            continue
        ef = effects(p)
        al, fr, cp = ([e for e in ef if e.fn == x] for x in (ALLOC, FREE, COPY))
        same = [tv for a, tv in p.facts.items() if a[0] == '==' and any(x in [fld(r, 'strategy') for r in recs] for x in a[1:]) and contains(a, given)]
        if p.kind == 'return' and not ef:
            seen.add('same')
            R.check('move', w, p.val == ptr and True in same, f"nothing is moved: {desc(p)}")
            continue
        if p.kind == 'throw' and not ef:
            R.check('base', w, any(decide(EQ(fld(r, 'ptr'), ptr), p.facts) is False for r in recs), f"refused: {desc(p)}")
            continue
        R.check('base', w, any(decide(EQ(fld(r, 'ptr'), ptr), p.facts) is True for r in recs), f"an offset address is moved: {desc(p)}")
        if not R.check('move', w, len(al) == 1 and any(al[0].args == (fld(r, 'size'),) for r in recs) and strat_of_param(handle(p, al[0]), given), f"obtains {[[pp(a) for a in e.args] for e in al]}"):
            continue
        if al[0].threw:
            R.check('failure', w, p.kind == 'throw' and not cp and not fr, 'continues after a failed allocation')
            continue
        if any(e.threw for e in cp):
            seen.add('failed')
            R.check('failure', w, p.kind == 'throw' and len(fr) == 1 and fr[0].args == (al[0].ret,) and strat_of_param(handle(p, fr[0]), given), f"after a failed copy releases {[[pp(a) for a in e.args] for e in fr]}")
            continue
        seen.add('moved')
        ok = len(cp) == 1 and copyargs(cp[0])[:2] == (al[0].ret, ptr) and (copyargs(cp[0])[2] == ZERO or any(copyargs(cp[0])[2] == fld(r, 'size') for r in recs))
        R.check('move', w, ok, f"copies {[[pp(a) for a in e.args] for e in cp]}")
        tr = p.trace
        ok = len(fr) == 1 and fr[0].args == (ptr,) and handle(p, fr[0]) in [fld(r, 'strategy') for r in recs] and cp and tr.index(cp[0]) < tr.index(fr[0])
        R.check('move', w, ok, f"releases {[[pp(a) for a in e.args] for e in fr]}")
        R.check('move', w, p.kind == 'return' and p.val == al[0].ret, f"hands out {pp(p.val)}")
    R.expect(seen >= {'same', 'moved', 'failed'} or any(not o['ok'] for o in R.obl), f"{fn['q']}: only {sorted(seen)} seen")
