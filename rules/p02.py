from common import *

TECHNIQUE = ("trace-partitioned abstract interpretation of registration and removal down to the ordered-array and block-pool primitives: "
             "the final abstract state of every path is compared with the list-push / list-pop specification, obligation by obligation")
ASSUMPTIONS = ["the ordered array's primitives behave as documented in judy.h", "the block pool hands out distinct blocks (P07)",
               "an entry's list is non-empty between operations (established by the obligations below)"]

REC = 'umpire::util::AllocationRecord'


class Shape:
    """where the list keeps its newest block, its length, and a block its record and predecessor"""

    def __init__(self, C):
        L = AM + '::RecordList'
        back = {p.val for f in C.fns(L + '::back') for p in C.paths(f)}
        C.R.need(len(back) == 1, 'no single newest record')
        b = back.pop()
        C.R.need(b[0] == 'addr' and b[1][0] == 'fld' and b[1][1][0] == 'init', 'newest record is not in a block reached from the list')
        self.rec = b[1][2]
        self.tail = b[1][1][1][2]
        self.len = C.accloc(L + '::size')[2]
        inc = [f for f in C.fns(L + '::ConstIterator::operator++') if not f['params']][0]
        nxt = set()
        for p in C.paths(inc):
            for e in p.events(kind='write'):
                if e.val[0] == 'init' and e.val[1][0] == 'fld':
                    nxt.add(e.val[1][2])
        C.R.need(len(nxt) == 1, 'no single predecessor link')
        self.prev = nxt.pop()
        self.count = C.accloc(AM + '::size')
        self.mcount = C.accloc(MM + '::size')


def inner_writes(p):
    return [e for e in p.events(kind='write')]


def drop(C, S):
    """a list that is destroyed gives back every block it has, each once and after destroying it"""
    R = C.R
    R.rule('drop', 'a list of records that is dropped destroys and gives back every block it has, each once, and reads none of them afterwards')
    fn = C.fn(AM + '::RecordList::~RecordList', 0)
    tail, length = ('fld', ('this',), S.tail), ('fld', ('this',), S.len)
    walked = 0
    for p in C.paths(fn, opaque=POOL, track_reads=True):
        w = site(fn)
        if not R.check('drop', w, p.kind == 'return', 'dropping a list can end in an exception: ' + desc(p)):
            continue
        loops = [e for e in p.trace if e.kind == 'loop' and any(list(i.calls('deallocate')) for i in e.iters)]
        R.check('drop', w, not list(p.calls('deallocate', deep=False)), 'a block is given back outside the walk over the list')
        if not loops:
            R.check('drop', w, isnull(('init', tail), p.facts) is True or isnull(('init', length), p.facts) is True, 'a list that has blocks is dropped without giving them back: ' + desc(p))
            continue
        if not R.check('drop', w, len(loops) == 1, 'the blocks are walked more than once'):
            continue
        lp = loops[0]
        walked += 1
        R.check('drop', w, any(tv and a[0] == '==' and ZERO in a[1:] and any(t[0] == 'loopv' and t[1] == lp.extra['id'] for t in a[1:]) for a, tv in p.facts.items()),
                'the walk may end before the last block: ' + desc(p))
        for i in lp.iters:
            deal = [e for e in i.calls('deallocate', deep=False)]
            if not R.check('drop', site(fn, lp), len(deal) == 1, f"one step of the walk gives back {len(deal)} blocks"):
                continue
            B = deal[0].args[0]
            if not R.check('drop', site(fn, deal[0]), B[0] == 'loopv', f"the walk gives back {pp(B)} instead of the block it is at"):
                continue
            cur = B[2]
            R.check('drop', site(fn, lp), lp.extra['entry'].get(cur, ('init', cur)) == ('init', tail), f"the walk starts at {pp(lp.extra['entry'].get(cur, ('init', cur)))} instead of the newest block")
            R.check('drop', site(fn, deal[0]), i.mem.get(cur) == ('init', ('fld', B, S.prev)), f"the walk goes on at {pp(i.mem.get(cur, B))}")
            at = i.trace.index(deal[0])
            R.check('drop', site(fn, deal[0]), sum(e.kind == 'call' and '~' in e.fn and e.obj == B for e in i.trace[:at]) == 1, 'the block is not destroyed before it is given back')
            bad = [r for r in i.reads if len(r) > 5 and r[5] > at and r[0][0] == 'fld' and r[0][1] == B]
            R.check('drop', site(fn, deal[0]), not bad, f"{bad and pp(bad[0][0])} read at line {bad and bad[0][1]} after the block was given back")
    R.expect(walked, 'no list with blocks is ever dropped')


def run(C):
    R = C.R
    R.rule('push', 'registering adds exactly one block holding the given record in front of what the address already had')
    R.rule('pop', 'removal returns and unlinks exactly the newest record of exactly that address')
    R.rule('count', 'the reported number of records changes by exactly one per registration and removal')
    R.rule('absent', 'removing an address that is not registered throws and changes nothing')
    R.rule('use-after-release', 'a block is not read after it was given back to its pool')
    S = Shape(C)
    # ---- registration
    fn = C.fn(AM + '::insert', 2)
    key, recv = ('param', fn['params'][0]['n']), ('param', fn['params'][1]['n'])
    new = old = 0
    for p in C.paths(fn, opaque=POOL):
        w = site(fn)
        js = judy(p)
        if not R.check('push', w, p.kind == 'return', 'registration can end in an exception: ' + desc(p)):
            continue
        cells = [e for e in js if short(e) == 'judy_cell'] or [e for e in js if short(e) == 'judy_slot' and isnull(e.ret, p.facts) is False][-1:]
        if not R.check('push', w, len(cells) == 1 and keyarg(cells[0]) == key, f"the entry created is not the one of the given address: {[pp(keyarg(e)) for e in cells]}"):
            continue
        R.check('push', w, not any(short(e) == 'judy_del' for e in js), 'registration deletes an entry')
        cell = cells[0].ret
        slot = ('deref', cell)
        ex = isnull(init_deref(cell), p.facts)
        R.expect(ex is not None, 'registration does not distinguish new from existing addresses')
        if ex is False:
            old += 1
            L = init_deref(cell)
            R.check('push', w, p.get(slot) == L, f"the records already registered for the address are replaced by {pp(p.get(slot))}")
            otail, olen = ('init', ('fld', L, S.tail)), ('init', ('fld', L, S.len))
        else:
            new += 1
            L = p.get(slot)
            otail, olen = ZERO, ZERO
            R.check('push', w, L[0] == 'ret' and L[2].endswith('allocate'), f"a new address gets {pp(L)} instead of a fresh list")
        T = p.get(('fld', L, S.tail))
        allocs = [e.ret for e in p.calls('allocate') if e.fn == FMP + '::allocate']
        R.check('push', w, T in allocs and T != L, f"newest block is {pp(T)}, not a fresh one; path: {desc(p)}")
        R.check('push', w, p.get(('fld', T, S.rec)) == recv, f"newest block holds {pp(p.get(('fld', T, S.rec)))[:120]} instead of the given record")
        R.check('push', w, p.get(('fld', T, S.prev)) == otail, f"newest block is followed by {pp(p.get(('fld', T, S.prev)))} instead of the earlier records")
        R.check('push', w, p.get(('fld', L, S.len)) == add(olen, ONE), f"list length becomes {pp(p.get(('fld', L, S.len)))}")
        R.check('count', w, p.delta(S.count) == ONE, f"record count changes by {pp(p.delta(S.count))}")
        mc = rebase(S.mcount, ('addr', ('fld', ('this',), AM + '::m_map')))
        R.check('count', w, p.delta(mc) == (ZERO if ex is False else ONE), f"address count changes by {pp(p.delta(mc))}")
        R.check('push', w, len(allocs) == (1 if ex is False else 2) and not list(p.calls('deallocate')), 'blocks taken or given back do not match one registration')
    R.expect(new and old, 'registration of a new and of an existing address not both seen')
    # ---- removal
    fn = C.fn(AM + '::remove', 1)
    key = ('param', fn['params'][0]['n'])
    last = more = gone = 0
    for p in C.paths(fn, opaque=POOL, track_reads=True):
        w = site(fn)
        js = judy(p, deep=False)
        slots = [e for e in js if short(e) in ('judy_slot',)]
        if not R.check('pop', w, slots and all(keyarg(e) == key for e in slots) and not any(short(e) in ('judy_cell', 'judy_strt', 'judy_prv', 'judy_nxt') for e in js),
                       f"removal does not look up exactly the given address ({[short(e) for e in js]})"):
            continue
        cell = slots[-1].ret
        L = init_deref(cell)
        have = isnull(cell, p.facts) is False and isnull(L, p.facts) is not True
        if isnull(key, p.facts) is True:
            continue            # nothing is ever registered at the null address
        dels = [e for e in js if short(e) == 'judy_del']
        deal = [e for e in p.calls('deallocate', deep=False)]
        if p.kind == 'throw':
            if have and decide(EQ(('init', ('fld', L, S.len)), ZERO), p.facts) is not True:
                R.check('pop', w, False, f"removal of a registered address throws {exc_type(p)}: {desc(p)}")
                continue
            gone += 1
            R.check('absent', w, p.delta(S.count) == ZERO and not dels and not deal, 'a failing removal changes the registry')
            R.check('absent', w, bool(exc_type(p)) and exc_type(p).startswith('umpire::'), f"absent address reported as {exc_type(p)}")
            continue
        if not R.check('absent', w, have, 'removal of an unregistered address succeeds: ' + desc(p)):
            continue
        T, n = ('init', ('fld', L, S.tail)), ('init', ('fld', L, S.len))
        R.check('pop', w, p.val == ('init', ('fld', T, S.rec)), f"removal returns {pp(p.val)} instead of the newest record")
        if not any(e.args[0] == L for e in deal):           # with its last record the list goes as well
            R.check('pop', w, p.get(('fld', L, S.tail)) == ('init', ('fld', T, S.prev)), f"after removal the newest block is {pp(p.get(('fld', L, S.tail)))}")
            R.check('pop', w, p.get(('fld', L, S.len)) == sub(n, ONE), f"list length becomes {pp(p.get(('fld', L, S.len)))}")
        R.check('count', w, p.delta(S.count) == INT(-1), f"record count changes by {pp(p.delta(S.count))}")
        R.check('pop', w, sum(e.args[0] == T for e in deal) == 1, 'the removed block is not given back exactly once')
        for e in deal:
            if e.args[0] == T:
                R.check('pop', site(fn, e), any(x.kind == 'call' and '~' in x.fn and x.obj == T for x in p.trace[:p.trace.index(e)]), 'the removed block is not destroyed before it is given back')
        d = decide(EQ(sub(n, ONE), ZERO), p.facts)
        d2 = decide(EQ(n, ONE), p.facts)
        d = d if d is not None else d2
        if d is None:
            d = decide(EQ(('init', ('fld', T, S.prev)), ZERO), p.facts)
        if not R.check('pop', w, d is not None, 'removal does not distinguish the last record of an address: ' + desc(p)):
            continue
        mc = rebase(S.mcount, ('addr', ('fld', ('this',), AM + '::m_map')))
        if d:
            last += 1
            R.check('pop', w, len(dels) == 1 and sum(e.args[0] == L for e in deal) == 1, 'the last record of an address is removed but the address stays registered')
            R.check('count', w, p.delta(mc) == INT(-1), f"address count changes by {pp(p.delta(mc))} with the last record")
        else:
            more += 1
            R.check('pop', w, not dels and not any(e.args[0] == L for e in deal), 'other records of the address are dropped with the newest one')
            R.check('count', w, p.delta(mc) == ZERO, f"address count changes by {pp(p.delta(mc))} although records remain")
        for e in deal:
            i = p.trace.index(e)
            bad = [r for r in p.reads if len(r) > 5 and r[5] > i and r[0][0] == 'fld' and r[0][1] == e.args[0]]
            R.check('use-after-release', w, not bad, f"{bad and pp(bad[0][0])} read at line {bad and bad[0][1]} after the block was released")
    R.expect(last and more and gone, 'removal outcomes not all seen')
    # ---- clear
    fn = C.fn(AM + '::clear', 0)
    for p in C.paths(fn, opaque=POOL):
        w = site(fn)
        R.check('count', w, p.get(S.count) == ZERO, f"clear leaves a record count of {pp(p.get(S.count))}")
        mc = rebase(S.mcount, ('addr', ('fld', ('this',), AM + '::m_map')))
        ok, zero = emptied(p, mc)
        R.check('count', w, zero, f"clear leaves an address count of {pp(p.get(mc))}")
        R.check('clear', w, ok, 'clear removes no entries')
    drop(C, S)
    C.R.rule('clear', 'clear removes entries until none is left and reports zero records')
