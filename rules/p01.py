from common import *

TECHNIQUE = ("trace-partitioned abstract interpretation of every lookup entry point down to the ordered-array primitives; the cursor protocol is a "
             "typestate check on each path and the containment test is decided over every ordering of base, size and queried address")
ASSUMPTIONS = ["the ordered array's primitives behave as documented in judy.h (judy_strt: first key at or after; judy_prv: predecessor; judy_slot: exact)",
               "tracked blocks under different base addresses do not overlap (the allocator resources guarantee it)",
               "base+size does not wrap around the address space"]

# base <= address: the nearest entry is at or before it
GRID = [(b, s, p) for b in (2,) for s in range(0, 5) for p in range(2, 9)]


def lookup_rule(C, fn, kind):
    """kind: 'null' returns null when absent, 'throw' throws, 'bool' returns the truth"""
    R = C.R
    q = ('param', fn['params'][0]['n'])
    ps = C.paths(fn, opaque=QUIET)
    backs = {p.val for f in C.fns(AM + '::RecordList::back') for p in C.paths(f)}
    R.need(len(backs) == 1, 'RecordList::back has no single value')
    back = backs.pop()
    found = absent = 0
    for p in ps:
        R.expect(judy(p), f"{fn['q']} performs no search")
        w = site(fn, p.line)
        if kind == 'throw':
            isfound = p.kind == 'return'
        else:
            if not R.check('no-throw', w, p.kind == 'return', 'lookup that must report absence ends in an exception: ' + desc(p)):
                continue
            isfound = truthy(p.val, p.facts)
            if isfound is None:
                v = p.val
                isfound = True if v[0] in ('addr', 'lin') else None
            R.need(isfound is not None, f"cannot tell whether {fn['q']} found something: {pp(p.val)}")
        ev, why = nearest(p, q)
        empty = ev is not None and (isnull(ev.ret, p.facts) is True or isnull(init_deref(ev.ret), p.facts) is True)
        if ev is None:
            R.check('nearest-entry', w, False, f"{why}; path: {desc(p)}")
            continue
        R.check('nearest-entry', w, True)
        rec = rebase(back, init_deref(ev.ret))
        base, size = ('init', ('fld', rec, 'umpire::util::AllocationRecord::ptr')), ('init', ('fld', rec, 'umpire::util::AllocationRecord::size'))
        if isfound:
            found += 1
            if kind != 'bool':
                R.check('top-record', w, p.val == rec, f"returns {pp(p.val)} instead of the most recent record of the nearest entry; path: {desc(p)}")
            R.check('entry-exists', w, not empty, 'record returned although the nearest entry does not exist: ' + desc(p))
        else:
            absent += 1
            if kind == 'throw':
                R.check('absence-reported', w, exc_type(p) == 'umpire::unknown_pointer_error', f"absent address ends in {exc_type(p)}")
            if empty:
                R.check('containment', w, True)
                continue
        bad = []
        n = 0
        for b, s, a in GRID:
            env = {base: b, size: s, q: a}
            if not consistent(p, env):
                continue
            n += 1
            inside = a < b + s or a == b
            if inside != isfound:
                bad.append((b, s, a))
        R.check('containment', w, not bad,
                (f"address {'found' if isfound else 'not found'} for base {bad[0][0]}, size {bad[0][1]}, address {bad[0][2]}; path: {desc(p)}" if bad else ''))
    R.expect(found and (absent or kind == 'bool'), f"{fn['q']}: found/absent outcomes missing")


def run(C):
    C.R.rule('nearest-entry', 'the record examined is the one at the queried address, else the closest one below it')
    C.R.rule('top-record', 'the record returned is the most recently registered one of that entry')
    C.R.rule('containment', 'found exactly when base <= address < base+size, or address == base (zero-sized)')
    C.R.rule('absence-reported', 'the throwing lookup reports an unknown address as unknown_pointer_error and nothing else')
    for fn in C.fns(AM + '::findRecord', 1):
        lookup_rule(C, fn, 'null')
    for fn in C.fns(AM + '::find', 1):
        lookup_rule(C, fn, 'throw')
    lookup_rule(C, C.fn(AM + '::contains', 1), 'bool')
    # the manager's queries go to the registry with the caller's address
    RM = 'umpire::ResourceManager'
    for name, callee in (('findAllocationRecord', 'find'), ('hasAllocator', 'contains'), ('getAllocator', 'find')):
        for fn in C.fns(RM + '::' + name, 1):
            if fn['params'][0]['t'] != 'void *':
                continue
            q = ('param', fn['params'][0]['n'])
            for p in C.paths(fn, opaque=(AM + '::find', AM + '::contains', AM + '::findRecord')):
                es = [e for e in p.calls('find', 'contains', 'findRecord') if e.fn.startswith(AM)]
                C.R.check('manager-queries-registry', site(fn), any(e.args[0] == q for e in es), f"{fn['q']} answers without looking the address up")
