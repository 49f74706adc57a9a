from common import *

TECHNIQUE = ("lock-set dataflow over every path of the registry's public operations: each access to the registry's shared state is collected with the locks held there; "
             "the lock must be the same everywhere, be taken once per operation, cover lookup and change together, and be given back on every exit")
ASSUMPTIONS = ["std::mutex and the standard lock holders behave as specified",
               "iteration, printing and the size query are not among the operations documented as concurrent",
               "an error path's exception object construction does not touch the registry"]

OPS = (('insert', 2), ('find', 1), ('findRecord', 1), ('remove', 1), ('contains', 1), ('clear', 0))


def shared(loc):
    """does the location belong to the registry rather than to the running call?"""
    while True:
        if loc[0] in ('fld', 'elem'):
            loc = loc[1]
        elif loc[0] in ('init', 'addr', 'deref'):
            loc = loc[1]
        elif loc[0] in ('this', 'ret', 'loopv'):
            return True
        else:
            return False


def run(C):
    R = C.R
    R.rule('guarded', 'every use of the ordered array, the block pools and the registry state happens with the registry lock held')
    R.rule('atomic', 'the lock is taken once and not given back between the first and the last use of shared state')
    R.rule('no-self-deadlock', 'the lock is not requested while already held')
    R.rule('released', 'no lock is still held when the operation returns or throws')
    locks = set()
    for name, n in OPS:
        for fn in C.fns(AM + '::' + name, n):
            uses = 0
            for p in C.paths(fn, opaque=POOL, track_reads=True, throws=lambda e, f: f in POOL):
                w = site(fn)
                held_from = []
                acc = []
                for e in p.events():
                    if e.kind == 'lock':
                        R.check('no-self-deadlock', site(fn, e), e.val not in e.locks, f"{pp(e.val)} requested while it is held: {desc(p)}")
                    if e.kind == 'call' and (e.fn.startswith('judy_') or e.fn in POOL):
                        acc.append((f"{e.fn}", e.file, e.line, e.locks))
                    if e.kind == 'write' and shared(e.loc):
                        acc.append((f"write of {pp(e.loc)}", e.file, e.line, e.locks))
                for r in p.reads:
                    if shared(r[0]) and 'mutex' not in pp(r[0]):
                        acc.append((f"read of {pp(r[0])}", r[2], r[1], r[3]))
                uses += len(acc)
                for what, f, ln, lk in acc:
                    R.check('guarded', f"{f}:{ln} {fn['q']}", bool(lk), f"{what[:160]} without the registry lock")
                    if lk:
                        held_from.append(lk[0])
                locks |= set(held_from)
                nl = [e for e in p.events(kind='lock')]
                R.check('atomic', w, len(nl) <= 1, f"the lock is taken {len(nl)} times in one operation ({', '.join(str(e.line) for e in nl)}); another thread can get in between")
                R.check('released', w, not p.locks, f"{[pp(x) for x in p.locks]} still held on {p.kind}")
            R.expect(uses, f"{fn['q']} uses no shared state")
    R.expect(locks, 'no registry lock found')
    R.check('guarded', AM, len(locks) == 1, f"operations use different locks: {[pp(x) for x in locks]}")
    for l in locks:
        R.check('guarded', AM, l[0] == 'fld' and l[1] == ('this',), f"{pp(l)} does not belong to the registry")
