from common import *

TECHNIQUE = ("trace-partitioned abstract interpretation of every instantiated member of the address map down to the ordered-array and value-pool primitives; "
             "each path's returned position, flag, stored value and entry count are compared with the ordered-map specification")
ASSUMPTIONS = ["the ordered array's primitives behave as documented in judy.h", "the value pool hands out distinct blocks (P07)", "the null address is not used as a key"]


def parts(v):
    """(first, second) of a returned position, or None"""
    for t in subterms(v):
        pass

    def fld(v, suffix):
        if v[0] == 'objv':
            for k, x in v[2]:
                if k.endswith(suffix):
                    return x
        return None
    pr = fld(v, '::m_pair')
    if pr is None:
        return None
    a, b = fld(pr, '::first'), fld(pr, '::second')
    return None if a is None or b is None else (a, b)


def run(C):
    R = C.R
    R.rule('insert', 'an entry is added exactly when the address had none; the flag says so; an existing value is never replaced')
    R.rule('find', 'the exact lookup yields the entry of that address or end')
    R.rule('find-or-before', 'the nearest lookup yields the entry of that address, else the one before it, else a position without value')
    R.rule('erase', 'erasing removes exactly that entry, destroys and returns its value once, and throws for a missing address')
    R.rule('count', 'the entry count changes exactly with the entries')
    R.rule('key-width', 'every keyed operation hands the array the whole address')
    size = C.accloc(MM + '::size')

    def keyed(p, w):
        for e in judy(p):
            if short(e) in ('judy_slot', 'judy_cell', 'judy_strt', 'judy_key') and e.args[2] != ZERO:
                R.check('key-width', w, e.args[2] == INT(8), f"{short(e)} uses {pp(e.args[2])} bytes of the address")

    # ---- insert, every overload
    n = 0
    for fn in C.fns(MM + '::insert'):
        pairform = len(fn['params']) == 1
        new = old = 0
        for p in C.paths(fn, opaque=POOL):
            w = site(fn)
            keyed(p, w)
            cells = [e for e in judy(p) if short(e) == 'judy_cell']
            if not R.check('insert', w, p.kind == 'return' and len(cells) == 1 and not any(short(e) == 'judy_del' for e in judy(p)), f"insert does not create exactly one entry: {desc(p)}"):
                continue
            k = keyarg(cells[0])
            want = ('param', fn['params'][0]['n'])
            okk = k == want if not pairform else contains(k, want) and 'first' in repr(k)
            R.check('insert', w, okk, f"entry created for {pp(k)}")
            cell = cells[0].ret
            ex = isnull(init_deref(cell), p.facts)
            R.expect(ex is not None, f"{fn['q']} does not distinguish existing entries")
            flag = None
            it = None
            if p.val[0] == 'objv':
                d = dict((a.split('::')[-1], b) for a, b in p.val[2])
                flag, it = d.get('second'), d.get('first')
            R.need(flag is not None and it is not None, f"{fn['q']} result not understood")
            tv = truthy(flag, p.facts)
            cur = p.get(('deref', cell))
            if ex is False:
                old += 1
                R.check('insert', w, cur == init_deref(cell), f"existing value replaced by {pp(cur)}")
                R.check('count', w, p.delta(size) == ZERO and not list(p.calls('allocate')), f"count changes by {pp(p.delta(size))} for an existing address")
                R.check('insert', w, tv is False, f"flag for an existing address is {pp(flag)}")
            else:
                new += 1
                al = [e.ret for e in p.calls('allocate')]
                R.check('insert', w, cur in al, f"new entry's value is {pp(cur)}")
                R.check('count', w, p.delta(size) == ONE, f"count changes by {pp(p.delta(size))} for a new address")
                R.check('insert', w, tv is True, f"flag for a new address is {pp(flag)}")
            pr = parts(it)
            R.need(pr is not None, f"{fn['q']} position not understood: {pp(it)[:200]}")
            R.check('insert', w, pr[0] == k and pr[1] == cur, f"returned position is ({pp(pr[0])}, {pp(pr[1])})")
        R.expect(new and old, f"{fn['q']}: new and existing outcomes not both seen")
        n += 1
    R.need(n >= 3, 'fewer insert overloads than confirmed')
    # ---- exact lookup
    for fn in C.fns(MM + '::find'):
        q = ('param', fn['params'][0]['n'])
        hit = miss = 0
        for p in C.paths(fn, opaque=POOL):
            w = site(fn)
            keyed(p, w)
            js = judy(p)
            if not R.check('find', w, js and all(short(e) == 'judy_slot' and keyarg(e) == q for e in js), f"lookup is not exact: {[short(e) for e in js]}"):
                continue
            cell = js[-1].ret
            pr = parts(p.val)
            R.need(pr is not None, f"{fn['q']} position not understood")
            nl = isnull(cell, p.facts)
            R.expect(nl is not None, f"{fn['q']} does not test the lookup")
            if nl:
                miss += 1
                R.check('find', w, pr == (ZERO, ZERO), f"missing address yields ({pp(pr[0])}, {pp(pr[1])}) instead of end")
            else:
                hit += 1
                R.check('find', w, pr == (q, init_deref(cell)), f"present address yields ({pp(pr[0])}, {pp(pr[1])})")
        R.expect(hit and miss, f"{fn['q']}: outcomes not both seen")
    # ---- nearest lookup
    for fn in C.fns(MM + '::findOrBefore'):
        q = ('param', fn['params'][0]['n'])
        for p in C.paths(fn, opaque=POOL):
            w = site(fn)
            keyed(p, w)
            ev, why = nearest(p, q)
            if not R.check('find-or-before', w, ev is not None, f"{why}; path: {desc(p)}"):
                continue
            pr = parts(p.val)
            R.need(pr is not None, f"{fn['q']} position not understood")
            if isnull(ev.ret, p.facts) is True:
                R.check('find-or-before', w, pr[1] == ZERO, f"no entry at or before the address, but the value is {pp(pr[1])}")
            else:
                R.check('find-or-before', w, pr[1] == init_deref(ev.ret), f"value is {pp(pr[1])}, not the nearest entry's")
                if why == 'exact':
                    R.check('find-or-before', w, decide(EQ(pr[0], q), p.facts) is True, f"key reported as {pp(pr[0])}")
                else:
                    ks = [('out', e.ret[1], 1) for e in judy(p) if short(e) == 'judy_key' and p.trace.index(e) > p.trace.index(ev)]
                    R.check('find-or-before', w, pr[0] in ks, f"key reported as {pp(pr[0])}, not the nearest entry's")
    # ---- erase
    for fn in C.fns(MM + '::erase', 1) + C.fns(MM + '::removeLast', 0):
        rl = fn['q'].endswith('removeLast')
        ok = thr = 0
        for p in C.paths(fn, opaque=POOL, track_reads=True):
            w = site(fn)
            keyed(p, w)
            js = judy(p, deep=False)
            dels = [e for e in js if short(e) == 'judy_del']
            if p.kind == 'throw':
                thr += 1
                R.check('erase', w, not dels and p.delta(size) == ZERO and not list(p.calls('deallocate')), 'a failing erase changes the map')
                sl = [e for e in js if short(e) == 'judy_slot']
                R.check('erase', w, sl and isnull(sl[-1].ret, p.facts) is True, 'erase throws although the entry exists: ' + desc(p))
                continue
            ok += 1
            if rl:
                last = ('init', ('fld', ('this',), MM + '::m_last'))
                v = init_deref(last)
            else:
                sl = [e for e in js if short(e) == 'judy_slot']
                if not R.check('erase', w, sl and isnull(sl[-1].ret, p.facts) is False, 'erase does not establish that the entry exists: ' + desc(p)):
                    continue
                k = keyarg(sl[-1])
                want = ('param', fn['params'][0]['n'])
                R.check('erase', w, k == want or contains(k, want) and 'first' in repr(k), f"erase looks up {pp(k)}")
                v = init_deref(sl[-1].ret)
                if not R.check('erase', w, js.index(dels[0]) == js.index(sl[-1]) + 1 if dels else False, 'the entry deleted is not the one just looked up'):
                    continue
            de = [e for e in p.calls('deallocate', deep=False) if e.args[0] == v]
            R.check('erase', w, len(dels) == 1, f"{len(dels)} entries deleted")
            R.check('erase', w, len(de) == 1, 'the value is not given back exactly once')
            for e in de:
                at = p.trace.index(e)
                late = [r for r in p.reads if len(r) > 5 and r[5] > at and r[0][0] == 'fld' and r[0][1] == v]
                late += [x for x in p.trace[at:] if x.kind == 'call' and '~' in x.fn and x.obj == v]
                R.check('erase', site(fn, e), not late, 'the value is destroyed or read after its storage was given back')
            R.check('count', w, p.delta(size) == INT(-1), f"count changes by {pp(p.delta(size))}")
        R.expect(ok and (thr or rl), f"{fn['q']}: outcomes missing")
    # ---- clear
    for fn in C.fns(MM + '::clear', 0):
        for p in C.paths(fn, opaque=POOL):
            w = site(fn)
            ok, zero = emptied(p, size)
            R.check('count', w, zero, f"clear leaves a count of {pp(p.get(size))}")
            R.check('erase', w, ok, 'clear deletes no entries')
            strt = [e for e in judy(p) if short(e) == 'judy_strt']
            R.check('erase', w, strt and all(keyarg(e) == ZERO or e.args[2] == ZERO for e in strt), 'clear does not start from the first entry')
    # ---- positions compare equal exactly for the same address of the same map
    for fn in C.fns(MM + '::Iterator_::operator==') + C.fns(MM + '::Iterator_::operator!='):
        neg = fn['q'].endswith('!=')
        o = ('param', fn['params'][0]['n'])

        def m(b):
            return ('init', ('fld', b, MM + '::Iterator_::m_map'))

        def f(b):
            return ('init', ('fld', ('addr', ('fld', b, MM + '::Iterator_::m_pair')), 'std::pair::first'))
        rows = []
        for a in (1, 2):
            for b in (1, 2):
                rows.append(({m(('this',)): 1, m(o): a, f(('this',)): 1, f(o): b}, (a == 1 and b == 1) != neg))
        truth_table(C, 'position-equality', fn, rows)
    R.rule('position-equality', 'two positions are equal exactly when they denote the same address of the same map')
