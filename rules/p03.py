from common import *
import p02

TECHNIQUE = ("trace-partitioned abstract interpretation of the record iterators (registry, per-address list, address map) with a typestate rule on the shared array cursor; "
             "iterator equality decided over all combinations of the compared components")
ASSUMPTIONS = ["the ordered array's primitives behave as documented in judy.h (judy_nxt: successor of the entry last positioned on)",
               "the registry is not modified during the iteration", "the null address is not used as a key"]


def run(C):
    R = C.R
    S = p02.Shape(C)
    R.rule('seek-before-step', "a map position steps to the successor of its own address, whatever else used the map in between")
    R.rule('begin', 'iteration starts at the first entry, at its newest record')
    R.rule('step', "a step moves to the next older record of the address, or to the newest record of the next address, or to the end")
    R.rule('equality', 'positions are equal exactly when they denote the same record')
    R.rule('deref', 'dereferencing yields the record at the position and never reads past the end')
    IT = MM + '::Iterator_'
    # ---- map positions
    n = 0
    for fn in [f for f in C.fns(IT + '::operator++') if not f['params']]:
        n += 1
        first = ('fld', ('addr', ('fld', ('this',), IT + '::m_pair')), 'std::pair::first')
        second = ('fld', ('addr', ('fld', ('this',), IT + '::m_pair')), 'std::pair::second')
        end = step = 0
        for p in C.paths(fn):
            js = judy(p)
            w = site(fn)
            if isnull(('init', first), p.facts) is True:
                continue        # incrementing the end position
            nx = [e for e in js if short(e) in ('judy_nxt',)]
            if not R.check('seek-before-step', w, len(nx) == 1, f"{len(nx)} steps forward"):
                continue
            i = js.index(nx[0])
            prev = [e for e in js[:i] if short(e) in ('judy_slot', 'judy_strt', 'judy_cell')]
            R.check('seek-before-step', w, prev and keyarg(prev[-1]) == ('init', first) and prev[-1].args[2] == INT(8),
                    'the step starts from wherever the array was last positioned, not from this position: ' + desc(p))
            nl = isnull(nx[0].ret, p.facts)
            R.expect(nl is not None, 'step does not test for the end')
            if nl:
                end += 1
                R.check('step', w, p.get(first) == ZERO, f"after the last entry the position has address {pp(p.get(first))}")
            else:
                step += 1
                ks = [('out', e.ret[1], 1) for e in js[i:] if short(e) == 'judy_key']
                R.check('step', w, p.get(first) in ks, f"address of the next position is {pp(p.get(first))}")
                R.check('step', w, p.get(second) == init_deref(nx[0].ret), f"value of the next position is {pp(p.get(second))}")
        R.expect(end and step, 'end and inner steps not both seen')
    R.need(n >= 2, 'fewer map iterators than confirmed')
    for fn in C.fns(MM + '::begin'):
        for p in C.paths(fn):
            js = judy(p)
            w = site(fn)
            st = [e for e in js if short(e) in ('judy_strt', 'judy_slot', 'judy_end', 'judy_nxt', 'judy_prv')]
            R.check('begin', w, len(st) == 1 and short(st[0]) == 'judy_strt' and (st[0].args[2] == ZERO or keyarg(st[0]) == ZERO), f"begin positions with {[short(e) for e in st]}")
    # ---- per-address list
    LI = AM + '::RecordList::ConstIterator'
    inc = [f for f in C.fns(LI + '::operator++') if not f['params']][0]
    cur = ('fld', ('this',), LI + '::m_curr')
    for p in C.paths(inc):
        w = site(inc)
        if p.kind == 'throw':
            R.check('deref', w, isnull(('init', cur), p.facts) is True, 'a step inside the list throws: ' + desc(p))
            continue
        R.check('deref', w, isnull(('init', cur), p.facts) is False, 'a step past the end of the list is not refused: ' + desc(p))
        R.check('step', w, p.get(cur) == ('init', ('fld', ('init', cur), S.prev)), f"list position moves to {pp(p.get(cur))}")
    for fn in C.fns(LI + '::operator->') + C.fns(LI + '::operator*'):
        for p in C.paths(fn):
            w = site(fn)
            if p.kind == 'throw':
                R.check('deref', w, isnull(('init', cur), p.facts) is True, 'dereferencing a record throws: ' + desc(p))
                continue
            R.check('deref', w, p.val == ('addr', ('fld', ('init', cur), S.rec)), f"dereferences to {pp(p.val)}")
            R.check('deref', w, isnull(('init', cur), p.facts) is False, 'the end position is dereferenced: ' + desc(p))

    def comps(cls, o):
        return cls

    def eqrows(a, b, neg):
        rows = []
        for x in (1, 2):
            for y in (1, 2):
                env = {a[0]: 1, b[0]: x, a[1]: 1, b[1]: y}
                rows.append((env, (x == 1 and y == 1) != neg))
        return rows
    for nm in ('operator==', 'operator!='):
        fn = C.fn(LI + '::' + nm, 1)
        o = ('param', fn['params'][0]['n'])
        g = lambda b, f: ('init', ('fld', b, LI + '::' + f))
        truth_table(C, 'equality', fn, eqrows((g(('this',), 'm_list'), g(('this',), 'm_curr')), (g(o, 'm_list'), g(o, 'm_curr')), nm.endswith('!=')))
    # ---- the registry's iterator
    CI = AM + '::ConstIterator'
    oi, ii, ie = (('fld', ('this',), CI + '::' + x) for x in ('m_outer_iter', 'm_inner_iter', 'm_inner_end'))
    inc = [f for f in C.fns(CI + '::operator++') if not f['params']][0]
    icur = ('fld', ('addr', ii), LI + '::m_curr')
    ilist = ('fld', ('addr', ii), LI + '::m_list')
    ofirst = ('fld', ('addr', ('fld', ('addr', oi), IT + '::m_pair')), 'std::pair::first')
    omap = ('fld', ('addr', oi), IT + '::m_map')
    ps = C.paths(inc, opaque=(IT + '::operator==', IT + '::operator!='), pure=(IT + '::operator==', IT + '::operator!='))
    ps = C.paths(inc)
    inside = nxt = 0
    for p in ps:
        w = site(inc)
        if p.kind == 'throw':
            R.check('step', w, isnull(('init', icur), p.facts) is True, 'a step of the registry iterator throws: ' + desc(p))
            continue
        steps = [e for e in judy(p) if short(e) == 'judy_nxt']
        nc = ('init', ('fld', ('init', icur), S.prev))
        if not steps:
            # stays within the address
            inside += 1
            R.check('step', w, final(p, ii, '::m_curr') == nc, f"next record of the address is {pp(final(p, ii, '::m_curr'))}")
            same = [a for a, tv in p.facts.items() if not tv and a[0] == '==']
            R.check('step', w, any(nc in a[1:] or ('init', ilist) in a[1:] for a in same), 'the end of an address is not tested: ' + desc(p))
        else:
            nxt += 1
            R.check('step', w, len(steps) == 1, 'an address is skipped')
            endtest = [a for a, tv in p.facts.items() if tv and a[0] == '==' and nc in a[1:]]
            R.check('step', w, bool(endtest), 'moves to the next address before the last record of this one: ' + desc(p))
            r = steps[0].ret
            if isnull(r, p.facts) is False:
                c = final(p, ii, '::m_curr')
                tail = ('init', ('fld', init_deref(r), S.tail))
                # the outer position is compared with the end: by address, or by map
                isend = [tv for a, tv in p.facts.items() if a[0] == '==' and any(x[0] == 'out' for x in a[1:]) ]
                if c == tail:
                    R.check('step', w, final(p, ie, '::m_list') == init_deref(r) and final(p, ie, '::m_curr') == ZERO, 'the end of the next address is not recorded')
                else:
                    R.check('step', w, True in isend and c == ZERO, f"the next address starts at {pp(c)} instead of its newest record")
            else:
                R.check('step', w, True)
    R.expect(inside and nxt, 'registry iterator steps not all seen')
    R.rule('postfix', 'the postfix step yields the position before the step')
    for cls in (LI, CI, IT):
        postfix(C, cls)
    for fn in C.fns(CI + '::operator*') + C.fns(CI + '::operator->'):
        for p in C.paths(fn):
            if p.kind == 'return':
                R.check('deref', site(fn), p.val == ('addr', ('fld', ('init', icur), S.rec)), f"dereferences to {pp(p.val)}")
    fn = C.fn(AM + '::begin', 0)
    for p in C.paths(fn):
        w = site(fn)
        st = [e for e in judy(p) if short(e) == 'judy_strt']
        R.check('begin', w, len(st) == 1, 'begin does not go to the first entry')
        ic = obj(p.val, '::m_inner_iter', '::m_curr')
        of = obj(p.val, '::m_outer_iter', '::m_pair', '::first')
        R.need(ic is not None, 'begin not understood')
        if isnull(of, p.facts) is False and isnull(st[0].ret, p.facts) is False:
            R.check('begin', w, ic == ('init', ('fld', init_deref(st[0].ret), S.tail)), f"begin is at {pp(ic)}")
            R.check('begin', w, obj(p.val, '::m_inner_end', '::m_curr') == ZERO, f"end of the first address is {pp(obj(p.val, '::m_inner_end', '::m_curr'))}")
    fn = C.fn(AM + '::end', 0)
    for p in C.paths(fn):
        w = site(fn)
        R.check('begin', w, obj(p.val, '::m_inner_iter', '::m_curr') == ZERO and obj(p.val, '::m_outer_iter', '::m_pair', '::first') == ZERO, 'end denotes a record')
    for nm in ('operator==', 'operator!='):
        fn = C.fn(CI + '::' + nm, 1)
        o = ('param', fn['params'][0]['n'])
        rows = []
        T = ('this',)

        def at(b, *fs):
            loc = None
            for f in fs:
                loc = ('fld', b if loc is None else ('addr', loc), f)
            return ('init', loc)
        keys = [(CI + '::m_outer_iter', IT + '::m_pair', 'std::pair::first'), (CI + '::m_inner_iter', LI + '::m_curr')]
        fixed = [(CI + '::m_outer_iter', IT + '::m_map'), (CI + '::m_inner_iter', LI + '::m_list')]
        for x in (1, 2):
            for y in (1, 2):
                env = {}
                for k, v in zip(keys, (x, y)):
                    env[at(T, *k)] = 1
                    env[at(o, *k)] = v
                env[at(T, *fixed[0])] = env[at(o, *fixed[0])] = 1
                env[at(T, *fixed[1])] = 1
                env[at(o, *fixed[1])] = 1 if x == 1 else 2
                if x == 2 and y == 1:
                    continue    # one block belongs to one address
                rows.append((env, (x == 1 and y == 1) != nm.endswith('!=')))
        truth_table(C, 'equality', fn, rows)


def postfix(C, cls):
    """p++ yields the position before the step and makes exactly the step ++p makes"""
    R = C.R
    pre = [f for f in C.fns(cls + '::operator++') if not f['params']]
    post = [f for f in C.fns(cls + '::operator++') if f['params']]

    def ids(v):
        if isinstance(v, tuple):
            if v and v[0] in ('ret', 'out') and len(v) > 2:
                return v[:1] + ('#',) + tuple(ids(x) for x in v[2:])
            return tuple(ids(x) for x in v)
        return v

    def sig(p):
        # what the step leaves behind in this position
        mem = frozenset((k, ids(v)) for k, v in p.mem.items() if k[0] == 'fld' and contains(k, ('this',)) and v != ('init', k))
        return p.kind, mem
    want = {sig(p) for f in pre for p in C.paths(f)}
    for fn in post:
        w = site(fn)
        ps = C.paths(fn)
        got = {sig(p) for p in ps}
        R.check('postfix', w, got <= want and {s for s in want if s[0] == 'return'} <= got, 'the postfix step does not make the step the prefix one makes')
        for p in ps:
            if p.kind != 'return':
                continue

            def same(v, loc):
                if v == ('init', loc):
                    return True
                if v is not None and v[0] == 'objv' and v[2]:
                    b = loc[1] if loc[0] == 'deref' else ('addr', loc)
                    return all(same(x, ('fld', b, k)) for k, x in v[2])
                return False
            R.check('postfix', w, same(p.val, ('deref', ('this',))), f"the postfix step yields {pp(p.val)[:160]} instead of the position before it")


def obj(v, *suffixes):
    for s in suffixes:
        if v is None:
            return None
        if v[0] == 'objv':
            v = next((x for k, x in v[2] if k.endswith(s)), None)
        else:
            return None
    return v


def final(p, loc, suffix):
    for k, v in p.mem.items():
        if k[0] == 'fld' and k[1] == ('addr', loc) and k[2].endswith(suffix):
            return v
    v = p.mem.get(loc)
    if v is not None:
        return obj(v, suffix)
    for k in p.mem:
        pass
    return None
