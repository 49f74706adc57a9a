from front import *

TECHNIQUE = ("abstract interpretation of every wrapping allocator down to the wrapped one, with an exception injected at every call it makes; path-wise comparison with the hand-through specification; "
             "members resolved through the constructors")
ASSUMPTIONS = ["the operations that advise, prefetch or place memory do what their platform documents", "a release that throws is outside the guarantee"]
ST = 'umpire::strategy::'
AI, ANI, DI = AS + '::allocate_internal', AS + '::allocate_named_internal', AS + '::deallocate_internal'
MOVE, APPLY = 'umpire::numa::move_to_node', 'umpire::op::MemoryOperation::apply'
WRAP = ('NamedAllocationStrategy', 'ThreadSafeAllocator', 'SizeLimiter', 'AllocationAdvisor', 'AllocationPrefetcher', 'NamingShim', 'NumaPolicy')
OP = (AI, ANI, DI, MOVE, APPLY, 'umpire::op::MemoryOperationRegistry::find', 'umpire::event::record')


def members(C, cls):
    """what the constructors give the members, and the allocator parameter's strategy"""
    out = []
    for ctor in C.P.find(ST + cls + '::' + cls):
        if len(ctor['params']) < 3 or ctor.get('impl'):
            continue
        ps = [p for p in C.paths(ctor, opaque=OP) if p.kind == 'return']
        C.R.expect(ps, f"{ctor['q']} never returns")
        wrapped = [('param', q['n']) for q in ctor['params'] if q['t'].replace('const ', '').replace(' &', '') == AL]
        C.R.need(wrapped, f"{ctor['q']}: no allocator to wrap")
        for p in ps:
            mem = {('init', l): v for l, v in p.mem.items() if l[0] == 'fld' and l[1] == ('this',)}
            out.append((ctor, wrapped[0], mem, p))
    C.R.need(out, f"{cls}: no constructor")
    return out


def is_strategy_of(v, wrapped):
    return v is not None and v[0] in ('init', 'proj', 'fld') and contains(v, wrapped) and 'm_allocator' in str(v)


def run(C):
    R = C.R
    R.rule('wraps', 'the allocator handed to the constructor is the one that is used, and is reported as the parent')
    R.rule('allocate', 'an allocation is exactly one allocation of the same size from the wrapped allocator, whose result is handed out')
    R.rule('release', 'a release is exactly one release of the same address and size to the wrapped allocator')
    R.rule('failure', 'a failure of the wrapped allocator reaches the caller; memory obtained before a later step failed is given back')
    R.rule('extra', 'advice, prefetch and placement are applied once, to exactly the memory handed out, with the configured device or node')
    R.rule('name', 'a naming shim gives every allocation a name of its own, made of the shim\'s name and a counter that never repeats')
    R.rule('kind', 'platform and traits are those of the wrapped allocator')
    R.rule('identity', 'name and id of a strategy are those it was given, and never change')
    T = ('this',)
    parent = ('fld', T, AS + '::m_parent')
    got = C.fn(AS + '::getParent', 0)
    for p in C.paths(got):
        R.check('wraps', site(got), p.val == ('init', parent), f"getParent answers {pp(p.val)}")
    for cls in WRAP:
        if cls == 'NumaPolicy' and not C.P.find(ST + 'NumaPolicy::allocate'):
            R.notes.append('NumaPolicy not analysed: no libnuma headers')
            continue
        ms = members(C, cls)
        # the member that holds the wrapped allocator: the receiver of the allocation
        fn = C.fn(ST + cls + '::allocate', 1)
        size = ('param', fn['params'][0]['n'])
        held = set()
        for p in C.paths(fn, opaque=OP, throws=throwing('?', AI, ANI, MOVE, APPLY)):
            w = site(fn)
            al = [e for e in p.calls() if e.fn in (AI, ANI)]
            de = [e for e in p.calls() if e.fn == DI]
            ex = [e for e in p.calls() if e.fn in (MOVE, APPLY)]
            threw = [e for e in p.calls() if getattr(e, 'threw', None)]
            if p.kind == 'throw' and not threw:
                R.check('failure', w, not al and not de and cls == 'SizeLimiter', f"refuses by itself: {desc(p)}")
                continue
            if not R.check('allocate', w, len(al) == 1 and al[0].args[-1] == size, f"asks {[(e.fn.split('::')[-1], [pp(a) for a in e.args]) for e in al]}"):
                continue
            held.add(al[0].obj)
            if threw:
                if not R.check('failure', w, p.kind == 'throw' and exc_type(p) == '?', f"a failing {short(threw[0])} is not reported"):
                    continue
                if threw[0] is al[0]:
                    R.check('failure', w, not de and not ex, 'continues after a failed allocation')
                else:
                    R.check('failure', w, isnull(al[0].ret, p.facts) is True and not de or len(de) == 1 and de[0].obj == al[0].obj and de[0].args == (al[0].ret, size), f"memory is not given back when {short(threw[0])} fails: {[[pp(a) for a in e.args] for e in de]}")
                continue
            R.check('allocate', w, p.kind == 'return' and p.val == al[0].ret and not de, f"hands out {pp(p.val)}")
            if cls in ('AllocationAdvisor', 'AllocationPrefetcher', 'NumaPolicy'):
                if R.check('extra', w, len(ex) == 1, f"{len(ex)} operations on the memory"):
                    extra(C, cls, ms, ex[0], al[0].ret, size, w)
            else:
                R.check('extra', w, not ex, 'operates on the memory')
            if cls == 'NamingShim':
                naming(C, ms, p, al[0], w)
            else:
                R.check('allocate', w, al[0].fn == AI, 'names the allocation')
        R.need(len(held) == 1, f"{cls}: the wrapped allocator is not in one member: {[pp(h) for h in held]}")
        held = held.pop()
        for ctor, wr, mem, p in ms:
            v, par = subst(held, mem), mem.get(('init', parent))
            R.check('wraps', site(ctor), is_strategy_of(v, wr), f"uses {pp(v)}")
            R.check('wraps', site(ctor), par == v, f"reports {pp(par)} as parent, uses {pp(v)}")
        fn = C.fn(ST + cls + '::deallocate', 2)
        ptr, n = (('param', q['n']) for q in fn['params'])
        for p in C.paths(fn, opaque=OP):
            de = [e for e in p.calls() if e.fn == DI]
            al = [e for e in p.calls() if e.fn in (AI, ANI, MOVE, APPLY)]
            R.check('release', site(fn), p.kind == 'return' and len(de) == 1 and not al and de[0].obj == held and de[0].args == (ptr, n), f"releases {[(pp(e.obj), [pp(a) for a in e.args]) for e in de]}")
        if cls != 'NumaPolicy':
            kind(C, cls, held)
        else:
            kind(C, cls, held, only=('getTraits',))
            fn = C.fn(ST + 'NumaPolicy::getPlatform', 0)
            for p in C.paths(fn):
                R.check('kind', site(fn), all(same_platform(q, subst(p.val, mem)) for _, _, mem, q in ms), f"platform {pp(p.val)}")
            fn = C.fn(ST + 'NumaPolicy::getNode', 0)
            for p in C.paths(fn):
                for ctor, _, mem, _ in ms:
                    R.check('extra', site(fn), subst(p.val, mem) == ('param', ctor['params'][3]['n']), f"node {pp(subst(p.val, mem))}")
            numa_ctor(C)
    # the other strategies answer for their parent as well
    for cls in ('QuickPool', 'DynamicPoolList', 'FixedPool', 'MixedPool', 'SlotPool', 'MonotonicAllocationStrategy', 'AlignedAllocator'):
        ms = members(C, cls)
        for q in ('getPlatform', 'getTraits'):
            fn = C.P.method(ST + cls, q, 0)
            for p in C.paths(fn, opaque=OP):
                e = [x for x in p.calls() if x.fn == AS + '::' + q]
                ok = len(e) == 1 and p.val == e[0].ret and p.kind == 'return'
                R.check('kind', site(fn), ok, f"answers {pp(p.val)}")
                if ok:
                    for ctor, wr, mem, _ in ms:
                        v = subst(e[0].obj, mem)
                        R.check('kind', site(ctor), is_strategy_of(v, wr), f"{q} asks {pp(v)}")
        for ctor, wr, mem, p in ms:
            R.check('wraps', site(ctor), is_strategy_of(mem.get(('init', parent)), wr), f"reports {pp(mem.get(('init', parent)))} as parent")
    identity(C)


def same_platform(p, v):
    """the path has tested that the wrapped allocator's platform is v"""
    rets = [e.ret for e in p.calls() if e.fn.endswith('::getPlatform')]
    return any(decide(EQ(r, v), p.facts) is True for r in rets)


def extra(C, cls, ms, e, mem_, size, w):
    R = C.R
    if cls == 'NumaPolicy':
        dev = e.args[2] if len(e.args) == 3 else None
        R.check('extra', w, e.fn == MOVE and e.args[:2] == (mem_, size), f"places {[pp(a) for a in e.args]}")
        idx, ops = 3, None
    else:
        ok = e.fn == APPLY and len(e.args) == 4 and e.args[0] == mem_ and e.args[1] == ZERO and e.args[3] == size
        R.check('extra', w, ok, f"applies to {[pp(a) for a in e.args]}")
        dev = e.args[2] if ok else None
        idx, ops = -1, e.obj
    for ctor, wr, mem, p in ms:
        if dev is not None:
            R.check('extra', site(ctor), subst(dev, mem) == ('param', ctor['params'][idx]['n']), f"configured {pp(subst(dev, mem))}")
        if ops is None:
            continue
        o = subst(ops, mem)
        f = [x for x in p.calls() if x.fn == 'umpire::op::MemoryOperationRegistry::find']
        R.check('extra', site(ctor), any(o == x.ret for x in f), f"applies {pp(o)}")
        for x in f:
            want = ("'PREFETCH'",) if cls == 'AllocationPrefetcher' else (f"*{ctor['params'][3]['n']}'0", ctor['params'][3]['n'])
            R.check('extra', site(ctor), pp(x.args[0]) in want or any(wn in pp(x.args[0]) for wn in want), f"looks up {pp(x.args[0])}")
            R.check('extra', site(ctor), all(is_strategy_of(a, wr) for a in x.args[1:3]), f"looks up for {[pp(a) for a in x.args[1:]]}")


def naming(C, ms, p, e, w):
    R = C.R
    if not R.check('name', w, e.fn == ANI, 'the allocation is not named'):
        return
    name = e.args[0]
    cnt = [l for l, v in p.mem.items() if l[0] == 'fld' and l[1] == ('this',) and v != ('init', l)]
    if not R.check('name', w, len(cnt) == 1 and p.mem[cnt[0]] == add(('init', cnt[0]), ONE), f"counter: {[(pp(l), pp(p.mem[l])) for l in cnt]}"):
        return
    R.check('name', w, contains(name, ('init', cnt[0])) , f"the name {pp(name)} does not contain the counter")
    R.check('name', w, contains(name, ('init', ('fld', ('this',), AS + '::m_name'))), f"the name {pp(name)} does not contain the shim's name")


def kind(C, cls, held, only=('getPlatform', 'getTraits')):
    for q in only:
        fn = C.fn(ST + cls + '::' + q, 0)
        for p in C.paths(fn):
            e = [x for x in p.calls() if x.fn == AS + '::' + q]
            C.R.check('kind', site(fn), len(e) == 1 and e[0].obj == held and p.val == e[0].ret, f"answers {pp(p.val)}")


def numa_ctor(C):
    R = C.R
    fn = C.fn(ST + 'NumaPolicy::NumaPolicy', 4)
    node = ('param', fn['params'][3]['n'])
    for p in C.paths(fn, opaque=OP):
        neg = decide(LT(node, ZERO, False), p.facts)
        if p.kind == 'return':
            R.check('extra', site(fn), neg is False, 'a negative node is accepted')


def identity(C):
    R = C.R
    ctor = C.fn(AS + '::AllocationStrategy', 4)
    nm, id_, par, sn = (('param', q['n']) for q in ctor['params'])
    mem = set_by_ctor(C, ctor)
    for q, want in (('getName', (nm, ('init', ('deref', nm)))), ('getId', (id_,)), ('getParent', (par,)), ('getStrategyName', (sn, ('init', ('deref', sn))))):
        fn = C.fn(AS + '::' + q, 0)
        for p in C.paths(fn):
            v = p.val
            if v[0] in ('fld', 'ref', 'addr'):
                v = ('init', v if v[0] == 'fld' else v[1])
            got = subst(v, mem)
            R.check('identity', site(fn), got in want, f"{q} answers {pp(got)}")
    fields = [l[2] for l in (k[1] for k in mem) if mem[('init', l)] in (nm, ('init', ('deref', nm)), id_, par, sn, ('init', ('deref', sn)))]
    R.need(len(fields) == 4, 'identity members')
    names = set(fields)
    for f in C.P.fns.values():
        if f.get('mk') == 'ctor':
            continue
        for ln, m in field_writes(f):
            R.check('identity', site(f, ln), m not in names, f"{m} is changed")
