from front import *

TECHNIQUE = ("abstract interpretation of every operation that registers, removes or looks up an allocator; each change of the name and id tables on every path is compared with the registration rule, "
             "the names bound by making a resource are evaluated over a table of names, lock sets over all paths of makeAllocator")
ASSUMPTIONS = ["growing a hash table or list does not fail for lack of memory between two registration steps", "recording an event does not throw",
               "lookups and resource creation are not called concurrently with registrations (only makeAllocator is documented to be locked)", "fewer than 2^27 allocators are made"]
MRR = 'umpire::resource::MemoryResourceRegistry'
OP = ('umpire::event::record', RM + '::getAllocatorInformation', MRR + '::makeMemoryResource', MRR + '::getDefaultTraitsForResource', 'umpire::resource::resource_to_device_id')
S = Strs()


class Tab:
    """the tables of the manager, found by their types"""

    def __init__(self, C):
        by = {}
        for r in C.P.recq.get(RM, []):
            for f in r['fields']:
                by.setdefault(f['t'], []).append(('fld', ('this',), RM + '::' + f['n']))
        def one(pred, what):
            c = [l for t, ls in by.items() for l in ls if pred(t.replace(' ', ''))]
            C.R.need(len(c) == 1, f"{what} not found")
            return c[0]
        asp = 'umpire::strategy::AllocationStrategy*'
        ismap = lambda t: t.startswith(('std::unordered_map<', 'std::map<')) and asp in t
        self.name = one(lambda t: ismap(t) and 'basic_string' in t, 'name table')
        self.id = one(lambda t: ismap(t) and t.split('<')[1].startswith('int,'), 'id table')
        self.type = one(lambda t: ismap(t) and 'MemoryResourceType,' in t, 'resource table')
        self.own = one(lambda t: 'unique_ptr<umpire::strategy::AllocationStrategy>' in t, 'list of allocators')
        self.mutex = one(lambda t: t in ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex'), 'mutex')
        self.kind = [t for t, ls in by.items() if self.own in ls][0].split('<')[0]
        fn = C.fn(RM + '::getNextId', 0)
        ps = [p for p in C.paths(fn) if p.kind == 'return']
        ch = {l for p in ps for l, v in p.mem.items() if l[0] == 'fld' and l[1] == ('this',) and v != ('init', l)}
        C.R.need(len(ch) == 1, 'id counter')
        self.ctr = ch.pop()
        for p in ps:
            C.R.check('ids', site(fn), p.get(self.ctr) == add(('init', self.ctr), ONE) and p.val in (('init', self.ctr), add(('init', self.ctr), ONE)), f"hands out {pp(p.val)} and continues at {pp(p.get(self.ctr))}")
        self.all = (self.name, self.id, self.type, self.own)


def mods(p, loc):
    """changes of a table, in order: (what, key, value)"""
    out = []
    for s in segments(p):
        for e in s.evs:
            if e.kind == 'write' and e.loc[0] == 'elem' and e.loc[1] == loc:
                out.append(('set', e.loc[2], e.val))
            elif e.kind == 'write' and e.loc == loc:
                out.append(('clear', None, None))
            elif e.kind == 'call' and e.obj == ('addr', loc):
                n = short(e)
                a = e.args
                if n in ('emplace', 'try_emplace', 'insert', 'insert_or_assign', 'emplace_hint'):
                    if len(a) == 1 and a[0][0] in ('objv', 'obj'):
                        f = [x[1] for x in a[0][2]] if a[0][0] == 'objv' else list(a[0][2])
                        a = tuple(f)
                    if len(a) >= 2:
                        out.append(('set' if n == 'insert_or_assign' else 'add', a[-2], a[-1]))
                    else:
                        out.append(('add', ('?',), ('?',)))
                elif n in ('erase', 'extract'):
                    out.append(('del', a[0] if a else None, None))
                elif n in ('operator[]', 'at', 'find', 'reserve', 'rehash'):
                    n == 'operator[]' and out.append(('touch', a[0] if a else None, None))
                elif n in ('emplace_front', 'push_front', 'emplace_back', 'push_back'):
                    out.append((n.split('_')[1], None, a[0] if a else None))
                else:
                    out.append(('clear', None, None))
    return out


def changes(p, loc):
    return [m for m in mods(p, loc) if m[0] != 'touch']


def found(p, loc, key, facts=None):
    """is key known to be in the table (as it was at entry)"""
    facts = p.facts if facts is None else facts
    V = ('ver', 0)
    out = None
    r = decide(EQ(('app', 'end', loc, V), ('app', 'find', loc, V, key)), facts)
    if r is not None:
        out = not r
        if out:
            return True
    for n in ('count', 'contains'):
        a = ('app', n, loc, V, key)
        for q in (EQ(a, ZERO), LT(ZERO, a), LT(ZERO, a, True), a):
            r = decide(q, facts)
            if r is not None:
                return (not r) if q == EQ(a, ZERO) else r
    return out


def entry_of(v, loc, key):
    """is v what the table held for key at entry"""
    V = ('ver', 0)
    el = ('elem', loc, key)
    if v in (('init', el), ('app', 'at', loc, V, key)):
        return True
    f = ('app', 'find', loc, V, key)
    return v[0] == 'init' and v[1][0] == 'fld' and v[1][2].split('::')[-1] == 'second' and contains(v[1][1], f)


def handle(v):
    """the strategy of an Allocator value"""
    if v is None:
        return None
    if v[0] == 'objv':
        return dict((k.split('::')[-1], x) for k, x in v[2]).get('m_allocator')
    return proj(v, AL + '::m_allocator') if v[0] in ('param', 'ret') else v


def name_of(fn):
    return [('init', ('deref', ('param', x['n']))) for x in fn['params'] if 'basic_string' in x['t']][0]


def run(C):
    R = C.R
    R.rule('unique', 'a name already in use, also one of a resource not created yet, is refused and nothing is changed; no operation but removing an alias ever rebinds or drops a name')
    R.rule('ids', 'every allocator gets the next id; ids are never handed out twice or rebound')
    R.rule('register', 'a new allocator is owned by the manager and found under exactly its name (a resource X::0 also under X if that is free, and DEVICE also as DEVICE::0) and its id, with the tracking asked for')
    R.rule('refuse', 'a request that is refused leaves the tables as they were')
    R.rule('lookup', 'a lookup by name, id, resource type or default yields the allocator registered for it, a resource is made on first use, anything else is refused')
    R.rule('alias', 'an alias is bound to the allocator given; only an alias, and only with its own allocator, can be removed, and nothing else goes')
    R.rule('lifetime', 'allocators are owned in the order they were made and destroyed newest first, so that a parent outlives its children')
    R.rule('locked', 'making an allocator checks and registers the name inside one critical section')
    T = Tab(C)
    seen = set()
    for fn in C.fns(RM + '::makeAllocator'):
        if any(x['t'] == 'umpire::Tracking' for x in fn['params']):
            make_allocator(C, T, fn)
            seen.add(1)
        else:
            forward(C, T, fn)
    R.need(seen, 'makeAllocator not found')
    for fn in C.fns(RM + '::makeResource'):
        make_resource(C, T, fn)
    for fn in C.fns(RM + '::addAlias'):
        add_alias(C, T, fn)
    for fn in C.fns(RM + '::removeAlias'):
        remove_alias(C, T, fn)
    lookups(C, T)
    lifetime(C, T)
    others(C, T)


def resource_names(p, nm):
    """known to be / not to be one of the resource names; where one search finds the name it is there"""
    out = None
    for a, tv in p.facts.items():
        r = None
        if a[0] == '==' and any(x[0] == 'app' and x[1] in ('std::find',) and x[-1] == nm for x in a[1:]):
            r = not tv
        elif named(a, nm) and tv:
            r = True
        else:
            for x in subterms(a):
                if x[0] == 'app' and x[1] in ('std::count', 'std::any_of') and contains(x, nm) and a == EQ(x, ZERO):
                    r = not tv
        if r:
            return True
        if r is False:
            out = False
    for e in getattr(p, 'trace', ()):
        if e.kind == 'loop' and searches(e, nm) and all(i.kind in ('break', 'return', 'throw') or any(not tv and named(a, nm) for a, tv in i.facts.items()) for i in e.iters):
            return False
    return out


def named(a, nm):
    """the condition that an element of a list is called nm"""
    return a[0] == '==' and nm in a[1:] and any(x[0] == 'init' and any(y[0] == 'each' for y in subterms(x)) for x in a[1:])


def searches(e, nm):
    return any(named(a, nm) for i in e.iters for a in i.facts)


def flag(p, nm):
    """a flag that a loop over the list raises when it meets nm: the value it had before and whether it is up, where the path knows"""
    for e in getattr(p, 'trace', ()):
        if e.kind != 'loop' or not searches(e, nm):
            continue
        for k, before in e.extra['entry'].items():
            v = ('loopv', e.extra['id'], k)
            up = next((not tv if a == EQ(v, ZERO) else tv for a, tv in p.facts.items() if a in (v, EQ(v, ZERO))), None)
            if up is None:
                continue
            ok = True
            for i in e.iters:
                hit = [tv for a, tv in i.facts.items() if named(a, nm)]
                now = i.mem.get(k, ('init', k))
                ok = ok and i.kind in ('iter', 'continue') and len(hit) == 1 and (now == ONE if hit[0] else now in (v, ('init', k)))
            if ok:
                return before, up
    return None


def learn(p, nm):
    """what a flag raised by a loop over the list tells about the name"""
    fl = flag(p, nm)
    if fl is None:
        return
    before, up = fl
    known = decide(before, p.facts)
    if not up:
        p.facts.setdefault(EQ(('app', 'std::find', nm), ('end',)), True)
        if known is None:
            p.facts[before[1] if before[0] == 'not' else before] = before[0] == 'not'
    elif known is False:
        p.facts.setdefault(EQ(('app', 'std::find', nm), ('end',)), False)
    elif known is None and before[0] == 'not':
        # raised before the loop or by it: in use either way, told by the value before it
        p.facts[('app', 'inuse', nm)] = True


def clash(p, T, nm):
    """the path contradicts itself: one search finds the name, another of the same table does not"""
    learn(p, nm)
    V = ('ver', 0)
    r = decide(EQ(('app', 'end', T.name, V), ('app', 'find', T.name, V, nm)), p.facts)
    if r is True and found(p, T.name, nm) is True:
        return True
    std = [not tv for a, tv in p.facts.items() if a[0] == '==' and any(x[0] == 'app' and x[1] == 'std::find' and x[-1] == nm for x in a[1:])]
    if len(set(std)) > 1 or False in std and any(tv and named(a, nm) for a, tv in p.facts.items()):
        return True
    return p.facts.get(('app', 'inuse', nm)) is True and found(p, T.name, nm) is False and resource_names(p, nm) is False


def taken(p, T, nm):
    """True: the name is known to be in use; False: known to be free; None: unknown"""
    learn(p, nm)
    f = found(p, T.name, nm)
    if f or p.facts.get(('app', 'inuse', nm)):
        return True
    r = resource_names(p, nm)
    if r:
        return True
    return False if f is False and r is False else None


def register(C, T, fn, p, new, nm, extra=True):
    """the new allocator is owned, and registered under name and id"""
    R = C.R
    w = site(fn)
    names = changes(p, T.name)
    R.check('register', w, sum(1 for m in names if m[1] == nm and m[2] == new) == 1, f"the allocator is not registered under its name: {[(m[0], pp(m[1])) for m in names if m[1]]}")
    for k, key, val in names:
        if k == 'set':
            R.check('unique', w, found(p, T.name, key) is False or taken(p, T, key) is False, f"the name {pp(key)} is rebound without knowing that it is free")
        R.check('unique', w, k in ('set', 'add'), 'names are dropped')
        R.check('register', w, val == new or k not in ('set', 'add'), f"the name {pp(key)} is bound to {pp(val)}")
    ids = changes(p, T.id)
    idv = ('init', ('fld', new, AS + '::m_id'))
    R.check('ids', w, len(ids) == 1 and ids[0][0] in ('set', 'add') and ids[0][2] == new, f"{len(ids)} ids are bound")
    for m in ids:
        known = [p.mem.get(('fld', new, f)) for f in (AS + '::m_id',)] + [idv]
        mk = [e for e in p.calls() if e.ret == new]
        R.check('ids', w, m[1] in known or any(m[1] in e.args for e in mk), f"the id bound is {pp(m[1])}")
    got = p.mem.get(T.ctr)
    R.check('ids', w, got == add(('init', T.ctr), ONE), f"the next id is {pp(got) if got else 'unchanged'}")
    own = changes(p, T.own)
    R.check('register', w, len(own) == 1 and own[0][2] == new, 'the manager does not own the allocator')
    R.check('lifetime', w, all(m[0] == 'front' for m in own), 'the allocator is not put in front of the older ones')
    R.check('register', w, handle(p.val) == new, f"the handle returned is for {pp(handle(p.val) or p.val)[:120]}")


def make_allocator(C, T, fn):
    R = C.R
    w = site(fn)
    nm = name_of(fn)
    ps = C.paths(fn, opaque=OP, track_reads=True, throws=lambda e, f: None)
    tr = [('param', x['n']) for x in fn['params'] if x['t'] == 'umpire::Tracking'][0]
    done = 0
    for p in ps:
        t = taken(p, T, nm)
        if p.kind == 'throw':
            R.check('refuse', w, not any(changes(p, l) for l in T.all), f"refused after something was registered: {desc(p)}")
            continue
        done += 1
        R.check('unique', w, t is False, f"the name is not known to be free: {desc(p)}")
        own = [m for m in changes(p, T.own)]
        new = own[0][2] if own else ZERO
        register(C, T, fn, p, new, nm)
        R.check('register', w, p.get(('fld', new, AS + '::m_name')) == nm and p.get(('fld', new, AS + '::m_id')) in (('init', T.ctr), add(('init', T.ctr), ONE)),
                f"the allocator is called {pp(p.get(('fld', new, AS + '::m_name')))} with id {pp(p.get(('fld', new, AS + '::m_id')))}")
        tk = p.get(('fld', new, AS + '::m_tracked'))
        ok = True
        for n, v in C.P.enums['umpire::Tracking']['v']:
            env = {tr: int(v)}
            if consistent(p, env):
                try:
                    ok = ok and bool(evaluate(tk, env)) == (n == 'Tracked')
                except Unk:
                    ok = False
        R.check('register', w, ok, f"tracking becomes {pp(tk)}")
    R.expect(done or any(not o['ok'] for o in R.obl), f"{fn['q']} never returns")
    for p in ps:
        lk = [e for e in p.trace if e.kind == 'lock' and e.val == T.mutex]
        R.check('locked', w, len(lk) <= 1 and (lk or p.kind == 'throw'), f"{len(lk)} critical sections")
        R.check('locked', w, not any(e.kind == 'lock' and e.val == T.mutex and T.mutex in e.locks for e in p.trace), 'the lock is taken twice')
        R.check('locked', w, T.mutex not in p.locks, 'the lock is kept')
        for loc, line, file, locks, func, _ in p.reads:
            if loc in T.all + (T.ctr,) or loc[0] == 'elem' and loc[1] in T.all:
                R.check('locked', w, T.mutex in locks, f"{file}:{line} {func} reads {pp(loc)} outside the critical section")
        for s in segments(p):
            for e in s.evs:
                t = e.loc if e.kind == 'write' else e.obj[1] if e.kind == 'call' and e.obj and e.obj[0] == 'addr' else None
                if t is not None and (t in T.all + (T.ctr,) or t[0] == 'elem' and t[1] in T.all):
                    R.check('locked', w, T.mutex in e.locks, f"{e.file}:{e.line} changes {pp(t)} outside the critical section")


def forward(C, T, fn):
    """the overload without a tracking argument"""
    R = C.R
    w = site(fn)
    nm = name_of(fn)
    ps = C.paths(fn, opaque=OP)
    for p in ps:
        if p.kind == 'throw':
            R.check('refuse', w, not any(changes(p, l) for l in T.all), f"refused after something was registered: {desc(p)}")
            continue
        own = changes(p, T.own)
        new = own[0][2] if own else ZERO
        R.check('unique', w, taken(p, T, nm) is False, f"the name is not known to be free: {desc(p)}")
        register(C, T, fn, p, new, nm)
        R.check('register', w, p.get(('fld', new, AS + '::m_tracked')) in (ZERO, ONE), 'the tracking is not fixed')
        if len(fn.get('ta', [])) >= 2 and fn['ta'][1] in ('true', 'false', '1', '0', True, False):
            want = ONE if str(fn['ta'][1]) in ('true', '1', 'True') else ZERO
            R.check('register', w, p.get(('fld', new, AS + '::m_tracked')) == want, 'the tracking is not the one asked for')


NAMES = ('HOST', 'HOST::0', 'HOST::1', 'HOST::00', 'DEVICE', 'DEVICE::0', 'DEVICE::1', 'DEVICE::10', 'DEVICE::0::FINE', 'DEVICE::0::COARSE', 'DEVICE::FINE', 'UM', 'UM::0', 'UM::FINE', 'PINNED', 'PINNED::COARSE',
         'DEVICE_CONST', 'FILE', 'NO_OP', 'SHARED', 'SHARED::0', 'SHARED::node', 'SHARED::a::0', 'MYHOST', '__umpire_internal_null', '')
TYPES = ('HOST', 'DEVICE', 'UM', 'PINNED', 'DEVICE_CONST', 'FILE', 'NO_OP', 'SHARED')


def make_resource(C, T, fn):
    R = C.R
    w = site(fn)
    nm = name_of(fn)
    nl = nm[1]
    MMR = MRR + '::makeMemoryResource'
    ps = C.paths(fn, opaque=OP, throws=throwing('umpire::runtime_error', MMR, MRR + '::getDefaultTraitsForResource', 'umpire::resource::resource_to_device_id'))
    done = []
    for p in ps:
        f = found(p, T.name, nm)
        if p.kind == 'throw':
            R.check('refuse', w, not any(changes(p, l) for l in T.all), f"refused after something was registered: {desc(p)}")
            continue
        R.check('unique', w, f is False, f"the name is not known to be free: {desc(p)}")
        mk = [e for e in p.calls() if e.fn == MMR]
        if not R.check('register', w, len(mk) == 1, f"{len(mk)} resources are made"):
            continue
        new = mk[0].ret
        R.check('register', w, mk[0].args[0] == nm and mk[0].args[1] in (('init', T.ctr), add(('init', T.ctr), ONE)), f"makes {[pp(x)[:60] for x in mk[0].args]}")
        register(C, T, fn, p, new, nm)
        tr = p.get(('fld', new, AS + '::m_tracked'))
        trv = mk[0].args[2] if len(mk[0].args) > 2 else None
        ptr = [('param', x['n']) for x in fn['params'] if 'Traits' in x['t']]
        src = ptr[0] if ptr else next((e.ret for e in p.calls() if e.fn == MRR + '::getDefaultTraitsForResource'), None)
        TRK = 'umpire::MemoryResourceTraits::tracking'
        R.check('register', w, src is not None and tr == proj(src, TRK), f"tracking becomes {pp(tr)}")
        R.check('register', w, trv is None or contains(trv, src) or trv == src, 'the resource is not made with the given traits')
        done.append(p)
    R.expect(done or any(not o['ok'] for o in R.obl), f"{fn['q']} never returns")
    for s in NAMES:
        env = {nm: s, nl: s}
        want = {s}
        if s == 'DEVICE':
            want.add('DEVICE::0')
        if s.endswith('::0') and s.count('::') == 1:
            want.add(s[:-3])
        ok = '::' in s or s in TYPES
        n = 0
        for p in done:
            if not S.possible(p.facts, env):
                continue
            n += 1
            try:
                got = {S.ev(m[1], env) for m in changes(p, T.name)}
            except Unk as x:
                raise Anchor(f"{fn['q']}: name depends on {pp(x.args[0])[:120]}")
            if s.endswith('::0') and s.count('::') > 1:
                got -= {s[:-3]}
            if not R.check('register', w, got == want, f"making {s!r} registers {sorted(got)}"):
                return
            ty = changes(p, T.type)
            try:
                got = {S.ev(m[1], env) for m in ty}
            except Unk as x:
                raise Anchor(f"{fn['q']}: resource type depends on {pp(x.args[0])[:120]}")
            e = {k.upper(): int(v) for k, v in C.P.enums['umpire::resource::MemoryResourceType']['v']}
            ix = dict(zip(TYPES, (e.get(x) for x in ('HOST', 'DEVICE', 'UNIFIED', 'PINNED', 'CONSTANT', 'FILE', 'NOOP', 'SHARED'))))
            if not R.check('lookup', w, got == ({ix[s]} if s in TYPES else set()), f"making {s!r} registers it as resource type {sorted(got)}"):
                return
        if not R.check('refuse', w, bool(n) == ok, f"{s!r} is {'refused although it names a resource' if ok else 'accepted although it is no resource type'}"):
            return


def add_alias(C, T, fn):
    R = C.R
    w = site(fn)
    nm = name_of(fn)
    al = [('param', x['n']) for x in fn['params'] if 'Allocator' in x['t']][0]
    st = proj(al, AL + '::m_allocator')
    ps = C.paths(fn, opaque=OP + (RM + '::makeResource',))
    done = 0
    for p in ps:
        if clash(p, T, nm):
            continue
        ch = changes(p, T.name)
        oth = [m for l in (T.id, T.type, T.own) for m in changes(p, l)]
        if p.kind == 'throw':
            R.check('refuse', w, not ch and not oth, f"refused after something was changed: {desc(p)}")
            R.check('alias', w, taken(p, T, nm) is True, f"a free name is refused: {desc(p)}")
            continue
        done += 1
        R.check('unique', w, taken(p, T, nm) is False, f"the name is not known to be free: {desc(p)}")
        R.check('alias', w, len(ch) == 1 and ch[0][0] in ('set', 'add') and ch[0][1] == nm and ch[0][2] == st and not oth, f"the name is not bound to the allocator given: {[(m[0], pp(m[1])) for m in ch if m[1]]}")
    R.expect(done or any(not o['ok'] for o in R.obl), f"{fn['q']} never returns")


def remove_alias(C, T, fn):
    R = C.R
    w = site(fn)
    nm = name_of(fn)
    al = [('param', x['n']) for x in fn['params'] if 'Allocator' in x['t']][0]
    st = proj(al, AL + '::m_allocator')
    ps = C.paths(fn, opaque=OP + (RM + '::makeResource',))
    fld = lambda o, f: ('init', ('fld', o, AS + '::' + f))
    done = 0
    for p in ps:
        if clash(p, T, nm):
            continue
        ch = changes(p, T.name)
        oth = [m for l in (T.id, T.type, T.own) for m in changes(p, l)]
        tgt = [x for a in p.facts for x in subterms(a) if x[0] == 'init' and entry_of(x, T.name, nm)]
        if p.kind == 'throw':
            R.check('refuse', w, not ch and not oth, f"refused after something was changed: {desc(p)}")
            R.check('alias', w, found(p, T.name, nm) is not None and (found(p, T.name, nm) is False or own_name(p, nm, tgt, True) or is_own(p, tgt, st) is False), f"an alias is refused: {desc(p)}")
            R.check('alias', w, not tgt or found(p, T.name, nm) is True, f"the entry of a name that is not registered is used: {desc(p)}")
            continue
        done += 1
        if not R.check('alias', w, found(p, T.name, nm) is True, f"the entry of a name that is not registered is used: {desc(p)}"):
            continue
        R.check('alias', w, own_name(p, nm, tgt, False), f"the own name of an allocator is removed: {desc(p)}")
        R.check('alias', w, is_own(p, tgt, st) is True, f"an alias of another allocator is removed: {desc(p)}")
        R.check('alias', w, len(ch) == 1 and ch[0][0] == 'del' and (ch[0][1] == nm or ch[0][1] == ('app', 'find', T.name, ('ver', 0), nm)) and not oth, 'not exactly the alias is removed')
    R.expect(done or any(not o['ok'] for o in R.obl), f"{fn['q']} never returns")


def own_name(p, nm, tgt, want):
    """the registered allocator's own name is (want) / is not the given name"""
    for t in set(tgt):
        loc = ('fld', t, AS + '::m_name')
        for a, tv in p.facts.items():
            if a[0] == '==' and nm in a[1:] and ('init', loc) in a[1:]:
                return tv == want
            if a[0] == '==' and ZERO in a[1:] and any(x[0] == 'app' and x[1] == 'compare' and (x[2] == loc and x[-1] == nm or x[2] == nm[1] and x[-1] == ('init', loc)) for x in a[1:]):
                return tv == want
    return False


def is_own(p, tgt, st):
    for t in set(tgt):
        i = ('fld', t, AS + '::m_id')
        j = ('fld', st, AS + '::m_id')
        for q in (EQ(('init', i), ('init', j)), EQ(t, st)):
            r = decide(q, p.facts)
            if r is not None:
                return r
    return None


def result(p):
    return handle(p.val) if p.val[0] == 'objv' else p.val


def yields(p, T, table, key, v):
    """v is the entry of key, and that entry was there, or has been made"""
    made = [e for e in p.calls() if e.fn == RM + '::makeResource' and e.args and e.args[0] == key]
    if made and v in (handle(made[0].ret), proj(made[0].ret, AL + '::m_allocator')):
        return True
    if made and contains(v, ('app', 'find', table, ('ver', ('h', made[0].ret[1])), key)) and v[0] == 'init' and v[1][2].split('::')[-1] == 'second':
        return table == T.name
    if contains(v, ('app', 'find', table, ('ver', 0), key)):
        made = []
    return entry_of(v, table, key) and (found(p, table, key) is True or table == T.name and bool(made))


def lookups(C, T):
    R = C.R
    MK = RM + '::makeResource'
    op = OP + (MK,)
    hav = {MK: tuple(l[2] for l in T.all)}
    R2S = 'umpire::resource::resource_to_string'

    def by_name(fn, key, p):
        w = site(fn)
        made = [e for e in p.calls() if e.fn == RM + '::makeResource']
        if p.kind == 'throw':
            R.check('lookup', w, taken(p, T, key) is False and not made, f"a name that is in use is refused: {desc(p)}")
        else:
            R.check('lookup', w, yields(p, T, T.name, key, result(p)), f"{pp(key)} yields {pp(result(p))[:160]}: {desc(p)}")
            R.check('lookup', w, not made or found(p, T.name, key) is False and resource_names(p, key) is True and len(made) == 1, f"a resource is made again, or for a name that is none: {desc(p)}")
        untouched(p, fn)

    def untouched(p, fn):
        for l in T.all:
            R.check('lookup', site(fn), not changes(p, l), f"a lookup changes {pp(l)}")
            for m in mods(p, l):
                if m[0] == 'touch':
                    made = any(e.fn == RM + '::makeResource' for e in p.calls())
                    R.check('lookup', site(fn), found(p, l, m[1]) is True or made, f"a lookup of {pp(m[1])} that is not there adds an empty entry")

    for fn in C.fns(RM + '::getAllocationStrategy'):
        for p in C.paths(fn, opaque=op, havoc=hav):
            by_name(fn, name_of(fn), p)
    for fn in C.fns(RM + '::getAllocator'):
        t = fn['params'][0]['t']
        a = ('param', fn['params'][0]['n'])
        w = site(fn)
        if 'basic_string' in t:
            for p in C.paths(fn, opaque=op, havoc=hav):
                by_name(fn, name_of(fn), p)
        elif 'char' in t:
            for p in C.paths(fn, opaque=op, havoc=hav):
                ks = {x[-1] for f in p.facts for x in subterms(f) if x[0] == 'app' and x[1] == 'find' and x[2] == T.name}
                k = ks.pop() if len(ks) == 1 else a
                R.check('lookup', w, contains(k, a), f"looks up {pp(k)}")
                by_name(fn, k, p)
        elif 'MemoryResourceType' in t:
            for p in C.paths(fn, opaque=op + (R2S,), havoc=hav):
                cv = [e for e in p.calls() if e.fn == R2S]
                key = cv[0].ret if cv else None
                f = found(p, T.type, a)
                if f:
                    R.check('lookup', w, p.kind == 'return' and entry_of(result(p), T.type, a), f"yields {pp(result(p))[:120]}" if p.val else 'refused')
                    untouched(p, fn)
                else:
                    if R.check('lookup', w, len(cv) == 1 and cv[0].args[0] == a, f"the name of the resource type is not used: {desc(p)}"):
                        by_name(fn, key, p)
        elif t == 'int':
            for p in C.paths(fn, opaque=op, havoc=hav):
                if p.kind == 'throw':
                    R.check('lookup', w, found(p, T.id, a) is False or negative(p, a), f"a registered id is refused: {desc(p)}")
                else:
                    R.check('lookup', w, found(p, T.id, a) is True and entry_of(result(p), T.id, a), f"yields {pp(result(p))[:120]}: {desc(p)}")
                untouched(p, fn)
        else:
            for p in C.paths(fn, opaque=op + (AM + '::find', AM + '::findRecord'), havoc=hav):
                fs = [e for e in p.calls() if e.fn.startswith(AM + '::find')]
                if p.kind == 'return':
                    R.check('lookup', w, len(fs) == 1 and fs[0].args[0] == a and result(p) == ('init', ('fld', fs[0].ret, 'umpire::util::AllocationRecord::strategy')), f"yields {pp(result(p))[:120]}")
    for fn in C.fns(RM + '::findAllocatorForId'):
        a = ('param', fn['params'][0]['n'])
        for p in C.paths(fn, opaque=op, havoc=hav):
            if p.kind == 'throw':
                R.check('lookup', site(fn), found(p, T.id, a) is False, f"a registered id is refused: {desc(p)}")
            else:
                R.check('lookup', site(fn), found(p, T.id, a) is True and entry_of(result(p), T.id, a), f"yields {pp(result(p))[:120]}")
            untouched(p, fn)
    for fn in C.fns(RM + '::isAllocator'):
        w = site(fn)
        byid = fn['params'][0]['t'] == 'int'
        for p in C.paths(fn, opaque=op, havoc=hav):
            untouched(p, fn)
            for val in (True, False):
                facts = dict(p.facts)
                d = decide(p.val, facts)
                if d is None:
                    # the result is itself a condition
                    facts[p.val[1] if p.val[0] == 'not' else p.val] = (not val) if p.val[0] == 'not' else val
                elif d != val:
                    continue
                q = Path.__new__(Path)
                q.facts = facts
                q.trace = p.trace
                if byid:
                    t = found(q, T.id, ('param', fn['params'][0]['n']), facts)
                else:
                    t = taken(q, T, name_of(fn))
                R.check('lookup', w, t is val, f"answers {val} although the {'id' if byid else 'name'} is {'in use' if t else 'free' if t is False else 'not looked up'}")
    dflt = None
    for fn in C.fns(RM + '::setDefaultAllocator'):
        w = site(fn)
        st = proj(('param', fn['params'][0]['n']), AL + '::m_allocator')
        for p in C.paths(fn, opaque=op, havoc=hav):
            if p.kind == 'return':
                ch = [l for l, v in p.mem.items() if l[0] == 'fld' and l[1] == ('this',) and v != ('init', l)]
                R.check('lookup', w, len(ch) == 1 and p.mem[ch[0]] == st, 'the default allocator is not the one given')
                dflt = ch[0] if ch else None
    if dflt is not None:
        d = ('init', dflt)
        for fn in C.fns(RM + '::getDefaultAllocator'):
            w = site(fn)
            for p in C.paths(fn, opaque=op, havoc=hav):
                null = decide(EQ(d, ZERO), p.facts)
                if null is False:
                    R.check('lookup', w, p.kind == 'return' and result(p) == d and p.get(dflt) == d, f"yields {pp(result(p))[:100]} instead of the default")
                elif p.kind == 'return':
                    R.check('lookup', w, null is True and yields(p, T, T.name, ('str', 'HOST'), result(p)) and p.get(dflt) in (result(p), d), f"yields {pp(result(p))[:100]} instead of HOST: {desc(p)}")
    for g, table in (('getAllocatorNames', T.name), ('getAllocatorIds', T.id)):
        for fn in C.fns(RM + '::' + g):
            w = site(fn)
            for p in C.paths(fn, opaque=op, havoc=hav):
                loops = [e for e in p.trace if e.kind == 'loop']
                adds = [e for l in loops for i in l.iters for e in i.trace if e.kind == 'call' and short(e) in ('push_back', 'emplace_back', 'insert')]
                R.check('lookup', w, len(loops) == 1 and all(sum(1 for e in i.trace if e in adds) == 1 for i in loops[0].iters if i.kind in ('iter', 'continue')) and not any(i.kind in ('break', 'return') for i in loops[0].iters),
                        'not every entry is listed')
                for e in adds:
                    R.check('lookup', w, e.args[-1][0] == 'init' and e.args[-1][1][0] == 'fld' and e.args[-1][1][2].split('::')[-1] == 'first', f"lists {pp(e.args[-1])}")
                untouched(p, fn)


def negative(p, a):
    """ids that can never be registered: below zero, or the invalid one"""
    for f, tv in p.facts.items():
        if f == LT(a, ZERO) and tv or f == ('<', a, ZERO) and tv:
            return True
        if f[0] == '==' and a in f[1:] and tv:
            return True
    return False


def lifetime(C, T):
    R = C.R
    for fn in C.fns(RM + '::~ResourceManager'):
        w = site(fn)
        for p in C.paths(fn, opaque=OP + ('umpire::print_allocator_records',)):
            loops = [e for e in p.trace if e.kind == 'loop']
            rs = 0
            for l in loops:
                for i in l.iters:
                    d = [e for e in i.trace if e.kind == 'call' and short(e) in ('reset', 'pop_front', 'pop_back', 'erase')]
                    for e in d:
                        if short(e) == 'pop_back':
                            R.check('lifetime', w, False, 'allocators are destroyed oldest first')
                        loc = e.obj[1] if e.obj and e.obj[0] == 'addr' else None
                        if loc is not None and (loc == T.own or loc[0] == 'elem' and loc[1] == T.own):
                            rs += 1
                    if d:
                        R.check('lifetime', w, not contains_rev(i), 'allocators are destroyed oldest first')
            R.check('lifetime', w, rs or T.kind == 'std::list', 'allocators are not destroyed newest first')
    for fn in C.fns(RM + '::initialize'):
        w = site(fn)
        for p in C.paths(fn, opaque=OP):
            if p.kind != 'return':
                continue
            own = changes(p, T.own)
            R.check('lifetime', w, len(own) == 2 and all(m[0] == 'front' for m in own), 'the built-in allocators are not owned, newest in front')
            made = [e for e in p.calls() if e.fn == MRR + '::makeMemoryResource']
            fp = [m[2] for m in own if m[2] is not None and m[2][0] == 'newobj']
            if made and fp:
                ids = [made[0].args[1]] + [p.get(('fld', f, AS + '::m_id')) for f in fp]
                R.check('ids', w, len(set(ids)) == len(ids) and p.mem.get(T.ctr) == add(('init', T.ctr), INT(len(ids))), f"ids {[pp(i) for i in ids]}")


def contains_rev(i):
    return any(x[0] == 'app' and x[1] in ('rbegin', 'rend') for f in i.facts for x in subterms(f)) or any('reverse_iterator' in str(e.fn or '') for e in i.trace)


def others(C, T):
    """nothing else changes the tables"""
    R = C.R
    ok = {RM + '::' + n for n in ('makeAllocator', 'makeResource', 'addAlias', 'removeAlias', 'initialize', 'ResourceManager', '~ResourceManager', 'getNextId')}
    own = {l[2] for l in T.all} | {T.ctr[2]}
    n = 0
    for q, fs in sorted(C.P.byq.items()):
        if not q.startswith('umpire::') or q in ok:
            continue
        for fn in fs:
            n += 1
            for line, f in table_writes(fn, own):
                R.check('unique', f"{fn['file']}:{line} {fn['q']}", helper_of(C, fn, ok), f"changes {f.split('::')[-1]}")
    R.check('unique', 'src/umpire', True, f"{n} functions")


MUT = ('emplace', 'try_emplace', 'insert', 'insert_or_assign', 'erase', 'clear', 'swap', 'extract', 'merge', 'emplace_front', 'push_front', 'emplace_back', 'push_back', 'pop_front', 'pop_back', 'remove', 'remove_if', 'reverse', 'sort', 'splice', 'resize', 'assign')


def table_writes(fn, own):
    for line, f in field_writes(fn):
        if f in own:
            yield line, f

    def walk(n):
        if isinstance(n, list):
            for x in n:
                yield from walk(x)
        elif isinstance(n, dict):
            if n.get('k') == 'call' and isinstance(n.get('obj'), dict) and n['obj'].get('k') == 'mem' and n['obj'].get('f') in own and str(n.get('fn', '')).split('::')[-1] in MUT:
                yield n.get('l'), n['obj']['f']
            for v in n.values():
                if isinstance(v, (dict, list)):
                    yield from walk(v)
    yield from walk(fn.get('body'))


def helper_of(C, fn, ok):
    """a function only called (transitively) by the operations that may change the tables"""
    seen, todo = set(), [fn['q']]
    if fn.get('access') == 'public':
        return False
    while todo:
        q = todo.pop()
        if q in seen or q in ok:
            continue
        seen.add(q)
        cs = callers(C, q)
        if not cs:
            return False
        todo += cs
    return True


def callers(C, q):
    if not hasattr(C, '_callers'):
        C._callers = {}
        for k, fs in C.P.byq.items():
            for f in fs:
                def walk(n):
                    if isinstance(n, list):
                        for x in n:
                            walk(x)
                    elif isinstance(n, dict):
                        if n.get('k') in ('call', 'mcall') and n.get('fn'):
                            C._callers.setdefault(n['fn'], set()).add(k)
                        for v in n.values():
                            if isinstance(v, (dict, list)):
                                walk(v)
                walk([f.get('body'), f.get('inits')])
    return sorted(C._callers.get(q, ()))
