import re
from front import *

TECHNIQUE = ("abstract interpretation of the resource tables; the name tables, the factories' choice and the accessibility answers are evaluated completely over the enumerations and the advertised names, "
             "the registry's search and every factory's construction on all paths")
ASSUMPTIONS = ["the host configuration with shared memory and file resources is the one analysed; device resources need toolchains that are absent", "string comparison and search have the meaning of the standard"]
RES = 'umpire::resource::'
MRR, MRF = RES + 'MemoryResourceRegistry', RES + 'MemoryResourceFactory'
S = Strs()
HIDE = (RES + 'HostSharedMemoryResource::impl::impl',)
HOST = {'host'}
# what the resource of each name is: platform, kind of its traits, platforms from which its memory can be reached
KINDS = {'HOST': ('host', 'host', {'host', 'omp_target'}), 'SHARED': ('host', 'shared', HOST), 'FILE': ('undefined', 'file', HOST), '__umpire_internal_null': ('undefined', 'unknown', set()),
         'NO_OP': ('host', None, set())}
PLAT = {'undefined': 0, 'host': 1, 'cuda': 2, 'omp_target': 4, 'hip': 8, 'sycl': 16}        # camp::resources::Platform


def run(C):
    R = C.R
    R.rule('names', 'the name of every resource type leads back to that type and to no other, and an unknown type or name is reported')
    R.rule('choice', 'the first factory that answers for a name makes the resource, with the name, id and traits given or the factory\'s default traits; no factory: reported')
    R.rule('kind', 'every advertised name is answered by the factory of its own kind, which makes a resource of the right platform and traits, keeping name, id and traits')
    R.rule('reach', 'memory is reported as accessible exactly from the platforms that can reach it, and an allocator answers as the resource at the bottom of its chain')
    names(C)
    choice(C)
    kind(C)
    reach(C)


def enum(C, q):
    e = C.P.enums.get(q) or next((x for k, x in C.P.enums.items() if k.endswith('::' + q.split('::')[-1])), None)
    C.R.need(e, f"enumeration {q}")
    return {n: int(v) for n, v in e['v']}


def refs(fn, i=0):
    """the value numbers a string parameter may appear as"""
    n = ('param', fn['params'][i]['n'])
    return [n, ('deref', n), ('init', ('deref', n))]


def outcomes(ps, env):
    """(kind, value) of every path possible under env"""
    out = set()
    for p in ps:
        if S.possible(p.facts, env):
            if p.kind != 'return':
                out.add((p.kind, None))
                continue
            try:
                out.add(('return', S.ev(p.val, env)))
            except Unk:
                out.add(('return', p.val))
    return out


def names(C):
    R = C.R
    ty = enum(C, RES + 'MemoryResourceType')
    f1, f2 = C.fn(RES + 'resource_to_string', 1), C.fn(RES + 'string_to_resource', 1)
    p1, p2 = C.paths(f1), C.paths(f2)
    seen = {}
    n = 0
    for t, v in sorted(ty.items(), key=lambda x: x[1]):
        o = outcomes(p1, {('param', f1['params'][0]['n']): v})
        if any(isinstance(x[1], tuple) for x in o) or len(o) > 1:
            continue                # computed in a way the evaluation does not follow
        k, s = next(iter(o)) if o else ('throw', None)
        if t == 'Unknown':
            R.check('names', site(f1), k != 'return', f"resource type Unknown is given the name {s!r}")
            continue
        n += 1
        if k != 'return':
            # a type without a name is only correct if no name leads to it
            R.check('names', site(f1), False, f"resource type {t} has no name")
            continue
        R.check('names', site(f1), s not in seen, f"types {seen.get(s)} and {t} share the name {s!r}")
        seen[s] = t
        o2 = outcomes(p2, {r: s for r in refs(f2)})
        if len(o2) == 1 and not isinstance(next(iter(o2))[1], tuple):
            R.check('names', site(f2), o2 == {('return', v)}, f"the name {s!r} of {t} leads to {next(iter(o2))}")
    for s in ('', 'HOS', 'HOSTS', 'host', 'DEVICE_CONST_', 'FILE ', 'UNKNOWN', 'SHARE'):
        o2 = outcomes(p2, {r: s for r in refs(f2)})
        if len(o2) == 1:
            R.check('names', site(f2), next(iter(o2))[0] != 'return', f"the name {s!r} is taken for a resource type")
    R.check('names', site(f1), True, f"{n} types")


def choice(C):
    R = C.R
    for q, what in ((MRR + '::makeMemoryResource', 'create'), (MRR + '::getDefaultTraitsForResource', 'getDefaultTraits')):
        for fn in C.fns(q):
            w = site(fn)
            given = [('param', p['n']) for p in fn['params']]
            made = 0
            for p in C.paths(fn):
                asks = [e for e in p.calls() if short(e) == 'isValidMemoryResourceFor']
                does = [e for e in p.calls() if short(e) in ('create', 'getDefaultTraits')]
                its = [i for e in p.trace if e.kind == 'loop' for i in e.iters]
                for e in asks:
                    R.check('choice', w, e.args[:1] == (('init', ('deref', given[0])),), f"a factory is asked about {pp(e.args[0])}")
                if p.kind != 'return':
                    R.check('choice', w, not any(e.kind == 'call' and short(e) in ('create', 'getDefaultTraits') for i in its for e in i.trace), f"a factory is used although the name is refused: {desc(p)}")
                    for i in its:
                        a = [e for e in i.trace if e.kind == 'call' and short(e) == 'isValidMemoryResourceFor']
                        R.check('choice', w, a and all(decide(EQ(e.ret, ZERO), i.facts) is True for e in a) or i.kind in ('break', 'return', 'throw'),
                                f"a name is refused although a factory answers for it: {desc(i)}")
                    continue
                made += 1
                d = [e for e in does if e.ret == p.val or what == 'getDefaultTraits']
                if not R.check('choice', w, d and short(d[0]) == what and sum(1 for e in does if short(e) == 'create') == (what == 'create'), f"yields {pp(p.val)}: {desc(p)}"):
                    continue
                e = d[0]
                R.check('choice', w, all(any(a.obj == x.obj and decide(EQ(a.ret, ZERO), p.facts) is False for a in asks) for x in does), f"the factory used did not answer for the name: {desc(p)}")
                if what == 'create':
                    want = (('init', ('deref', given[0])),) + tuple(given[1:])
                    R.check('choice', w, e.args == want or e.args[:2] == want[:2] and len(e.args) == 3 and len(want) == 2 and e.args[2] in [x.ret for x in does], f"the resource is made with ({', '.join(map(pp, e.args))})")
                # earlier factories did not answer
                for i in its:
                    if i.kind in ('iter', 'continue'):
                        a = [x for x in i.trace if x.kind == 'call' and short(x) == 'isValidMemoryResourceFor']
                        R.check('choice', w, all(decide(EQ(x.ret, ZERO), i.facts) is not False for x in a), f"a factory that answers is passed over: {desc(i)}")
                R.check('choice', w, not backwards(p), 'the factories are searched in another order')
            R.check('choice', w, made, 'no resource is ever made')
    for q in (RM + '::getResourceNames', MRR + '::getResourceNames'):
        fn = C.fn(q, 0)
        for p in C.paths(fn, opaque=('umpire::event::record',)):
            R.check('choice', site(fn), p.kind == 'return' and p.val is not None and 'm_resource_names' in pp(p.val), f"{fn['q']} answers {pp(p.val)}")


def backwards(p):
    return any(x[0] == 'app' and x[1] in ('rbegin', 'rend') for e in p.trace if e.kind == 'call' and e.obj for x in subterms(e.obj))


def kind(C):
    R = C.R
    plat = PLAT
    rty = enum(C, 'umpire::MemoryResourceTraits::resource_type')
    inv = {v: k for k, v in plat.items()}
    ctor = C.fn(MRR + '::MemoryResourceRegistry', 0)
    w = site(ctor)
    for p in C.paths(ctor):
        if p.kind != 'return':
            continue
        facs, advert = [], []
        for e in p.calls():
            if short(e) in ('push_back', 'emplace_back', 'emplace_front', 'push_front', 'insert') and e.args:
                v = e.args[-1]
                front = short(e).endswith('front')
                if v[0] == 'newobj':
                    facs.insert(0, v) if front else facs.append(v)
                elif v[0] == 'str' or v[0] == 'obj':
                    try:
                        advert.append(S.ev(v, {}))
                    except Unk:
                        pass
        if not R.check('kind', w, facs and 'HOST' in advert, f"factories {[pp(f) for f in facs]} for {advert}"):
            continue
        R.check('kind', w, len(set(advert)) == len(advert), f"advertised names {advert}")
        for nm in advert + ['__umpire_internal_null']:
            who = None
            for f in facs:
                fn = C.fns(f[2] + '::isValidMemoryResourceFor')[0]
                o = outcomes(C.paths(fn), {r: nm for r in refs(fn)})
                if o == {('return', 1)} or o == {('return', True)}:
                    who = f[2]
                    break
                if o not in ({('return', 0)}, {('return', False)}):
                    who = '?'
                    break
            if who == '?':
                continue
            if not R.check('kind', w, who, f"no factory answers for {nm!r}"):
                continue
            if nm not in KINDS:
                continue
            pl, tr, _ = KINDS[nm]
            for fn in C.fns(who + '::create'):
                wf = site(fn)
                given = [('param', x['n']) for x in fn['params']]
                for q in C.paths(fn, opaque=HIDE):
                    if q.kind != 'return':
                        continue
                    o = q.val
                    cls = o[2] if o[0] == 'newobj' else None
                    if not R.check('kind', wf, cls, f"yields {pp(o)}"):
                        continue
                    nv, iv, pv = (acc(C, q, o, c) for c in (AS + '::getName', AS + '::getId', cls + '::getPlatform'))
                    R.check('kind', wf, nv == ('init', ('deref', given[0])) or nm.startswith('__') and S_is(nv, nm), f"a resource for {nm} is named {pp(nv)}")
                    R.check('kind', wf, iv == given[1], f"a resource for {nm} has id {pp(iv)}")
                    R.check('kind', wf, pv == INT(plat[pl]), f"a resource for {nm} is on platform {inv.get(pv[1], pp(pv)) if pv and pv[0] == 'int' else pp(pv)}, not {pl}")
                    tv = acc(C, q, o, RES + 'MemoryResource::getTraits')
                    if len(given) > 2:
                        R.check('kind', wf, whole(tv, given[2]), f"a resource for {nm} has traits {pp(tv)[:200]}")
                    elif tr is not None:
                        r = recfields(tv).get('resource') if tv else None
                        R.check('kind', wf, r == INT(rty[tr]), f"a resource for {nm} has traits of kind {pp(r) if r else pp(tv)[:200]}, not {tr}")
                    R.check('kind', wf, cls_answers(C, cls), f"{cls} is used for {nm}")
            fn = C.fn(who + '::getDefaultTraits', 0)
            for q in C.paths(fn):
                if tr is not None:
                    r = recfields(q.val).get('resource')
                    R.check('kind', site(fn), q.kind == 'return' and r == INT(rty[tr]), f"default traits for {nm} are of kind {pp(r) if r else pp(q.val)[:200]}, not {tr}")


def cls_answers(C, cls):
    return bool(C.P.recq.get(cls) or '<' in cls)


def whole(v, g):
    """the value g, or a member-wise copy of it"""
    if v is None:
        return False
    if v == g or v == ('init', ('deref', g)):
        return True
    return v[0] == 'objv' and all(x == proj(g, k) for k, x in v[2])


def S_is(v, s):
    try:
        return S.ev(v, {}) == s
    except Unk:
        return False


def acc(C, p, obj, q):
    """what the accessor q answers for the object made on path p"""
    fs = C.fns(re.sub(r'<.*>', '', q), 0)
    C.R.need(fs, q)
    vs = {x.val for x in C.paths(fs[0]) if x.kind == 'return'}
    if len(vs) != 1:
        return ('str', 'not always the same')
    v = vs.pop()
    if v[0] in ('init', 'addr'):
        return p.get(rebase(v[1], obj))
    return v


def parents(p, o):
    """loop variables that hold the parent of the loop variable o at every iteration"""
    if o[0] != 'loopv':
        return
    for e in loop_events(p):
        if e.extra['id'] != o[1]:
            continue
        ent, y = e.extra['entry'], o[2]
        is_par = lambda v, w, tr: any(c.kind == 'call' and short(c) == 'getParent' and c.ret == v and c.obj == w for c in tr)
        after = lambda i, k: i.mem.get(k, ('init', k))
        for x in ent:
            if x != y and y in ent and is_par(ent[x], ent[y], p.trace) and all(is_par(after(i, x), after(i, y), i.trace) for i in e.iters if i.kind in ('iter', 'continue')):
                yield ('loopv', o[1], x)


def reach(C):
    R = C.R
    plat = PLAT
    todo = []
    for cls, nm in (('MallocAllocator', 'HOST'), ('PosixMemalignAllocator', 'SHARED')):
        todo += [(f, nm) for f in C.fns('umpire::alloc::' + cls + '::isAccessible')] if C.P.byq.get('umpire::alloc::' + cls + '::isAccessible') else []
    for cls, nm in (('FileMemoryResource', 'FILE'), ('HostSharedMemoryResource', 'SHARED'), ('NullMemoryResource', '__umpire_internal_null'), ('NoOpMemoryResource', 'NO_OP')):
        todo += [(f, nm) for f in C.P.byq.get(RES + cls + '::isAccessibleFrom', [])]
    R.need(len(todo) >= 4, 'accessibility answers')
    for fn, nm in todo:
        w = site(fn)
        want = KINDS[nm][2]
        ps = C.paths(fn)
        acs = C.P.byq.get(fn['q'].rsplit('::', 1)[0] + '::getPlatform', [])
        own = {q.val: PLAT[KINDS[nm][0]] for f in acs for q in C.paths(f) if q.val and q.val[0] == 'init'}
        for t, v in sorted(plat.items(), key=lambda x: x[1]):
            prm = fn['params'][0]
            env = dict(own)
            env[('param', prm['n'])] = v
            o = outcomes(ps, env)
            if len(o) == 1 and not isinstance(next(iter(o))[1], tuple):
                R.check('reach', w, o in ({('return', int(t in want))},), f"answers {next(iter(o))[1]} for platform {t}")
            else:
                R.check('reach', w, all(k == 'return' for k, _ in o), f"does not answer for platform {t}")
    for fn in [f for k, v in C.P.byq.items() if k.startswith(RES + 'DefaultMemoryResource') and k.endswith('::isAccessibleFrom') for f in v]:
        w = site(fn)
        for p in C.paths(fn, opaque=tuple(k for k in C.P.byq if k.startswith('umpire::alloc::') and k.endswith('::isAccessible'))):
            c = [e for e in p.calls() if short(e) == 'isAccessible']
            R.check('reach', w, len(c) == 1 and c[0].args == (('param', fn['params'][0]['n']),) and truthy(p.val, p.facts) == truthy(c[0].ret, p.facts) and (p.val == c[0].ret or p.val[0] == 'int'), f"answers {pp(p.val)}: {desc(p)}")
    fn = C.fn('umpire::is_accessible', 2)
    w = site(fn)
    n = 0
    for p in C.paths(fn):
        if p.kind != 'return':
            continue
        n += 1
        ask = [e for e in p.calls() if short(e) == 'isAccessibleFrom']
        par = [e for e in p.calls() if short(e) == 'getParent']
        if not R.check('reach', w, len(ask) == 1 and p.val == ask[0].ret and ask[0].args == (('param', fn['params'][0]['n']),), f"answers {pp(p.val)}: {desc(p)}"):
            continue
        o = ask[0].obj
        while o[0] == 'dyncast':
            o = o[2]
        bottom = any(e.obj == o and decide(EQ(e.ret, ZERO), p.facts) is True for e in par) or any(decide(EQ(x, ZERO), p.facts) is True for x in parents(p, o))
        R.check('reach', w, bottom, f"asks an allocator that is not at the bottom of the chain: {desc(p)}")
        its = [i for e in p.trace if e.kind == 'loop' for i in e.iters]
        R.check('reach', w, all(any(e.kind == 'call' and short(e) == 'getParent' for e in i.trace) for i in its), 'the search does not go from parent to parent')
    R.check('reach', w, n, 'never answers')
