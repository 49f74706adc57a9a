from front import *

TECHNIQUE = ("abstract interpretation of the typed adaptor, instantiated for element types of several sizes; the byte count is decided over element counts around every overflow boundary, "
             "equality over both truth values of the ids")
ASSUMPTIONS = ["the template is uniform in its element type: the instances for char, double and a 16-byte struct stand for all"]
TA = 'umpire::TypedAllocator'
MAXW = 2 ** 64 - 1
NARROW = {'int': 4, 'unsigned int': 4, 'short': 2, 'unsigned short': 2, 'char': 1, 'unsigned char': 1, 'bool': 1}
SIZES = {'double': 8, 'char': 1, 'verif_inst::Payload': 16}


def val(v, env):
    """evaluate() with the unsigned 64-bit constants of the program"""
    e = dict(env)
    for t in subterms(v):
        if t[0] == 'app' and t[1] == 'std::numeric_limits::max':
            e[t] = MAXW
        if t[0] == 'sizeof':
            e[t] = SIZES.get(t[1], 16)
        if t[0] == 'int' and t[1] == -1:
            e[t] = MAXW
    for t in sorted((t for t in subterms(v) if t[0] == 'trunc'), key=lambda t: len(repr(t))):
        e[t] = evaluate(t[2], e) & (1 << 8 * NARROW.get(t[1], t[1] if isinstance(t[1], int) else 8)) - 1
    return evaluate(v, e)


def ok(p, env):
    for a, tv in p.facts.items():
        try:
            if bool(val(a, env)) != tv:
                return False
        except Unk:
            pass
    return True


def run(C):
    R = C.R
    R.rule('bytes', 'room for n elements is exactly n times the element size, obtained once from the allocator')
    R.rule('too-many', 'a count whose size in bytes cannot be represented is refused before anything is allocated')
    R.rule('release', 'the block is released once, with its own address')
    R.rule('same', 'two adaptors are equal exactly when their allocators are the same one')
    R.rule('rebind', 'an adaptor made from an allocator or another adaptor uses that allocator')
    mem = ('fld', ('this',), TA + '::m_allocator')
    fns = C.fns(TA + '::allocate', 1)
    R.need(len(fns) >= 3, 'instances missing')
    for fn in fns:
        size = SIZES.get(fn['rt'].replace(' *', '').replace('*', '').strip())
        R.need(size, f"unknown element type {fn['rt']}")
        n = ('param', fn['params'][0]['n'])
        top = MAXW // size
        ps = C.paths(fn, opaque=(AL + '::allocate',))
        for k in sorted({0, 1, 2, 5, 1000, 2 ** 31, 2 ** 32, 2 ** 32 + 1, top - 1, top, min(MAXW, top + 1), min(MAXW, top + 2), min(MAXW, 2 * top + 2), 2 ** 63, MAXW}):
            hit = 0
            for p in ps:
                if not ok(p, {n: k}):
                    continue
                hit += 1
                w = site(fn)
                cs = [e for e in p.calls() if e.fn == AL + '::allocate']
                if k > top:
                    R.check('too-many', w, p.kind == 'throw' and not cs, f"{k} elements of {size} bytes are accepted")
                    continue
                if not R.check('bytes', w, p.kind == 'return' and len(cs) == 1, f"{k} elements of {size} bytes: {exc_type(p) or p.kind}, {len(cs)} allocations"):
                    continue
                try:
                    b = val(cs[0].args[-1], {n: k}) & MAXW
                except Unk as u:
                    raise Anchor(f"byte count depends on {pp(u.args[0])}")
                R.check('bytes', w, b == k * size and len(cs[0].args) == 1, f"asks for {b} bytes for {k} elements of {size} bytes")
                R.check('bytes', w, p.val == cs[0].ret and cs[0].obj == ('addr', mem), f"returns {pp(p.val)} from {pp(cs[0].obj)}")
            R.expect(hit, f"no path for {k} elements")
    for fn in C.fns(TA + '::deallocate', 2):
        a = ('param', fn['params'][0]['n'])
        for p in C.paths(fn, opaque=(AL + '::deallocate',)):
            cs = [e for e in p.calls() if e.fn == AL + '::deallocate']
            good = len(cs) == 1 and cs[0].args == (a,) and cs[0].obj == ('addr', mem)
            R.check('release', site(fn), p.kind == 'return' and (good or not cs and isnull(a, p.facts) is True), f"releases {[pp(x) for e in cs for x in e.args]}")
    ids = C.accloc(AS + '::getId')[2]
    for op, same in (('operator==', True), ('operator!=', False)):
        got = 0
        for fn in C.fns('umpire::' + op, 2):
            if TA not in fn['params'][0]['t'] or TA not in fn['params'][1]['t']:
                continue
            got += 1
            l, r = (strat(('param', x['n'])) for x in fn['params'])
            lid, rid = (('init', ('fld', x, ids)) for x in (l, r))
            # different ids, different strategies; same id, same strategy
            ln, rn = (('init', ('fld', x, AS + '::m_name')) for x in (l, r))
            try:
                truth_table(C, 'same', fn, [({lid: i, rid: j, l: 100 + i, r: 100 + j, ln: 200 + i, rn: 200 + j}, (i == j) == same) for i in (1, 2, 3) for j in (1, 2, 3)])
            except Anchor as x:
                R.check('same', site(fn), False, f"decided by something other than which allocator it is: {x}")
        R.need(got, f"{op} not found")
    got = 0
    for fn in C.fns(TA + '::TypedAllocator', 1):
        src = fn['params'][0]
        for p in C.paths(fn):
            v = p.get(mem)
            s = ('param', src['n'])
            want = (s,) if TA not in src['t'] else (('init', ('fld', s, TA + '::m_allocator')), ('init', ('fld', ('deref', s), TA + '::m_allocator')))
            got += TA in src['t']
            R.check('rebind', site(fn), v in want, f"uses {pp(v)}")
    R.expect(got, 'rebinding not seen')


def strat(par):
    return ('init', ('fld', ('addr', ('fld', par, TA + '::m_allocator')), AL + '::m_allocator'))
