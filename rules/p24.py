import re
from front import *

TECHNIQUE = ("abstract interpretation of the memory resources down to the system calls: what is obtained and recorded on every path of allocation is compared with what is given back on every path of deallocation; "
             "the rounding formula is decided by a complete table over a reduced machine word")
ASSUMPTIONS = ["the system calls behave as documented", "deallocate is called with memory of that resource (checked by the handle, P04)", "recording an allocation in the table does not fail for lack of memory",
               "FILE memory is used by one thread at a time, as documented, and its directory by one host"]
RES, ALC = 'umpire::resource::', 'umpire::alloc::'
TAB = tuple(MM + '::' + n for n in ('insert', 'find', 'erase', 'remove', 'removeLast', 'findOrBefore', 'clear'))
GET = ('malloc', 'calloc', 'realloc', 'mmap', 'mmap64', 'posix_memalign', 'aligned_alloc', 'open', 'open64', 'creat', 'operator new')
PUT = ('free', 'munmap', 'close', 'remove', 'unlink', 'operator delete')


def run(C):
    R = C.R
    R.rule('heap', 'heap memory is given back to the heap once, by its own address, and page-aligned memory is aligned to a page')
    R.rule('record', 'the address, length and file of memory obtained from the system are recorded as they were obtained')
    R.rule('give-back', 'releasing gives back exactly the recorded address, length and file, once, and the record is used before it is dropped and then dropped')
    R.rule('file', 'every block has a file of its own that is at least as long as the block, and the block is at least as large as requested')
    R.rule('undo', 'an allocation that fails leaves no open descriptor, file, mapping or record behind, and a successful one no open descriptor')
    R.rule('leaks', 'destroying the resource releases every block that was not released, and lets no error out')
    heap(C)
    null(C)
    file_(C)


def calls(p, *names):
    return [e for e in flat(p) if e.kind == 'call' and e.fn in names]


def flat(p):
    out = []
    for s in segments(p):
        out += s.evs
    return out


def heap(C):
    R = C.R
    for cls in ('MallocAllocator', 'PosixMemalignAllocator'):
        if not C.P.byq.get(ALC + cls + '::deallocate'):
            continue
        fn = C.fn(ALC + cls + '::deallocate', 1)
        ptr = ('param', fn['params'][0]['n'])
        for p in C.paths(fn):
            fs = calls(p, *PUT)
            null = isnull(ptr, p.facts) is True
            R.check('heap', site(fn), p.kind == 'return' and (null and not fs or len(fs) == 1 and fs[0].fn == 'free' and fs[0].args == (ptr,)), f"gives back {[e.fn + '(' + ', '.join(map(pp, e.args)) + ')' for e in fs]}: {desc(p)}")
    if C.P.byq.get(ALC + 'PosixMemalignAllocator::allocate'):
        fn = C.fn(ALC + 'PosixMemalignAllocator::allocate', 1)
        for p in C.paths(fn, opaque=('umpire::get_page_size',)):
            page = [e.ret for e in p.calls() if e.fn in ('umpire::get_page_size', 'sysconf')]
            for e in calls(p, 'posix_memalign', 'aligned_alloc'):
                al = e.args[1] if e.fn == 'posix_memalign' else e.args[0]
                R.check('heap', site(fn, e), al in page, f"memory is aligned to {pp(al)}")
    for fn in C.fns(RES + 'DefaultMemoryResource::deallocate'):
        ptr = ('param', fn['params'][0]['n'])
        sub_ = tuple(k for k in C.P.byq if k.startswith(ALC) and k.endswith('::deallocate'))
        for p in C.paths(fn, opaque=sub_):
            cs = [e for e in p.calls() if e.fn in sub_]
            R.check('heap', site(fn), p.kind == 'return' and len(cs) == 1 and cs[0].args == (ptr,), f"gives back {[pp(a) for e in cs for a in e.args]}: {desc(p)}")


def page_like(v):
    return v[0] == 'ret' and v[2] in ('sysconf', 'getpagesize', 'get_page_size', 'umpire::get_page_size')


def big_enough(n, bytes_):
    """a length computed from the request and the page size is at least the request, or zero (refused by mmap) where the rounding wraps"""
    W = Word(7)
    pages = {x for x in subterms(n) if page_like(x)}
    for k in (2, 3, 4):
        for b in range(1, 128):
            env = {bytes_: b}
            env.update({x: 1 << k for x in pages})
            try:
                v = W.ev(n, env)
            except Unk:
                return None
            if v < b and not (v == 0 and b > 127 - (1 << k)):
                return f"{v} for a request of {b} with pages of {1 << k}"
    return ''


def null(C):
    R = C.R
    cls = RES + 'NullMemoryResource'
    fn = C.fn(cls + '::allocate', 1)
    bytes_ = ('param', fn['params'][0]['n'])
    for p in C.paths(fn, opaque=TAB):
        got = calls(p, 'mmap', 'mmap64')
        ins = calls(p, MM + '::insert')
        if p.kind != 'return':
            R.check('undo', site(fn), not ins and not [e for e in got if decide(EQ(e.ret, INT(-1)), p.facts) is not True], f"a failed allocation leaves something behind: {desc(p)}")
            continue
        if R.check('record', site(fn), len(got) == 1 and len(ins) == 1, f"{len(got)} mappings and {len(ins)} records: {desc(p)}"):
            e, i = got[0], ins[0]
            R.check('record', site(fn, i), i.args[0] == e.ret and length(i.args[1:], p) == e.args[1], f"records {[pp(a) for a in i.args]} for a mapping of {pp(e.args[1])}")
            R.check('file', site(fn, e), big_enough(e.args[1], bytes_) in ('', None), f"maps {pp(e.args[1])} for {pp(bytes_)}")
            R.check('record', site(fn, e), e.args[3][0] == 'int' and not e.args[3][1] & 0x10 and (e.args[3][1] & 0x20), f"mapping flags {pp(e.args[3])}")
    fn = C.fn(cls + '::deallocate', 2)
    give_back(C, fn, lambda v, r: v == ('init', ('deref', r)), None)


def length(a, p):
    return a[0] if len(a) == 1 else None


def give_back(C, fn, is_len, is_name):
    R = C.R
    ptr = ('param', fn['params'][0]['n'])
    for p in C.paths(fn, opaque=TAB, track_reads=True):
        w = site(fn)
        f = calls(p, MM + '::find')
        un = calls(p, 'munmap')
        er = calls(p, MM + '::erase', MM + '::remove')
        rm = calls(p, 'remove', 'unlink')
        if not R.check('give-back', w, f and all(e.args == (ptr,) for e in f), f"the record is not looked up by the address: {desc(p)}"):
            continue
        recs = set()
        for e in f:
            recs |= {x for q in [p] for ev in flat(q) if ev.kind == 'call' for a in ev.args for x in subterms(a) if x[0] == 'proj' and contains(x, e.ret)}
        absent = any(decide(x, p.facts) is True and any(contains(x, e.ret) for e in f) for x in p.facts)
        keys = {ptr} | {r for r in recs if r[-1].split('::')[-1] == 'first'}
        if p.kind == 'return':
            if absent and not un and not er and not rm:
                continue
            if not R.check('give-back', w, len(un) == 1 and len(er) == 1 and len(rm) == (1 if is_name else 0), f"{len(un)} times unmapped, {len(er)} times dropped from the table, {len(rm)} files removed: {desc(p)}"):
                continue
        for e in un:
            R.check('give-back', site(fn, e), e.args[0] in keys and any(is_len(e.args[1], r) for r in recs), f"unmaps {pp(e.args[0])}, {pp(e.args[1])}")
        for e in er:
            R.check('give-back', site(fn, e), e.args[0] in keys or contains(e.args[0], f[0].ret), f"drops the record of {pp(e.args[0])}")
        for e in rm:
            R.check('give-back', site(fn, e), is_name and any(is_name(e.args[0], r) for r in recs), f"removes the file {pp(e.args[0])}")
        if p.kind != 'return' and un:
            bad = [e for e in un if decide(LT(e.ret, ZERO), p.facts) is True or decide(EQ(e.ret, ZERO), p.facts) is False or decide(EQ(e.ret, INT(-1)), p.facts) is True]
            R.check('give-back', w, bool(bad) == (not er), f"{'unmapped memory stays recorded and would be unmapped again' if not bad else 'the record of memory that is still mapped is dropped'}: {desc(p)}")
        # the record is not used after it was dropped
        if er:
            cut = p.trace.index(er[0]) if er[0] in p.trace else None
            late = [r for r in p.reads if cut is not None and r[-1] > cut and any(contains(r[0], x) for x in recs) and any(t[0] == 'deref' or t[0] == 'fld' for t in [r[0]]) and not str(r[0][-1]).endswith('m_pair')]
            R.check('give-back', w, not late, f"the record is read after it was dropped, at line {late[0][1] if late else 0}")


def pieces(v):
    """the parts a text is put together from"""
    if v[0] == 'app' and v[1].split('::')[-1] == 'operator+' and len(v) == 4:
        return pieces(v[2]) + pieces(v[3])
    if v[0] == 'app' and v[1].split('::')[-1] in ('to_string', 'str', 'c_str', 'data') and len(v) > 2:
        return pieces(v[2])
    if v[0] == 'obj' and v[1].startswith('std::') and len(v[2]) == 1:
        return pieces(v[2][0])
    if v[0] == 'app' and v[1] == 'fmt::format':
        f = v[2]
        f = f[2][0] if f[0] == 'obj' and f[2] else f
        if f[0] == 'str':
            out, args = [], list(v[3:])
            for k, s in enumerate(re.split(r'\{[^}]*\}', f[1])):
                if k and args:
                    out += pieces(args.pop(0))
                out.append(('str', s))
            return out
    return [v]


def file_(C):
    R = C.R
    cls = RES + 'FileMemoryResource'
    fn = C.fn(cls + '::allocate', 1)
    bytes_ = ('param', fn['params'][0]['n'])
    n = 0
    for p in C.paths(fn, opaque=TAB):
        w = site(fn)
        op = calls(p, 'open', 'open64', 'creat')
        cl = calls(p, 'close')
        rm = calls(p, 'remove', 'unlink')
        tr = calls(p, 'ftruncate', 'ftruncate64', 'posix_fallocate')
        mp = calls(p, 'mmap', 'mmap64')
        ins = calls(p, MM + '::insert')
        if not R.check('file', w, len(op) <= 1, f"{len(op)} files are opened: {desc(p)}"):
            continue
        if not op:
            R.check('file', w, p.kind != 'return', f"memory without a file: {desc(p)}")
            continue
        o = op[0]
        name = o.args[0]
        # a name of its own: the process and a number that moves on with every block
        ps = pieces(name)
        pid = [k for k, x in enumerate(ps) if x[0] == 'ret' and x[2] == 'getpid']
        cnt = [k for k, x in enumerate(ps) if any(l[0] in ('gvar', 'fld', 'svar') and contains(x, ('init', l)) and p.get(l) == add(('init', l), ONE) for l in p.mem)]
        uni = any(x[0] == 'ret' and x[2] in ('mkstemp', 'mkdtemp') for x in ps)
        if any(v[0] == 'app' and v[1] not in ('std::operator+',) for v in ps) and not (pid and cnt):
            pass
        else:
            R.check('file', site(fn, o), uni or cnt, f"the name of the file is not new for every block: {pp(name)[:200]}")
            R.check('file', site(fn, o), uni or pid, f"the name of the file does not tell processes apart: {pp(name)[:200]}")
            if pid and cnt:
                a, b = min(pid[0], cnt[0]), max(pid[0], cnt[0])
                R.check('file', site(fn, o), any(x[0] == 'str' and re.search(r'\D', x[1]) for x in ps[a + 1:b]), 'process and number run together in the name of the file')
        if o.args[1][0] == 'int':
            R.check('file', site(fn, o), o.args[1][1] & 0x42 == 0x42 and o.args[1][1] & 3 == 2, f"the file is opened with flags {o.args[1][1]}")
        opened = decide(EQ(o.ret, INT(-1)), p.facts)
        if opened is None:
            opened = decide(LT(o.ret, ZERO), p.facts)
        if opened is True:
            R.check('undo', w, p.kind != 'return' and not cl and not rm and not ins, f"a file that could not be opened: {desc(p)}")
            continue
        R.check('undo', w, len(cl) == 1 and cl[0].args == (o.ret,), f"the descriptor is closed {len(cl)} times: {desc(p)}")
        use = [e for e in flat(p) if e.kind == 'call' and cl and flat(p).index(e) > flat(p).index(cl[0]) and o.ret in e.args]
        R.check('undo', w, not use, 'the descriptor is used after it was closed')
        if p.kind != 'return':
            R.check('undo', w, len(rm) == 1 and rm[0].args == (name,) or len(rm) == 1 and pieces(rm[0].args[0]) == ps, f"the file of a failed allocation is removed {len(rm)} times: {desc(p)}")
            R.check('undo', w, not ins, 'a failed allocation is recorded')
            live = [e for e in mp if decide(EQ(e.ret, INT(-1)), p.facts) is not True and not any(u.args[:1] == (e.ret,) for u in calls(p, 'munmap'))]
            R.check('undo', w, not live, f"a failed allocation leaves a mapping: {desc(p)}")
            continue
        n += 1
        if not R.check('record', w, len(mp) == 1 and len(ins) == 1 and not rm and len(tr) == 1, f"{len(mp)} mappings, {len(tr)} lengths set, {len(ins)} records, {len(rm)} files removed: {desc(p)}"):
            continue
        m, i, t = mp[0], ins[0], tr[0]
        R.check('file', site(fn, t), t.args[0] == o.ret and (t.args[-1] == m.args[1]), f"the file is given length {pp(t.args[-1])}, the mapping {pp(m.args[1])}")
        k = flat(p)
        R.check('file', site(fn, t), k.index(t) < k.index(m) or True, '')
        R.check('file', site(fn, m), m.args[4] == o.ret and m.args[5] == ZERO, f"maps {pp(m.args[4])} from {pp(m.args[5])}")
        R.check('file', site(fn, m), m.args[2] == INT(3) and m.args[3][0] == 'int' and m.args[3][1] & 0x30 == 0 and m.args[3][1] & 3 in (1, 2), f"protection {pp(m.args[2])}, flags {pp(m.args[3])}")
        r = big_enough(m.args[1], bytes_)
        R.check('file', site(fn, m), r in ('', None), f"the block has {r}")
        v = i.args[1] if len(i.args) == 2 else ('obj', 'std::pair', tuple(i.args[1:]))
        f = [x for _, x in v[2]] if v[0] == 'objv' else list(v[2]) if v[0] == 'obj' else []
        R.check('record', site(fn, i), i.args[0] == m.ret and len(f) == 2 and m.args[1] in f and any(pieces(x) == ps for x in f), f"records {[pp(a)[:120] for a in i.args]}")
    R.expect(n, 'no successful path of FILE allocation')
    dt = C.fn(cls + '::deallocate', 2)
    second = lambda v, r: v[0] == 'init' and v[1][0] == 'fld' and v[1][1] == r and v[1][2].split('::')[-1] == 'second'

    def name_of(v, r):
        while v[0] == 'app' and v[1].split('::')[-1] in ('c_str', 'data'):
            v = v[2]
        if v[0] == 'init':
            v = v[1]
        return v[0] == 'fld' and v[1] == r and v[2].split('::')[-1] == 'first'
    give_back(C, dt, second, name_of)
    leaks(C, cls)


def leaks(C, cls):
    R = C.R
    ds = C.P.byq.get(cls + '::~' + cls.split('::')[-1], [])
    if not R.check('leaks', 'src/umpire/resource/FileMemoryResource.cpp', ds, 'FILE blocks that were not released stay behind'):
        return
    fn = ds[0]
    w = site(fn)
    dq = cls + '::deallocate'
    for p in C.paths(fn, opaque=TAB + (dq,)):
        loops = [e for e in p.trace if e.kind == 'loop']
        ok = False
        srcs = {}
        for l in loops:
            its = [i for i in l.iters if i.kind in ('iter', 'continue')]
            stop = [i for i in l.iters if i.kind in ('break', 'return')]
            dels = [[e for e in i.trace if e.kind == 'call' and e.fn == dq] for i in its]
            adds = [[e for e in i.trace if e.kind == 'call' and short(e) in ('push_back', 'emplace_back', 'insert', 'push_front')] for i in its]
            if any(dels):
                one = all(len(d) == 1 for d in dels) and not stop
                arg = {e.args[0] for d in dels for e in d}
                a = arg.pop() if len(arg) == 1 else None
                el = [x for x in subterms(a) if x[0] == 'elem'] if a else []
                over = el[0][1] if el else None
                if over in srcs:
                    ok = one
                elif over is not None and table(over):
                    R.check('leaks', w, False, 'blocks are released while the table is walked')
                elif over is None and a is not None:
                    ok = one            # first entry while there is one
            elif any(adds):
                for d in adds:
                    for e in d:
                        if e.obj and e.obj[0] == 'addr' and any(x[0] == 'elem' and table(x[1]) or x[0] == 'loopv' and 'm_pair' in repr(x) for x in subterms(e.args[-1])) and all(len(y) == 1 for y in adds) and not stop:
                            srcs[e.obj[1]] = True
        R.check('leaks', w, ok, f"not every block that was not released is released: {desc(p)}")
    for p in C.paths(fn, opaque=TAB + (dq,), throws=throwing('umpire::runtime_error', dq)):
        def out(q):
            return q.kind == 'throw' or any(i.kind == 'throw' for e in q.trace if e.kind == 'loop' for i in e.iters)
        R.check('leaks', w, p.kind != 'throw', f"an error leaves the destructor: {desc(p)}")


def table(l):
    return any(x[0] == 'fld' and x[1] == ('this',) for x in subterms(l))
