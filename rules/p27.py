from effects import *

TECHNIQUE = ("trace-partitioned abstract interpretation of the exceptional paths of allocation: what the exception object that leaves the handle contains, "
             "and an effect analysis of which error the memory resources raise for an exhausted system")
ASSUMPTIONS = ["an exhausted malloc, mmap or shared-memory call reports failure by its documented return value"]


def run(C):
    R = C.R
    R.rule('info', 'an out-of-memory error that leaves an allocator carries that allocator\'s id and the requested size')
    R.rule('passed-on', 'no error of an allocation is swallowed or replaced')
    R.rule('reported', 'a memory resource never returns a failed system allocation as memory; it throws an out-of-memory error')
    get = {}
    for q, k in (('get_allocator_id', 'id'), ('requested_size', 'size')):
        get[k] = C.accloc(OOM + '::' + q)[2]
    idloc = C.accloc(AS + '::getId')[2]
    n = 0
    for fn in C.fns(AL + '::allocate'):
        bytes_ = ('param', fn['params'][-1]['n'])
        for ty in (OOM, 'umpire::runtime_error', 'std::bad_alloc'):
            for p in C.paths(fn, opaque=FRONT, throws=throwing(ty, SA, SN)):
                failed = [e for e in p.calls() if e.threw]
                if not failed:
                    continue
                n += 1
                w = site(fn, failed[0])
                if not R.check('passed-on', w, p.kind == 'throw' and exc_type(p) == ty and not contains_obj(p.val), f"a {ty} of the strategy ends as {exc_type(p) or p.kind}"):
                    continue
                if ty == OOM:
                    i = p.mem.get(('fld', p.val, get['id']))
                    s = p.mem.get(('fld', p.val, get['size']))
                    R.check('info', w, i == ('init', ('fld', STRAT, idloc)), f"the error carries allocator id {pp(i)}")
                    R.check('info', w, s == bytes_, f"the error carries size {pp(s)}")
    R.expect(n >= 6, 'failing allocations not seen')
    reported(C)
    R.rule('noexcept', 'no function that promises not to throw, and no destructor, lets an allocation failure out (it would end the program)')
    E = Effects(C.P)
    R.need(len(E.bad) > 30, 'failing allocations do not spread through the call graph')
    for k, f in C.P.fns.items():
        if f['q'].startswith('nlohmann') or not (f.get('nothrow') or f.get('mk') == 'dtor'):
            continue
        R.check('noexcept', site(f), k not in E.bad, f"an allocation failure would end the program: {E.chain(k)}")


def reported(C):
    R = C.R
    RES = 'umpire::resource::'
    quiet = (MM + '::insert', MM + '::erase', MM + '::find', 'umpire::get_page_size', 'umpire::event::record')
    seen = 0
    for q in ('umpire::alloc::MallocAllocator::allocate', 'umpire::alloc::PosixMemalignAllocator::allocate', RES + 'NullMemoryResource::allocate', RES + 'FileMemoryResource::allocate'):
        fn = C.fn(q, 1)
        bytes_ = ('param', fn['params'][0]['n'])
        prim = 0
        for p in C.paths(fn, opaque=quiet):
            w = site(fn)
            ms = [e for e in p.calls() if e.fn in ('malloc', 'mmap', 'posix_memalign', 'aligned_alloc', 'calloc', 'mmap64')]
            for e in ms:
                prim += 1
                got = e.ret if e.fn != 'posix_memalign' else ('out', e.ret[1], 0)
                if e.fn.startswith('mmap'):
                    bad = decide(EQ(got, INT(-1)), p.facts)
                elif e.fn == 'posix_memalign':
                    ok = isnull(e.ret, p.facts)
                    bad = not ok if ok is not None else isnull(got, p.facts)
                else:
                    bad = isnull(got, p.facts)
                if p.kind == 'throw':
                    if bad is True and e.fn == 'malloc':
                        er = [x for a in p.facts for x in subterms(a) if x[0] == 'init' and x[1][0] == 'deref' and x[1][1][0] == 'ret' and x[1][1][2] == '__errno_location']
                        if er and all(decide(EQ(x, INT(12)), p.facts) is True for x in er):
                            R.check('reported', site(fn, e), exc_type(p) == OOM, f"exhausted memory is reported as {exc_type(p)}")
                    continue
                R.check('reported', site(fn, e), bad is False, f"the result of {e.fn} is handed out without telling failure apart: {desc(p)}")
                R.check('reported', site(fn, e), p.val == got, f"hands out {pp(p.val)} instead of what {e.fn} returned")
                n = e.args[{'malloc': 0, 'mmap': 1, 'mmap64': 1, 'posix_memalign': 2}.get(e.fn, 1)]
                R.check('reported', site(fn, e), contains(n, bytes_), f"{e.fn} is asked for {pp(n)}")
            R.check('reported', w, p.kind == 'throw' or len(ms) == 1, f"memory obtained {len(ms)} times on a successful path")
        R.need(prim, f"{q}: no system call found")
        seen += 1
    for fn in C.fns(RES + 'DefaultMemoryResource::allocate', 1):
        sub_ = [f['q'] for f in C.P.fns.values() if f['q'].startswith('umpire::alloc::') and f['q'].endswith('::allocate')]
        for p in C.paths(fn, opaque=tuple(sub_)):
            cs = [e for e in p.calls() if e.fn in sub_]
            R.check('reported', site(fn), len(cs) == 1 and cs[0].args == (('param', fn['params'][0]['n']),) and p.kind == 'return' and p.val == cs[0].ret, f"the resource returns {pp(p.val)}")


def contains_obj(v):
    return any(t[0] == 'obj' for t in subterms(v))
