"""Trace-partitioned abstract interpretation over the extracted, type-checked program.

Abstract values are value numbers (nested tuples): constants, linear combinations, initial contents of locations,
results of calls kept abstract, and pure applications of those.  An abstract state maps locations to values and keeps
the branch atoms assumed so far, the locks held and the effects (calls, writes) seen.  States are kept partitioned by
the branches taken; a loop is replaced by one arbitrary iteration from a state in which everything the body writes is
unknown.  Calls to functions of the repository are analysed in place, whatever they are named, unless a rule asks for
them to be kept as effects.
"""
import sys
sys.setrecursionlimit(20000)

SIZES = {'char': 1, 'unsigned char': 1, 'signed char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4,
         'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'float': 4,
         'double': 8, 'void': 1, 'std::byte': 1}


class AnalysisError(Exception):
    pass


def INT(n):
    return ('int', n)


ZERO, ONE = INT(0), INT(1)


def strip_cv(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile '):
            if t.startswith(p):
                t = t[len(p):]; ch = True
        for p in (' const', ' volatile', '*const', ' &', '&'):
            if t.endswith(p):
                t = (t[:-len(p)] + ('*' if p == '*const' else '')).strip(); ch = True
    return t


def is_ptr(t):
    return strip_cv(t).endswith('*')


def is_array(t):
    return strip_cv(t).endswith(']')


def is_ref(t):
    return t.rstrip().endswith('&')


def is_unsigned(t):
    t = strip_cv(t)
    return t.startswith('unsigned') or t == 'bool' or t.endswith('*')


def pointee(t):
    t = strip_cv(t)
    if t.endswith('*'):
        return strip_cv(t[:-1])
    if t.endswith(']'):
        return strip_cv(t[:t.rindex('[')])
    return t


def sizeof(t):
    t = strip_cv(t)
    if t.endswith('*'):
        return INT(8)
    if t in SIZES:
        return INT(SIZES[t])
    return ('sizeof', t)


# ---- linear arithmetic on value numbers -------------------------------------------------------------------------
def lin(v):
    """value -> (const, {term: coef})"""
    if v[0] == 'int':
        return v[1], {}
    if v[0] == 'lin':
        return v[1], dict(v[2])
    return 0, {v: 1}


def unlin(c, d):
    d = {k: x for k, x in d.items() if x}
    if not d:
        return INT(c)
    if c == 0 and len(d) == 1:
        (k, x), = d.items()
        if x == 1:
            return k
    return ('lin', c, tuple(sorted(d.items(), key=repr)))


def add(a, b, s=1):
    if a[0] == 'float' or b[0] == 'float':
        return ('op', '+' if s == 1 else '-', a, b)
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for k, x in db.items():
        d[k] = d.get(k, 0) + s * x
    return unlin(ca + s * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if a[0] == 'int':
        a, b = b, a
    if b[0] == 'int':
        c, d = lin(a)
        return unlin(c * b[1], {k: x * b[1] for k, x in d.items()})
    a, b = sorted((a, b), key=repr)
    return ('op', '*', a, b)


def subst(v, m):
    """replace sub-terms of v by the mapping m"""
    if v in m:
        return m[v]
    if not isinstance(v, tuple):
        return v
    if v and v[0] == 'lin':
        r = INT(v[1])
        for k, x in v[2]:
            r = add(r, mul(subst(k, m), INT(x)))
        return r
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in v)


def subterms(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            if isinstance(x, tuple):
                yield from subterms(x)


def contains(v, t):
    return any(x == t for x in subterms(v))


# ---- comparison atoms -------------------------------------------------------------------------------------------
def NOT(v):
    if v[0] == 'not':
        return v[1]
    if v[0] == 'int':
        return ZERO if v[1] else ONE
    return ('not', v)


def EQ(a, b):
    if a[0] == 'int' and b[0] == 'int':
        return ONE if a[1] == b[1] else ZERO
    if a == b:
        return ONE
    a, b = sorted((a, b), key=repr)
    # size() == 0 and empty() are one atom
    return ('==', a, b)


def LT(a, b, unsigned=False):
    if a[0] == 'int' and b[0] == 'int':
        return ONE if a[1] < b[1] else ZERO
    if a == b:
        return ZERO
    if unsigned:
        if a == ZERO:
            return NOT(EQ(b, ZERO))
        if b == ONE:
            return EQ(a, ZERO)
        if b == ZERO:
            return ZERO
    elif b[0] == 'int' and a[0] != 'int':
        pass
    return ('<', a, b)


NONNULL = ('addr', 'newobj', 'this', 'str', 'lambda', 'strobj')


def nonnull(v):
    return v[0] in NONNULL


def same_eq(a, b):
    """x == y and x - y == 0 are the same"""
    if ZERO in (a, b):
        y = b if a == ZERO else a
        if y[0] == 'lin' and y[1] == 0 and len(y[2]) == 2 and sorted(c for t, c in y[2]) == [-1, 1]:
            yield EQ(y[2][0][0], y[2][1][0])
    elif a[0] in TERMS and b[0] in TERMS:
        d = sub(a, b)
        if d[0] == 'lin' and len(d[2]) == 2:
            yield EQ(d, ZERO)
            yield EQ(sub(b, a), ZERO)


TERMS = ('init', 'after', 'param', 'ret', 'loopv', 'app')


def decide(atom, facts):
    """three-valued truth of a canonical atom under the facts (dict atom -> bool)"""
    if atom[0] == 'int':
        return atom[1] != 0
    if atom[0] == 'not':
        r = decide(atom[1], facts)
        return None if r is None else not r
    if atom in facts:
        return facts[atom]
    if atom[0] == '==':
        a, b = atom[1], atom[2]
        if a == ZERO and nonnull(b) or b == ZERO and nonnull(a):
            return False
        for x in same_eq(a, b):
            if x in facts:
                return facts[x]
        if a[0] == 'addr' and b[0] == 'addr' and a != b and a[1][0] == 'var' and b[1][0] == 'var':
            return False
        if facts.get(('<', a, b)) or facts.get(('<', b, a)):
            return False
        # x == c known for another constant
        x, c = (a, b) if b[0] == 'int' else (b, a)
        if c[0] == 'int':
            for f, tv in facts.items():
                if tv and f[0] == '==' and x in f[1:]:
                    o = f[2] if f[1] == x else f[1]
                    if o[0] == 'int' and o != c:
                        return False
                if f[0] == '<' and x in f[1:]:
                    l, r = f[1], f[2]
                    if l == x and r[0] == 'int':
                        if tv and c[1] >= r[1] or not tv and c[1] < r[1]:
                            return False
                    if r == x and l[0] == 'int':
                        if tv and c[1] <= l[1] or not tv and c[1] > l[1]:
                            return False
            if x[0] == 'lin':   # k + sum == c   <=>  sum == c - k
                y = unlin(0, dict(x[2]))
                if y != x:
                    return decide(EQ(y, INT(c[1] - x[1])), facts)
    if atom[0] == '<':
        a, b = atom[1], atom[2]
        if facts.get(('<', b, a)) or facts.get(EQ(a, b)):
            return False
        for x, c, left in ((a, b, True), (b, a, False)):
            if c[0] != 'int':
                continue
            lo, hi = None, None
            for f, tv in facts.items():
                if f[0] == '==' and tv and x in f[1:]:
                    o = f[2] if f[1] == x else f[1]
                    if o[0] == 'int':
                        lo = hi = o[1]
                if f[0] == '<' and f[1] == x and f[2][0] == 'int':
                    if tv: hi = f[2][1] - 1 if hi is None else min(hi, f[2][1] - 1)
                    else: lo = f[2][1] if lo is None else max(lo, f[2][1])
                if f[0] == '<' and f[2] == x and f[1][0] == 'int':
                    if tv: lo = f[1][1] + 1 if lo is None else max(lo, f[1][1] + 1)
                    else: hi = f[1][1] if hi is None else min(hi, f[1][1])
            if left:
                if hi is not None and hi < c[1]: return True
                if lo is not None and lo >= c[1]: return False
            else:
                if lo is not None and lo > c[1]: return True
                if hi is not None and hi <= c[1]: return False
    return None


class Ev:
    """One effect on a path."""
    __slots__ = ('kind', 'fn', 'obj', 'args', 'ret', 'line', 'file', 'locks', 'loc', 'val', 'old', 'iters', 'key', 'extra', 'nfacts', 'func', 'pv', 'threw', 'tw', 'ov')

    def __init__(self, kind, **kw):
        self.kind = kind
        for s in self.__slots__[1:]:
            setattr(self, s, kw.get(s))

    def __repr__(self):
        if self.kind == 'call':
            return f"call {self.fn}({pp(self.obj) if self.obj else ''}; {', '.join(pp(a) for a in self.args)}) -> {pp(self.ret)} @{self.line}"
        if self.kind == 'write':
            return f"write {pp(self.loc)} = {pp(self.val)} @{self.line}"
        if self.kind == 'loop':
            return f"loop @{self.line} x{len(self.iters)}"
        return f"{self.kind} {self.fn or ''} {pp(self.val) if self.val else ''} @{self.line}"


def pp(v):
    if v is None:
        return '-'
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if k == 'int': return str(v[1])
    if k == 'str': return repr(v[1])
    if k == 'this': return 'this'
    if k == 'param': return v[1]
    if k == 'init': return pp(v[1]) + "'0"
    if k == 'ret': return f"{v[2].split('::')[-1]}#{v[1]}"
    if k == 'lin': return '(' + ' + '.join(([str(v[1])] if v[1] else []) + [(pp(t) if c == 1 else f"{c}*{pp(t)}") for t, c in v[2]]) + ')'
    if k == 'fld': return f"{pp(v[1])}->{v[2].split('::')[-1]}"
    if k == 'addr': return '&' + pp(v[1])
    if k == 'var': return f"v{v[1]}.{v[3]}"
    if k == 'deref': return '*' + pp(v[1])
    if k in ('==', '<'): return f"({pp(v[1])} {k} {pp(v[2])})"
    if k == 'not': return '!' + pp(v[1])
    if k == 'op': return f"({pp(v[2])} {v[1]} {pp(v[3])})"
    if k == 'proj': return f"{pp(v[1])}.{v[2].split('::')[-1]}"
    if k == 'elem': return f"{pp(v[1])}[{pp(v[2])}]"
    if k == 'app': return f"{v[1]}({', '.join(pp(x) for x in v[2:])})"
    return '(' + ' '.join(pp(x) for x in v) + ')'


class State:
    __slots__ = ('mem', 'refs', 'facts', 'trace', 'locks', 'ver', 'reads', 'fork')

    def __init__(self):
        self.mem, self.refs, self.facts, self.trace = {}, {}, {}, []
        self.locks, self.ver, self.reads = (), {}, []

    def copy(self):
        s = State()
        s.mem, s.refs, s.facts, s.trace = dict(self.mem), dict(self.refs), dict(self.facts), list(self.trace)
        s.locks, s.ver, s.reads = self.locks, dict(self.ver), list(self.reads)
        return s


class Path:
    """One abstract path through the analysed function: how it ends and everything it did."""

    n0 = 0      # events of the enclosing path before this one

    def __init__(self, kind, val, st, line=None):
        self.kind, self.val, self.line = kind, val, line
        self.mem, self.facts, self.trace, self.reads, self.locks, self.refs, self.ver = st.mem, st.facts, st.trace, st.reads, st.locks, st.refs, st.ver

    def events(self, deep=True, kind=None):
        def walk(tr):
            for e in tr:
                if kind is None or e.kind == kind:
                    yield e
                if deep and e.kind == 'loop':
                    for p in e.iters:
                        yield from walk(p.trace)
        return walk(self.trace)

    def calls(self, *names, deep=True):
        for e in self.events(deep, 'call'):
            if not names or any(e.fn == n or e.fn.endswith('::' + n) for n in names):
                yield e

    def holds(self, atom):
        return decide(atom, self.facts)

    def get(self, loc):
        return self.mem.get(loc, ('init', loc))

    def delta(self, loc):
        return sub(self.get(loc), ('init', loc))

    def desc(self):
        return ' && '.join((('' if tv else '!') + pp(a)) for a, tv in self.facts.items()) or 'always'


class Frame:
    __slots__ = ('fid', 'this', 'dyn', 'fn', 'parent', 'retref', 'names')

    def __init__(self, fid, this, dyn, fn, retref=False):
        self.fid, self.this, self.dyn, self.fn, self.retref = fid, this, dyn, fn, retref


STD_PURE = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'size', 'empty', 'find', 'count', 'lower_bound',
            'upper_bound', 'get', 'data', 'c_str', 'length', 'str', 'what', 'substr', 'compare', 'max_size', 'capacity',
            'has_value', 'find_first_of', 'rfind', 'good', 'is_open', 'fail', 'eof', 'rdbuf', 'operator->', 'operator*', 'operator(conv)', 'operator bool',
            'load', 'joinable', 'bucket_count', 'equal_range'}
LOCKS = {'std::lock_guard', 'std::unique_lock', 'std::scoped_lock'}
NORETURN = {'__assert_fail', 'abort', 'std::abort', 'std::terminate', 'exit', 'std::exit', '_exit', '__builtin_unreachable', '__builtin_trap', '__assert_perror_fail'}
IDENT = {'std::move', 'std::forward', '__builtin_expect', 'std::addressof', 'std::as_const'}


NOISE = ('umpire::util::backtracer', 'umpire::util::flush_files', 'fmt::', 'umpire::util::Logger', 'umpire::replay', 'umpire::util::MPI', 'umpire::runtime_error', 'umpire::error(', 'umpire::log(', 'umpire::error', 'umpire::log',
         'umpire::util::initialize_io', 'umpire::out_of_memory_error', 'umpire::unknown_pointer_error', 'umpire::resource_error')


def noise(f):
    return f.startswith(NOISE) and not ('_error::' in f and f.split('::')[-1].startswith(('set_', 'get_', 'requested')))


class Interp:
    def __init__(self, prog, opaque=(), throws=None, inline_virtual=True, max_paths=6000, max_depth=14, track_reads=False,
                 resolve=None, pure=(), unroll=0, max_steps=400000, noisy=False, havoc=None, inv=None, peel=False):
        self.prog = prog
        self.opaque = opaque if callable(opaque) else (lambda f, names=tuple(opaque): any(f == n or f.endswith('::' + n) for n in names))
        self.pure = pure if callable(pure) else (lambda f, names=tuple(pure): any(f == n or f.endswith('::' + n) for n in names))
        self.throws = throws or (lambda call, fn: False)
        self.max_paths, self.max_depth = max_paths, max_depth
        self.track_reads = track_reads
        self.n = 0
        self.sinks = []
        self.depth = 0
        self.stack = []
        self.resolve = resolve
        self.unroll = unroll
        self.analysed = set()
        self.steps = 0
        self.max_steps = max_steps
        self.warn = []
        self.noise = (lambda f: False) if noisy else noise
        self.noisy = noisy
        self.hav = havoc or {}
        self.peel = peel
        self.inv = inv      # location -> what it holds at entry by an invariant of the data structure, or None

    def fresh(self):
        self.n += 1
        return self.n

    # -- entry --------------------------------------------------------------------------------------------------
    def run(self, fn, dyn=None, args=None, this=('this',), init=None, facts=None):
        st = State()
        if init:
            st.mem.update(init)
        if facts:
            st.facts.update(facts)
        fr = Frame(0, this, dyn or fn.get('cls'), fn, is_ref(fn['rt']))
        for i, p in enumerate(fn['params']):
            v = (args or {}).get(p['n'])
            loc = ('var', 0, p['id'], p['n'])
            if is_ref(p['t']):
                st.refs[(0, p['id'])] = v[1] if v and v[0] == 'addr' else ('deref', v or ('param', p['n'] or f'#{i}'))
            else:
                st.mem[loc] = v or ('param', p['n'] or f'#{i}')
        self.analysed.add(fn['key'])
        self.stack = [fn['key']]
        out = self.body(fn, st, fr)
        return [Path(k, v, s, ln) for (k, s, v, ln) in out]

    def body(self, fn, st, fr):
        """runs a function body; returns outcomes ('return'|'throw', state, value, line)"""
        sink = []
        self.sinks.append(sink)
        states = [st]
        if fn.get('mk') == 'ctor':
            for ini in fn.get('inits', []):
                nxt = []
                for s in states:
                    nxt += self.ctor_init(ini, s, fr)
                states = nxt
        outs = []
        for s in states:
            outs += self.stmt(fn['body'], s, fr) if fn.get('body') else [('normal', s, None, fn['l'])]
        self.sinks.pop()
        res = []
        for k, s, v, ln in outs:
            if k in ('normal', 'return'):
                res.append(('return', s, v, ln or fn['le']))
            else:
                raise AnalysisError(f"stray {k} in {fn['q']}")
        for s, v, ln in sink:
            res.append(('throw', s, v, ln))
        if len(res) > self.max_paths:
            raise AnalysisError(f"too many paths in {fn['q']}: {len(res)}")
        return res

    def ctor_init(self, ini, s, fr):
        if ini.get('f'):
            loc = ('fld', fr.this, ini['f'])
            e = ini['e']
            if e is None:
                return [s]
            fld = self.prog.field(ini['f'])
            if fld and is_ref(fld['t']):
                while e['k'] == 'list' and len(e['a']) == 1:
                    e = e['a'][0]
                r = []
                for s2, l in self.lv(e, s, fr):
                    s2.mem[loc] = ('addr', l)
                    r.append(s2)
                return r
            return self.init_into(loc, e, s, fr, ini.get('l'), fld['t'] if fld else None)
        if ini.get('base') or ini.get('deleg'):
            return [s2 for s2, _ in self.ev(ini['e'], s, fr, into=('deref', fr.this))] if ini['e'] else [s]
        return [s]

    # -- memory -------------------------------------------------------------------------------------------------
    def read(self, loc, st):
        if loc in st.mem:
            return st.mem[loc]
        if loc[0] == 'fld' and loc[1][0] == 'addr':
            base = loc[1][1]
            whole = self.read_whole(base, st)
            if whole is not None:
                return proj(whole, loc[2])
        elif loc[0] == 'fld' and ('deref', loc[1]) in st.mem:
            return proj(st.mem[('deref', loc[1])], loc[2])
        if loc[0] == 'elem':
            w = st.mem.get(loc[1])
            if w is not None and w[0] == 'listv' and isinstance(loc[2], tuple) and loc[2][0] == 'int' and 0 <= loc[2][1] < len(w[1]):
                return w[1][loc[2][1]]
        g = st.mem.get(('*epoch',))
        if g is not None and loc[0] != 'var':
            return ('init', loc, g)
        if self.inv:
            v = self.inv(loc)
            if v is not None:
                return v
        return ('init', loc)

    def read_whole(self, loc, st):
        if loc in st.mem:
            return st.mem[loc]
        if loc[0] == 'fld' and loc[1][0] == 'addr':
            w = self.read_whole(loc[1][1], st)
            if w is not None:
                return proj(w, loc[2])
        elif loc[0] == 'fld' and ('deref', loc[1]) in st.mem:
            return proj(st.mem[('deref', loc[1])], loc[2])
        return None

    def snapshot(self, loc, st):
        """value of a class-typed location, with the fields written so far"""
        base = st.mem.get(loc)
        if base is None:
            base = self.read(loc, st)
        a = self.addrof(loc)
        fl = []
        for k, v in st.mem.items():
            if k[0] == 'fld' and k[1] == a:
                fl.append((k[2], self.snapshot(k, st) if self.has_fields(k, st) else v))
        if fl:
            d = dict(base[2]) if base[0] == 'objv' else {}
            b = base[1] if base[0] == 'objv' else base
            d.update(fl)
            return ('objv', b, tuple(sorted(d.items())))
        return base

    @staticmethod
    def addrof(loc):
        return loc[1] if loc[0] == 'deref' else ('addr', loc)

    def has_fields(self, loc, st):
        a = self.addrof(loc)
        return any(k[0] == 'fld' and k[1] == a for k in st.mem)

    def write(self, loc, val, st, line, fr, silent=False, tw=None):
        a = self.addrof(loc)
        for k in [k for k in st.mem if k[0] == 'fld' and self.rooted(k, a)]:
            del st.mem[k]
        if not silent and not self.local(loc):
            st.trace.append(Ev('write', loc=loc, val=val, old=self.read(loc, st), line=line, file=fr.fn['file'], locks=st.locks, func=fr.fn['q'], nfacts=len(st.facts), tw=tw))
        st.mem[loc] = val

    @staticmethod
    def inner(k, lid):
        """storage of an activation or temporary that began inside the loop"""
        for t in subterms(k):
            if t[0] == 'var' and len(t) == 4:
                if t[1] > lid or (isinstance(t[2], str) and t[2].startswith('tmp') and int(t[2][3:]) > lid):
                    return True
        return False

    @staticmethod
    def local(loc):
        while loc[0] in ('fld', 'elem'):
            b = loc[1]
            if loc[0] == 'fld':
                if b[0] != 'addr':
                    return False
                b = b[1]
            loc = b
        return loc[0] == 'var'

    @staticmethod
    def rooted(k, a):
        while k and k[0] == 'fld':
            if k[1] == a:
                return True
            if k[1][0] != 'addr':
                return False
            k = k[1][1]
        return False

    def assume(self, st, cond, truth):
        """adds cond==truth to st's facts; returns False when contradictory"""
        c = cond
        t = truth
        while c[0] == 'not':
            c, t = c[1], not t
        d = decide(c, st.facts)
        if d is not None:
            return d == t
        st.facts[c] = t
        return True

    def truth(self, v):
        """boolean value number of a scalar value"""
        if v[0] in ('==', '<', 'not', 'bool'):
            return v
        if v[0] == 'int':
            return ONE if v[1] else ZERO
        if nonnull(v):
            return ONE
        if v[0] == 'boolv':
            return v
        return NOT(EQ(v, ZERO))

    def branch(self, v, st):
        """-> [(state, True/False)]"""
        c = self.truth(v)
        d = decide(c, st.facts)
        if d is not None:
            return [(st, d)]
        s2 = st.copy()
        res = []
        if self.assume(st, c, True):
            res.append((st, True))
        if self.assume(s2, c, False):
            res.append((s2, False))
        return res

    # -- statements ---------------------------------------------------------------------------------------------
    def stmt(self, S, st, fr):
        if S is None:
            return [('normal', st, None, None)]
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisError('step budget exceeded')
        k = S['s']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise AnalysisError(f"statement {k} {S.get('c','')} at {fr.fn['file']}:{S.get('l')}")
        return m(S, st, fr)

    def s_log(self, S, st, fr):
        return [('normal', st, None, None)]

    s_null = s_log

    def s_other(self, S, st, fr):
        raise AnalysisError(f"unsupported statement {S.get('c')} at {fr.fn['file']}:{S.get('l')}")

    def s_label(self, S, st, fr):
        return self.stmt(S['b'], st, fr)

    def s_goto(self, S, st, fr):
        raise AnalysisError(f"goto at {fr.fn['file']}:{S.get('l')}")

    def s_expr(self, S, st, fr):
        return [('normal', s, None, None) for s, _ in self.ev(S['e'], st, fr)]

    def s_block(self, S, st, fr, pre=None):
        sink = []
        self.sinks.append(sink)
        scope = list(pre or [])
        live = [(st, scope)]
        done = []
        for sub_ in S['b']:
            nxt = []
            if sub_['s'] == 'decl':
                for s, sc in live:
                    outs = [(s, sc)]
                    for d in sub_['d']:
                        o2 = []
                        for s1, c1 in outs:
                            mark = len(sink)
                            r = self.decl(d, s1, fr)
                            # exceptions raised while initialising unwind what is already in scope
                            for i in range(mark, len(sink)):
                                sink[i] = sink[i] + (c1,) if len(sink[i]) == 3 else sink[i]
                            for s2, cl in r:
                                o2.append((s2, c1 + cl))
                        outs = o2
                    nxt += outs
            else:
                for s, sc in live:
                    mark = len(sink)
                    for k, s2, v, ln in self.stmt(sub_, s, fr):
                        if k == 'normal':
                            nxt.append((s2, sc))
                        else:
                            done.append((k, s2, v, ln, sc))
                    for i in range(mark, len(sink)):
                        sink[i] = sink[i] + (sc,) if len(sink[i]) == 3 else sink[i]
            live = nxt
            if len(live) > self.max_paths:
                raise AnalysisError(f"too many paths in {fr.fn['q']}")
        self.sinks.pop()
        res = []
        for s, sc in live:
            for s2 in self.unwind(sc, s, fr):
                res.append(('normal', s2, None, None))
        for k, s, v, ln, sc in done:
            for s2 in self.unwind(sc, s, fr):
                res.append((k, s2, v, ln))
        for x in sink:
            sc = x[3] if len(x) > 3 else []
            for s2 in self.unwind(sc, x[0], fr):
                self.sinks[-1].append((s2, x[1], x[2]))
        return res

    def unwind(self, scope, st, fr):
        states = [st]
        for kind, what in reversed(scope):
            if kind == 'unlock':
                for s in states:
                    m = s.mem.pop(('lockof', what[1]), None) if what[0] == 'lockvar' else what
                    if m is not None and m in s.locks:
                        l = list(s.locks); l.reverse(); l.remove(m); l.reverse()
                        s.locks = tuple(l)
                        s.trace.append(Ev('unlock', val=m, fn='', line=None, locks=s.locks))
            elif kind == 'dtor':
                key, loc = what
                nxt = []
                fn = self.prog.fn(key)
                for s in states:
                    if fn is None or fn.get('defaulted'):
                        nxt.append(s)
                        continue
                    for s2, _ in self.inline(fn, s, ('addr', loc), fn['cls'], [], fr, fn['l'], nothrow=True):
                        nxt.append(s2)
                states = nxt
        return states

    def decl(self, d, st, fr):
        """-> [(state, cleanups)]"""
        if d.get('static'):
            loc = ('gvar', d['static'])
            st.refs[(fr.fid, d['id'])] = loc
            return [(st, [])]
        loc = ('var', fr.fid, d['id'], d['n'])
        if d.get('ref'):
            res = []
            ini = d['init']
            while ini['k'] == 'list' and len(ini['a']) == 1 and not ini.get('cls'):
                ini = ini['a'][0]
            for s, l in self.lv(ini, st, fr):
                s.refs[(fr.fid, d['id'])] = l
                res.append((s, []))
            return res
        cls = d.get('cls')
        if cls in LOCKS and d['init']:
            st.mem.pop(('lockof', loc), None)
            return [(s, [('unlock', ('lockvar', loc))]) for s in self.lockinit(loc, d['init'], st, fr, d['l'])]
        if d['init'] is None:
            # forget an earlier value of the same variable (loop bodies)
            self.forget(loc, st)
            st.mem[loc] = ('undef', self.fresh())
            return [(st, [])]
        self.forget(loc, st)
        cl = []
        if d.get('dtor') and cls and not cls.startswith('std::'):
            cl = [('dtor', (d['dtor'], loc))]
        return [(s, cl) for s in self.init_into(loc, d['init'], st, fr, d['l'], d['t'], silent=True)]

    def lockinit(self, loc, e, st, fr, line):
        """the lock holder at loc takes over what e constructs"""
        while e['k'] == 'cast' or e['k'] == 'list' and len(e['a']) == 1 or e['k'] == 'ctor' and len(e['a']) == 1 and 'lock' in e['a'][0].get('t', '') and e.get('cls') in LOCKS:
            e = e['e'] if e['k'] == 'cast' else e['a'][0]
        if e['k'] == 'cond':
            res = []
            for s, tv in self.evcond(e['c'], st, fr):
                res += self.lockinit(loc, e['a'] if tv else e['b'], s, fr, line)
            return res
        if e['k'] == 'var' and e.get('id') is not None:
            src = ('var', fr.fid, e['id'], e['n'])
            if ('lockof', src) in st.mem:
                st.mem[('lockof', loc)] = st.mem.pop(('lockof', src))
            return [st]
        if e['k'] != 'ctor' or not e['a']:
            return [st]
        res = []
        for s, l in self.lv(e['a'][0], st, fr):
            tags = ' '.join(a.get('t', '') for a in e['a'][1:])
            s.mem[('lockof', loc)] = l
            if 'defer_lock' in tags:
                res.append(s)
                continue
            if 'try_to_lock' in tags:
                # the other thread may hold it: go on without
                res.append(s.copy())
            if 'adopt_lock' not in tags:
                s.trace.append(Ev('lock', val=l, line=line, file=fr.fn['file'], locks=s.locks, fn='', func=fr.fn['q']))
                s.locks = s.locks + (l,)
            res.append(s)
        return res

    def forget(self, loc, st):
        st.mem.pop(loc, None)
        a = ('addr', loc)
        for k in [k for k in st.mem if k[0] == 'fld' and self.rooted(k, a)]:
            del st.mem[k]

    def init_into(self, loc, e, st, fr, line, t=None, silent=False):
        if e['k'] == 'list' and e.get('cls') and not e['cls'].startswith('std::'):
            states = [st]
            st.mem[loc] = ('objv', ('agg', e['cls']), ())
            base = loc[1] if loc[0] == 'deref' else ('addr', loc)
            for f, x in zip(e['fl'], e['a']):
                nxt = []
                for s in states:
                    nxt += self.init_into(('fld', base, f), x, s, fr, line, silent=True) if x else [s]
                states = nxt
            return states
        if e['k'] == 'list' and is_array(e['t']):
            states = [(st, [])]
            for x in e['a']:
                states = [(s2, vs + [v]) for s, vs in states for s2, v in self.ev(x, s, fr)]
            for s, vs in states:
                s.mem[loc] = ('listv', tuple(vs))
            return [s for s, _ in states]
        if e['k'] == 'list' and not e.get('cls'):
            if len(e['a']) == 1:
                return self.init_into(loc, e['a'][0], st, fr, line, t, silent)
            if not e['a']:
                st.mem[loc] = ZERO
                return [st]
        if e['k'] == 'ctor' and not e.get('copy') and not e['cls'].startswith('std::') and self.inlinable(e, None) and not self.noise(e['fn']):
            return [s for s, _ in self.ev(e, st, fr, into=loc)]
        res = []
        for s, v in self.ev(e, st, fr):
            if v[0] == 'objv' :
                s.mem[loc] = v
            elif silent:
                s.mem[loc] = v
            else:
                self.write(loc, v, s, line, fr)
            res.append(s)
        return res

    def s_decl(self, S, st, fr):
        # a declaration outside a block (rare): no clean-up
        states = [st]
        for d in S['d']:
            states = [s2 for s in states for s2, _ in self.decl(d, s, fr)]
        return [('normal', s, None, None) for s in states]

    def s_ret(self, S, st, fr):
        if S['e'] is None:
            return [('return', st, None, S['l'])]
        if fr.retref:
            return [('return', s, ('addr', l), S['l']) for s, l in self.lv(S['e'], st, fr)]
        out = []
        for s, v in self.ev(S['e'], st, fr):
            out.append(('return', s, v, S['l']))
        return out

    def s_break(self, S, st, fr):
        return [('break', st, None, S['l'])]

    def s_continue(self, S, st, fr):
        return [('continue', st, None, S['l'])]

    def cond(self, S, st, fr):
        if S.get('cv'):
            states = [s for s, _ in self.decl(S['cv'], st, fr)]
        else:
            states = [st]
        res = []
        for s in states:
            res += self.evcond(S['c'], s, fr)
        return res

    def evcond(self, e, st, fr):
        """-> [(state, bool)]"""
        if e['k'] == 'bin' and e['o'] in ('&&', '||'):
            out = []
            for s, b in self.evcond(e['a'], st, fr):
                if (e['o'] == '&&') == b:
                    out += self.evcond(e['b'], s, fr)
                else:
                    out.append((s, b))
            return out
        if e['k'] == 'un' and e['o'] == '!':
            return [(s, not b) for s, b in self.evcond(e['e'], st, fr)]
        out = []
        for s, v in self.ev(e, st, fr):
            out += self.branch(v, s)
        return out

    def s_if(self, S, st, fr):
        res = []
        states = [st]
        if S.get('init'):
            states = [s for k, s, v, l in self.stmt(S['init'], st, fr)]
        for st_ in states:
            for s, b in self.cond(S, st_, fr):
                res += self.stmt(S['a'] if b else S['b'], s, fr)
        return res

    def s_switch(self, S, st, fr):
        body = S['b']['b'] if S['b']['s'] == 'block' else [S['b']]
        # flatten case labels
        items = []      # (labels, stmt)
        for x in body:
            labels = []
            while x and x['s'] in ('case', 'default'):
                labels.append(x['v'] if x['s'] == 'case' else None)
                x = x['b']
            items.append((labels, x))
        res = []
        for s, v in self.ev(S['c'], st, fr):
            rest = s
            default_at = None
            starts = []
            for i, (labels, _) in enumerate(items):
                for lb in labels:
                    if lb is None:
                        default_at = i
                        continue
                    (s1, cv), = self.ev(lb, rest, fr)
                    yes = s1.copy()
                    a = EQ(v, cv)
                    if self.assume(yes, a, True):
                        starts.append((yes, i))
                    if not self.assume(rest, a, False):
                        rest = None
                        break
                if rest is None:
                    break
            if rest is not None:
                starts.append((rest, default_at))
            for s0, i in starts:
                if i is None:
                    res.append(('normal', s0, None, None))
                    continue
                blk = {'s': 'block', 'l': S['l'], 'b': [x for _, x in items[i:] if x]}
                for k, s2, rv, ln in self.stmt(blk, s0, fr):
                    res.append(('normal' if k == 'break' else k, s2, rv, ln))
        return res

    def s_try(self, S, st, fr):
        sink = []
        self.sinks.append(sink)
        res = self.stmt(S['b'], st, fr)
        self.sinks.pop()
        for x in sink:
            s, v, ln = x[0], x[1], x[2]
            caught = False
            for h in S['h']:
                t = h.get('t')
                m = True if t is None else self.catches(strip_cv(t), v)
                if m is False:
                    continue
                s2 = s.copy() if m is None else s
                if h.get('v'):
                    loc = ('var', fr.fid, h['v']['id'], h['v']['n'])
                    if t and is_ref(t):
                        s2.refs[(fr.fid, h['v']['id'])] = ('deref', v)      # the exception object itself
                    else:
                        s2.refs.pop((fr.fid, h['v']['id']), None)
                        s2.mem[loc] = v
                s2.trace.append(Ev('catch', fn=t or '...', val=v, line=h['l'], file=fr.fn['file'], locks=s2.locks))
                saved = getattr(self, 'cur_exc', None)
                self.cur_exc = v
                res += self.stmt(h['b'], s2, fr)
                self.cur_exc = saved
                if m is True:
                    caught = True
                    break
            if not caught:
                self.sinks[-1].append((s, v, ln))
        return res

    def catches(self, t, v):
        """does a handler for type t catch exception value v: True / False / None (perhaps)"""
        ty = v[1] if v[0] == 'exc' else None
        if ty is None or ty == '?':
            return None
        if ty == t or self.prog.derives(ty, t):
            return True
        if self.prog.derives(t, ty):
            return None
        return False

    # loops ------------------------------------------------------------------------------------------------------
    def loop(self, S, st, fr, cond, bodyfn, incfn, first=False):
        """cond: state -> [(state,bool)], bodyfn: state -> outcomes, incfn: state -> [state]"""
        line = S['l']
        res = []
        if first:
            # do-while: the first iteration runs unconditionally, then the general case
            outs = bodyfn(st)
            cont = []
            for k, s, v, ln in outs:
                if k in ('normal', 'continue'):
                    cont.append(s)
                elif k == 'break':
                    res.append(('normal', s, None, None))
                else:
                    res.append((k, s, v, ln))
        else:
            cont = [st]
        for s0 in cont:
            res += self.loop_general(S, s0, fr, cond, bodyfn, incfn, line)
        return res

    def loop_general(self, S, st, fr, cond, bodyfn, incfn, line):
        # discover what the loop writes, to a fixpoint (two rounds suffice: writes only grow through havocked pointers)
        written, vers = set(), set()
        lid = self.fresh()
        rounds = 0
        while True:
            rounds += 1
            s = self.havoc(st, written, vers, lid, fr)
            base = s.copy()
            iters, exits, leaves = self.one_iter(s, cond, bodyfn, incfn)
            nw, nv = set(), set()
            for p in iters:
                for k, v in p.mem.items():
                    if base.mem.get(k) != v and not self.inner(k, lid):
                        nw.add(k)
                for k, v in p.ver.items():
                    if base.ver.get(k, 0) != v:
                        nv.add(k)
                for k in base.mem:
                    if k not in p.mem:
                        nw.add(k)
            if nw <= written and nv <= vers:
                break
            written |= nw
            vers |= nv
            if rounds > 4:
                self.warn.append(f"loop at {fr.fn['file']}:{line} did not stabilise")
                break
        n0 = len(st.trace)
        if self.peel:
            # leave from the entry or from the end of an iteration, as it left things, instead of from the arbitrary head
            last = self.last
            exits = [s1 for s1, b in cond(st.copy()) if not b] + last
        for p in iters:
            p.trace = p.trace[n0:]
            p.n0 = n0
        ev = Ev('loop', iters=iters, line=line, file=fr.fn['file'], locks=st.locks, extra={'id': lid, 'written': written, 'entry': {k: st.mem.get(k, ('init', k)) for k in written}}, func=fr.fn['q'])
        res = []
        for e in exits:
            e.trace.insert(n0, ev)
            res.append(('normal', e, None, None))
        for k, s, v, ln in leaves:
            s.trace.insert(n0, ev)
            if k == 'break':
                res.append(('normal', s, None, None))
            elif k == 'throw*':
                self.sinks[-1].append((s, v, ln))
            else:
                res.append((k, s, v, ln))
        return res

    def one_iter(self, s, cond, bodyfn, incfn):
        iters, exits, leaves, last = [], [], [], []
        sink = []
        self.sinks.append(sink)
        for s1, b in cond(s):
            if not b:
                exits.append(s1)
                continue
            for k, s2, v, ln in bodyfn(s1):
                if k in ('normal', 'continue'):
                    for s3 in incfn(s2):
                        if not self.peel:
                            iters.append(Path('iter', None, s3))
                            continue
                        for s4, b2 in cond(s3):
                            if b2:
                                iters.append(Path('iter', None, s4))
                            else:
                                last.append(s4)
                else:
                    leaves.append((k, s2, v, ln))
        self.sinks.pop()
        self.last = last
        for x in sink:
            leaves.append(('throw*', x[0], x[1], x[2]))
        return iters, exits, leaves

    def havoc(self, st, written, vers, lid, fr):
        s = st.copy()
        for k in written:
            if k[0] in ('lockof', '*epoch'):
                continue
            s.mem[k] = ('loopv', lid, k)
        for k in vers:
            s.ver[k] = ('loopver', lid)
        # facts about havocked memory stay valid: value numbers are immutable
        return s

    def s_while(self, S, st, fr):
        return self.loop(S, st, fr, lambda s: self.cond(S, s, fr), lambda s: self.stmt(S['b'], s, fr), lambda s: [s])

    def s_do(self, S, st, fr):
        return self.loop(S, st, fr, lambda s: self.cond(S, s, fr), lambda s: self.stmt(S['b'], s, fr), lambda s: [s], first=True)

    def s_for(self, S, st, fr):
        pre = [(st, [])]
        if S['i'] and S['i']['s'] == 'decl':
            for d in S['i']['d']:
                pre = [(s2, c + cl) for s, c in pre for s2, cl in self.decl(d, s, fr)]
        elif S['i']:
            pre = [(s, []) for k, s, v, ln in self.stmt(S['i'], st, fr)]
        res = []
        for s0, cl in pre:
            c = (lambda s: self.evcond(S['c'], s, fr)) if S['c'] else (lambda s: [(s, True)])
            inc = (lambda s: [x for x, _ in self.ev(S['n'], s, fr)]) if S['n'] else (lambda s: [s])
            res += self.loop(S, s0, fr, c, lambda s: self.stmt(S['b'], s, fr), inc)
        return res

    def s_range(self, S, st, fr):
        res = []
        r = S['r']
        while r['k'] == 'cast' or r['k'] == 'ctor' and 'initializer_list' in r.get('cls', '') and len(r['a']) == 1:
            r = r['e'] if r['k'] == 'cast' else r['a'][0]
        if r['k'] == 'list' and 1 <= len(r.get('a', [])) <= 6 and not r.get('cls') and not S['v'].get('ref'):      # a list written out: its elements one after another
            d = S['v']
            states = [(st, [])]
            for x in r['a']:
                states = [(s2, vs + [v]) for s, vs in states for s2, v in self.ev(x, s, fr)]
            loc = ('var', fr.fid, d['id'], d['n'])
            for s0, vs in states:
                cur = [s0]
                for v in vs:
                    nxt = []
                    for s in cur:
                        self.forget(loc, s)
                        s.mem[loc] = v
                        for k, s2, v2, ln in self.stmt(S['b'], s, fr):
                            if k in ('normal', 'continue'):
                                nxt.append(s2)
                            elif k == 'break':
                                res.append(('normal', s2, None, None))
                            else:
                                res.append((k, s2, v2, ln))
                    cur = nxt
                res += [('normal', s, None, None) for s in cur]
            return res
        for s0, l in self.lv(S['r'], st, fr):
            lid = self.fresh()

            def cond(s):
                a = s
                b = s.copy()
                return [(a, True), (b, False)]

            def body(s, l=l, lid=lid):
                el = ('elem', l, ('each', lid))
                d = S['v']
                if d.get('ref'):
                    s.refs[(fr.fid, d['id'])] = el
                    ss = [s]
                else:
                    loc = ('var', fr.fid, d['id'], d['n'])
                    self.forget(loc, s)
                    s.mem[loc] = self.read(el, s)
                    ss = [s]
                return [o for x in ss for o in self.stmt(S['b'], x, fr)]
            outs = self.loop(S, s0, fr, cond, body, lambda s: [s])
            for k, s, v, ln in outs:
                for e in s.trace:
                    if e.kind == 'loop' and e.line == S['l'] and e.extra is not None and 'range' not in e.extra:
                        e.extra['range'] = l
            res += outs
        return res

    # -- lvalues ------------------------------------------------------------------------------------------------
    def lv(self, e, st, fr):
        k = e['k']
        if k == 'var':
            r = st.refs.get((fr.fid, e['id']))
            if r is None and fr.fid != 0 and getattr(fr, 'names', None):
                pass
            if r is not None:
                return [(st, r)]
            return [(st, ('var', fr.fid, e['id'], e['n']))]
        if k == 'gvar':
            return [(st, ('gvar', e['n']))]
        if k == 'mem':
            out = []
            if e['arrow']:
                for s, p in self.ev(e['b'], st, fr):
                    out.append((s, ('fld', p, e['f'])))
            else:
                for s, l in self.lv(e['b'], st, fr):
                    out.append((s, ('fld', l[1], e['f']) if l[0] == 'deref' else ('fld', ('addr', l), e['f'])))
            if e.get('ref'):
                out = [(s, self.deref(self.read(l, s))) for s, l in out]
            return out
        if k == 'un' and e['o'] == '*':
            return [(s, self.deref(p)) for s, p in self.ev(e['e'], st, fr)]
        if k == 'this':
            return [(st, ('var', fr.fid, 'this', 'this'))]
        if k == 'idx':
            out = []
            for s, p in self.ev(e['a'], st, fr):
                for s2, i in self.ev(e['i'], s, fr):
                    if p[0] == 'addr' and is_array(e['a'].get('t', '')):
                        out.append((s2, ('elem', p[1], i)))
                    else:
                        out.append((s2, self.deref(add(p, mul(i, sizeof(pointee(e['a']['t'])))))))
            return out
        if k == 'cast':
            if e.get('lv'):
                return self.lv(e['e'], st, fr)
            return self.tmp(e, st, fr)
        if k == 'cond' and e.get('lv'):
            out = []
            for s, b in self.evcond(e['c'], st, fr):
                out += self.lv(e['a'] if b else e['b'], s, fr)
            return out
        if k == 'bin' and (e['o'] == '=' or (e['o'].endswith('=') and e['o'] not in ('==', '!=', '<=', '>='))):
            out = []
            for s, _ in self.ev(e, st, fr):
                out += self.lv(e['a'], s, fr)
            return out
        if k == 'bin' and e['o'] == ',':
            return [x for s, _ in self.ev(e['a'], st, fr) for x in self.lv(e['b'], s, fr)]
        if k == 'un' and e['o'] in ('++', '--') and not e['post']:
            return [x for s, _ in self.ev(e, st, fr) for x in self.lv(e['e'], s, fr)]
        if k == 'call' and e.get('lv'):
            out = []
            for s, v in self.call(e, st, fr, wantref=True):
                out.append((s, self.deref(v)))
            return out
        if k == 'opaque':
            return self.lv(e['e'], st, fr)
        return self.tmp(e, st, fr)

    def tmp(self, e, st, fr):
        loc = ('var', fr.fid, f"tmp{self.fresh()}", 'tmp')
        if e['k'] in ('ctor', 'list'):
            return [(s, loc) for s in self.init_into(loc, e, st, fr, e['l'], silent=True)]
        out = []
        for s, v in self.ev(e, st, fr):
            s.mem[loc] = v
            out.append((s, loc))
        return out

    @staticmethod
    def deref(p):
        if p[0] == 'addr':
            return p[1]
        return ('deref', p)

    # -- rvalues ------------------------------------------------------------------------------------------------
    def ev(self, e, st, fr, into=None):
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisError('step budget exceeded')
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise AnalysisError(f"expression {e['k']} {e.get('c','')} at {fr.fn['file']}:{e.get('l')}")
        if e['k'] in ('ctor',):
            return m(e, st, fr, into)
        if e['k'] == 'call' and into is not None:
            return m(e, st, fr)
        return m(e, st, fr)

    def rd(self, e, st, fr):
        out = []
        for s, l in self.lv(e, st, fr):
            if is_array(e['t']):
                out.append((s, ('addr', l)))
                continue
            if self.track_reads and l[0] != 'var':
                s.reads.append((l, e['l'], fr.fn['file'], s.locks, fr.fn['q'], len(s.trace)))
            v = self.snapshot(l, s) if self.has_fields(l, s) else self.read(l, s)
            out.append((s, v))
        return out

    def e_var(self, e, st, fr):
        if e.get('cv') is not None and (fr.fid, e['id']) not in st.refs and ('var', fr.fid, e['id'], e['n']) not in st.mem:
            return [(st, INT(int(e['cv'])))]
        return self.rd(e, st, fr)

    def e_gvar(self, e, st, fr):
        if e.get('cv') is not None:
            return [(st, INT(int(e['cv'])))]
        return self.rd(e, st, fr)

    def e_mem(self, e, st, fr):
        return self.rd(e, st, fr)

    e_idx = e_mem

    def e_int(self, e, st, fr):
        return [(st, INT(int(e['v'])))]

    def e_bool(self, e, st, fr):
        return [(st, ONE if e['v'] else ZERO)]

    def e_enum(self, e, st, fr):
        return [(st, INT(int(e['v'])))]

    def e_float(self, e, st, fr):
        v = e['v']
        return [(st, ('float', v))]

    def e_str(self, e, st, fr):
        return [(st, ('str', e['v']))]

    def e_null(self, e, st, fr):
        return [(st, ZERO)]

    e_zero = e_null

    def e_this(self, e, st, fr):
        return [(st, fr.this)]

    def e_typeid(self, e, st, fr):
        return [(st, ('typeid', e['l']))]

    def e_sizeof(self, e, st, fr):
        t = strip_cv(e['of'])
        return [(st, sizeof(t))]

    def e_fnref(self, e, st, fr):
        return [(st, ('fnref', e['fn'], e['key']))]

    def e_lambda(self, e, st, fr):
        return [(st, ('lambda', id(e), fr.fid, self.keep(e, fr)))]

    def keep(self, e, fr):
        i = len(self.prog.lambdas)
        self.prog.lambdas.append((e, fr))
        return i

    def e_opaque(self, e, st, fr):
        return self.ev(e['e'], st, fr)

    def e_stmtexpr(self, e, st, fr):
        out = []
        for k, s, v, ln in self.stmt(e['b'], st, fr):
            out.append((s, ('undef', self.fresh())))
        return out

    def e_other(self, e, st, fr):
        if e.get('c') == 'PseudoObjectExpr' or e.get('c') == 'CXXPseudoDestructorExpr':
            return [(st, ZERO)]
        states = [(st, [])]
        for x in e.get('a', []):
            states = [(s2, vs + [v]) for s, vs in states for s2, v in self.ev(x, s, fr)]
        return [(s, ('other', e['c'], tuple(vs))) for s, vs in states]

    def e_atomic(self, e, st, fr):
        states = [(st, [])]
        for x in e['a']:
            states = [(s2, vs + [v]) for s, vs in states for s2, v in self.ev(x, s, fr)]
        out = []
        for s, vs in states:
            r = ('ret', self.fresh(), 'atomic')
            s.trace.append(Ev('call', fn='__atomic', key='', obj=None, args=tuple(vs), ret=r, line=e['l'], file=fr.fn['file'], locks=s.locks, func=fr.fn['q'], nfacts=len(s.facts)))
            out.append((s, r))
        return out

    def e_list(self, e, st, fr):
        if e.get('cls') and not e['cls'].startswith('std::'):
            loc = ('var', fr.fid, f"tmp{self.fresh()}", 'tmp')
            return [(s, self.snapshot(loc, s)) for s in self.init_into(loc, e, st, fr, e['l'], silent=True)]
        if not e['a'] and not e.get('cls') and not is_array(e['t']):
            return [(st, ZERO)]
        if len(e['a']) == 1 and not e.get('cls') and not is_array(e['t']):
            return self.ev(e['a'][0], st, fr)
        states = [(st, [])]
        for x in e['a']:
            states = [(s2, vs + [v]) for s, vs in states for s2, v in self.ev(x, s, fr)]
        return [(s, ('listv', tuple(vs))) for s, vs in states]

    def e_cast(self, e, st, fr):
        ck = e['ck']
        out = []
        if ck in ('PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            for s, v in self.ev(e['e'], st, fr):
                out.append((s, self.truth(v)))
            return out
        if ck == 'NullToPointer':
            return [(st, ZERO)]
        if ck == 'ToVoid':
            return [(s, ZERO) for s, _ in self.ev(e['e'], st, fr)]
        if ck == 'LValueBitCast':
            return self.rd(e['e'], st, fr)
        for s, v in self.ev(e['e'], st, fr):
            if ck == 'IntegralCast' and v[0] != 'int' and v[0] not in ('==', '<', 'not'):
                ft, tt = SIZES.get(strip_cv(e['ft'])), SIZES.get(strip_cv(e['t']))
                if ft and tt and tt < ft:
                    v = ('trunc', strip_cv(e['t']), v)
                elif strip_cv(e['ft']) == 'int' and tt == 8 or ft == tt or (ft and tt and tt > ft):
                    pass
            elif ck in ('IntegralToFloating', 'FloatingCast'):
                v = v if v[0] != 'int' else ('float', float(v[1]))
            elif ck == 'FloatingToIntegral':
                v = ('f2i', v)
            elif ck == 'IntegralCast' and v[0] == 'int':
                t = strip_cv(e['t'])
                if t.startswith('unsigned') and t in SIZES and v[1] < 0:
                    v = INT(v[1] + (1 << (8 * SIZES[t])))
            elif ck == 'Dynamic':
                v = ('dyncast', strip_cv(e['t']), v)
            out.append((s, v))
        return out

    def e_cond(self, e, st, fr):
        if e.get('lv') and not is_array(e['t']):
            return self.rd(e, st, fr)
        out = []
        for s, b in self.evcond(e['c'], st, fr):
            out += self.ev(e['a'] if b else e['b'], s, fr)
        return out

    def e_un(self, e, st, fr):
        o = e['o']
        if o == '&':
            sub_ = e['e']
            if sub_['k'] == 'fnref':
                return self.ev(sub_, st, fr)
            return [(s, l[1] if l[0] == 'deref' else ('addr', l)) for s, l in self.lv(sub_, st, fr)]
        if o == '*':
            return self.rd(e, st, fr)
        if o == '!':
            return [(s, NOT(self.truth(v))) for s, v in self.ev(e['e'], st, fr)]
        if o == '-':
            return [(s, sub(ZERO, v) if v[0] != 'float' else ('float', -v[1])) for s, v in self.ev(e['e'], st, fr)]
        if o == '~':
            return [(s, ('~', v)) for s, v in self.ev(e['e'], st, fr)]
        if o in ('++', '--'):
            out = []
            for s, l in self.lv(e['e'], st, fr):
                old = self.read(l, s)
                step = ONE
                if is_ptr(e['e']['t']):
                    step = sizeof(pointee(e['e']['t']))
                new = add(old, step, 1 if o == '++' else -1)
                self.write(l, new, s, e['l'], fr)
                out.append((s, old if e['post'] else new))
            return out
        if o in ('__extension__',):
            return self.ev(e['e'], st, fr)
        raise AnalysisError(f"unary {o} at {fr.fn['file']}:{e['l']}")

    def arith(self, o, a, b, ta, tb, t):
        if o == '+':
            if is_ptr(ta) or is_array(ta):
                return add(a, mul(b, sizeof(pointee(ta))))
            if is_ptr(tb) or is_array(tb):
                return add(b, mul(a, sizeof(pointee(tb))))
            return add(a, b)
        if o == '-':
            if is_ptr(ta) and is_ptr(tb):
                d = sub(a, b)
                z = sizeof(pointee(ta))
                return d if z == ONE else ('op', '/', d, z)
            if is_ptr(ta):
                return add(a, mul(b, sizeof(pointee(ta))), -1)
            return sub(a, b)
        if o == '*':
            return mul(a, b)
        if a[0] == 'int' and b[0] == 'int':
            x, y = a[1], b[1]
            try:
                if o == '/': return INT(int(x / y) if x * y < 0 else x // y)
                if o == '%': return INT(x % y if x >= 0 and y > 0 else int(x - y * int(x / y)))
                if o == '<<': return INT(x << y)
                if o == '>>': return INT(x >> y)
                if o == '&': return INT(x & y)
                if o == '|': return INT(x | y)
                if o == '^': return INT(x ^ y)
            except (ZeroDivisionError, ValueError):
                pass
        if o in ('&', '|', '^'):
            a, b = sorted((a, b), key=repr)
        return ('op', o, a, b)

    def compare(self, o, a, b, ta, tb):
        u = is_unsigned(ta) or is_unsigned(tb)
        if o == '==': r = EQ(a, b)
        elif o == '!=': r = NOT(EQ(a, b))
        elif o == '<': r = LT(a, b, u)
        elif o == '>': r = LT(b, a, u)
        elif o == '<=': r = NOT(LT(b, a, u))
        else: r = NOT(LT(a, b, u))
        # bool == const
        return r

    def e_bin(self, e, st, fr):
        o = e['o']
        if o in ('&&', '||'):
            return [(s, ONE if b else ZERO) for s, b in self.evcond(e, st, fr)]
        if o == ',':
            return [x for s, _ in self.ev(e['a'], st, fr) for x in self.ev(e['b'], s, fr)]
        if o == '=':
            out = []
            for s, v in self.ev(e['b'], st, fr):
                for s2, l in self.lv(e['a'], s, fr):
                    self.write(l, v, s2, e['l'], fr, tw=strip_cv(e['a']['t']))
                    out.append((s2, v))
            return out
        if o.endswith('=') and o not in ('==', '!=', '<=', '>='):
            out = []
            for s, v in self.ev(e['b'], st, fr):
                for s2, l in self.lv(e['a'], s, fr):
                    if self.track_reads and l[0] != 'var':
                        s2.reads.append((l, e['l'], fr.fn['file'], s2.locks, fr.fn['q'], len(s2.trace)))
                    nv = self.arith(o[:-1], self.read(l, s2), v, e['a']['t'], e['b']['t'], e['t'])
                    self.write(l, nv, s2, e['l'], fr)
                    out.append((s2, nv))
            return out
        out = []
        for s, a in self.ev(e['a'], st, fr):
            for s2, b in self.ev(e['b'], s, fr):
                if o in ('==', '!=', '<', '>', '<=', '>='):
                    out.append((s2, self.compare(o, a, b, e['a']['t'], e['b']['t'])))
                else:
                    out.append((s2, self.arith(o, a, b, e['a']['t'], e['b']['t'], e['t'])))
        return out

    def e_throw(self, e, st, fr):
        if e['e'] is None:
            v = getattr(self, 'cur_exc', None) or ('exc', '?', 0)
            st.trace.append(Ev('throw', fn='rethrow', val=v, line=e['l'], file=fr.fn['file'], locks=st.locks))
            self.sinks[-1].append((st, v, e['l']))
            return []
        for s, v in self.ev(e['e'], st, fr):
            x = ('exc', strip_cv(e['tt']), v)
            s.trace.append(Ev('throw', fn=strip_cv(e['tt']), val=x, line=e['l'], file=fr.fn['file'], locks=s.locks, func=fr.fn['q']))
            self.sinks[-1].append((s, x, e['l']))
        return []

    def e_new(self, e, st, fr):
        states = [(st, [])]
        for x in e['place']:
            states = [(s2, vs + [v]) for s, vs in states for s2, v in self.ev(x, s, fr)]
        out = []
        for s, pl in states:
            if pl:
                p = pl[0]
            else:
                p = ('newobj', self.fresh(), strip_cv(e['nt']))
            cnt = None
            ss = [s]
            if e.get('n'):
                ss = []
                for s2, c in self.ev(e['n'], s, fr):
                    cnt = c
                    ss.append(s2)
            for s1 in ss:
                s1.trace.append(Ev('call', fn='operator new' if not pl else 'placement new', key='', obj=None, args=(p, cnt) if cnt else (p,), ret=p, line=e['l'], file=fr.fn['file'], locks=s1.locks, extra=strip_cv(e['nt']), func=fr.fn['q'], nfacts=len(s1.facts)))
                if e['init'] is not None:
                    for s2 in self.init_into(self.deref(p), e['init'], s1, fr, e['l']):
                        out.append((s2, p))
                else:
                    out.append((s1, p))
        return out

    def e_delete(self, e, st, fr):
        out = []
        for s, p in self.ev(e['e'], st, fr):
            s.trace.append(Ev('call', fn='operator delete', key='', obj=None, args=(p,), ret=ZERO, line=e['l'], file=fr.fn['file'], locks=s.locks, func=fr.fn['q'], nfacts=len(s.facts)))
            out.append((s, ZERO))
        return out

    # constructors ----------------------------------------------------------------------------------------------
    def e_ctor(self, e, st, fr, into=None):
        cls = e['cls']
        if e.get('copy') and len(e['a']) == 1:
            src = e['a'][0]
            if src.get('lv'):
                return self.rd(src, st, fr)
            return self.ev(src, st, fr)
        if self.noise(e['fn']):
            states = [(st, [])]
            for x in e['a']:
                states = [(s2, vs + [v]) for s, vs in states for s2, v in self.ev(x, s, fr)]
            return [(s, ('obj', cls, tuple(vs))) for s, vs in states]
        fn = self.prog.fn(e['key'])
        if fn is not None and self.inlinable(e, fn) and not self.opaque(e['fn']):
            loc = into or ('var', fr.fid, f"tmp{self.fresh()}", 'tmp')
            this = loc[1] if loc[0] == 'deref' else ('addr', loc)
            if into is None or loc[0] in ('var', 'fld', 'elem'):
                st.mem[loc] = ('objv', ('ctor', cls), ())
            out = []
            for s, args in self.args(e, st, fr):
                for s2, _ in self.inline(fn, s, this, cls, args, fr, e['l']):
                    out.append((s2, self.snapshot(loc, s2)))
            return out
        states = [(st, [])]
        for x in e['a']:
            states = [(s2, vs + [v]) for s, vs in states for s2, v in self.ev(x, s, fr)]
        out = []
        for s, vs in states:
            if cls == 'std::pair' and len(vs) == 1:
                v = vs[0]
            elif cls == 'std::pair' and len(vs) == 2:
                v = ('objv', ('ctor', cls), (('std::pair::first', vs[0]), ('std::pair::second', vs[1])))
            elif cls == 'std::basic_string' or cls.endswith('basic_string'):
                # a text with a length (the defaulted allocator argument is not one)
                v = ('str', '') if not vs else ('app', 'std::string', vs[0], vs[1]) if len(e['a']) > 1 and e['a'][1].get('t') in ('int', 'unsigned long', 'long', 'unsigned int') and vs[0] != ('str', '') else vs[0]
            elif cls.startswith('std::') and len(vs) == 1 and cls in ('std::unique_ptr', 'std::shared_ptr', 'std::function', 'std::basic_string', 'std::reference_wrapper', 'std::optional', 'std::atomic', '__gnu_cxx::__normal_iterator', 'std::_Rb_tree_const_iterator'):
                v = vs[0]
            elif 'iterator' in cls and len(vs) == 1:
                v = vs[0]
            elif cls == 'std::unique_ptr' and not vs:
                v = ZERO
            elif cls == 'std::unique_ptr' and len(vs) == 2:
                v = vs[0]
            elif cls == 'std::tuple':
                v = ('tuplev', tuple(vs))
            else:
                v = ('obj', cls, tuple(vs))
            if not cls.startswith('std::'):
                s.trace.append(Ev('call', fn=e['fn'], key=e['key'], obj=('addr', into) if into else None, args=tuple(vs), ret=v, line=e['l'], file=fr.fn['file'], locks=s.locks, func=fr.fn['q'], nfacts=len(s.facts)))
            if into is not None and into[0] != 'deref':
                s.mem[into] = v
            out.append((s, v))
        return out

    def inlinable(self, e, fn):
        fn = fn or self.prog.fn(e.get('key'))
        if fn is None:
            return False
        if fn.get('body') is None and not fn.get('inits'):
            return False
        return True

    # calls -----------------------------------------------------------------------------------------------------
    def args(self, e, st, fr):
        """evaluates arguments by the parameter kinds; reference parameters get ('addr', loc)"""
        pts = e.get('pt', [])
        states = [(st, [])]
        for i, x in enumerate(e['a']):
            ref = i < len(pts) and is_ref(pts[i])
            nxt = []
            for s, vs in states:
                if ref:
                    for s2, l in self.lv(x, s, fr):
                        nxt.append((s2, vs + [l[1] if l[0] == 'deref' else ('addr', l)]))
                else:
                    for s2, v in self.ev(x, s, fr):
                        nxt.append((s2, vs + [v]))
            states = nxt
        return states

    def inline(self, fn, st, this, dyn, args, fr, line, nothrow=False):
        """-> [(state, value)]; exceptions go to the current sink"""
        if fn['key'] in self.stack:
            # recursion: the inner activation is summarised by an unknown result
            r = ('ret', self.fresh(), fn['q'])
            st.trace.append(Ev('call', fn=fn['q'], key=fn['key'], obj=this, args=tuple(args), ret=r, line=line, file=fr.fn['file'], locks=st.locks, func=fr.fn['q'], nfacts=len(st.facts), extra=tuple(args), pv=()))
            return [(st, r)]
        if self.depth >= self.max_depth:
            raise AnalysisError(f"inlining bound reached at {fn['q']}")
        fid = self.fresh()
        nf = Frame(fid, this, dyn, fn, is_ref(fn['rt']))
        for p, v in zip(fn['params'], args):
            if is_ref(p['t']):
                st.refs[(fid, p['id'])] = self.deref(v)
            else:
                st.mem[('var', fid, p['id'], p['n'])] = v
        self.analysed.add(fn['key'])
        self.stack.append(fn['key'])
        self.depth += 1
        saved = getattr(self, 'cur_exc', None)
        outs = self.body(fn, st, nf)
        self.depth -= 1
        self.stack.pop()
        res = []
        for k, s, v, ln in outs:
            if k == 'return':
                res.append((s, v if v is not None else ZERO))
            else:
                self.sinks[-1].append((s, v, ln))
        return res

    def inline_lambda(self, lamv, st, args, line):
        e, fr = self.prog.lambdas[lamv[3]]
        if e.get('body') is None:
            return None
        nf = Frame(fr.fid, fr.this, fr.dyn, {'file': fr.fn['file'], 'q': fr.fn['q'] + '::(lambda)', 'l': e['l'], 'le': e['l'], 'rt': '', 'key': 'lambda', 'body': e['body']}, False)
        for p, v in zip(e['params'], args):
            if is_ref(p['t']):
                st.refs[(fr.fid, p['id'])] = self.deref(v) if v[0] == 'addr' else ('deref', v)
            else:
                st.mem[('var', fr.fid, p['id'], p['n'])] = v
        self.depth += 1
        outs = self.body(nf.fn, st, nf)
        self.depth -= 1
        res = []
        for k, s, v, ln in outs:
            if k == 'return':
                res.append((s, v if v is not None else ZERO))
            else:
                self.sinks[-1].append((s, v, ln))
        return res

    def e_call(self, e, st, fr):
        out = []
        for s, v in self.call(e, st, fr):
            if e.get('lv') and v[0] != 'novalue':
                l = self.deref(v)
                if is_array(e['t']):
                    out.append((s, v))
                else:
                    if self.track_reads and l[0] != 'var':
                        s.reads.append((l, e['l'], fr.fn['file'], s.locks, fr.fn['q'], len(s.trace)))
                    out.append((s, self.snapshot(l, s) if self.has_fields(l, s) else self.read(l, s)))
            else:
                out.append((s, v))
        return out

    def call(self, e, st, fr, wantref=False):
        """-> [(state, value)]; for a call yielding a glvalue the value is the address"""
        fn = e.get('fn')
        if fn is None:
            return self.call_indirect(e, st, fr)
        short = fn.split('::')[-1]
        if fn in NORETURN:
            return []
        if fn in IDENT:
            l = self.lv(e['a'][0], st, fr)
            return [(s, x[1] if x[0] == 'deref' else ('addr', x)) for s, x in l] if e.get('lv') else self.ev(e['a'][0], st, fr)
        if self.opaque(fn):
            return self.effect(e, st, fr)
        if self.noise(fn):
            states = [(st, [])]
            for x in e['a']:
                states = [(s2, vs + [v]) for s, vs in states for s2, v in self.ev(x, s, fr)]
            out = []
            for s, vs in states:
                v = ('app', fn) + tuple(vs)
                if e.get('lv'):
                    v = ('addr', ('deref', v))
                out.append((s, v))
            return out
        target = None
        obj = e.get('obj')
        if short == 'operator=' and fn.startswith('std::unique_lock') and obj is not None and len(e['a']) == 1:
            res = []
            for s, l in self.lv(obj, st, fr):
                m = s.mem.pop(('lockof', l), None)
                if m is not None and m in s.locks:
                    s.locks = tuple(x for x in s.locks if x != m)
                res += [(s2, ('addr', l)) for s2 in self.lockinit(l, e['a'][0], s, fr, e['l'])]
            return res
        std = fn.startswith('std::') or fn.startswith('__gnu') or fn.startswith('fmt::')
        if not std:
            target = self.prog.fn(e['key'])
        if '::(lambda)::' in fn:
            target = None
        if obj is not None:
            # receiver
            res = []
            recv = []
            if e.get('ot', '').endswith('*') or is_ptr(e.get('ot', '')) :
                for s, p in self.ev(obj, st, fr):
                    recv.append((s, p))
            else:
                for s, l in self.lv(obj, st, fr):
                    recv.append((s, l[1] if l[0] == 'deref' else ('addr', l)))
            for s, p in recv:
                tgt = target
                dyn = None
                if e.get('virt') and not e.get('nonvirt'):
                    tgt = None
                    if p == fr.this and fr.dyn:
                        tgt = self.prog.override(fr.dyn, e['key'])
                        dyn = fr.dyn
                    if tgt is None and self.resolve:
                        tgt = self.resolve(p, e, s)
                        dyn = tgt['cls'] if tgt else None
                    if tgt is not None and self.opaque(tgt['q']):
                        tgt = None
                elif p == fr.this:
                    dyn = fr.dyn
                if tgt is not None and tgt.get('body') is not None and not tgt.get('defaulted'):
                    for s2, args in self.args(e, s, fr):
                        if e.get('static'):
                            p2 = None
                        res += self.inline(tgt, s2, p, dyn or tgt.get('cls'), args, fr, e['l'])
                elif std or '::(lambda)::' in fn or fn.startswith('camp::'):
                    res += self.std_method(e, s, fr, p, short)
                elif tgt is not None and tgt.get('defaulted') and short == 'operator=':
                    for s2, v in self.ev(e['a'][0], s, fr):
                        self.write(self.deref(p), v, s2, e['l'], fr)
                        res.append((s2, p))
                elif short == 'operator=' and target is None and len(e['a']) == 1 and not e.get('virt'):
                    for s2, v in self.ev(e['a'][0], s, fr):
                        self.write(self.deref(p), v, s2, e['l'], fr)
                        res.append((s2, p))
                else:
                    res += self.effect(e, s, fr, recv=p)
            return res
        if target is not None and target.get('body') is not None:
            res = []
            for s, args in self.args(e, st, fr):
                res += self.inline(target, s, fr.this if target.get('cls') else None, target.get('cls'), args, fr, e['l'])
            return res
        if std or fn.startswith('camp::'):
            return self.std_func(e, st, fr, fn, short)
        return self.effect(e, st, fr)

    def call_indirect(self, e, st, fr):
        res = []
        for s, c in (self.ev(e['callee'], st, fr) if e.get('callee') else [(st, ('unknown',))]):
            for s2, args in self.args(e, s, fr):
                if c[0] == 'lambda':
                    r = self.inline_lambda(c, s2, args, e['l'])
                    if r is not None:
                        res += r
                        continue
                if c[0] == 'fnref' and self.prog.fn(c[2]):
                    res += self.inline(self.prog.fn(c[2]), s2, None, None, args, fr, e['l'])
                    continue
                res += self.record(e, s2, fr, '(indirect)', c, tuple(args))
        return res

    def effect(self, e, st, fr, recv=None):
        """a call kept abstract: an event, an unknown result, perhaps an exception"""
        res = []
        states = [(st, recv)]
        if recv is None and e.get('obj') is not None:
            if is_ptr(e.get('ot', '')):
                states = self.ev(e['obj'], st, fr)
            else:
                states = [(s, l[1] if l[0] == 'deref' else ('addr', l)) for s, l in self.lv(e['obj'], st, fr)]
        for s, p in states:
            for s2, args in self.args(e, s, fr):
                res += self.record(e, s2, fr, e['fn'], p, tuple(args))
        return res

    def record(self, e, s, fr, fn, obj, args):
        pts = e.get('pt', [])
        if fn in ('memcpy', 'std::memcpy') and len(args) == 3 and args[2][0] == 'int' and args[2][1] in (1, 2, 4, 8) \
                and any(a[0] == 'addr' and a[1][0] == 'var' for a in args[:2]):
            # the portable way of writing *dst = *src for a scalar
            if self.track_reads and self.deref(args[1])[0] != 'var':
                s.reads.append((self.deref(args[1]), e['l'], fr.fn['file'], s.locks, fr.fn['q'], len(s.trace)))
            v = self.read(self.deref(args[1]), s)
            self.write(self.deref(args[0]), v, s, e['l'], fr, tw={1: 'unsigned char', 2: 'unsigned short', 4: 'unsigned int', 8: 'unsigned long'}[args[2][1]])
            return [(s, args[0])]
        vals = []
        for i, a in enumerate(args):
            # reference parameters are reported by value when the referent is known
            if i < len(pts) and is_ref(pts[i]):
                l = self.deref(a)
                v = self.snapshot(l, s) if self.has_fields(l, s) else self.read(l, s)
                vals.append(v)
            else:
                vals.append(a)
        if self.pure(fn):
            r = ('app', fn, obj or ZERO) + tuple(vals)
            return [(s, r)]
        pv = tuple((self.snapshot(a[1], s) if self.has_fields(a[1], s) else self.read(a[1], s)) if a[0] == 'addr' else None for a in args)
        r = self.sameslot(fn, args, pv, s) or ('ret', self.fresh(), fn)
        ov = (self.snapshot(obj[1], s) if self.has_fields(obj[1], s) else self.read(obj[1], s)) if obj and obj[0] == 'addr' and obj[1][0] == 'var' else None
        ev = Ev('call', fn=fn, key=e.get('key', ''), obj=obj, args=tuple(vals), ret=r, line=e['l'], file=fr.fn['file'], locks=s.locks, func=fr.fn['q'], nfacts=len(s.facts), extra=args, pv=pv, ov=ov)
        thr = self.throws(e, fn)
        if thr:
            s2 = s.copy()
            x = Ev('call', fn=fn, key=e.get('key', ''), obj=obj, args=tuple(vals), ret=None, line=e['l'], file=fr.fn['file'], locks=s.locks, func=fr.fn['q'], nfacts=len(s.facts), extra=args, threw=True, pv=pv, ov=ov)
            s2.trace.append(x)
            self.sinks[-1].append((s2, ('exc', thr if isinstance(thr, str) else '?', r), e['l']))
        s.trace.append(ev)
        if fn in self.hav:
            for f in self.hav[fn]:
                l = ('fld', obj, f)
                s.mem[l] = ('after', r[1], l)
                s.ver[l] = ('h', r[1])
        # out-parameters: anything reachable through a non-const reference or pointer to known storage becomes unknown
        for i, a in enumerate(args):
            t = pts[i] if i < len(pts) else ''
            if a[0] == 'addr' and 'const' not in t.split('*')[0].split('&')[0] and (is_ref(t) or is_ptr(t) or t == ''):
                l = a[1]
                if l[0] in ('var', 'fld', 'elem') and not (is_ref(t) and t.endswith('&&')):
                    self.forget(l, s)
                    s.mem[l] = ('out', r[1], i)
        return [(s, r)]

    def sameslot(self, fn, args, pv, s):
        """the cell of a key stays where it is until an entry is added or deleted: looking the same key up again finds the same"""
        if fn not in ('judy_slot', 'judy_cell') or len(pv) < 2 or pv[1] is None:
            return None
        for e in reversed(s.trace):
            if e.kind == 'loop' or e.kind == 'call' and e.fn in ('judy_del', 'judy_open', 'judy_close'):
                return None
            if e.kind == 'call' and e.fn in ('judy_slot', 'judy_cell') and e.args and e.args[0] == args[0]:
                if e.pv[1] == pv[1]:
                    if fn == 'judy_slot' or e.fn == 'judy_cell' or decide(EQ(e.ret, ZERO), s.facts) is False:
                        return e.ret
                    if decide(EQ(e.ret, ZERO), s.facts) is True:      # a cell made for a key that had none is empty
                        r = ('ret', self.fresh(), fn)
                        s.facts[EQ(r, ZERO)] = False
                        s.facts[EQ(('init', ('deref', r)), ZERO)] = True
                        return r
                    return None
                if e.fn == 'judy_cell':
                    return None
        return None

    # the standard library ---------------------------------------------------------------------------------------
    def std_method(self, e, st, fr, p, short):
        loc = self.deref(p)
        res = []
        lockm = {'lock': 1, 'unlock': 0, 'lock_shared': 1, 'unlock_shared': 0}
        if short in lockm and ('mutex' in e['fn'] or 'unique_lock' in e['fn'] or 'scoped_lock' in e['fn']):
            m = st.mem.get(('lockof', loc), loc)
            if lockm[short]:
                st.trace.append(Ev('lock', val=m, line=e['l'], file=fr.fn['file'], locks=st.locks, fn='', func=fr.fn['q']))
                st.locks = st.locks + (m,)
            else:
                l = list(st.locks)
                if m in l:
                    l.remove(m)
                st.locks = tuple(l)
                st.trace.append(Ev('unlock', val=m, line=e['l'], file=fr.fn['file'], locks=st.locks, fn=''))
            return [(st, ZERO)]
        if ('lockof', loc) in st.mem and short in ('owns_lock', 'operator bool'):
            return [(st, ONE if st.mem[('lockof', loc)] in st.locks else ZERO)]
        if short in ('try_lock', 'try_lock_for', 'try_lock_until') and ('mutex' in e['fn'] or 'unique_lock' in e['fn']):
            m = st.mem.get(('lockof', loc), loc)
            s0 = st.copy()
            st.trace.append(Ev('lock', val=m, line=e['l'], file=fr.fn['file'], locks=st.locks, fn='', func=fr.fn['q']))
            st.locks = st.locks + (m,)
            return [(st, ONE), (s0, ZERO)]
        if not self.noisy and e['fn'].startswith('std::basic_ostream::') and short in ('operator<<', 'flush', 'put', 'write') and not (loc[0] == 'var' and is_sink(st.mem.get(loc))):
            states = [(st, ())]
            for x in e['a']:
                states = [(s2, ()) for s, _ in states for s2, v in self.ev(x, s, fr)]
            return [(s, p) for s, _ in states]
        cur = st.mem.get(loc)
        if short == 'operator=' and len(e['a']) == 1:
            for s, v in self.ev(e['a'][0], st, fr):
                if cur is None:
                    cur2 = self.read(loc, s)
                else:
                    cur2 = cur
                if cur2[0] == 'tie':
                    for i, l in enumerate(cur2[1]):
                        self.write(l, tproj(v, i), s, e['l'], fr)
                elif 'atomic' in e['fn']:
                    self.write(loc, v, s, e['l'], fr)
                    s.trace.append(Ev('call', fn=e['fn'], key='', obj=p, args=(v,), ret=ZERO, line=e['l'], file=fr.fn['file'], locks=s.locks, func=fr.fn['q'], nfacts=len(s.facts)))
                else:
                    self.write(loc, v, s, e['l'], fr)
                    s.ver[loc] = ('w', self.fresh())
                res.append((s, p))
            return res
        if short in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            for s, v in self.ev(e['a'][0], st, fr):
                res.append((s, self.compare(short[8:], self.read(loc, s), v, '', '')))
            return res
        if short in ('operator->', 'get') and ('unique_ptr' in e['fn'] or 'shared_ptr' in e['fn']):
            return [(st, self.read(loc, st))]
        if short == 'operator*' and ('unique_ptr' in e['fn'] or 'shared_ptr' in e['fn']):
            return [(st, self.read(loc, st))]
        if short in ('operator++', 'operator--', 'operator+=') and ('iterator' in e['fn']):
            old = self.read(loc, st)
            if short == 'operator+=':
                for s, v in self.ev(e['a'][0], st, fr):
                    self.write(loc, ('app', 'next', old) if v == ('int', 1) else ('app', 'advance', old, v), s, e['l'], fr)
                    res.append((s, p))
                return res
            new = ('app', 'next' if short != 'operator--' else 'prev', old)
            self.write(loc, new, st, e['l'], fr)
            st.trace.append(Ev('step', loc=loc, val=new, old=old, line=e['l'], file=fr.fn['file'], locks=st.locks, func=fr.fn['q'], nfacts=len(st.facts)))
            return [(st, p if e.get('lv') else old)]
        if short in ('operator->', 'operator*'):
            v = self.read(loc, st)
            if v[0] == 'app' and v[1] == 'iter':
                return [(st, v[2])]
            return [(st, ('app', 'at', v))]
        if short == 'operator()' :
            v = self.read(loc, st)
            if v[0] == 'lambda':
                for s, args in self.args(e, st, fr):
                    r = self.inline_lambda(v, s, args, e['l'])
                    if r is None:
                        res += self.record(e, s, fr, e['fn'], p, tuple(args))
                    else:
                        res += r
                return res
            for s, args in self.args(e, st, fr):
                res += self.record(e, s, fr, e['fn'], p, tuple(args))
            return res
        if short in ('operator[]', 'at') :
            for s, args in self.args(e, st, fr):
                k = args[0]
                if e.get('pt') and is_ref(e['pt'][0]):
                    k = self.read(self.deref(k), s)
                if 'map' in e['fn']:
                    s.trace.append(Ev('call', fn=e['fn'], key='', obj=p, args=(k,), ret=('addr', ('elem', loc, k)), line=e['l'], file=fr.fn['file'], locks=s.locks, func=fr.fn['q'], nfacts=len(s.facts)))
                res.append((s, ('addr', ('elem', loc, k))))
            return res
        if self.track_reads and loc[0] != 'var':
            st.reads.append((loc, e['l'], fr.fn['file'], st.locks, fr.fn['q'], len(st.trace)))
        if short in ('operator(conv)', 'load') and 'atomic' in e['fn']:
            st.trace.append(Ev('call', fn=e['fn'], key='', obj=p, args=(), ret=self.read(loc, st), line=e['l'], file=fr.fn['file'], locks=st.locks, func=fr.fn['q'], nfacts=len(st.facts)))
            return [(st, self.read(loc, st))]
        if short in ('operator(conv)', 'operator bool') and ('unique_ptr' in e['fn'] or 'shared_ptr' in e['fn'] or 'function' in e['fn']):
            return [(st, self.truth(self.read(loc, st)))]
        if short in STD_PURE and not (short == 'rdbuf' and e['a']) or (e.get('const') and short not in ('notify_one',)):
            for s, args in self.args(e, st, fr):
                if short == 'copy' and 'basic_string' in e['fn']:      # writes through its argument
                    s.trace.append(Ev('call', fn=e['fn'], key='', obj=p, args=tuple(args), ret=('ret', self.fresh(), e['fn']), line=e['l'], file=fr.fn['file'], locks=s.locks, func=fr.fn['q'], nfacts=len(s.facts)))
                vals = []
                for i, a in enumerate(args):
                    if i < len(e.get('pt', [])) and is_ref(e['pt'][i]):
                        l = self.deref(a)
                        vals.append(self.snapshot(l, s) if self.has_fields(l, s) else self.read(l, s))
                    else:
                        vals.append(a)
                ver = s.ver.get(loc, 0)
                base = s.mem.get(loc)
                ob = base if base is not None and base[0] in ('ret', 'param', 'str', 'init', 'app', 'elem', 'loopv', 'proj') and loc[0] == 'var' and ver == 0 else loc
                if short == 'empty':
                    r = EQ(('app', 'size', ob, ('ver', ver)), ZERO)
                elif short in ('cbegin', 'cend'):
                    r = ('app', short[1:], ob, ('ver', ver))
                elif short == 'length':
                    r = ('app', 'size', ob, ('ver', ver))
                elif short in ('c_str', 'str', 'data') and 'string' in e['fn'] and base is not None:
                    r = base
                else:
                    r = ('app', short, ob, ('ver', ver)) + tuple(vals)
                res.append((s, r))
            return res
        if short in ('front', 'back', 'top'):
            el = ('elem', loc, ('at', short, st.ver.get(loc, 0)))
            return [(st, ('addr', el))]
        # a mutating method
        for s, args in self.args(e, st, fr):
            vals = []
            for i, a in enumerate(args):
                if i < len(e.get('pt', [])) and is_ref(e['pt'][i]):
                    l = self.deref(a)
                    vals.append(self.snapshot(l, s) if self.has_fields(l, s) else self.read(l, s))
                else:
                    vals.append(a)
            if loc[0] == 'var' and vals and (short in ('operator+=', 'append') and 'basic_string' in e['fn'] or short == 'operator<<' and is_sink(s.mem.get(loc))):
                s.mem[loc] = ('app', 'std::operator+', self.read(loc, s), vals[0])
                res.append((s, p))
                continue
            r = ('ret', self.fresh(), e['fn'])
            s.trace.append(Ev('call', fn=e['fn'], key='', obj=p, args=tuple(vals), ret=r, line=e['l'], file=fr.fn['file'], locks=s.locks, func=fr.fn['q'], nfacts=len(s.facts), extra=tuple(args)))
            if short == 'release' and 'unique_ptr' in e['fn']:
                v = self.read(loc, s)
                self.write(loc, ZERO, s, e['l'], fr)
                res.append((s, v))
                continue
            if short == 'reset' and 'unique_ptr' in e['fn']:
                self.write(loc, vals[0] if vals else ZERO, s, e['l'], fr)
            if short == 'store' and 'atomic' in e['fn']:
                self.write(loc, vals[0], s, e['l'], fr)
            if short == 'swap' and len(args) == 1:
                l2 = self.deref(args[0])
                a, b = self.read(loc, s), self.read(l2, s)
                self.write(loc, b, s, e['l'], fr)
                self.write(l2, a, s, e['l'], fr)
            s.ver[loc] = r[1]
            thr = self.throws(e, e['fn'])
            if thr:
                s2 = s.copy()
                self.sinks[-1].append((s2, ('exc', thr if isinstance(thr, str) else '?', r), e['l']))
            res.append((s, p if (e.get('lv') and short.startswith('operator')) else r))
        return res

    def algorithm(self, name, e, st, fr, l, end, f, dest=None):
        """a standard algorithm over a whole container with a lambda: the loop it stands for"""
        el = ('elem', l, ('each', self.fresh())) if l[0] != 'ret' else ('deref', ('app', 'cursor', l, ('each', self.fresh())))
        if name == 'remove_if':
            probe = self.inline_lambda(f, st.copy(), [('addr', el)], e['l'])
            r = ('app', 'removed', l, ('ver', st.ver.get(l, 0)), ('ret', self.fresh(), 'std::remove_if'))
            st.trace.append(Ev('call', fn='std::remove_if', key='', obj=('addr', l), args=(), ret=r, line=e['l'], file=fr.fn['file'], locks=st.locks, func=fr.fn['q'], nfacts=len(st.facts), extra=[(el, s2.facts, v) for s2, v in probe]))
            return [(st, r)]
        out = ('var', fr.fid, f'algo{self.fresh()}', 'found')
        default = {'any_of': ZERO, 'all_of': ONE, 'none_of': ONE, 'find_if': end, 'for_each': ZERO, 'copy_if': ZERO, 'transform': ZERO}[name]
        hit = {'any_of': ONE, 'all_of': ZERO, 'none_of': ZERO, 'find_if': ('app', 'iter', ('addr', el))}.get(name)
        st.mem[out] = default

        def cond(s):
            return [(s, True), (s.copy(), False)]

        def body(s):
            res = []
            for s2, v in self.inline_lambda(f, s, [('addr', el)], e['l']):
                if name == 'transform':
                    r = ('ret', self.fresh(), 'push_back')
                    s2.trace.append(Ev('call', fn='std::vector::push_back', key='', obj=('addr', dest), args=(v,), ret=r, line=e['l'], file=fr.fn['file'], locks=s2.locks, func=fr.fn['q'], nfacts=len(s2.facts)))
                    s2.ver[dest] = r[1]
                    res.append(('normal', s2, None, None))
                    continue
                if name == 'copy_if':
                    for s3, t in self.branch(v, s2):
                        if t:
                            r = ('ret', self.fresh(), 'push_back')
                            s3.trace.append(Ev('call', fn='std::vector::push_back', key='', obj=('addr', dest), args=(self.snapshot(el, s3) if self.has_fields(el, s3) else self.read(el, s3),), ret=r, line=e['l'], file=fr.fn['file'], locks=s3.locks, func=fr.fn['q'], nfacts=len(s3.facts), extra=(('addr', el),)))
                            s3.ver[dest] = r[1]
                        res.append(('normal', s3, None, None))
                    continue
                if hit is None:
                    res.append(('normal', s2, None, None))
                    continue
                for s3, t in self.branch(v, s2):
                    if t == (name != 'all_of'):
                        s3.mem[out] = hit
                        if name == 'find_if':
                            s3.facts[EQ(hit, end)] = False
                        res.append(('break', s3, None, None))
                    else:
                        res.append(('normal', s3, None, None))
            return res
        outs = self.loop({'l': e['l']}, st, fr, cond, body, lambda s: [s])
        for k, s, v, ln in outs:
            for x in s.trace:
                if x.kind == 'loop' and x.line == e['l'] and x.extra is not None and 'range' not in x.extra:
                    x.extra['range'] = l
        return [(s, s.mem[out]) for k, s, v, ln in outs]

    def std_func(self, e, st, fr, fn, short):
        res = []
        if fn == 'std::make_pair' and len(e['a']) == 2:
            for s, a in self.ev(e['a'][0], st, fr):
                for s2, b in self.ev(e['a'][1], s, fr):
                    res.append((s2, ('objv', ('ctor', 'std::pair'), (('std::pair::first', a), ('std::pair::second', b)))))
            return res
        if fn == 'std::make_tuple':
            states = [(st, [])]
            for x in e['a']:
                states = [(s2, vs + [v]) for s, vs in states for s2, v in self.ev(x, s, fr)]
            return [(s, ('tuplev', tuple(vs))) for s, vs in states]
        if fn == 'std::tie':
            states = [(st, [])]
            for x in e['a']:
                states = [(s2, ls + [l]) for s, ls in states for s2, l in self.lv(x, s, fr)]
            return [(s, ('tie', tuple(ls))) for s, ls in states]
        if fn in ('std::next', 'std::prev') and e['a']:
            out = []
            for s, a in self.args(e, st, fr):
                out.append((s, ('app', fn[5:], a[0]) if len(a) == 1 or a[1] == ('int', 1) else ('app', fn, *a)))
            return out
        if fn in ('std::min', 'std::max') and len(e['a']) == 2:
            out = []
            for s, a in self.ev(e['a'][0], st, fr):
                for s2, b in self.ev(e['a'][1], s, fr):
                    d = decide(LT(a, b, True), s2.facts)
                    if d is not None:
                        v = a if d == (short == 'min') else b
                    else:
                        x, y = sorted((a, b), key=repr)
                        v = ('app', fn, x, y)
                    if e.get('lv'):
                        l = ('var', fr.fid, f"tmp{self.fresh()}", 'tmp')
                        s2.mem[l] = v
                        v = ('addr', l)
                    out.append((s2, v))
            return out
        if fn == 'std::swap' and len(e['a']) == 2:
            for s, a in self.lv(e['a'][0], st, fr):
                for s2, b in self.lv(e['a'][1], s, fr):
                    va, vb = self.read(a, s2), self.read(b, s2)
                    self.write(a, vb, s2, e['l'], fr)
                    self.write(b, va, s2, e['l'], fr)
                    res.append((s2, ZERO))
            return res
        if fn == 'std::exchange' and len(e['a']) == 2:
            for s, a in self.lv(e['a'][0], st, fr):
                for s2, v in self.ev(e['a'][1], s, fr):
                    old = self.read(a, s2)
                    self.write(a, v, s2, e['l'], fr)
                    res.append((s2, old))
            return res
        if fn == 'std::get' and len(e['a']) == 1 and e.get('ta'):
            for s, l in self.lv(e['a'][0], st, fr):
                v = self.read(l, s)
                lt = ('var', fr.fid, f"tmp{self.fresh()}", 'tmp')
                s.mem[lt] = tproj(v, int(e['ta'][0]) if e['ta'][0].isdigit() else 0)
                res.append((s, ('addr', lt) if e.get('lv') else s.mem[lt]))
            return res
        if self.noisy and fn == 'std::operator<<' and len(e['a']) == 2 and 'basic_ostream' in (e.get('pt') or [''])[0]:
            for s, l in self.lv(e['a'][0], st, fr):
                for s2, v in self.ev(e['a'][1], s, fr):
                    if not is_sink(s2.mem.get(l)):
                        s2.trace.append(Ev('call', fn=fn, key=e['key'], obj=('addr', l), args=(v,), ret=('addr', l), line=e['l'], file=fr.fn['file'], locks=s2.locks, func=fr.fn['q'], nfacts=len(s2.facts)))
                        res.append((s2, ('addr', l)))
            if res:
                return res
        if fn in ('std::begin', 'std::end'):
            for s, l in self.lv(e['a'][0], st, fr):
                res.append((s, ('app', short, l, ('ver', s.ver.get(l, 0)))))
            return res
        if fn in ('std::operator==', 'std::operator!=', 'std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>=') or (e.get('op') in ('==', '!=', '<', '>', '<=', '>=') and len(e['a']) == 2):
            for s, a in self.ev(e['a'][0], st, fr):
                for s2, b in self.ev(e['a'][1], s, fr):
                    res.append((s2, self.compare(e.get('op') or short[8:], a, b, '', '')))
            return res
        if fn in ('std::any_of', 'std::all_of', 'std::none_of', 'std::find_if', 'std::for_each', 'std::remove_if') and len(e['a']) == 3:
            for s, args in self.args(e, st, fr):
                b, en, f = args
                whole = b[0] == en[0] == 'app' and (b[1], en[1]) in (('begin', 'end'), ('rbegin', 'rend')) and b[2:] == en[2:]
                calls = short == 'for_each' and b[0] == en[0] == 'ret' and b[2].endswith('::begin') and en[2].endswith('::end')
                if not ((whole or calls) and f[0] == 'lambda' and self.prog.lambdas[f[3]][0].get('body') is not None):
                    res = None
                    break
                res += self.algorithm(short, e, s, fr, b[2] if whole else b, en, f)
            if res is not None:
                return res
            res = []
        if fn == 'std::back_inserter' and len(e['a']) == 1:
            for s, l in self.lv(e['a'][0], st, fr):
                res.append((s, ('app', 'inserter', l)))
            return res
        if fn in ('std::copy_if', 'std::transform') and len(e['a']) == 4:
            for s, args in self.args(e, st, fr):
                b, en, o, f = args
                whole = b[0] == en[0] == 'app' and (b[1], en[1]) in (('begin', 'end'), ('rbegin', 'rend')) and b[2:] == en[2:]
                calls = b[0] == en[0] == 'ret' and b[2].endswith('::begin') and en[2].endswith('::end')
                if not ((whole or calls) and o[0] == 'app' and o[1] == 'inserter' and f[0] == 'lambda' and self.prog.lambdas[f[3]][0].get('body') is not None):
                    res = None
                    break
                res += self.algorithm(short, e, s, fr, b[2] if whole else b, en, f, o[2])
            if res is not None:
                return res
            res = []
        # pure by default
        for s, args in self.args(e, st, fr):
            vals = []
            for i, a in enumerate(args):
                if i < len(e.get('pt', [])) and is_ref(e['pt'][i]):
                    l = self.deref(a)
                    vals.append(self.snapshot(l, s) if self.has_fields(l, s) else self.read(l, s))
                else:
                    vals.append(a)
            if e.get('op') == '<<' or short in ('endl', 'flush'):
                if len(args) == 2:
                    l = self.deref(args[0])
                    if l[0] == 'var' and is_sink(s.mem.get(l)):
                        s.mem[l] = ('app', 'std::operator+', s.mem[l], vals[1])
                res.append((s, args[0]))
                continue
            mut = any(is_ref(t) and 'const' not in t and not t.endswith('&&') for t in e.get('pt', [])) or fn in (
                'std::memcpy', 'std::memset', 'std::free', 'std::remove', 'std::abort', 'std::malloc', 'std::realloc', 'std::calloc',
                'std::terminate', 'std::exit', 'std::this_thread::sleep_for', 'std::this_thread::yield', 'std::copy', 'std::copy_n', 'std::fill', 'std::fill_n', 'std::memmove', 'std::move_backward') or short in ('make_unique', 'make_shared')
            if mut or self.opaque(fn):
                res += self.record(e, s, fr, fn, None, tuple(args))
            else:
                res.append((s, ('app', fn) + tuple(vals)))
        return res


def is_sink(v):
    """a local string stream, with what was put into it"""
    while v is not None and v[0] == 'app' and v[1] == 'std::operator+':
        v = v[2]
    return v is not None and v[0] == 'obj' and 'stringstream' in str(v[1])


def tproj(v, i):
    if v[0] == 'tuplev':
        return v[1][i] if i < len(v[1]) else ('proj', v, str(i))
    if v[0] == 'objv':
        d = dict(v[2])
        n = 'std::pair::first' if i == 0 else 'std::pair::second'
        if n in d:
            return d[n]
    return ('proj', v, 'std::pair::first' if i == 0 else 'std::pair::second' if i == 1 else str(i))


def proj(v, f):
    if v[0] == 'objv':
        for k, x in v[2]:
            if k == f:
                return x
        if v[1][0] in ('agg', 'ctor'):
            return ('undef', f)
        return proj(v[1], f)
    if v[0] == 'init' and len(v) == 2:
        return ('init', ('fld', ('addr', v[1]), f)) if v[1][0] != 'deref' else ('init', ('fld', v[1][1], f))
    if v == ZERO:
        return ZERO
    return ('proj', v, f)
