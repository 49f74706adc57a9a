"""Vocabulary shared by the rules: ordered-array cursor events, record lists, segments of paths."""
from rulekit import *

AM = 'umpire::util::AllocationMap'
MM = 'umpire::util::MemoryMap'
FMP = 'umpire::util::FixedMallocPool'
POOL = (FMP + '::allocate', FMP + '::deallocate')
QUIET = ('printAll',)


class Seg:
    """a straight piece of a path: one loop iteration, or what happens outside the loops"""

    def __init__(self, owner, facts, evs, kind, mem, val=None):
        self.owner, self.facts, self.evs, self.kind, self.mem, self.val = owner, facts, evs, kind, mem, val

    def writes(self, fieldname=None):
        for e in self.evs:
            if e.kind == 'write' and (fieldname is None or e.loc[0] == 'fld' and e.loc[2].split('::')[-1] == fieldname):
                yield e

    def calls(self, *names):
        for e in self.evs:
            if e.kind == 'call' and (not names or any(e.fn == n or e.fn.endswith('::' + n) for n in names)):
                yield e


def segments(p):
    out = []

    def walk(x):
        evs = [e for e in x.trace if e.kind != 'loop']
        out.append(Seg(x, x.facts, evs, x.kind, x.mem, x.val))
        for e in x.trace:
            if e.kind == 'loop':
                for i in e.iters:
                    walk(i)
    walk(p)
    return out


def short(e):
    return e.fn.split('::')[-1]


def judy(p, deep=True):
    return [e for e in p.events(deep, 'call') if e.fn.startswith('judy_')]


def keyarg(e):
    """the key handed to a cursor call: what the pointed-to buffer holds"""
    return e.pv[1] if len(e.pv) > 1 else None


def init_deref(r):
    return ('init', ('deref', r))


def truthy(v, facts):
    if v is None:
        return None
    if v[0] == 'int':
        return v[1] != 0
    if v[0] in ('==', '<', 'not'):
        return decide(v, facts)
    if nonnull(v):
        return True
    d = decide(EQ(v, ZERO), facts)
    return None if d is None else not d


def isnull(v, facts):
    t = truthy(v, facts)
    return None if t is None else not t


def site(fn, x=None):
    ln = x if isinstance(x, int) else getattr(x, 'line', None)
    return f"{fn['file']}:{ln or fn['l']} {fn['q']}"


def desc(p, n=400):
    s = p.desc()
    return s if len(s) <= n else s[:n] + ' ...'


def exc_type(p):
    return p.val[1] if p.kind == 'throw' and p.val and p.val[0] == 'exc' else None


# ---- nearest-entry search over the ordered array ------------------------------------------------------------------
def nearest(p, q):
    """The cursor call whose cell is the entry at q or, when there is none, the entry before q.
    -> (call event or None, reason).  Every way of obtaining it must be justified by the path's own tests."""
    js = [e for e in judy(p) if short(e) in ('judy_strt', 'judy_slot', 'judy_prv', 'judy_nxt', 'judy_end', 'judy_key', 'judy_cell', 'judy_del')]
    pos = None            # ('ge', ev): at least key >= q; ('prev', ev): predecessor of that; ('exact', ev)
    keyout = {}           # cursor event -> values of the key read there
    missing = False       # an exact lookup failed
    res = None
    for e in js:
        s = short(e)
        if s in ('judy_cell', 'judy_del', 'judy_end'):
            return None, f"{s} in a lookup"
        if s == 'judy_slot':
            if keyarg(e) != q:
                return None, f"exact lookup of {pp(keyarg(e))} instead of the queried address"
            pos = ('exact', e)
            n = isnull(e.ret, p.facts)
            if n is False:
                res = e
            elif n is True:
                missing = True
        elif s == 'judy_strt':
            if keyarg(e) != q or e.args[2] == ZERO:
                return None, f"search starts at {pp(keyarg(e))} (length {pp(e.args[2])}) instead of the queried address"
            pos = ('ge', e)
        elif s == 'judy_key':
            if pos:
                keyout.setdefault(pos[1].ret, []).append(('out', e.ret[1], 1))
        elif s == 'judy_prv':
            if not pos or pos[0] != 'ge':
                return None, 'step back from a position that is not the first entry at or after the address'
            pos = ('prev', e, pos[1])
        elif s == 'judy_nxt':
            return None, 'step forward in a lookup'
    if pos is None:
        return None, 'no search'
    if res is not None and pos[0] == 'exact':
        return res, 'exact'
    if pos[0] == 'exact':
        return None, 'only an exact lookup' if missing else 'undecided exact lookup'
    ge = pos[1] if pos[0] == 'ge' else pos[2]
    eq = [decide(EQ(k, q), p.facts) for k in keyout.get(ge.ret, [])]
    none = isnull(ge.ret, p.facts) is True or isnull(init_deref(ge.ret), p.facts) is True
    if pos[0] == 'ge':
        if isnull(ge.ret, p.facts) is True:
            return None, 'no entry at or after the address, and no step back'
        if True in eq:
            return ge, 'exact'
        return None, 'entry at or after the address taken without testing that it is at the address'
    if missing or none or False in eq:
        return pos[1], 'before'
    return None, 'steps back although the entry may be at the address itself'


def truth_table(C, rule, fn, rows, paths=None, what='result'):
    """every consistent path of fn must evaluate to the expected truth value, for every row (env, expected)"""
    R = C.R
    ps = paths or C.paths(fn)
    for env, want in rows:
        hit = 0
        for p in ps:
            if not consistent(p, env):
                continue
            if p.kind != 'return':
                R.check(rule, site(fn), False, f"{fn['q']} throws for {row(env)}")
                continue
            try:
                v = evaluate(p.val, env)
            except Unk as x:
                t = truthy(p.val, p.facts)
                if t is None:
                    raise Anchor(f"{fn['q']}: {what} depends on something unforeseen: {pp(x.args[0])[:200]}")
                v = t
            hit += 1
            R.check(rule, site(fn), bool(v) == want, f"{what} is {bool(v)} instead of {want} for {row(env)}")
        R.expect(hit, f"{fn['q']}: no path for {row(env)}")


def row(env):
    return ', '.join(f"{pp(k)}={v}" for k, v in env.items())


# ---- arithmetic of sizes and addresses over a reduced word --------------------------------------------------------
class Word:
    """evaluates value numbers in unsigned arithmetic of w bits; the formulas are polynomial and bitwise, so a table over a reduced word decides them"""

    def __init__(self, w):
        self.w, self.m = w, (1 << w) - 1

    def ev(self, v, env):
        if v in env:
            return env[v] & self.m
        k = v[0]
        m = self.m
        if k == 'int':
            n = v[1]
            if n > m and n & (n + 1) == 0:
                n = m                       # all-ones constant of a wider word
            return n & m
        if k == 'lin':
            return (v[1] + sum(c * self.ev(t, env) for t, c in v[2])) & m
        if k == '~':
            return ~self.ev(v[1], env) & m
        if k == 'trunc':
            narrowed(v)
            return self.ev(v[2], env)
        if k == '==':
            return int(self.ev(v[1], env) == self.ev(v[2], env))
        if k == '<':
            return int(self.ev(v[1], env) < self.ev(v[2], env))
        if k == 'not':
            return int(not self.ev(v[1], env))
        if k == 'op':
            a, b = self.ev(v[2], env), self.ev(v[3], env)
            o = v[1]
            if o == '*': return a * b & m
            if o in '/%':
                if b == 0:
                    raise Unk(v)
                return a // b if o == '/' else a % b
            if o == '&': return a & b
            if o == '|': return a | b
            if o == '^': return a ^ b
            if o == '<<': return a << b & m
            if o == '>>': return a >> b
        if k == 'app' and v[1] == 'std::numeric_limits::max':
            return m
        if k == 'app' and v[1] in ('std::min', 'std::max') and len(v) == 4:
            a, b = self.ev(v[2], env), self.ev(v[3], env)
            return min(a, b) if v[1] == 'std::min' else max(a, b)
        raise Unk(v)

    def possible(self, p, env):
        for a, tv in p.facts.items():
            try:
                if bool(self.ev(a, env)) != tv:
                    return False
            except Unk:
                pass
        return True


def set_by_ctor(C, ctor, cls=None):
    """{initial value of a member: what the constructor gives it, in terms of the constructor's parameters}, from the paths that return"""
    out = {}
    ps = [p for p in C.paths(ctor, opaque=('umpire::event::record',)) if p.kind == 'return']
    C.R.expect(ps, f"{ctor['q']} never returns")
    for p in ps:
        for l, v in p.mem.items():
            if l[0] == 'fld' and l[1] == ('this',):
                if ('init', l) in out and out[('init', l)] != v:
                    out[('init', l)] = None
                else:
                    out[('init', l)] = v
    return {k: v for k, v in out.items() if v is not None}


def field_writes(fn):
    """(line, qualified field) of every assignment, increment or compound assignment to a member, anywhere in the function"""
    def walk(n):
        if isinstance(n, list):
            for x in n:
                yield from walk(x)
        elif isinstance(n, dict):
            t = None
            if n.get('k') == 'bin' and n['o'].endswith('=') and n['o'] not in ('==', '!=', '<=', '>='):
                t = n['a']
            elif n.get('k') == 'un' and n['o'] in ('++', '--'):
                t = n['e']
            elif n.get('k') == 'call' and n.get('op') in ('=', '+=', '-=', '++', '--', '*=', '|=', '&='):
                t = n.get('obj')
            if isinstance(t, dict) and t.get('k') == 'mem':
                yield n.get('l'), t['f']
            for v in n.values():
                if isinstance(v, (dict, list)):
                    yield from walk(v)
    yield from walk([fn.get('body'), fn.get('inits')])


# ---- what a loop leaves alone, and what it moves in step -----------------------------------------------------------
def loop_events(p):
    out = []

    def walk(tr):
        for e in tr:
            if e.kind == 'loop':
                out.append(e)
                for i in e.iters:
                    walk(i.trace)
    walk(p.trace)
    return out


def loop_eqs(p):
    """{loop variable: its value} for variables that every iteration leaves at their entry value, or moves in step with another variable"""
    out = {}
    for e in loop_events(p):
        lid, ent = e.extra['id'], e.extra['entry']
        lv = lambda k: ('loopv', lid, k)
        after = lambda i, k: i.mem.get(k, ('init', k))
        for k in ent:
            if all(after(i, k) in (lv(k), ent[k]) or decide(EQ(after(i, k), ent[k]), i.facts) is True for i in e.iters):
                out[lv(k)] = ent[k]
        ks = [k for k in sorted(ent, key=repr) if lv(k) not in out]
        for a in range(len(ks)):
            for b in range(a):
                x, y = ks[a], ks[b]
                d = sub(ent[x], ent[y])
                if d[0] == 'int' and lv(y) not in out and lv(x) not in out and all(sub(after(i, x), after(i, y)) == sub(lv(x), lv(y)) for i in e.iters):
                    out[lv(x)] = add(lv(y), d)
    return out


def infeasible(p, extra=None):
    """the path contradicts what its loops establish"""
    eqs = loop_eqs(p)
    eqs.update(extra or {})
    if not eqs:
        return False
    facts = {}
    for a, t in p.facts.items():
        b = a
        for _ in range(3):
            b = subst(b, eqs)
        b = renorm(b)
        d = decide(b, facts)
        if d is not None and d != t:
            return True
        c, t2 = b, t
        while c[0] == 'not':
            c, t2 = c[1], not t2
        facts[c] = t2
    return False


def renorm(a):
    if a[0] == '==':
        return EQ(a[1], a[2])
    if a[0] == '<':
        return LT(a[1], a[2])
    if a[0] == 'not':
        return NOT(renorm(a[1]))
    return a


# ---- strings ------------------------------------------------------------------------------------------------------
class Strs:
    """evaluates value numbers over concrete strings and numbers; env: value number or location -> str or int"""
    NPOS = (1 << 64) - 1

    def ev(self, v, env):
        if v in env:
            return env[v]
        k = v[0]
        if k == 'int':
            return v[1]
        if k == 'str':
            return v[1]
        if k == 'lin':
            return (v[1] + sum(c * self.ev(t, env) for t, c in v[2])) & self.NPOS
        if k == 'trunc':
            narrowed(v)
            return self.ev(v[2], env)
        if k == 'not':
            return int(not self.ev(v[1], env))
        if k in ('==', '<'):
            a, b = self.ev(v[1], env), self.ev(v[2], env)
            if type(a) is not type(b):
                raise Unk(v)
            return int(a == b if k == '==' else a < b)
        if k == 'obj' and v[1] in ('std::basic_string', 'std::string') and len(v[2]) == 1:
            return self.ev(v[2][0], env)
        if k == 'gvar' or k == 'init' and v[1][0] == 'gvar':
            g = env.get('globals', {}).get((v[1][1] if k == 'init' else v[1]))
            if g is not None:
                return g
        if k == 'app':
            f = v[1].split('::')[-1]
            if f == 'operator+':
                a, b = self.ev(v[2], env), self.ev(v[3], env)
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                raise Unk(v)
            if f in ('operator==', 'operator!='):
                return int((self.ev(v[2], env) == self.ev(v[3], env)) == (f == 'operator=='))
            if len(v) > 3 and v[3][0] == 'ver':
                if v[3] != ('ver', 0):
                    raise Unk(v)
                s = env.get(v[2])
                if s is None:
                    s = self.ev(v[2], env)
                if not isinstance(s, str):
                    raise Unk(v)
                a = [self.ev(x, env) for x in v[4:]]
                if f in ('find', 'rfind') and isinstance(a[0], str):
                    pos = a[1] if len(a) > 1 else (0 if f == 'find' else self.NPOS)
                    r = s.find(a[0], pos) if f == 'find' else s.rfind(a[0], 0, min(len(s), pos + len(a[0])))
                    return r & self.NPOS
                if f == 'substr':
                    pos, n = (a + [0, self.NPOS][len(a):])[:2]
                    if pos > len(s):
                        raise Unk(v)
                    return s[pos:pos + n] if n < len(s) else s[pos:]
                if f == 'compare':
                    if len(a) == 1:
                        return 0 if s == a[0] else (1 if s > a[0] else self.NPOS)
                    if len(a) == 3:
                        t = s[a[0]:a[0] + a[1]] if a[1] < len(s) else s[a[0]:]
                        return 0 if t == a[2] else (1 if t > a[2] else self.NPOS)
                if f in ('size', 'length'):
                    return len(s)
                if f in ('c_str', 'data', 'str'):
                    return s
        raise Unk(v)

    def possible(self, facts, env):
        for a, tv in facts.items():
            try:
                if bool(self.ev(a, env)) != tv:
                    return False
            except Unk:
                pass
        return True


def emptied(p, count):
    """the path takes entries out of the ordered array until there is none left -> (ok, is the count brought to zero)"""
    loops = [e for e in p.trace if e.kind == 'loop' and any(short(x) == 'judy_del' for i in e.iters for x in i.calls())]
    zero = p.get(count) == ZERO
    for l in loops:
        # one off the count with every entry deleted
        if p.get(count) == ('loopv', l.extra['id'], count):
            zero = all(sub(i.mem.get(count, ('loopv', l.extra['id'], count)), ('loopv', l.extra['id'], count)) == INT(-sum(short(x) == 'judy_del' for x in i.calls())) for i in l.iters)
    if loops:
        return True, zero
    st = [e for e in judy(p) if short(e) == 'judy_strt']
    return bool(st) and isnull(st[-1].ret, p.facts) is True and not any(short(e) == 'judy_del' for e in judy(p)), zero or p.get(count) == ('init', count)
