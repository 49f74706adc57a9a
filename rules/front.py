"""The user-facing allocator handle: shared vocabulary of the rules about it."""
from common import *

AL = 'umpire::Allocator'
AS = 'umpire::strategy::AllocationStrategy'
RM = 'umpire::ResourceManager'
FP = 'umpire::strategy::FixedPool'
REG, DEREG, GETZ = RM + '::registerAllocation', RM + '::deregisterAllocation', RM + '::getZeroByteAllocator'
ZA, ZD, ZF = FP + '::allocate', FP + '::deallocate', FP + '::pointerIsFromPool'
SA, SN, SD = AS + '::allocate', AS + '::allocate_named', AS + '::deallocate'
FRONT = (REG, DEREG, GETZ, ZA, ZD, ZF, 'umpire::event::record')
STRAT = ('init', ('fld', ('this',), AL + '::m_allocator'))
TRACK = ('init', ('fld', ('this',), AL + '::m_tracking'))
SAFE = ('init', ('fld', ('this',), AL + '::m_thread_safe'))
OOM = 'umpire::out_of_memory_error'


def throwing(ty, *names):
    return lambda e, f: ty if f in names else None


class Stats:
    """the three statistics members, found through their accessors"""

    def __init__(self, C):
        self.cur, self.high, self.count = (C.accloc(AS + '::' + g)[2] for g in ('getCurrentSize', 'getHighWatermark', 'getAllocationCount'))

    def locs(self, obj):
        return tuple(('fld', obj, f) for f in (self.cur, self.high, self.count))

    def unchanged(self, p, obj):
        return all(p.get(l) == ('init', l) for l in self.locs(obj))

    def changed(self, p):
        return [l for l in p.mem if l[0] == 'fld' and l[2] in (self.cur, self.high, self.count) and p.mem[l] != ('init', l)]

    def grown(self, p, obj, n):
        """current + n, count + 1, watermark = max(old, new current)"""
        c, h, k = self.locs(obj)
        new = add(('init', c), n)
        if p.get(c) != new:
            return f"current size becomes {pp(p.get(c))} for an allocation of {pp(n)}"
        if p.get(k) != add(('init', k), ONE):
            return f"allocation count becomes {pp(p.get(k))}"
        return maxed(p, ('init', h), new, p.get(h), 'high watermark')

    def shrunk(self, p, obj, n):
        c, h, k = self.locs(obj)
        if p.get(c) != sub(('init', c), n):
            return f"current size becomes {pp(p.get(c))} for a release of {pp(n)}"
        if p.get(k) != sub(('init', k), ONE):
            return f"allocation count becomes {pp(p.get(k))}"
        if p.get(h) != ('init', h):
            return f"high watermark becomes {pp(p.get(h))} on a release"
        return None


def maxed(p, old, new, got, what):
    """got must be max(old, new) under the path's facts"""
    if got[0] == 'app' and got[1] == 'std::max' and set(got[2:]) == {old, new}:
        return None
    more = decide(LT(old, new, True), p.facts)
    less = decide(LT(new, old, True), p.facts)
    if got == new and (more is True or less is False):
        return None
    if got == old and (more is False or less is True):
        return None
    return f"{what} becomes {pp(got)} although the larger of {pp(old)} and {pp(new)} is required"


def recfields(v):
    return {k.split('::')[-1]: x for k, x in v[2]} if v[0] == 'objv' else {}


def strat_calls(p, *names):
    return [e for e in p.events(kind='call') if e.fn in (names or (SA, SN, SD))]
