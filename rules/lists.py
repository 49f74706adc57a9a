"""Singly linked lists walked by loops: inductive facts about cursors, from the entry values and the arbitrary iteration of each loop."""
from front import *


class Lists:
    """cursor facts on one path; `nxt` is the link field, `head` the location of the list head"""

    def __init__(self, p, nxt):
        self.p, self.nxt = p, nxt
        self.loops = {}
        self.pos = {}

        def walk(tr):
            for e in tr:
                if e.kind == 'loop':
                    self.loops[e.extra['id']] = e
                    for i in e.iters:
                        walk(i.trace)
        walk(p.trace)

    def heads(self, head):
        """values the list head can have when a walk starts: at entry, or after a summarised call"""
        out = {('init', head)}
        for e in self.p.events(kind='call'):
            if e.ret and e.ret[0] == 'ret':
                out.add(('after', e.ret[1], head))
        return out

    def linkof(self, v):
        """the node whose link v is"""
        return v[1][1] if v[0] == 'init' and v[1][0] == 'fld' and v[1][2] == self.nxt else None

    def nextof(self, a):
        return ('init', ('fld', a, self.nxt))

    def ended(self, a, b, facts):
        return False

    def ways(self, v):
        """(entry value, [(value after an iteration, that iteration)]) of a loop variable"""
        l = self.loops.get(v[1])
        if l is None or v[2] not in l.extra['entry']:
            return None
        return l.extra['entry'][v[2]], [(i.mem.get(v[2], ('init', v[2])), i) for i in l.iters]

    def always(self, v, pred, facts, null_ok=True, seen=frozenset()):
        """pred(value, facts) for every value v can stand for (null excepted)"""
        if null_ok and isnull(v, facts) is True:
            return True
        if pred(v, facts):
            return True
        if v[0] != 'loopv':
            return False
        if v in seen:
            return True
        w = self.ways(v)
        if w is None:
            return False
        seen |= {v}
        return self.always(w[0], pred, facts, null_ok, seen) and all(x == v or self.always(x, pred, i.facts, null_ok, seen) for x, i in w[1])

    def member(self, c, head, facts, seen=frozenset()):
        hs = self.heads(head)

        def ok(v, fs):
            if v in hs:
                return True
            m = self.linkof(v)
            if m is not None:
                return m in seen or self.member(m, head, fs, seen | {v, c})
            return False
        return self.always(c, ok, facts, True, frozenset(seen))

    def pred(self, a, b, head, facts, hyp=frozenset()):
        """a is the predecessor of b in the list (null when b is the first), or b is null and nothing is known to follow a"""
        if (a, b) in hyp:
            return True
        if b in self.heads(head):
            if isnull(a, facts) is True:
                return True
        if b == self.nextof(a) or self.ended(a, b, facts):
            return self.member(a, head, facts)
        la = {v[1] for v in (a, b) if v[0] == 'loopv' and v[1] in self.loops}
        for lid in sorted(la, reverse=True):
            l = self.loops[lid]
            ent = l.extra['entry']
            f = lambda v, mem: mem.get(v[2], v) if v[0] == 'loopv' and v[1] == lid else v
            h = hyp | {(a, b)}
            if isnull(b, facts) is False and self.nullpair(f(b, ent)):
                base = True     # starts out null: says nothing yet
            else:
                base = self.pred(f(a, ent), f(b, ent), head, facts, h)
            if base and all(self.pred(f(a, i.mem), f(b, i.mem), head, i.facts, h) or (isnull(b, facts) is False and self.nullpair(f(b, i.mem))) for i in l.iters):
                return True
        return False

    @staticmethod
    def nullpair(v):
        return v == ZERO
