"""Which functions can let an allocation failure escape: a fixpoint over the call graph that respects handlers."""
from front import *

SEEDS = {SA, SN, AS + '::allocate_internal', AS + '::allocate_named_internal'}
# the singleton exists by the time any of its users' destructors or noexcept members run
ONCE = {RM + '::getInstance'}
CATCH = {OOM, 'umpire::runtime_error', 'std::exception', 'std::runtime_error'}


def base(t):
    return (t or '').replace('const ', '').replace('&', '').strip()


def rethrows(node):
    """a handler body that throws again"""
    if isinstance(node, dict):
        if node.get('k') == 'throw' or node.get('s') == 'throw':
            return True
        return any(rethrows(v) for v in node.values())
    if isinstance(node, list):
        return any(rethrows(v) for v in node)
    return False


def calls(node, out):
    if isinstance(node, list):
        for x in node:
            calls(x, out)
        return
    if not isinstance(node, dict):
        return
    if node.get('s') == 'try':
        hs = [v for k, v in node.items() if k != 'b' and isinstance(v, list)]
        hs = hs[0] if hs else []
        stops = any((h.get('t') is None or base(h['t']) in CATCH) and not rethrows(h.get('b')) for h in hs)
        if not stops:
            calls(node.get('b'), out)
        calls(hs, out)
        return
    k = node.get('k')
    if k in ('call', 'ctor') and node.get('key'):
        out.append((node['key'], node.get('fn', ''), node.get('l'), bool(node.get('virt') and not node.get('nonvirt'))))
        if node.get('fn', '').split('::')[-1] in ('emplace_back', 'emplace', 'emplace_front', 'make_shared', 'make_unique'):
            import re
            m = re.search(r'(?:std::vector|std::list|std::deque|std::shared_ptr|std::unique_ptr)<(.*?)>', (node.get('ot') or node.get('t') or ''))
            if m and '<' not in m.group(1):
                out.append(('', 'construct ' + m.group(1), node.get('l'), False))
    if k == 'throw' and node.get('e') and OOM in str(node['e'].get('t', '')):
        out.append(('', OOM, node.get('l'), False))
    for v in node.values():
        if isinstance(v, (dict, list)):
            calls(v, out)


class Effects:
    def __init__(self, P):
        self.P = P
        self.sites = {}
        for k, f in P.fns.items():
            out = []
            calls([f.get('body'), f.get('inits')], out)
            self.sites[k] = out
        # virtual dispatch
        self.ovr = {}
        for r in P.recs.values():
            for m in r['methods']:
                for b in m['ov']:
                    self.ovr.setdefault(b, set()).add(m['key'])
        self.bad = {}
        ctors = {}
        for k, f in P.fns.items():
            if f.get('mk') == 'ctor':
                ctors.setdefault(f['cls'], []).append(k)
        self.ctors = ctors
        changed = True
        while changed:
            changed = False
            for k, ss in self.sites.items():
                if k in self.bad or P.fns[k]['q'] in ONCE:
                    continue
                for key, fn, ln, virt in ss:
                    if fn in SEEDS or fn == OOM or self.target(key, virt) or fn.startswith('construct ') and any(c in self.bad for c in self.ctors.get(fn[10:], ())):
                        self.bad[k] = (fn, ln)
                        changed = True
                        break

    def target(self, key, virt):
        if key in self.bad:
            return True
        if virt:
            todo, seen = [key], set()
            while todo:
                x = todo.pop()
                for y in self.ovr.get(x, ()):
                    if y in self.bad:
                        return True
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
        return False

    def chain(self, k):
        out = []
        while k in self.bad and len(out) < 8:
            fn, ln = self.bad[k]
            out.append(f"{fn}@{ln}")
            nx = [key for key, f, l, v in self.sites[k] if f == fn and key in self.bad]
            if fn in SEEDS or not nx:
                break
            k = nx[0]
        return ' -> '.join(out)
