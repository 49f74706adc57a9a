"""Obligations, evidence and verdicts shared by the rules."""
import json, os, sys, time, traceback
from absint import *
import prog

VERIF = prog.VERIF


class Anchor(Exception):
    """something a rule needs is not there (any more): no verdict"""


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obl = []          # (rule, where, ok, detail)
        self.funcs = set()
        self.npaths = 0
        self.notes = []
        self.rules = {}

    def rule(self, name, text):
        self.rules[name] = text

    def check(self, rule, where, ok, detail='', key=None):
        self.obl.append({'rule': rule, 'where': where, 'ok': bool(ok), 'detail': detail, 'key': key or f"{rule}|{where}"})
        return bool(ok)

    def need(self, cond, msg):
        if not cond:
            raise Anchor(msg)
        return cond


    def expect(self, cond, msg):
        """behaviour the property asks for that no abstract path shows: a violation (and nothing to go on with)"""
        if not cond:
            self.check('present', self.pid, False, msg)
            raise Anchor(msg)
        return cond


NARROW = {}      # narrowing conversions that decided something: a wide quantity compared through a narrow one


def narrowed(v, what=''):
    if v[2][0] == 'op' and v[2][1] in ('%', '&') and v[2][3][0] == 'int' and abs(v[2][3][1]) < 128:
        return
    NARROW.setdefault(v, what)


def where(fn, line=None):
    return f"{fn['file']}:{line or fn['l']} {fn['q']}"


def fnid(fn):
    return f"{fn['q']}({','.join(p['t'] for p in fn['params'])})"


class Ctx:
    """program + report + helpers for rules"""

    def __init__(self, P, R):
        self.P, self.R = P, R
        self.memo = {}
        self.peel = False

    def either(self, rule, *a):
        """a rule over the paths that leave loops at their head or, if it fails there, at the end of their last iteration: two exact ways of reading the same loop"""
        R = self.R
        n, first = len(R.obl), None
        for self.peel in (False, True):
            bad, err = None, None
            nar = dict(NARROW)
            try:
                r = rule(self, *a)
            except Exception as e:
                r, err = None, e
            mine = R.obl[n:]
            if err is None and all(o['ok'] for o in mine) and (first is None or NARROW == nar):
                self.peel = False
                return r
            if first is None:
                first = mine, err, r, dict(NARROW)
            del R.obl[n:]
            NARROW.clear()
            NARROW.update(nar)
        self.peel = False
        mine, err, r, nar = first
        R.obl += mine
        NARROW.update(nar)
        if err is not None:
            raise err
        return r

    def fn(self, q, n=None, types=None, const=None):
        fs = self.P.find(q, n, types)
        if const is not None:
            fs = [f for f in fs if bool(f.get('const')) == const]
        self.R.need(fs, f"function {q}{'' if n is None else '/' + str(n)} not found")
        return fs[0]

    def fns(self, q, n=None):
        fs = self.P.find(q, n)
        self.R.need(fs, f"function {q} not found")
        return fs

    def paths(self, fn, opaque=(), throws=None, dyn=None, **kw):
        run = {k: kw.pop(k) for k in ('args', 'init', 'facts', 'this') if k in kw}
        kw.setdefault('peel', self.peel)
        I = Interp(self.P, opaque=opaque, throws=throws, **kw)
        ps = I.run(fn, dyn=dyn, **run)
        self.R.funcs |= {self.P.fns[k]['q'] for k in I.analysed if k in self.P.fns}
        self.R.npaths += len(ps)
        self.R.notes += I.warn
        self.R.need(ps, f"no path through {fn['q']}")
        return ps

    def accessor(self, q, n=0):
        """location read by a trivial accessor: the value number it returns, as a location on `this`"""
        f = self.fn(q, n)
        ps = self.paths(f)
        vals = {p.val for p in ps if p.kind == 'return'}
        self.R.need(len(vals) == 1, f"accessor {q} has no single value")
        v = vals.pop()
        return v

    def accloc(self, q, n=0):
        v = self.accessor(q, n)
        self.R.need(v[0] == 'init', f"accessor {q} does not read a member")
        return v[1]


def rebase(v, new, old=('this',)):
    return subst(v, {old: new})


# ---- deciding comparison predicates over all orderings of the quantities they compare -----------------------------
class Unk(Exception):
    pass


def evaluate(v, env):
    """evaluates a value number over an assignment of its atoms; raises Unk for anything not assigned"""
    if v in env:
        return env[v]
    k = v[0]
    if k == 'int':
        return v[1]
    if k == 'lin':
        return v[1] + sum(c * evaluate(t, env) for t, c in v[2])
    if k == '==':
        return evaluate(v[1], env) == evaluate(v[2], env)
    if k == '<':
        return evaluate(v[1], env) < evaluate(v[2], env)
    if k == 'not':
        return not evaluate(v[1], env)
    if k == 'trunc':
        narrowed(v)
        return evaluate(v[2], env)
    if k == 'op' and v[1] == '*':
        return evaluate(v[2], env) * evaluate(v[3], env)
    if k == 'op' and v[1] in ('/', '%'):
        a, b = evaluate(v[2], env), evaluate(v[3], env)
        if b == 0:
            raise Unk(v)
        return a // b if v[1] == '/' else a % b
    if k == 'op' and v[1] in ('&', '|', '^', '<<', '>>'):
        a, b = evaluate(v[2], env), evaluate(v[3], env)
        return {'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b if 0 <= b < 64 else 0, '>>': a >> b if b >= 0 else 0}[v[1]]
    if k == '~':
        return ~evaluate(v[1], env)
    if k == 'app' and v[1] in ('std::min', 'std::max'):
        a, b = evaluate(v[2], env), evaluate(v[3], env)
        return min(a, b) if v[1] == 'std::min' else max(a, b)
    raise Unk(v)


def consistent(path, env, unknown_ok=True):
    """is the path's condition possible under this ordering"""
    for a, tv in path.facts.items():
        try:
            if bool(evaluate(a, env)) != tv:
                return False
        except Unk:
            if not unknown_ok:
                raise
    return True


# ---- running a property --------------------------------------------------------------------------------------------
def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding:'):
                # finding: property=P01 key=<rule|where> :: text
                body = ln[len('finding:'):].strip()
                head, _, text = body.partition(' :: ')
                d = dict(x.split('=', 1) for x in [head.split(' ', 1)[0]])
                key = head.split(' ', 1)[1].strip()
                assert key.startswith('key=')
                out.append((d['property'], key[4:], text))
    return out


def main(pid, rule_fn, level, technique, assumptions, tier):
    t0 = time.time()
    R = Report(pid)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    try:
        P = prog.load()
        C = Ctx(P, R)
        rule_fn(C)
        R.rule('present', 'what the property asks for is there on some path')
        R.rule('narrow', 'no decision is made on a size or address cut to a narrower type')
        for v in sorted(NARROW, key=repr):
            R.check('narrow', pid, False, f"a decision depends on {pp(v)[:200]}, which loses the upper bits")
        if not R.obl:
            raise Anchor('no obligation was generated')
    except (Anchor, AnalysisError, prog.ToolError) as x:
        # what was decided before the analysis lost its footing still counts
        listed = {k for p, k, t in known_findings() if p == pid}
        if not any(not o['ok'] and o['key'] not in listed for o in R.obl):
            print(f"ERROR property={pid}: no verdict: {type(x).__name__}: {x}")
            return 2
        R.notes.append(f"analysis incomplete: {x}")
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={pid}: no verdict: internal error")
        return 2
    kf = [(k, t) for p, k, t in known_findings() if p == pid]
    bad = [o for o in R.obl if not o['ok']]
    seen_known, new = [], []
    for o in bad:
        m = [t for k, t in kf if k == o['key']]
        (seen_known if m else new).append((o, m[0] if m else None))
    viol = []
    if new:
        rp = os.path.join(evdir, f'{pid}.violation.json')
        json.dump([o for o, _ in new], open(rp, 'w'), indent=1)
    byrule = {}
    for o in R.obl:
        b = byrule.setdefault(o['rule'], [0, 0])
        b[0] += 1
        b[1] += o['ok']
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
        'coverage': {
            'explanation': f"{technique}. {len(R.obl)} obligations over {R.npaths} abstract paths of {len(R.funcs)} functions of the current tree; "
                           + '; '.join(f"{r}: {n[1]}/{n[0]} hold ({R.rules.get(r, '')})" for r, n in sorted(byrule.items())),
            'obligations': len(R.obl), 'discharged': sum(o['ok'] for o in R.obl),
            'translation_units': len(P.units), 'functions_analysed': sorted(R.funcs), 'abstract_paths': R.npaths,
            'rules': {r: {'obligations': n[0], 'hold': n[1], 'rule': R.rules.get(r, '')} for r, n in sorted(byrule.items())},
            'samples': [f"{o['rule']}: {o['where']}" for o in R.obl[:12]],
            'known_findings': [o['key'] for o, _ in seen_known],
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': assumptions,
        'violations': len(new),
    }
    if R.notes:
        ev['coverage']['notes'] = sorted(set(R.notes))[:20]
    json.dump(ev, open(os.path.join(evdir, f'{pid}.json'), 'w'), indent=1)
    done = set()
    for o, t in seen_known:
        if o['key'] not in done:
            done.add(o['key'])
            print(f"KNOWN-FINDING: property={pid} {t or o['key']}")
    if new:
        for o, _ in new[:20]:
            print(f"  [{o['rule']}] {o['where']}: {o['detail']}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"OK property={pid}: {len(R.obl)} obligations over {R.npaths} abstract paths in {len(R.funcs)} functions hold ({ev['wall_s']} s)")
    return 0
