"""Extraction of the program under /repo and access to it."""
import concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


class ToolError(Exception):
    pass


CONFIG = {
    'UMPIRE_ENABLE_FILE_RESOURCE': 1, 'UMPIRE_ENABLE_LOGGING': 1, 'UMPIRE_ENABLE_IPC_SHARED_MEMORY': 1,
}


def ensure_tool():
    r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError('cannot build the AST extractor:\n' + r.stdout[-2000:])
    return os.path.join(VERIF, 'build', 'astdump')


def make_config(d):
    """config.hpp from the repository's template, with the options above on"""
    t = open(os.path.join(SRC, 'umpire', 'config.hpp.in')).read()
    out = []
    for ln in t.split('\n'):
        if ln.startswith('#cmakedefine '):
            n = ln.split()[1]
            ln = f'#define {n}' if CONFIG.get(n) else f'/* #undef {n} */'
        ln = ln.replace('@Umpire_VERSION_MAJOR@', '2024').replace('@Umpire_VERSION_MINOR@', '07').replace('@Umpire_VERSION_PATCH@', '0').replace('@UMPIRE_VERSION_RC@', '')
        out.append(ln)
    os.makedirs(os.path.join(d, 'umpire'), exist_ok=True)
    open(os.path.join(d, 'umpire', 'config.hpp'), 'w').write('\n'.join(out))


SKIP = ('Cuda', 'Hip', 'Sycl', 'OpenMP', 'Device', 'device_', 'sqlite', 'quest', 'MPI.cpp', 'detect_vendor')
if not os.path.exists('/usr/include/numa.h'):
    SKIP += ('numa.cpp', 'Numa')


def sources():
    u = os.path.join(SRC, 'umpire')
    res = []
    for d in ('', 'util', 'event', 'op', 'resource', 'strategy', 'strategy/mixins', 'interface/c_fortran'):
        p = os.path.join(u, d)
        if not os.path.isdir(p):
            continue
        for f in sorted(os.listdir(p)):
            if f.endswith('.cpp') and not any(s in f for s in SKIP):
                res.append(os.path.join(p, f))
    return res


def flags(cfg):
    return ['-std=c++14', '-DFMT_HEADER_ONLY', '-w', '-I' + os.path.join(VERIF, 'stubs'), '-I' + SRC, '-I' + os.path.join(SRC, 'tpl'),
            '-I' + cfg, '-I' + SRC, '-DNDEBUG' if False else '-DUMPIRE_VERIF_ANALYSIS', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


def extract(srcs=None, extra=None):
    tool = ensure_tool()
    tmp = tempfile.mkdtemp(prefix='umpverif.')
    try:
        cfg = os.path.join(tmp, 'cfg')
        make_config(cfg)
        srcs = list(srcs or sources())
        srcs += extra if extra is not None else [os.path.join(VERIF, 'tus', f) for f in sorted(os.listdir(os.path.join(VERIF, 'tus'))) if f.endswith('.cpp')]
        fl = flags(cfg)

        def one(i_s):
            i, s = i_s
            out = os.path.join(tmp, f'{i}.json')
            r = subprocess.run([tool, SRC, out, s, '--'] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise ToolError(f'{s} does not parse:\n' + r.stdout[-3000:])
            with open(out) as f:
                d = json.load(f)
            os.unlink(out)
            return s, d
        with concurrent.futures.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
            res = list(ex.map(one, enumerate(srcs)))
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Prog:
    def __init__(self, units):
        self.units = [s for s, _ in units]
        self.fns, self.recs, self.enums, self.globals = {}, {}, {}, {}
        self.byq = {}
        self.lambdas = []
        und = {}
        for s, d in units:
            for f in d['functions']:
                if f['key'] in self.fns:
                    continue
                f['file'] = os.path.relpath(f['file'], REPO) if f['file'].startswith(REPO) else f['file']
                self.fns[f['key']] = f
                self.byq.setdefault(f['q'], []).append(f)
            for r in d['records']:
                self.recs.setdefault(r['ty'], r)
            for e in d['enums']:
                self.enums.setdefault(e['q'], e)
            for x in d['undefined']:
                und.setdefault(x['key'], x)
            for g in d['globals']:
                self.globals.setdefault(g['q'], g)
        self.undefined = [x for k, x in und.items() if k not in self.fns]      # declared in the repository, defined in no unit
        self.recq = {}
        for r in self.recs.values():
            self.recq.setdefault(r['q'], []).append(r)
        self.fieldtab = {}
        for r in self.recs.values():
            for f in r['fields']:
                self.fieldtab.setdefault(r['q'] + '::' + f['n'], f)
        self._ov = {}

    def fn(self, key):
        return self.fns.get(key)

    def field(self, q):
        return self.fieldtab.get(q)

    def find(self, q, nparams=None, types=None, ta=None):
        """functions with this qualified name"""
        r = self.byq.get(q, [])
        if nparams is not None:
            r = [f for f in r if len(f['params']) == nparams]
        if types is not None:
            r = [f for f in r if [p['t'] for p in f['params']] == types]
        return r

    def bases(self, q):
        seen, todo = [], [q]
        while todo:
            x = todo.pop(0)
            if x in seen:
                continue
            seen.append(x)
            for r in self.recq.get(x, []):
                todo += r['bases']
        return seen

    def derives(self, d, b):
        d, b = d.split('<')[0], b.split('<')[0]
        if d == b:
            return True
        if b in ('std::exception',) and d.startswith('umpire::') and d.endswith('error'):
            return True
        return b in self.bases(d)

    def subclasses(self, b):
        return sorted({r['q'] for r in self.recs.values() if b in self.bases(r['q']) and r['q'] != b})

    def override(self, cls, key):
        """the final overrider of virtual method `key` in class cls"""
        for c in self.bases(cls):
            for r in self.recq.get(c, []):
                for m in r['methods']:
                    if m['key'] == key or key in m['ov'] or self._ovr(m, key):
                        f = self.fns.get(m['key'])
                        if f is not None:
                            return f
                        if m.get('impl') or m.get('pure'):
                            return None
                        return None
        return None

    def _ovr(self, m, key):
        todo, seen = list(m['ov']), set()
        while todo:
            k = todo.pop()
            if k == key:
                return True
            if k in seen:
                continue
            seen.add(k)
            if not self._ov:
                for r in self.recs.values():
                    for x in r['methods']:
                        self._ov[x['key']] = x['ov']
            todo += self._ov.get(k, [])
        return False

    def method(self, cls, name, nparams=None):
        """method `name` as seen by class cls (own or nearest base)"""
        for c in self.bases(cls):
            r = [f for f in self.byq.get(c + '::' + name, []) if nparams is None or len(f['params']) == nparams]
            if r:
                return r[0]
        return None


def load(srcs=None, extra=None, cache=None):
    cache = cache or os.environ.get('VERIF_AST_CACHE')
    if cache:
        h = tree_hash()
        p = os.path.join(cache, h + '.json')
        if os.path.exists(p):
            return Prog(json.load(open(p)))
        u = extract(srcs, extra)
        os.makedirs(cache, exist_ok=True)
        json.dump(u, open(p, 'w'))
        return Prog(u)
    return Prog(extract(srcs, extra))


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(SRC, 'umpire'), os.path.join(VERIF, 'tool'), os.path.join(VERIF, 'stubs'), os.path.join(VERIF, 'tus')):
        for r, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]
