"""Runs the clang plugin over /repo's translation units and indexes functions."""
import hashlib, json, os, re, subprocess, sys, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
CXXFLAGS = ['-std=c++11', '-include', 'string', '-include', 'functional',
            '-DEIGEN_MAX_CPP_VER=3', '-DNDEBUG', '-I' + REPO + '/include', '-I/usr/include/eigen3']


class FrontendError(Exception):
    pass


def plugin():
    src = os.path.join(VERIF, 'engine', 'cxx', 'astdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    so = os.path.join(BUILD, 'astdump-%s.so' % h)
    if not os.path.exists(so):
        os.makedirs(BUILD, exist_ok=True)
        tmp = so + '.%d.tmp' % os.getpid()
        subprocess.run(['clang++-18', '-std=c++17', '-fno-rtti', '-O0', '-shared', '-fPIC',
                        '-I/usr/lib/llvm-18/include', src, '-o', tmp], check=True)
        os.rename(tmp, so)
    return so


def _tu_key(path, so):
    h = hashlib.sha256()
    h.update(so.encode())
    h.update(REPO.encode())
    h.update(open(path, 'rb').read())
    for d, _, fs in sorted(os.walk(REPO + '/include')):
        for f in sorted(fs):
            h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()[:24]


def dump(path, so):
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'ast-%s-%s.json' % (os.path.basename(path).replace('.', '_'), _tu_key(path, so)))
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        r = subprocess.run(['clang++-18'] + CXXFLAGS + ['-w', '-fsyntax-only', '-fplugin=' + so,
                            '-fplugin-arg-astdump-out=' + tmp,
                            '-fplugin-arg-astdump-root=' + REPO + '/', path],
                           capture_output=True, text=True, errors='replace')
        if r.returncode != 0 or not os.path.exists(tmp):
            raise FrontendError('cannot parse %s:\n%s' % (path, r.stderr[-3000:]))
        os.rename(tmp, out)
    return out


def single_source(path):
    """our own instantiations, for float"""
    t = re.sub(r'\b(Matrix|Vector|RowVector)X(d)\b', r'\1Xf', re.sub(r'\bdouble\b', 'float', open(path).read()))
    out = os.path.join(BUILD, 'float-%s-%s' % (hashlib.sha256(t.encode()).hexdigest()[:12], os.path.basename(path)))
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + '.%d.tmp.cpp' % os.getpid()
        open(tmp, 'w').write(t)
        os.rename(tmp, out)
    return out


def swapped(text):
    """float and double exchanged"""
    return re.sub(r'(?<!long )\b(float|double)\b', lambda m: 'double' if m.group() == 'float' else 'float', text)


class Program:
    def __init__(self, tus, single=False):
        # single: the instantiations for float, under the names of those for double
        if single:
            tus = [single_source(t) if t.startswith(VERIF) else t for t in tus]
        so = plugin()
        with cf.ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda p: dump(p, so), tus))
        self.funcs = {}      # mangled -> function
        self.by_name = {}    # qualified name -> [function]
        self.enums = {}      # enumerator (qualified) -> value
        self.records = {}    # type string -> record
        self.globals = {}
        self.files = tus
        for i, o in enumerate(outs):
            text = open(o).read()
            d = json.loads(swapped(text) if single else text)
            self._absorb(d, '%d.' % i)

    def _absorb(self, d, pre):
        T = d['types']

        def fix(n):
            if isinstance(n, list):
                for x in n:
                    fix(x)
            elif isinstance(n, dict):
                if isinstance(n.get('t'), int):
                    n['t'] = T[n['t']] if n['t'] >= 0 else ''
                for k in ('rt', 'cls', 'ct', 'clt', 'alloc', 'lam'):
                    if isinstance(n.get(k), int):
                        n[k] = T[n[k]] if n[k] >= 0 else ''
                if isinstance(n.get('base'), int):
                    n['base'] = T[n['base']]
                if 'pt' in n:
                    n['pt'] = [T[x] for x in n['pt']]
                if 'bases' in n:
                    n['bases'] = [T[x] for x in n['bases']]
                if 'id' in n:
                    n['id'] = pre + n['id']
                for k, v in n.items():
                    if isinstance(v, (dict, list)) and k not in ('pt', 'bases', 'bytes', 'over'):
                        fix(v)
        fix(d['functions'])
        fix(d['records'])
        fix(d['globals'])
        for f in d['functions']:
            if f['mg'] not in self.funcs:
                self.funcs[f['mg']] = f
                self.by_name.setdefault(f['fn'], []).append(f)
        self.enums.update(d.get('enums', {}))
        for r in d['records']:
            if r['t'] not in self.records:
                self.records[r['t']] = r
        for g in d['globals']:
            q = g.get('qn') or g.get('n')
            self.globals.setdefault(q, g)
            self.globals.setdefault(g.get('id'), g)

    def find(self, name, ta=None, nparams=None, pred=None):
        fs = [f for f in self.by_name.get(name, []) if
              (ta is None or f.get('ta') == ta) and (nparams is None or len(f['params']) == nparams) and
              (pred is None or pred(f))]
        return fs


def _tree(f):
    """a function without what tells float from double: the type names, conversions between them, positions"""
    ids = {}

    def go(n):
        if isinstance(n, list):
            return [go(x) for x in n]
        if isinstance(n, str):
            return re.sub(r'\b(float|double)\b', 'real', re.sub(r'^std::([a-z0-9]+)$', r'\1', n))
        if not isinstance(n, dict):
            return n
        if n.get('cast') == 'FloatingCast' and len(n['c']) == 1:
            return go(n['c'][0])
        return {k: ids.setdefault(str(v), len(ids)) if k in ('id', 'ref') else go(v)
                for k, v in n.items() if k not in ('mg', 'over', 'file', 'l', 'el')}
    return json.dumps(go(f), sort_keys=True)


def twins(tus, used):
    """functions and records at double whose instantiation for float is something else, among the functions used; (same, different)"""
    p, q = Program(tus), Program(tus, True)
    same, diff = 0, []

    def key(f):
        return f['fn'], str(f.get('ta')), str(f['pt'])
    other = {}
    for f in q.funcs.values():
        other.setdefault(key(f), []).append(f)
    for f in p.funcs.values():
        if f['fn'] not in used or f.get('impl') or 'double' not in str(key(f)):
            continue
        o = other.get(key(f))
        if o is None:               # an instantiation that only the arguments of a call in double asked for
            continue
        if _tree(f) in [_tree(x) for x in o]:
            same += 1
        else:
            diff.append(f['fn'])
    cls = {u.rsplit('::', 1)[0] for u in used}
    for t, r in p.records.items():
        if t in cls and 'double' in t and t in q.records and _tree(r) != _tree(q.records[t]):
            diff.append(t)
    return same, sorted(set(diff))


def repo(*rel):
    return [os.path.join(REPO, r) for r in rel]


if __name__ == '__main__':
    import glob
    p = Program(glob.glob(REPO + '/src/ldaplusplus/*.cpp') + glob.glob(REPO + '/src/ldaplusplus/*/*.cpp'))
    for f in sorted(p.funcs.values(), key=lambda f: (f['file'], f['l'])):
        if 'float' in f['fn'] or 'float' in (f.get('ta') or '') or f.get('impl'):
            continue
        print(f['file'].replace(REPO, ''), f['l'], f['fn'].replace('ldaplusplus::', ''), (f.get('ta') or '')[:60])
