"""Conformance runs: compiled /repo code against numerically evaluated contracts; finds failing inputs."""
import numpy as np
import harness as H


def close(a, b, rtol=1e-8, atol=1e-10):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.ndim < 2 or b.ndim < 2:
        a, b = a.reshape(-1), b.reshape(-1)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        sc = np.maximum(np.abs(a), np.abs(b))
        ok = (np.abs(a - b) <= atol + rtol * sc) | (np.isnan(a) & np.isnan(b)) | (a == b)
    return bool(np.all(ok))


_hints = None
TIER = 'quick'


def hints():
    """integer constants that the code compares with: sizes around them are worth a case"""
    global _hints
    if _hints is None:
        import os, re
        root = os.environ.get('VERIF_REPO', '/repo')
        found = set()
        for top in ('include', 'src'):
            for d, _, fs in os.walk(os.path.join(root, top)):
                for f in fs:
                    if not f.endswith(('.hpp', '.cpp')):
                        continue
                    with open(os.path.join(d, f), errors='replace') as fh:
                        s = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"', ' ', fh.read(), flags=re.S)
                    for m in re.finditer(r'(?:[<>=!]=|[<>%&]|=)\s*(\d+)(?:u|l|ul|U|L|UL)?(?![\w.])|(?<![\w.])(\d+)(?:u|l|ul|U|L|UL)?\s*(?:[<>=!]=|[<>])', s):
                        v = int(m.group(1) or m.group(2))
                        if 3 <= v <= 5000:
                            found.add(v)
                    for m in re.finditer(r'<<\s*(\d+)', s):
                        if 2 <= int(m.group(1)) <= 12:
                            found.add(1 << int(m.group(1)))
        _hints = sorted(found)
    return _hints


def hint(rng, v, p=.1, lo=1, hi=2000):
    if TIER != 'deep':
        return v
    hs = [h for h in hints() if lo <= h <= hi]
    if not hs or rng.random() >= p:
        return v
    return int(min(hi, max(lo, rng.choice(hs) + rng.integers(-1, 3))))


class Tester:
    def __init__(self, drivers, srcs, rtol=1e-8, atol=1e-10, batch=400, timeout=120, exact=False, extra=()):
        self.exe, self.exact = H.build_exact(drivers, srcs, extra) if exact else (H.build(drivers, srcs, extra), True)
        if not self.exact:
            rtol, atol = max(rtol, 2e-2), max(atol, 1e-3)
        self.q = []
        self.n = 0
        self.wit = None
        self.samples = []
        self.rtol, self.atol, self.batch, self.timeout = rtol, atol, batch, timeout

    def case(self, cmd, skip=False, check=None, raises=None, tol=None, **exp):
        """expected outputs by name, or check(result) -> error string/None"""
        if skip or self.wit:
            return
        self.q.append((cmd, check, raises, exp, tol))
        if len(self.q) >= self.batch:
            self.flush()

    def flush(self):
        if not self.q or self.wit:
            self.q = []
            return
        res = H.run(self.exe, [c[0] for c in self.q], timeout=self.timeout)
        for (cmd, check, raises, exp, tol), r in zip(self.q, res):
            self.n += 1
            err = self.judge(r, check, raises, exp, tol)
            if len(self.samples) < 3:
                self.samples.append({'command': show(cmd)[:400]})
            if err:
                self.wit = {'command': show(cmd), 'problem': err, 'observed': {k: v for k, v in r.items() if k != '_order'},
                            'expected': exp, 'executable_input': H.encode(cmd)}
                break
        self.q = []

    def judge(self, r, check, raises, exp, tol):
        if raises:
            if r.crash:
                return 'crash: ' + r.err
            if r.ok:
                return 'no error raised'
            return None
        if not r.ok:
            return ('crash: ' if r.crash else 'exception: ') + str(r.err)
        for k, v in exp.items():
            if k not in r:
                return 'output %s missing' % k
            if not close(r[k], v, *(tol or (self.rtol, self.atol))):
                return 'output %s differs from the contract' % k
        if check:
            try:
                return check(r)
            except (KeyError, IndexError, ValueError, TypeError, MemoryError) as e:
                return 'output cannot be interpreted: %s: %s' % (type(e).__name__, e)

    def finish(self):
        self.flush()
        return {'cases': self.n, 'witness': self.wit, 'samples': self.samples}


def show(cmd):
    return ' '.join(str(np.asarray(a).tolist()) if isinstance(a, np.ndarray) else repr(a) for a in cmd)
