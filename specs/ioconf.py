"""bounded companion of C21: models saved and loaded, snapshots"""
import io, os, shutil, tempfile
import numpy as np
import conf


def arr(rng, r, c):
    a = rng.normal(size=(r, c))
    if rng.random() < .3:
        a = a * 10.0 ** rng.integers(-300, 300, (r, c)).astype(float)
    if rng.random() < .1 and a.size:
        a[0, 0] = np.inf
    return a


def model(rng, big=False):
    K = int(rng.choice([1, 2, 3, 10, 11])) if not big else 101
    W = conf.hint(rng, int(rng.choice([1, 2, 5, 9, 10, 100])), .1)
    C = int(rng.choice([0, 1, 2, 5]))
    eta = arr(rng, K, C) if C else np.zeros((0, 0))
    return [arr(rng, K, 1).reshape(-1), arr(rng, K, W), eta]


def same(m, r, i=None):
    for k, x in zip(('alpha', 'beta', 'eta'), m):
        got = r[k + '*'][i] if i is not None and k + '*' in r else r[k]
        want = x.reshape(got.shape) if k == 'alpha' and got.size == x.size else x
        if got.shape != want.shape or not np.array_equal(got, want):
            return k + ' differs'


def npfile(raw, m):
    f = io.BytesIO(bytes(raw))
    for k, x in zip(('alpha', 'beta', 'eta'), m):
        try:
            a = np.lib.format.read_array(f)
        except Exception as e:
            return 'numpy cannot read %s: %s' % (k, e)
        if a.dtype != np.float64 or a.reshape(-1).tolist() != x.reshape(-1).tolist() or k != 'alpha' and a.shape != x.shape:
            return k + ' differs in the file'
    if f.read():
        return 'more than the model in the file'


def loads(ms):
    def check(r):
        for i, m in enumerate(ms):
            e = same(m, r, i) or npfile(r['file*'][i] if 'file*' in r else r['file'], m)
            if e:
                return e
            if not (r['kept*'][i] if 'kept*' in r else r['kept'])[0, 0]:
                return 'saving changes the model'
    return check


def snaps(name, every, seq):
    def check(r):
        seen = k = 0
        for i, m in enumerate(seq):
            g = lambda n: r[n + '*'][i] if n + '*' in r else r[n]
            want = None
            if m is not None:
                seen += 1
                if seen % every == 0:
                    want = '%s_%03d' % (name, seen)
            n = int(g('count')[0, 0])
            if n != (want is not None):
                return 'event %d: %d snapshots' % (i, n)
            if want is None:
                continue
            if bytes(g('new')).decode() != want:
                return 'event %d: saved as %r instead of %r' % (i, bytes(g('new')).decode(), want)
            multi = 'file*' in r
            e = same(m, r, k if multi else None) or npfile(r['file*'][k] if multi else r['file'], m)
            if e:
                return 'event %d: %s' % (i, e)
            k += 1
    return check


def conformance(rng, tier):
    T = conf.Tester(['d_io.cpp'], ['applications/lda_io.cpp', 'applications/SnapshotEvery.cpp', 'ldaplusplus/events/Events.cpp'], batch=30)
    tmp = tempfile.mkdtemp()
    try:
        for q in range({'quick': 60, 'thorough': 3000, 'deep': 600}[tier]):
            p = os.path.join(tmp, 'm%d' % q)
            ms = [model(rng, q % 20 == 0) for _ in range(int(rng.integers(1, 4)))]
            flat = sum(ms, [])
            T.case(('saveload', p, len(ms)) + tuple(flat), check=loads(ms))
            m = model(rng)
            f = io.BytesIO()
            for x in m:
                x = x.astype('>f8') if rng.random() < .2 else x
                np.lib.format.write_array(f, np.asfortranarray(x) if rng.random() < .5 else x, version=(1, 0))
            T.case(('loadfile', p, f.getvalue()), check=(lambda m: lambda r: same(m, r))(m))
            if q % 3 == 0:
                X = rng.integers(0, 9, (int(rng.integers(1, 9)), int(rng.integers(1, 9)))).astype('i4')
                y = rng.integers(-1, 9, X.shape[1]).astype('i4')
                f = io.BytesIO()
                for x in (X, y):
                    np.lib.format.write_array(f, np.asfortranarray(x) if rng.random() < .5 else x, version=(1, 0))
                T.case(('data', p, f.getvalue(), 1), X=X.astype(float), y=y.reshape(-1, 1).astype(float))
                T.case(('data', p, f.getvalue(), 0), X=X.astype(float))
            every = conf.hint(rng, int(rng.integers(1, 5)), .05, 1, 40)
            n = conf.hint(rng, int(rng.integers(1, 14)), .05, 1, 49)
            if q % 30 == 0:
                every, n = int(rng.choice([1, 9, 50])), 1010 if q % 60 == 0 else 110
            seq, ops = [], []
            name = str(rng.choice(['m', 'model', 'a.b', 'm_1']))
            for i in range(n):
                if rng.random() < .7 or n > 50:
                    x = model(rng) if n < 50 else [np.array([float(i)]), np.array([[i + .5]]), np.zeros((0, 0))]
                    seq.append(x); ops += ['epoch'] + x
                else:
                    seq.append(None); ops += [str(rng.choice(['expectation', 'maximization'])), float(rng.random())]
            T.case(('snaps', os.path.join(tmp, 'd%d' % q), name, every, n) + tuple(ops), check=snaps(name, every, seq))
        return T.finish()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
