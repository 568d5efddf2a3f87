"""bounded companion of C23 and C24: the builder on random call sequences"""
import itertools
import numpy as np
import conf
from ldaconf import sources

DRV = ['d_builder.cpp']


def srcs():
    import glob, os
    r = '/repo/src/'
    return sorted(os.path.relpath(f, r) for f in glob.glob(r + 'ldaplusplus/**/*.cpp', recursive=True))


def tester(**kw):
    return conf.Tester(DRV, srcs(), batch=25, timeout=90, **kw)


def init(rng, tier, T):
    for q in range({'quick': 60, 'thorough': 3000, 'deep': 800}[tier]):
        K, W, C = int(rng.integers(1, 7)), int(rng.integers(1, 9)), int(rng.integers(1, 6))
        K, W, C = conf.hint(rng, K, .04, 1, 300), conf.hint(rng, W, .06), conf.hint(rng, C, .05, 1, 300)
        seed = int(rng.integers(0, 2 ** 31)) if q % 3 else int(rng.integers(0, 3))
        kind = ('random', 'seeded', 'seededC')[q % 3]
        e = str(rng.choice(['zeros', 'uniform']))
        X = N = None
        pre = ['random', int(rng.integers(1, 6)), int(rng.integers(1, 6)), 0] if q % 4 == 0 else []
        if kind == 'random':
            ops = ['random', W, K, seed]
        else:
            D, N = int(rng.integers(1, 4)), int(rng.integers(0, 4))
            if D == 1 or N <= 1:
                D, N = (1, conf.hint(rng, N, .15, 1, 300)) if D == 1 else (conf.hint(rng, D, .15, 1, 300), N)
            X = rng.integers(0, 5, (W, D)).astype(float)
            if q % 5 == 0:
                X *= rng.integers(0, 2, (W, D))
            ops = [kind, X, K, N, seed]
        n = 6 + bool(pre)
        other = ['random', int(rng.integers(1, 6)), int(rng.integers(1, 6)), int(rng.integers(0, 3))]
        T.case(('builder', n) + tuple(pre) + tuple(ops) + (e, C, 'show') + tuple(other) + tuple(ops) + ('show2',), check=judge(K, W, C, X, N, e), refused=-1, chained=1)
        if q % 6 == 0:
            T.case(('builder', 1, e, C), refused=0)


def judge(K, W, C, X, N, e):
    def check(r):
        a, b, eta = r['alpha'], r['beta'], r['eta']
        if a.size != K or not np.allclose(a, 1 / K, rtol=1e-12, atol=0):
            return 'prior'
        if b.shape != (K, W) or not np.all(b >= 0) or not np.allclose(b.sum(1), 1, rtol=1e-10):
            return 'topics are not distributions over the words'
        if eta.shape != (K, C) or not np.allclose(eta, 0 if e == 'zeros' else 1 / C, rtol=1e-12, atol=0):
            return 'classifier'
        if r['beta2'].shape != b.shape or not np.all(r['beta2'] == b):
            return 'the same seed gave different topics'
        if X is not None:
            D = X.shape[1]
            rows = [1 + X[:, list(c)].sum(1) for c in itertools.combinations_with_replacement(range(D), N)]
            rows = np.array([x / x.sum() for x in rows])
            for k in range(K):
                if not np.any(np.all(np.abs(rows - b[k]) < 1e-10, axis=1)):
                    return 'topic %d is not one plus the counts of %d documents, normalised' % (k, N)
    return check


E_KINDS = ['classic', 'slda', 'fslda', 'multi', 'corr']
M_KINDS = ['classic', 'slda', 'fslda', 'semi', 'multi', 'onlineN', 'onlineV', 'onlineE']


def estep(rng, kind=None):
    k = kind or str(rng.choice(E_KINDS + ['semi']))
    if k == 'semi':
        if rng.random() < .2:
            return [k] + estep(rng, 'classic') + ['same']
        s = ['null'] if rng.random() < .3 else estep(rng, str(rng.choice(['slda', 'fslda'])))
        t = ['null'] if rng.random() < .3 else estep(rng, 'classic')
        return [k] + s + t
    return [k, int(rng.integers(1, 6)), float(rng.choice([0, 1e-4, .01, .3, 1])), int(rng.integers(1, 5)), float(rng.random() * 5),
            float(rng.random() * 3 + 1), float(rng.random() * 3), float(rng.choice([0, .3, .5, .8, 1])), int(rng.integers(0, 1000))]


def mstep(rng, C, kind=None):
    k = kind or str(rng.choice(M_KINDS))
    return [k, int(rng.integers(1, 6)), float(rng.choice([0, 1e-3, .1, -.1, -1e-3])), float(rng.random()), float(rng.random() * 3 + 1),
            int(rng.integers(1, 4)), float(rng.random() * .9), float(rng.random() * .2), float(rng.random()), (rng.random(C) + .1) * rng.choice([0, 1, 1, 1, 1, 1], C)]


def script(rng, q, T):
    K, W, C, D = int(rng.integers(2, 4)), int(rng.integers(3, 6)), int(rng.integers(2, 4)), int(rng.integers(1, 6))
    ops, n = [], 0
    iters, workers, e, m = 20, None, ['default'], ['default']
    ereq = mreq = False
    topics = eta = None
    refused = -1
    ks = [int(rng.integers(0, 10)) for _ in range(int(rng.integers(1, 9)))]
    if q % 4 == 0:              # everything configured, a supervised maximization
        ks = [7, 9, 4, 2] if rng.random() < .5 else [6, 8, 5]
    for k in ks:
        if k == 0:
            iters = int(rng.integers(0, 5)); ops += ['iterations', iters]
        elif k == 1:
            workers = int(rng.integers(1, 5)); ops += ['workers', workers]
        elif k in (2, 3):
            e = estep(rng)
            get = rng.random() < .3
            ops += ['ge' if get else 'e'] + e
            ereq = not get and e[0] != 'classic'
        elif k in (4, 5):
            kind = 'corr' if e[0] == 'corr' and rng.random() < .5 else None
            m = mstep(rng, C, kind)
            get = rng.random() < .3
            ops += ['gm' if get else 'm'] + m
            mreq = not get and m[0] != 'classic'
        elif k in (6, 7):
            if rng.random() < .5:
                topics = (None, None)
                ops += ['random', W, K, int(rng.integers(0, 99))]
            else:
                a, b = rng.random(K) + .1, rng.random((K, W)) + .01
                b /= b.sum(1, keepdims=True)
                topics = (a, b)
                ops += ['topics', a, b]
        else:
            z = rng.random()
            if z < .5:
                x = np.full((K, C), 1 / C)
                ops += ['uniform', C]
            else:
                x = rng.random((K, C)) + .1
                if rng.random() < .5:
                    x = rng.normal(size=(K, C))
                ops += ['eta', x]
            if z < .5 and topics is None:
                refused = n
            else:
                eta = x
        n += 1
        if refused >= 0:
            break
    ok = topics is not None and not (eta is None and (ereq or mreq))
    if refused >= 0:
        T.case(('builder', n) + tuple(ops), refused=refused, chained=1)
        return
    if not ok:
        T.case(('builder', n + 1) + tuple(ops) + ('show',), refused=n, chained=1)
        return
    sup = e[0] not in ('classic', 'default') or m[0] not in ('classic', 'default')
    ops += ['show']
    n += 1
    got = lambda r: None
    a0, b0, e0 = (topics[0], topics[1], eta)

    def check(r):
        if a0 is not None and not (np.array_equal(r['alpha'].reshape(-1), a0) and np.array_equal(r['beta'], b0)):
            return 'topics are not those configured'
        if e0 is None and r['eta'].size or e0 is not None and not np.array_equal(r['eta'], e0):
            return 'classifier parameters are not those configured'
        for k in ('alpha', 'beta', 'eta', 'epochs', 'events'):
            if 'same_' + k in r and not r['same_' + k][0, 0]:
                return 'another %s than a trainer assembled from the settings' % k
    # the multinomial and correspondence steps need positive classifier parameters, the latter also its own inference
    if e[0] != 'corr' and m[0] == 'corr' or sup and eta is None or \
            (e[0] in ('multi', 'corr') or m[0] in ('multi', 'corr')) and np.any(eta <= 0) or \
            e[0] in ('multi', 'corr') and m[0] not in ('default', 'classic', 'multi', 'corr'):
        T.case(('builder', n) + tuple(ops), refused=-1, chained=1, check=check)
        return
    online = m[0].startswith('online')
    if online:
        D = 1
    fit = int(rng.random() < .5)
    X = rng.integers(0, 4, (W, D)).astype(float)
    X[0] += 1
    y = rng.integers(0, C, D).astype(float)
    ops += ['workers', 1, 'run', X, y, fit, int(rng.integers(1, 4)), iters] + e + m
    T.case(('builder', n + 2) + tuple(ops), refused=-1, chained=1, check=check)


def probe(rng, T, wide=False):
    w, it = conf.hint(rng, int(rng.integers(1, 6)), .2, 1, 200), conf.hint(rng, int(rng.integers(1, 4)), .2, 1, 1100)
    if w > 10 and it > 10:
        it = 2
    if wide:
        w, it = 1, 65536 + it
    D = 1 if wide else 6 * w if w < 10 else w + 5
    ops = [['workers', w], ['iterations', it], ['random', 3, 2, 1]]
    if rng.random() < .5:
        ops.insert(0, ['workers', w + 2])
        ops.insert(1, ['iterations', it + 1])
    fl = []
    i = list(range(len(ops)))
    for x in ops:
        fl += x
    T.case(('builder', len(ops) + 1) + tuple(fl) + ('probe', D, w), refused=-1, most=w, epochs=it)


def c23(rng, tier):
    T = tester()
    init(rng, tier, T)
    return T.finish()


def c24(rng, tier):
    T = tester()
    for q in range({'quick': 150, 'thorough': 4000, 'deep': 1000}[tier]):
        script(rng, q, T)
        if q % 30 == 0:
            probe(rng, T)
    if tier != 'quick':
        probe(rng, T, True)
    return T.finish()
