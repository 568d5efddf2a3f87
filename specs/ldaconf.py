"""Conformance runs of the worker pool and of the predictions."""
import numpy as np
import conf

SRCS = ['ldaplusplus/LDA.cpp', 'ldaplusplus/Document.cpp', 'ldaplusplus/events/Events.cpp', 'ldaplusplus/em/UnsupervisedEStep.cpp',
        'ldaplusplus/em/AbstractEStep.cpp', 'ldaplusplus/e_step_utils.cpp', 'ldaplusplus/Parameters.cpp']
DRV = ['d_lda.cpp', 'chaos.cpp']
TSAN = ('-fsanitize=thread',)


STEPS = ['ldaplusplus/em/%s.cpp' % c for c in ('SupervisedEStep', 'FastSupervisedEStep', 'MultinomialSupervisedEStep', 'CorrespondenceSupervisedEStep', 'SemiSupervisedEStep')]


def sources(more=()):
    import os
    from frontend import REPO
    return [s for s in SRCS + list(more) if os.path.exists(os.path.join(REPO, 'src', s))]


def judge(D, it, w, calls, only=None):
    """the log of the calls against the protocol; only: the one kind of call to judge"""
    def check(r):
        for k in ('locked', 'away', 'alive', 'wrong', 'bad') if not only else ('bad',):
            if r[k][0, 0]:
                return {'locked': 'a lock is held while user code runs', 'away': 'user code runs on another thread', 'alive': 'workers still run',
                        'wrong': 'a document has the label of another', 'bad': 'transform returns wrong columns or changes the model'}[k]
        L = r['log'].reshape(-1, 2).tolist()
        n = 0
        epoch = 0
        pos = 0
        for c in calls:
            if L[pos][0] != 0:
                return 'protocol: %s' % L[pos]
            pos += 1
            part = []
            while L[pos][0] != 8:
                part.append(L[pos])
                pos += 1
            if L[pos][1] and not only:
                return 'workers still run when the call returns'
            pos += 1
            k = it if c in 'fu' else 1
            last = None         # a new call makes a new corpus, which starts again in the same order
            n += k
            if only and c != only:
                continue
            if c == 't':
                base = min([x for _, x in part] or [0]) if only else 1000 * epoch
                if sorted(x for q, x in part) != [base + i for i in range(D)] or any(q != 6 for q, _ in part):
                    return 'events of the inference are not delivered once each while transforming'
                continue
            for _ in range(k):
                if c == 'c':
                    if not part or part[0] != [1, 0]:
                        return 'the corpus is not shuffled first'
                    part = part[1:]
                if [5, epoch + 1.] not in part:
                    return 'an epoch is not announced with the updated model'
                j = part.index([5, epoch + 1.])
                one, part = part[:j], part[j + 1:]
                e = [x for q, x in one if q == 6]
                if sorted(e) != [1000 * epoch + i for i in range(D)]:
                    return 'events of the inference are not delivered once each before the epoch is announced'
                one = [x for x in one if x[0] != 6]     # when exactly, before the announcement, is open
                if len(one) < 3 or one[-3:] != [[3, float(epoch)], [4, 1.], [7, 0.]]:
                    return 'the epoch does not end with inference finished, maximization'
                m = [x for q, x in one if q == 2]
                if sorted(m) != list(range(D)):
                    return 'maximization does not get every document once with its own result'
                if any(q != 2 for q, _ in one[:-3]):
                    return 'unexpected calls in an epoch'
                # what one worker infers shows the order of the corpus
                if w == 1 and c in 'fu' and D >= 12:
                    if last == m:
                        return 'the corpus is not shuffled anew'
                    last = m
                epoch += 1
            if part:
                return 'more epochs than configured'
        if np.any(r['seen'] != n) and not only:
            return 'a document is not inferred exactly once per pass'
    return check


def pool(rng, tier, kinds, T, only=None):
    for q in range({'quick': 60, 'thorough': 1000, 'deep': 400}[tier]):
        w = int(rng.integers(1, 7))
        D = int(rng.integers(1, 31)) if q % 3 else int(rng.integers(1, 4))
        it = int(rng.integers(0, 4))
        w, D, it = conf.hint(rng, w, .04, 1, 64), conf.hint(rng, D, .12, 1, 1100), conf.hint(rng, it, .04, 1, 70)
        if D > 100:
            it = min(it, 3)
        calls = [str(rng.choice(list(kinds))) for _ in range(int(rng.integers(1, 4)))]
        T.case(('epochs', w, D, it, int(rng.integers(0, 4)), int(rng.integers(0, 2)), len(calls)) + tuple(calls), check=judge(D, it, w, calls, only))


def infer(rng, tier, T):
    for q in range({'quick': 40, 'thorough': 600, 'deep': 200}[tier]):
        K, W, D = int(rng.integers(1, 5)), int(rng.integers(1, 8)), int(rng.integers(1, 20))
        D = conf.hint(rng, D if q % 13 else int(rng.integers(20, 200)), .12, 1, 1100)
        X = rng.integers(0, 6, (W, D)).astype(float)
        alpha = rng.random(K) + .1
        beta = rng.random((K, W)) + .01
        beta /= beta.sum(1, keepdims=True)

        def check(r):
            if not np.array_equal(r['gamma'], r['single']):
                return 'a column is not the topic weights inferred for the document'
            if not np.array_equal(r['again'], r['single']):
                return 'a second transform differs'
        T.case(('infer', int(rng.integers(1, 7)), int(rng.integers(0, 4)), int(rng.integers(1, 12)), .01, X, alpha, beta), check=check, unchanged=1)


def share(rng, n, T, like=.5):
    """the real inference steps, used by several workers at once"""
    for q in range(n):
        K, W, D, C = int(rng.integers(1, 8)), int(rng.integers(1, 60)), int(rng.integers(2, 40)), int(rng.integers(1, 5))
        X = rng.integers(0, 6, (W, D)).astype(float) * (rng.random((W, D)) < rng.random())
        X[0] += 1
        beta = rng.random((K, W)) + .01
        eta = rng.random((K, C)) + .01
        T.case(('share', ('unsup', 'fslda', 'slda', 'multi', 'corr', 'semi')[q % 6], int(rng.integers(2, 9)), int(rng.integers(1, 12)), .001, int(rng.integers(1, 3)), like,
                X, rng.integers(0, C, D).astype(float), rng.random(K) + .1, beta / beta.sum(1, keepdims=True), eta / eta.sum(1, keepdims=True)), bad=0, docs=D * 2)


def tester(extra=()):
    return conf.Tester(DRV, sources(), extra=extra, batch=25, timeout=60)


def c15(rng, tier):
    T = conf.Tester(DRV + ['d_share.cpp'], sources(STEPS), batch=25, timeout=60)
    infer(rng, tier, T)
    pool(rng, tier, 'tttc', T, 't')
    share(rng, {'quick': 48, 'thorough': 900, 'deep': 300}[tier], T)
    r = T.finish()
    if r['witness'] or tier == 'quick':
        return r
    T = conf.Tester(DRV + ['d_share.cpp'], sources(STEPS), extra=TSAN, batch=10, timeout=60)
    share(rng, 60, T, 0)        # lgamma of the C library writes a global variable nobody reads
    s = T.finish()
    s['cases'] += r['cases']
    s['samples'] = r['samples'] + s['samples']
    return s


def c16(rng, tier):
    T = tester()
    pool(rng, tier, 'cpfuct', T)
    pool(rng, tier, 'cpf', T)
    return T.finish()


def c17(rng, tier):
    T = tester()
    pool(rng, tier, 'cpft', T)
    r = T.finish()
    if r['witness']:
        return r
    T = conf.Tester(DRV + ['d_events.cpp'], sources(), extra=TSAN, batch=10, timeout=60)
    pool(rng, 'quick' if tier == 'quick' else 'deep', 'cpft', T)
    for q in range({'quick': 4, 'thorough': 60, 'deep': 20}[tier]):
        T.case(('evstress', ('safe', 'same')[q % 2], int(rng.integers(2, 5)), int(rng.integers(20, 100)), int(rng.integers(0, 3))), bad=0, more=1, locked=0)
    s = T.finish()
    s['cases'] += r['cases']
    s['samples'] = r['samples'] + s['samples']
    return s


def scores(rng, q, T):
    K, W, D, C = int(rng.integers(1, 5)), int(rng.integers(1, 8)), int(rng.integers(1, 9)), int(rng.integers(1, 6))
    K, C, D = conf.hint(rng, K, .04, 1, 130), conf.hint(rng, C, .06, 1, 130), conf.hint(rng, D, .08, 1, 1100)
    X = rng.integers(0, 6, (W, D)).astype(float)
    X[0] += 1
    alpha = rng.random(K) * 3 + .1
    beta = rng.random((K, W)) + .01
    beta /= beta.sum(1, keepdims=True)
    eta = rng.normal(size=(K, C)) * 10.0 ** rng.integers(-3, 4)
    if q % 5 == 0:
        eta = -np.abs(eta)
    G = rng.random((K, D)) * 10.0 ** rng.integers(-2, 4) + alpha[:, None]

    def dec(g):
        z = g - alpha[:, None]
        return eta.T @ (z / z.sum(0))

    def lab(s, y):
        """one label per document, and its score is the highest"""
        y = y.reshape(-1).astype(int)
        if len(y) != s.shape[1] or np.any(y < 0) or np.any(y >= s.shape[0]):
            return False
        m = s.max(0)
        return bool(np.all(s[y, np.arange(len(y))] >= m - 1e-9 * (1 + np.abs(s).max())))

    def check(r):
        T0 = r['T']
        if T0.shape != (K, D):
            return 'shape of the topic weights'
        if not conf.close(r['dT'], dec(T0), 1e-6, 1e-7 * np.abs(eta).max()):
            return 'scores of documents'
        if not conf.close(r['dG'], dec(G), 1e-6, 1e-7 * np.abs(eta).max()):
            return 'scores of topic weights'
        if not np.array_equal(r['tpT'], T0):
            return 'transform_predict returns other topic weights'
        if not lab(r['dT'], r['pX']):
            return 'label without the highest score'
        if not np.array_equal(r['pX'], r['tpY']):
            return 'transform_predict returns other labels'
        if not lab(r['S'], r['pS']):
            return 'label of given scores'
        if not r['unchanged'][0, 0]:
            return 'the model changes'
    T.case(('scores', int(rng.integers(1, 4)), int(rng.integers(1, 10)), .01, X, alpha, beta, eta, G), check=check)


def c18(rng, tier):
    T = conf.Tester(DRV, sources())
    for q in range({'quick': 60, 'thorough': 1500, 'deep': 400}[tier]):
        scores(rng, q, T)
    return T.finish()
