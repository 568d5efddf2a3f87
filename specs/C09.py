"""C09: multinomial and correspondence re-estimation is exact and per epoch."""
from mstep import *
import mstepconf


def history(var):
    def unit(u):
        mu = V('mu', 'R')
        w = World(u, var, [Num(mu)])
        declare('eta', 'pos')
        D1, D2 = u.size('DA'), u.size('DB', 0)
        w.epoch_syms('A'); w.epoch_syms('B')
        K, W, C = w.K, w.W, w.C
        for st, kind, _ in run_epochs(u, w, [D1, D2]):
            for i, (e, D) in enumerate((('A', D1), ('B', D2))):
                h = snap(st, 'after', i)
                nm = 'epoch %d: ' % (i + 1)
                beta, eta = h[h[w.params].fields['beta']], h[h[w.params].fields['eta']]
                tot = lambda k, n: total(w, e, i, D, lambda d: w.count(e, d, k, n))
                u.eq_mat(st, nm + 'topics: expected counts of exactly its documents, normalised', beta, K, W, normed_rows(tot, K, W))
                y = lambda d: app('y' + e, d, sort='I')
                cls = lambda k, c: total(w, e, i, D, lambda d: ind_eq(y(d) - c) * S(W, lambda n: w.count(e, d, k, n))) + mu - 1
                u.eq_mat(st, nm + 'classes: per-class totals plus smoothing, normalised', eta, K, C, normed_rows(cls, K, C))
                for f, r, c in (('b_', K, W), ('h_', K, C)):
                    u.eq_mat(st, nm + 'afterwards %s is zero' % f, h[h[w.step].fields[f]], r, c, lambda r, c: ZERO)
                u.eq_num(st, nm + 'afterwards the log probability is zero', h[h[w.step].fields['log_py_']], ZERO)
            # events: exactly one per epoch, carrying the expected log probability of the labels under the model used
            evs = [x for x in st.trace if x[0] in ('dispatch', 'loop')]
            good = len(evs) == 2 and all(x[0] == 'dispatch' and 'MaximizationProgressEvent' in x[1] for x in evs)
            u.holds(st, 'one progress event per epoch', ONE if good else ZERO)
            if good:
                e = 'A'
                y = lambda d: app('yA', d, sort='I')
                spec = total(w, 'A', 0, D1, lambda d: S(K, lambda k: S(W, lambda n: w.count('A', d, k, n)) * tlog(app('eta', k, y(d)))))
                u.eq_num(st, 'epoch 1: the event carries the expected log probability of the labels', evs[0][2], spec)
                # in later epochs the model at the start of the epoch is the one left by the previous M step
                h1 = snap(st, 'after', 0)
                eta1 = h1[h1[w.params].fields['eta']]
                y2 = lambda d: app('yB', d, sort='I')
                spec2 = S(D2, lambda d: S(K, lambda k: S(W, lambda n: w.count('B', d, k, n)) * tlog(eta1.at(k, y2(d))[0])))
                u.eq_num(st, 'epoch 2: the event carries the expected log probability of the labels', evs[1][2], spec2, defined=False)
            u.same(st, 'alpha', w.oalpha)
    return unit


UNITS = [('MultinomialSupervisedMStep: two epochs', history('multi')), ('CorrespondenceSupervisedMStep: two epochs', history('corr'))]
CHECK = Check('C09', mtus('multi', 'corr'), UNITS, mstepconf.msteps(['multi', 'corr'], 200))
