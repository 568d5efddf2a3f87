"""C08: topic re-estimation equals the normalised expected word counts."""
from mstep import *
import mstepconf


def history(u):
    w = World(u, 'unsup')
    D1, D2 = u.size('DA'), u.size('DB', 0)
    w.epoch_syms('A'); w.epoch_syms('B')
    K, W = w.K, w.W
    for st, kind, _ in run_epochs(u, w, [D1, D2]):
        for i, (e, D) in enumerate((('A', D1), ('B', D2))):
            h = snap(st, 'after', i)
            s2 = st.clone()
            beta = h[w.obeta] if w.obeta in h else None
            beta = h[h[w.params].fields['beta']]
            tot = lambda k, n: total(w, e, i, D, lambda d: w.count(e, d, k, n))
            u.eq_mat(s2, 'epoch %d: expected counts of exactly its documents, normalised' % (i + 1), beta, K, W, normed_rows(tot, K, W))
            r, c = fresh('k'), fresh('n')
            s3 = u.idx(s2, r, K, c, W)
            v, d = beta.at(r, c)
            u.ob(s3, 'epoch %d: probability non-negative' % (i + 1), 'nonneg', v)
            row = S(W, lambda j: beta.at(r, j)[0])
            u.ob(s3, 'epoch %d: a topic sums to one or is entirely zero' % (i + 1), 'zero', (row - 1) * v)
            b = h[h[w.step].fields['b_']]
            u.eq_mat(s2, 'after epoch %d the accumulated counts are zero' % (i + 1), b, K, W, lambda r, c: ZERO)
        u.same(st, 'alpha', w.oalpha)


UNITS = [('UnsupervisedMStep: two epochs', history)]
CHECK = Check('C08', mtus('unsup'), UNITS, mstepconf.msteps(['unsup'], 250))
