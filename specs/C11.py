"""C11: the online step, from an arbitrary reachable state."""
from mstep import *
from C12 import CL, OPT
import mstepconf

FIELDS = ('b_', 'expected_z_bar_', 'y_', 'eta_velocity_', 'eta_gradient_', 'docs_seen_so_far_')


def world(u, fresh_=False, B=None):
    ex, st = u.ex, u.st
    C, B = V('C'), u.size('B') if B is None else B
    reg, mom, lr, bw = [V(x, 'R') for x in ('reg', 'mom', 'lr', 'bw')]
    ow = u.mat('cw', C, ONE)
    w = World(u, 'online', [Ref(ow), Num(reg), Num(B, 'I'), Num(mom), Num(lr), Num(bw)],
              types=['Eigen::Matrix<double, -1, 1, 0, -1, 1>', 'double', 'unsigned long', 'double', 'double', 'double'])
    w.epoch_syms('A')
    w.B = B
    f = st.heap[w.step].fields
    K = w.K
    m = ZERO
    if not fresh_:
        m = V('m')
        st.assume(ind_le(-m)); st.assume(ind_le(m - B + 1))
        declare('b0', 'nonneg'); declare('yy', 'nonneg')
        prove.UPPER['yy'] = w.C - 1
        st.heap[f['b_']] = MatVal(K, w.W, app('b0', RI, CI))
        st.heap[f['expected_z_bar_']] = MatVal(K, B, app('zb', RI, CI))
        st.heap[f['y_']] = MatVal(B, ONE, app('yy', RI, sort='I'), ONE, 'I')
        st.heap[f['eta_velocity_']] = MatVal(K, w.C, app('vel', RI, CI))
        st.heap[f['eta_gradient_']] = MatVal(K, w.C, app('gr0', RI, CI))
        st.heap[f['docs_seen_so_far_']] = Num(m, 'I')
    return w, m


def example(w, d):
    tot = lambda k: S(w.W, lambda j: app('XA', d, j, sort='I') * app('phiA', d, k, j))
    t = S(w.K, tot)
    return lambda k: ind_eq(t) * tot(k) + (ONE - ind_eq(t)) * tot(k) * inv(t)


def mk_doc(case):
    def unit(u):
        start = case in ('first', 'only')
        w, m = world(u, start, ONE if case == 'only' else None)
        K, W, C, B = w.K, w.W, w.C, w.B
        last = case in ('last', 'only')
        if case == 'first':
            u.st.assume(ind_le(P(2) - B))
        elif case == 'more':
            u.st.assume(ind_le(m - B + 2))
        elif case == 'last':
            u.st.heap[u.st.heap[w.step].fields['docs_seen_so_far_']] = Num(B - 1, 'I')
            m = B - 1
        d = V('d')
        u.st.assume(ind_le(-d))
        doc, vp = w.document(u.st, 'A', d)
        y = app('yA', d, sort='I')
        ex = example(w, d)
        b1 = lambda r, c: (app('b0', r, c) if not start else ZERO) + w.count('A', d, r, c)
        objective_contracts(u, w, m, ex, y, start)
        for st, k, _ in u.run(w.fdoc, Ref(w.step), [doc, vp, Ptr(w.params)]):
            f, h = st.heap[w.step].fields, st.heap
            z, yy = h[f['expected_z_bar_']], h[f['y_']]
            r, c = fresh('r'), fresh('c')
            if not start:
                s = u.idx(st, r, K, c, m)
                u.eq(s, 'earlier examples of the mini-batch are kept', z.at(r, c)[0], app('zb', r, c))
                u.eq(s, 'earlier labels of the mini-batch are kept', yy.at(c, ZERO)[0], app('yy', c, sort='I'))
            s = u.idx(st, r, K)
            p, dd = z.at(r, m)
            u.eq(s, 'the new example is the average topic assignment', p, ex(r))
            u.holds(s, 'the new example is defined', dd)
            u.eq(st, 'the new label is the label of the document', yy.at(m, ZERO)[0], y)
            u.eq_mat(st, 'expected counts are accumulated', h[f['b_']], K, W, b1)
            u.eq_num(st, 'documents seen since the last update', h[f['docs_seen_so_far_']], ZERO if last else m + 1)
            evs = [e for e in st.trace if e[0] in ('dispatch', 'loop')]
            for o in doc.info['objs'] + [w.oalpha]:
                u.same(st, 'inputs and prior', o)
            if not last:
                u.same(st, 'beta', w.obeta)
                u.same(st, 'eta', w.oeta)
                vel = h[f['eta_velocity_']]
                u.eq_mat(st, 'the velocity is kept', vel, K, C, lambda r, c: app('vel', r, c) if not start else ZERO)
                u.holds(st, 'no event before the mini-batch is complete', ONE if not evs else ZERO)
                continue
            nb = normed_rows(b1, K, W)
            bw = V('bw', 'R')
            u.eq_mat(st, 'topics: convex combination with the normalised counts', h[w.obeta], K, W,
                     lambda r, c: bw * app('beta', r, c) + (ONE - bw) * nb(r, c))
            nv = lambda r, c: V('mom', 'R') * (app('vel', r, c) if not start else ZERO) - V('lr', 'R') * app('gradient', r, c)
            u.eq_mat(st, 'velocity: momentum times the previous move minus rate times gradient', h[f['eta_velocity_']], K, C, nv)
            u.eq_mat(st, 'classifier: moved by the velocity', h[w.oeta], K, C, lambda r, c: app('eta', r, c) + nv(r, c))
            good = len(evs) == 1 and evs[0][0] == 'dispatch' and 'MaximizationProgressEvent' in evs[0][1]
            u.holds(st, 'exactly one progress event', ONE if good else ZERO)
            u.eq_num(st, 'the event carries minus the loss at the updated classifier', evs[0][2], -V('loss', 'R'))
            u.holds(st, 'one gradient step', ONE if len([e for e in st.trace if e[0] == 'gradient']) == 1 else ZERO)
    return unit


def objective_contracts(u, w, m, ex_, y, start=False):
    """MultinomialLogisticRegression is verified by C12; here: it is built for exactly this mini-batch and used at the right points"""
    K, C, B = w.K, w.C, w.B

    def val(st, x):
        while isinstance(x, (Ref, Ptr)):
            x = st.heap[x.oid]
        return x

    def same_problem(st, o, what):
        prob = val(st, o)
        F = {k: val(st, Ref(v)) for k, v in prob.fields.items()}
        z, yy = F['X_'], F['y_']
        u.eq(st, what + ': topics', z.rows, K); u.eq(st, what + ': examples', z.cols, B); u.eq(st, what + ': labels', yy.rows, B)
        r, c = fresh('r'), fresh('c')
        s = u.idx(st, r, K, c, m)
        u.eq(s, what + ': the earlier examples of the mini-batch', z.at(r, c)[0], app('zb', r, c))
        u.eq(s, what + ': the earlier labels of the mini-batch', yy.at(c, ZERO)[0], app('yy', c, sort='I'))
        s = u.idx(st, r, K)
        u.eq(s, what + ': the last example', z.at(r, m)[0], ex_(r))
        u.eq(st, what + ': the last label', yy.at(m, ZERO)[0], y)
        u.eq_mat(st, what + ': the class weights', F['Cy_'], C, ONE, lambda r, c: app('cw', r))
        u.eq_num(st, what + ': the penalty', F['L_'], V('reg', 'R'))

    def gradient(ex, st, c, o, a, n):
        same_problem(st, o, 'gradient')
        e = em.materialize(ex, st, em.as_mat(ex, st, a[0]))
        u.eq_mat(st, 'the gradient is taken at the current classifier', e, K, C, lambda r, c: app('eta', r, c))
        em.store_view(ex, st, em.as_mat(ex, st, a[1]), lambda s, r, q: Num(app('gradient', r, q)))
        st.trace = st.trace + [('gradient',)]
        return VOID

    def value(ex, st, c, o, a, n):
        same_problem(st, o, 'value')
        e = em.materialize(ex, st, em.as_mat(ex, st, a[0]))
        u.eq_mat(st, 'the value is taken at the updated classifier', e, K, C,
                 lambda r, c: app('eta', r, c) + V('mom', 'R') * (app('vel', r, c) if not start else ZERO) - V('lr', 'R') * app('gradient', r, c))
        return Num(V('loss', 'R'))
    symex.GHOSTS.add('gradient')
    u.ex.contracts[OPT + 'MultinomialLogisticRegression<double>::value'] = value
    u.ex.contracts[OPT + 'MultinomialLogisticRegression<double>::gradient'] = gradient


def incomplete(u):
    w, m = world(u)
    objective_contracts(u, w, m, lambda k: ZERO, ZERO)
    f0 = dict(u.st.heap[w.step].fields)
    for st, k, _ in u.run(w.fm, Ref(w.step), [Ptr(w.params)]):
        for nm, o in (('beta', w.obeta), ('eta', w.oeta), ('alpha', w.oalpha)):
            u.same(st, nm, o)
        for nm in FIELDS:
            u.same(st, nm, f0[nm])
        u.holds(st, 'no event', ONE if not [e for e in st.trace if e[0] == 'dispatch'] else ZERO)


def count_ctor(u):
    """given a number of classes every class has weight one; the other settings as for explicit weights"""
    import std_models
    n, B = u.size('n'), u.size('B')
    vals = [Num(V(x, 'R')) for x in ('reg', 'mom', 'lr', 'bw')]
    o = std_models.new_object(u.ex, u.st, EM + 'FastOnlineSupervisedMStep<double>', [Num(n, 'I'), vals[0], Num(B, 'I')] + vals[1:],
                              ['unsigned long', 'double', 'unsigned long', 'double', 'double', 'double'])
    f, h = u.st.heap[o].fields, u.st.heap
    u.eq_mat(u.st, 'every class has weight one', h[f['class_weights_']], n, ONE, lambda r, c: ONE)
    for nm, v in (('regularization_penalty_', 'reg'), ('eta_momentum_', 'mom'), ('eta_learning_rate_', 'lr'), ('beta_weight_', 'bw')):
        u.eq_num(u.st, nm + ' as given', h[f[nm]], V(v, 'R'))
    u.eq_num(u.st, 'mini-batch size as given', h[f['minibatch_size_']], B)
    u.eq_num(u.st, 'no document seen', h[f['docs_seen_so_far_']], ZERO)


UNITS = [('constructor with a number of classes', count_ctor), ('document: first ever', mk_doc('first')), ('document: mini-batch not yet complete', mk_doc('more')),
         ('document: mini-batches of one, first ever', mk_doc('only')), ('document: mini-batch complete', mk_doc('last')), ('end of epoch with an incomplete mini-batch', incomplete)]
CHECK = Check('C11', mtus('online') + ['src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp'], UNITS, mstepconf.msteps(['online'], 250))
