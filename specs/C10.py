"""C10: batch supervised training statistics, over arbitrary histories (object invariant) and the training call."""
from mstep import *
from C12 import CL, OPT
import mstepconf

PROB = {'fslda': 'first', 'slda': 'second'}


def stat(w, d):
    """entry k of training example d"""
    n = S(w.W, lambda j: app('XA', d, j, sort='I'))
    tot = lambda k: S(w.W, lambda j: app('XA', d, j, sort='I') * app('phiA', d, k, j))
    return n, tot


def example(w, var, d):
    n, tot = stat(w, d)
    if var == 'slda':
        return lambda k: ind_eq(n) * tot(k) + (ONE - ind_eq(n)) * tot(k) * inv(n)
    t = S(w.K, tot)
    return lambda k: ind_eq(t) * tot(k) + (ONE - ind_eq(t)) * tot(k) * inv(t)


def second(w, d):
    n, _ = stat(w, d)
    c = lambda k, j: app('XA', d, j, sort='I') * app('phiA', d, k, j)
    o = lambda a, b: S(w.W, lambda j: c(a, j) * c(b, j))
    return lambda a, b: ind_eq(n) * o(a, b) + (ONE - ind_eq(n)) * o(a, b) * inv(n) ** 2


def world(u, var, m, cap):
    """a step object in an arbitrary reachable state: m documents seen this epoch, examples of capacity cap >= m, the other buffers at least as large"""
    ex, st = u.ex, u.st
    w = World(u, var, [Num(V('iters'), 'I'), Num(V('tol', 'R')), Num(V('reg', 'R'))])
    st.assume(ind_le(-V('iters')))
    w.epoch_syms('A')
    f = st.heap[w.step].fields
    K = w.K
    fresh_ = cap.const() == 0
    if not fresh_:
        declare('b0', 'nonneg')
        st.heap[f['b_']] = MatVal(K, w.W, app('b0', RI, CI))
        st.heap[f['docs_']] = Num(m, 'I')
        live = ind_le(CI - m + 1)
        st.heap[f['expected_z_bar_']] = MatVal(K, cap, app('zb', RI, CI), ONE)
        capy, capv = cap + V('spare_y'), cap + V('spare_v')
        st.assume(ind_le(-V('spare_y'))); st.assume(ind_le(-V('spare_v')))
        st.heap[f['y_']] = MatVal(capy, ONE, app('yy', RI, sort='I'), ONE, 'I')
        declare('yy', 'nonneg')
        if var == 'slda':
            a = st.heap[f['variance_z_bar_']]
            k = V('ki_')
            st.heap[f['variance_z_bar_']] = Arr(capv, None, None, ONE, 'R', a.et, MatVal(app('vr', k, sort='I'), app('vc', k, sort='I'), app('vb', k, RI, CI)))
    return w


def mk_doc(var, case):
    def unit(u):
        m = V('m') if case != 'first' else ZERO
        if case != 'first':
            u.st.assume(ind_le(-m))
        if case == 'first':
            cap = ZERO
        elif case == 'room':
            cap = u.size('cap'); u.st.assume(ind_le(m - cap + 1))
        else:
            cap = m
            u.st.assume(ind_le(ONE - m))
        w = world(u, var, m, cap)
        K, W = w.K, w.W
        d = V('d')
        u.st.assume(ind_le(-d))
        doc, vp = w.document(u.st, 'A', d)
        y = app('yA', d, sort='I')
        if var == 'semi':
            u.st.assume(ind_le(-y))
        h0 = dict(u.st.heap)
        f0 = u.st.heap[w.step].fields
        for st, k, _ in u.run(w.fdoc, Ref(w.step), [doc, vp, Ptr(w.params)]):
            f = st.heap[w.step].fields
            h = st.heap
            u.eq_num(st, 'one more document', h[f['docs_']], m + 1)
            z, yy, b = h[f['expected_z_bar_']], h[f['y_']], h[f['b_']]
            ex = example(w, var, d)
            u.eq(st, 'examples: rows', z.rows, K); u.holds(st, 'examples: room for the document', ind_le(m + 1 - z.cols)); u.holds(st, 'labels: at least as many as examples', ind_le(z.cols - yy.rows))
            r, c = fresh('r'), fresh('c')
            s = u.idx(st, r, K, c, m)
            u.eq(s, 'earlier examples are kept', z.at(r, c)[0], app('zb', r, c))
            u.eq(s, 'earlier labels are kept', yy.at(c, ZERO)[0], app('yy', c, sort='I'))
            s = u.idx(st, r, K)
            p, dd = z.at(r, m)
            u.eq(s, 'the new example is the average topic assignment of the document', p, ex(r))
            u.holds(s, 'the new example is defined', dd)
            p, dd = yy.at(m, ZERO)
            u.eq(st, 'the new label is the label of the document', p, y)
            u.holds(st, 'the new label is defined', dd)
            u.eq_mat(st, 'topic statistics: counts of this document added', b, K, W,
                     lambda r, c: (app('b0', r, c) if case != 'first' else ZERO) + w.count('A', d, r, c))
            if var == 'slda':
                a = h[f['variance_z_bar_']]
                u.holds(st, 'second moments: at least as many as examples', ind_le(z.cols - a.size))
                at = lambda i: u.ex.arr_get(st, f['variance_z_bar_'], i)
                if case != 'first':
                    i = fresh('i')
                    s = st.clone(); s.assume(ind_le(-i)); s.assume(ind_le(i - m + 1))
                    r, c = fresh('r'), fresh('c')
                    u.eq(s, 'earlier second moments are kept', at(i).at(r, c)[0], app('vb', i, r, c))
                    u.eq(s, 'earlier second moments are kept: rows', at(i).rows, app('vr', i, sort='I'))
                    u.eq(s, 'earlier second moments are kept: cols', at(i).cols, app('vc', i, sort='I'))
                u.eq_mat(st, 'the new second moment is the outer product of the expected counts over the squared length', at(m), K, K, second(w, d))
            for o in doc.info['objs'] + [w.oalpha, w.obeta, w.oeta]:
                u.same(st, 'inputs and model', o)
    return unit


def mk_train(var):
    def unit(u):
        m, cap = V('m'), u.size('cap')
        u.st.assume(ind_le(ONE - m)); u.st.assume(ind_le(m - cap))
        w = world(u, var, m, cap)
        K, W, C = w.K, w.W, w.C
        ex = u.ex
        # definition of the largest label among the first m
        mm = fresh('m')
        prove.UPPER['yy'] = app('yy', em.argmax(app('yy', mm, sort='I'), varname(mm), m), sort='I')
        seen = []

        def minimize(ex, st, c, o, a, n):
            prob = ex.load(st, a[0])
            self_ = ex.load(st, o) if not isinstance(o, Struct) else o
            seen.append(1)
            check(st, prob, self_, a[1], n)
            em.store_view(ex, st, em.as_mat(ex, st, a[1]), lambda s, r, q: Num(app('trained', r, q)))
            return VOID

        def val(st, x):
            x = st.heap[x] if isinstance(x, str) or isinstance(x, int) else x
            while isinstance(x, (Ref, Ptr)):
                x = st.heap[x.oid]
            return x

        def check(st, prob, gd, target, n):
            F = prob.fields
            z, yy = val(st, F['X_']), val(st, F['y_'])
            u.eq_mat(st, 'trained on exactly the examples of the epoch', z, K, m, lambda r, c: app('zb', r, c), defined=False)
            u.eq(st, 'labels: count', yy.rows, m)
            i = fresh('i')
            s = u.idx(st, i, m)
            u.eq(s, 'trained on exactly the labels of the epoch', yy.at(i, ZERO)[0], app('yy', i, sort='I'))
            if var == 'slda':
                a = val(st, F['X_var_'])
                u.eq(st, 'second moments: count', a.size, m)
                oid = [k for k, v in st.heap.items() if v is a][0]
                el = ex.arr_get(st, oid, i)
                r, c = fresh('r'), fresh('c')
                u.eq(s, 'trained on exactly the second moments of the epoch', el.at(r, c)[0], app('vb', i, r, c))
                u.eq(s, 'second moments: rows', el.rows, app('vr', i, sort='I'))
            u.eq_num(st, 'with the configured penalty', val(st, F['L_']), V('reg', 'R'))
            cy = val(st, F['Cy_'])
            u.eq_mat(st, 'with the default class weights', cy, prove.UPPER['yy'] + 1, ONE,
                     lambda r, c: m * inv(cy.rows * S(m, lambda d: ind_eq(app('yy', d, sort='I') - r))), defined=False)
            t = deep_oid(st, target)
            u.holds(st, 'the classifier of the model is trained', ONE if t == w.oeta else ZERO)
            u.eq_mat(st, 'training starts from the current classifier', st.heap[w.oeta], K, C, lambda r, c: app('eta', r, c))
            ls = val(st, gd.fields['line_search_'])
            u.holds(st, 'with the backtracking line search', ONE if isinstance(ls, Struct) and 'ArmijoLineSearch' in ls.cls else ZERO)
            if isinstance(ls, Struct):
                u.eq_num(st, 'sufficient decrease parameter', val(st, ls.fields['beta_']), P(Q(1, 1000)))
                u.eq_num(st, 'backtracking factor', val(st, ls.fields['tau_']), P(Q(1, 2)))
            # the callback, called twice with arbitrary values and iteration numbers
            cb = val(st, gd.fields['progress_'])
            V0, V1, i0, i1 = V('value0', 'R'), V('value1', 'R'), V('iter0'), V('iter1')
            s = st.clone()
            for x in (i0, i1):
                s.assume(ind_le(-x))
            for x in (V0, V1):
                s.assume(ONE - ind_eq(x))
            n0 = len(s.trace)

            def twice(s_):
                r0 = ex.load(s_, ex.call_value(s_, cb, [Num(V0), Num(V('norm', 'R')), Num(i0, 'I')]))
                r1 = ex.load(s_, ex.call_value(s_, cb, [Num(V1), Num(V('norm', 'R')), Num(i1, 'I')]))
                return r0, r1
            for s2, kind, rr in ex.explore(twice, s):
                ev = [e for e in s2.trace[n0:]]
                good = len(ev) == 2 and all(e[0] == 'dispatch' and 'MaximizationProgressEvent' in e[1] for e in ev)
                u.holds(s2, 'one progress event per callback', ONE if good else ZERO)
                if good:
                    u.eq_num(s2, 'the event carries the log likelihood (minus the objective)', ev[0][2], -V0)
                    u.eq_num(s2, 'the event carries the log likelihood (minus the objective), later', ev[1][2], -V1)
                inf = V('INF', 'R')
                go = ind_le(i0 - V('iters') + 1) * (ONE - ind_le((inf - V0) * inv(V0) - V('tol', 'R')))
                u.eq(s2, 'the first callback compares with infinity', bool01(rr[0]), go)
                # the minimiser calls again only if it was told to go on (C13)
                if bool01(rr[0]).const() == 0:
                    continue
                s2.assume(bool01(rr[0]))
                go = ind_le(i1 - V('iters') + 1) * (ONE - ind_le((V0 - V1) * inv(V1) - V('tol', 'R')))
                u.eq(s2, 'goes on exactly below the limit and while the relative improvement is above the tolerance', bool01(rr[1]), go)
        for x in gd_minimize(u):
            ex.contracts[x] = minimize
        for st, k, _ in u.run(w.fm, Ref(w.step), [Ptr(w.params)]):
            h, f = st.heap, st.heap[w.step].fields
            u.eq_mat(st, 'topics: the statistics of the epoch, normalised', h[w.obeta], K, W, normed_rows(lambda k, n: app('b0', k, n), K, W))
            u.eq_mat(st, 'classifier: the result of the training', h[w.oeta], K, C, lambda r, c: app('trained', r, c))
            u.eq_mat(st, 'afterwards the topic statistics are zero', h[f['b_']], K, W, lambda r, c: ZERO)
            u.eq_num(st, 'afterwards no document is pending', h[f['docs_']], ZERO)
            u.holds(st, 'afterwards there are at least as many labels as examples', ind_le(h[f['expected_z_bar_']].cols - h[f['y_']].rows))
            if var == 'slda':
                u.holds(st, 'afterwards there are at least as many second moments as examples', ind_le(h[f['expected_z_bar_']].cols - h[f['variance_z_bar_']].size))
            u.same(st, 'alpha', w.oalpha)
        u.holds(u.st, 'trained exactly once', ONE if len(seen) == 1 else ZERO)
    return unit


def bool01(v):
    return v.p


def deep_oid(st, x):
    m = em.as_mat(None, st, x)
    return m.lv.oid if m.lv is not None and m.lv.whole else None


def gd_minimize(u):
    fs = [f['fn'] for f in u.prog.funcs.values() if f['fn'].startswith(OPT + 'GradientDescent<') and f['fn'].endswith('::minimize')
          and 'double' in f['fn']]
    if not fs:
        raise Unsupported('GradientDescent::minimize not found')
    return fs


UNITS = [('%s: document (%s)' % (MCLS[v], c), mk_doc(v, c)) for v in ('fslda', 'slda') for c in ('first', 'room', 'full')] + \
        [('%s: end of epoch' % MCLS[v], mk_train(v)) for v in ('fslda', 'slda')]
CHECK = Check('C10', mtus('fslda', 'slda') + ['src/ldaplusplus/optimization/%s.cpp' % c for c in CL.values()], UNITS, mstepconf.msteps(['fslda', 'slda'], 150))
