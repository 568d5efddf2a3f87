"""C18: decision scores and predicted labels."""
from estep import *
import ldaconf


LDA = NS + 'LDA<double>'
TUS = ['src/ldaplusplus/LDA.cpp']


def machine(u):
    """a trainer around an arbitrary supervised model"""
    ex, st = u.ex, u.st
    K, C, D = u.size('K'), u.size('C'), u.size('D', 0)
    oa, oe = u.mat('alpha', K, ONE), u.mat('eta', K, C)
    ob = u.mat('beta', K, u.size('W'))
    p = ex.alloc(st, Struct(NS + 'parameters::SupervisedModelParameters<double>', {'alpha': oa, 'beta': ob, 'eta': oe}))
    o = ex.alloc(st, Struct(LDA, {'model_parameters_': ex.alloc(st, Ptr(p))}))
    return o, K, C, D, (oa, ob, oe)


def scores(u, st, v, K, C, D, at):
    """scores of documents with at least one word: the topic weights exceed the prior in total"""
    u.eq(st, 'one score per class', v.rows, C)
    u.eq(st, 'one column per document', v.cols, D)
    c, d = fresh('c'), fresh('d')
    s = u.idx(st, c, C, d, D)
    s.assume(ONE - ind_le(S(K, lambda k: at(k, d)) - S(K, lambda k: app('alpha', k))))
    p, dd = v.at(c, d)
    u.eq(s, 'score of class c for document d', p, score(K, at)(c, d))
    u.holds(s, 'score of class c for document d: defined (no NaN)', dd)


def score(K, at):
    def f(c, d):
        tot = S(K, lambda k: at(k, d) - app('alpha', k))
        return S(K, lambda k: app('eta', k, c) * (at(k, d) - app('alpha', k)) * inv(tot))
    return f


def over(u, name, ints):
    """the overload on counts (ints) or on topic weights"""
    return u.fn(LDA + '::' + name, nparams=1, pred=lambda f: ('<int' in f['params'][0]['t'] or 'MatrixXi' in f['params'][0]['t']) == ints)


def transform(u, K, D):
    """contract of transform (C15): one column of topic weights per document"""
    seen = []

    def h(ex, st, c, o, a, n):
        st.trace = st.trace + [('transform', ex.load(st, a[0]) if not isinstance(a[0], Ref) else a[0].oid)]
        return MatVal(K, D, app('T', RI, CI), ONE, 'R')
    u.ex.contracts[LDA + '::transform'] = h


def decision(u):
    o, K, C, D, objs = machine(u)
    g = lambda k, d: app('G', k, d)
    x = u.mat('G', K, D, vec=False)
    for st, k, v in u.run(over(u, 'decision_function', False), Ref(o), [Ref(x)]):
        scores(u, st, v, K, C, D, g)
        for q in objs + (x,):
            u.same(st, 'model and topic weights', q)


def decision_counts(u):
    o, K, C, D, objs = machine(u)
    transform(u, K, D)
    g = lambda k, d: app('T', k, d)
    x = u.mat('X', V('W'), D, 'I')
    for st, k, v in u.run(over(u, 'decision_function', True), Ref(o), [Ref(x)]):
        scores(u, st, v, K, C, D, g)
        u.holds(st, 'the scores are those of the given documents', ONE if [e[1] for e in st.trace] == [x] else ZERO)


def labels(u, st, v, C, D, sc):
    d, c = fresh('d'), fresh('c')
    m = fresh('m')
    s = u.idx(st, d, D)
    body = sc(m, d)
    p, dd = v.at(d, ZERO)
    want = em.argmax(body, varname(m), C)
    if simp(p - want, s.ctx()).const() == 0:
        u.eq(s, 'the label is the class with the highest score', p, want)
    else:
        u.holds(s, 'the label is a class', ind_le(-p) * ind_le(p - C + 1))
        s2 = u.idx(s, c, C)
        u.holds(s2, 'the label is the class with the highest score', ind_le(sc(c, d) - sc(p, d)))
    u.holds(s, 'every document gets a label', dd)
    u.eq(st, 'one label per document', v.rows, D)
    u.eq(st, 'labels are a vector', v.cols, ONE)


def predict(u):
    o, K, C, D, objs = machine(u)
    x = u.mat('Z', C, D, vec=False)
    for st, k, v in u.run(over(u, 'predict', False), Ref(o), [Ref(x)]):
        labels(u, st, v, C, D, lambda c, d: app('Z', c, d))
        u.same(st, 'scores', x)


def mk_counts(name):
    def unit(u):
        o, K, C, D, objs = machine(u)
        transform(u, K, D)

        def dec(ex, st, c, ob, a, n):
            x = ex.load(st, a[0])
            if st.trace and st.trace[-1][0] == 'transform' and isinstance(x, MatVal) and x.p == app('T', RI, CI):
                return MatVal(C, D, app('Z', RI, CI), ONE, 'R')
            st.trace = st.trace + [('transform', a[0].oid)]
            return MatVal(C, D, app('Z', RI, CI), ONE, 'R')
        u.ex.contracts[LDA + '::decision_function'] = dec
        x = u.mat('X', V('W'), D, 'I')
        f = over(u, name, True) if name == 'predict' else u.fn(LDA + '::' + name)
        for st, k, v in u.run(f, Ref(o), [Ref(x)]):
            if name == 'transform_predict':
                its = [u.ex.load(st, q) for q in v.items]
                u.eq_mat(st, 'topic weights are those of transform', its[0], K, D, lambda r, c: app('T', r, c))
                v = its[1]
            labels(u, st, v, C, D, lambda c, d: app('Z', c, d))
            u.holds(st, 'the given documents are used', ONE if st.trace and all(e[1] == x for e in st.trace) else ZERO)
            for q in objs + (x,):
                u.same(st, 'model and documents', q)
    return unit


UNITS = [('decision_function(topic weights)', decision), ('decision_function(counts)', decision_counts), ('predict(scores)', predict),
         ('predict(counts)', mk_counts('predict')), ('transform_predict', mk_counts('transform_predict'))]
CHECK = Check('C18', TUS, UNITS, ldaconf.c18)
