"""C12: the value and gradient of the (second order) multinomial logistic regression."""
from estep import *
import mstepconf

OPT = NS + 'optimization::'
CL = {'first': 'MultinomialLogisticRegression', 'second': 'SecondOrderLogisticRegressionApproximation'}
TUS = ['src/ldaplusplus/optimization/%s.cpp' % c for c in CL.values()]


def deriv(p, name, i, j):
    """formal partial derivative with respect to the entry (i, j) of the matrix symbol name"""
    def go(p):
        acc = ZERO
        for m, c in p.t.items():
            for k, (a, e) in enumerate(m):
                da = goa(a)
                if not da.t:
                    continue
                r = P(c)
                for l, (b, f) in enumerate(m):
                    if l != k:
                        r = r * Poly({((b, f),): Q(1)})
                acc = acc + r * da * (P(Q(e)) * Poly({((a, e - 1),): Q(1)}) if e != 1 else ONE)
        return acc

    def goa(a):
        k = a.kind
        if k in 'vi':
            return ZERO
        if k == 'a':
            f, args = a.data
            if f == name:
                return ind_eq(args[0] - i) * ind_eq(args[1] - j)
            if f == 'log':
                return go(args[0]) * inv(args[0])
            if any(go(x).t for x in args):
                raise Unsupported('derivative of %s' % f)
            return ZERO
        if k == 'E':
            return go(a.data[0]) * P(a)
        if k == 'q':
            return -go(a.data[0]) * P(a) * P(a)
        if k == 's':
            nr, b = open_sum(a)
            r = go(b)
            for v, n in reversed(nr):
                r = mk_sum(v, n, r)
            return r
        raise Unsupported('derivative of %s' % k)
    return go(p)


def problem(u, kind):
    """an object built by the real constructor with explicit class weights"""
    ex, st = u.ex, u.st
    N, K, C = u.size('N', 0), u.size('K'), u.size('C')
    declare('y', 'nonneg')
    prove.UPPER['y'] = C - 1
    oX = u.mat('X', K, N)
    oy = ex.alloc(st, MatVal(N, ONE, app('y', RI, sort='I'), ONE, 'I'))
    oC = u.mat('w', C, ONE)
    args = [Ref(oX)]
    if kind == 'second':
        args.append(Ref(var_list(u, N, K)))
    args += [Ref(oy), Ref(oC), Ref(u.num('L'))]
    import std_models
    o = std_models.new_object(ex, st, OPT + CL[kind] + '<double>', args, ['x'] * len(args))
    oe = u.mat('eta', K, C)
    return o, oe, oX, oy, N, K, C


def spec_value(kind, N, K, C):
    y = lambda d: app('y', d, sort='I')
    t = lambda d, c: S(K, lambda k: app('eta', k, c) * app('X', k, d))

    def norm(d):
        def term(c):
            e = texp(t(d, c))
            if kind == 'second':
                e = e * (ONE + P(Q(1, 2)) * S(K, lambda a: S(K, lambda b: app('eta', a, c) * app('V', d, a, b) * app('eta', b, c))))
            return e
        return S(C, term)
    return -S(N, lambda d: app('w', y(d)) * (t(d, y(d)) - tlog(norm(d)))) + \
        V('L', 'R') * S(K, lambda k: S(C, lambda c: app('eta', k, c) ** 2)) * P(Q(1, 2))


def var_list(u, N, K):
    return u.ex.alloc(u.st, Arr(N, et='Eigen::Matrix<double, -1, -1, 0>', mat=MatVal(K, K, app('V', V('ki_'), RI, CI), ONE, 'R')))


def positive_normaliser(u, N, K, C):
    """second order: the expanded normaliser of every document is positive (it is under a positive semi-definite V)"""
    i = fresh('d')


def mk_value(kind):
    def unit(u):
        o, oe, oX, oy, N, K, C = problem(u, kind)
        f = u.fn(OPT + CL[kind] + '<double>::value')
        for st, k, v in u.run(f, Ref(o), [Ref(oe)]):
            u.eq_num(st, 'the regularised weighted negative log-likelihood', v, spec_value(kind, N, K, C), defined=kind == 'first')
            for nm, x in (('X', oX), ('labels', oy), ('eta', oe)):
                u.same(st, nm, x)
    return unit


def mk_gradient(kind):
    def unit(u):
        o, oe, oX, oy, N, K, C = problem(u, kind)
        og = u.mat('g0', K, C)
        f = u.fn(OPT + CL[kind] + '<double>::gradient')
        val = spec_value(kind, N, K, C)
        for st, k, v in u.run(f, Ref(o), [Ref(oe), Ref(og)]):
            u.eq_mat(st, 'every entry is the partial derivative of the value', st.heap[og], K, C, lambda a, b: deriv(val, 'eta', a, b),
                     defined=kind == 'first')
            for nm, x in (('X', oX), ('labels', oy), ('eta', oe)):
                u.same(st, nm, x)
    return unit


def mk_ctor(kind):
    """without explicit weights: n / (C * number of documents of the class), C = largest label + 1"""
    def unit(u):
        ex, st = u.ex, u.st
        N, K = u.size('N'), u.size('K')
        declare('y', 'nonneg')
        oX = u.mat('X', K, N)
        oy = ex.alloc(st, MatVal(N, ONE, app('y', RI, sort='I'), ONE, 'I'))
        args = [Ref(oX)] + ([Ref(var_list(u, N, K))] if kind == 'second' else []) + [Ref(oy), Ref(u.num('L'))]
        # definition of the maximum: no label exceeds it
        m_ = fresh('m')
        prove.UPPER['y'] = app('y', em.argmax(app('y', m_, sort='I'), varname(m_), N), sort='I')
        import std_models
        o = std_models.new_object(ex, st, OPT + CL[kind] + '<double>', args, ['x'] * len(args))
        y = lambda d: app('y', d, sort='I')
        m = st.heap[st.heap[o].fields['Cy_']]
        u.eq_mat(st, 'default class weights', m, m.rows, ONE, lambda r, c: N * inv(m.rows * S(N, lambda d: ind_eq(y(d) - r))), defined=False)
        u.eq_num(st, 'the regularisation strength', ex.load(st, Ref(st.heap[o].fields['L_'])), V('L', 'R'))
    return unit


UNITS = [(CL[k] + n, f(k)) for k in CL for n, f in ((': value', mk_value), (': gradient', mk_gradient), (': default class weights', mk_ctor))]
CHECK = Check('C12', TUS, UNITS, mstepconf.losses)
