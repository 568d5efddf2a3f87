from estep import *
import estepconf, conf
import oracle as O
from C01 import VS, at0

EPS = Q('1e-44')


def lg(x): return app('lgamma', x)
def dg(x): return app('digamma', x)


class Args:
    """symbolic arguments of the likelihood functions: any responsibilities >= 0 and topic weights > 0"""

    def __init__(self, u, sup=False, eta_pos=False, words=True):
        self.m = m = Model(u, sup, eta_pos)
        declare('phi', 'nonneg'); declare('gamma', 'pos'); declare('tau', 'nonneg')
        self.ophi = u.mat('phi', m.K, m.W)
        self.ogamma = u.mat('gamma', m.K, ONE)
        self.otau = u.mat('tau', m.W, ONE)
        if words is True:
            u.st.assume(ind_le(ONE - m.N()))
        elif words is False:
            u.st.assume(ind_eq(m.N()))

    def phi(self, k, n): return app('phi', k, n)
    def gamma(self, k): return app('gamma', k)
    def tau(self, n): return app('tau', n)

    def unsup(self):
        m, K, W = self.m, self.m.K, self.m.W
        A, G = S(K, m.alpha), S(K, self.gamma)
        t1 = lambda k: dg(self.gamma(k)) - dg(G)
        p2 = lambda k, n: (ONE - ind_eq(m.X(n))) * self.phi(k, n)
        return (S(K, lambda k: (m.alpha(k) - 1) * t1(k)) + lg(A) - S(K, lambda k: lg(m.alpha(k)))
                + S(W, lambda n: S(K, lambda k: p2(k, n) * t1(k)))
                + S(W, lambda n: S(K, lambda k: m.X(n) * self.phi(k, n) * tlog(m.beta(k, n) + P(EPS))))
                - S(K, lambda k: (self.gamma(k) - 1) * t1(k)) - lg(G) + S(K, lambda k: lg(self.gamma(k)))
                - S(W, lambda n: S(K, lambda k: p2(k, n) * tlog(p2(k, n) + P(EPS)))))


def frame(u, st, a):
    for nm, o in (('document', a.m.oX), ('alpha', a.m.oalpha), ('beta', a.m.obeta), ('responsibilities', a.ophi), ('topic weights', a.ogamma)) + \
            ((('eta', a.m.oeta),) if a.m.C is not None else ()):
        u.same(st, nm, o)


def unsup(u):
    a = Args(u, words=None)
    f = u.fn(EU + 'compute_unsupervised_likelihood', ta='double')
    for st, k, v in u.run(f, None, [Ref(a.m.oX), Ref(a.m.oalpha), Ref(a.m.obeta), Ref(a.ophi), Ref(a.ogamma)]):
        u.eq_num(st, 'the unsupervised bound', v, a.unsup())
        frame(u, st, a)


def base(u, a):
    """caller's view: the unsupervised bound by its contract"""
    def h(ex, st, c, o, args, n):
        want = [st.heap[x] for x in (a.m.oX, a.m.oalpha, a.m.obeta, a.ophi, a.ogamma)]
        got = [ex.load(st, x) for x in args]
        for w, g, nm in zip(want, got, ('document', 'alpha', 'beta', 'responsibilities', 'topic weights')):
            r, c_ = fresh('r'), fresh('c')
            s = u.idx(st, r, w.rows, c_, w.cols)
            u.eq(s, 'the bound is taken of the given ' + nm, g.at(r, c_)[0], w.at(r, c_)[0])
        return Num(V('U', 'R'))
    u.ex.contracts[EU + 'compute_unsupervised_likelihood'] = h
    return V('U', 'R')


def multi(u):
    a = Args(u, True, True)
    m = a.m
    B = base(u, a)
    pr, mu, por = V('pr', 'R'), V('mu', 'R'), V('por', 'R')
    u.st.assume(ONE - ind_le(pr)); u.st.assume(ONE - ind_le(mu))
    f = u.fn(EU + 'compute_supervised_multinomial_likelihood', ta='double')
    for st, k, v in u.run(f, None, [Ref(m.oX), u.num(m.y, 'I') and Num(m.y, 'I'), Ref(m.oalpha), Ref(m.obeta), Ref(m.oeta), Ref(a.ophi), Ref(a.ogamma),
                                    Num(pr), Num(mu), Num(por)]):
        spec = (B + S(m.W, lambda n: S(m.K, lambda k: m.X(n) * a.phi(k, n) * tlog(m.eta(k, m.y)))) - (m.N() - 1) * tlog(pr)
                + por * (mu - 1) * S(m.C, lambda c: S(m.K, lambda k: tlog(m.eta(k, c)))) + por * (lg(m.C * mu) - m.C * lg(mu)))
        u.eq_num(st, 'the multinomial bound', v, spec)
        frame(u, st, a)


def corr(u):
    a = Args(u, True, True)
    m = a.m
    B = base(u, a)
    mu, por = V('mu', 'R'), V('por', 'R')
    u.st.assume(ONE - ind_le(mu))
    f = u.fn(EU + 'compute_supervised_correspondence_likelihood', ta='double')
    for st, k, v in u.run(f, None, [Ref(m.oX), Num(m.y, 'I'), Ref(m.oalpha), Ref(m.obeta), Ref(m.oeta), Ref(a.ophi), Ref(a.ogamma),
                                    Ref(a.otau), Num(mu), Num(por)]):
        spec = (B - S(m.W, lambda n: a.tau(n) * m.X(n) * tlog(a.tau(n) + P(EPS)))
                + S(m.W, lambda n: S(m.K, lambda k: m.X(n) * a.tau(n) * a.phi(k, n) * tlog(m.eta(k, m.y)))) - tlog(m.N())
                + por * (mu - 1) * S(m.C, lambda c: S(m.K, lambda k: tlog(m.eta(k, c)))) + por * (lg(m.C * mu) - m.C * lg(mu)))
        u.eq_num(st, 'the correspondence bound', v, spec)
        frame(u, st, a)
        u.same(st, 'selection weights', a.otau)


def last_word(u, a):
    """ghost: L is the last word that occurs; every word that occurs has some responsibility"""
    m = a.m
    L = V('L')
    st = u.st
    st.assume(ind_le(-L)); st.assume(ind_le(L - m.W + 1)); st.assume(ind_le(ONE - m.X(L)))
    i = fresh('i')
    st.assume(forall(i, m.W, ind_le(i - L) + (ONE - ind_le(i - L)) * ind_eq(m.X(i))))
    st.assume(forall(i, m.W, ind_eq(m.X(i)) + (ONE - ind_eq(m.X(i))) * (ONE - ind_eq(S(m.K, lambda k: a.phi(k, i))))))
    return L


def forall(i, n, c):
    return ind_forall(varname(i), n, c)


def at_last(u, st, a, L, terms):
    """instances of the path facts at the last word; indices found equal to L are replaced by it"""
    m = a.m
    s = st.clone()
    for t in (L, m.W - 1 - L):
        for x in instances(st, t):
            s.assume(x)
    idx = []
    for p in terms:
        for b in collect(p, lambda b: b.kind == 'a' and b.data[0] in ('phi', 'X')).values():
            t = b.data[1][-1]
            if t != L and t not in idx and not any(v.startswith('#') for v in t.fv) and t.const() is None:
                idx.append(t)
    rules = []
    for t in idx:
        s2 = s.clone()
        for x in instances(st, t):
            s2.assume(x)
        if prove_zero(t - L, s2.ctx()):
            for h in s2.pc[len(s.pc):]:
                s.assume(h)
            rules.append(t)
    mp = {}
    for t in rules:
        for v in sorted(t.fv):
            if v.startswith('ex!'):
                sv = solve_var(t - L)
                if sv and sv[0] not in ('L', 'W'):
                    mp[sv[0]] = sv[1]
    return s, mp


def h_given(u):
    a = Args(u, True)
    m = a.m
    B = base(u, a)
    L = last_word(u, a)
    declare('h', 'pos')
    oh = u.mat('h', m.K, ONE)
    f = u.fn(EU + 'compute_supervised_likelihood', ta='double', nparams=8)
    for st, k, v in u.run(f, None, [Ref(m.oX), Num(m.y, 'I'), Ref(m.oalpha), Ref(m.obeta), Ref(m.oeta), Ref(a.ophi), Ref(a.ogamma), Ref(oh)]):
        s, mp = at_last(u, st, a, L, [v.p])
        spec = (B + S(m.W, lambda n: S(m.K, lambda k: m.X(n) * m.eta(k, m.y) * a.phi(k, n))) * inv(m.N())
                - tlog(S(m.K, lambda k: app('h', k) * a.phi(k, L))))
        u.eq_num(s, 'the supervised bound given h of the last word', Num(subst(v.p, mp), 'R', subst(v.d, mp)), spec)
        frame(u, st, a)
        u.same(st, 'h', oh)


def hspec(a, L, ratio):
    m = a.m
    E = lambda k, c, n: texp(m.eta(k, c) * ratio(n))
    F = lambda c, n: S(m.K, lambda k: E(k, c, n) * a.phi(k, n))

    def h(k):
        def term(c):
            i = fresh('i')
            z = ind_eq(m.X(i))
            return E(k, c, L) * mk_prod(varname(i), m.W, z + (ONE - z) * F(c, i)) * inv(F(c, L))
        return S(m.C, term)
    return h


def h_fn(u):
    a = Args(u, True)
    m = a.m
    L = last_word(u, a)
    oxr = u.mat('XR', m.W, ONE)
    oh = u.mat('h0', m.K, ONE)
    f = u.fn(EU + 'compute_h', ta='double')
    for st, k, v in u.run(f, None, [Ref(m.oX), Ref(oxr), Ref(m.oeta), Ref(a.ophi), Ref(oh)]):
        hv = st.heap[oh]
        r = fresh('r')
        p, d = hv.at(r, ZERO)
        s, mp = at_last(u, u.idx(st, r, m.K), a, L, [p])
        u.eq(s, 'h of the last word: class factors of the other words', subst(p, mp), hspec(a, L, lambda n: app('XR', n))(r))
        u.holds(s, 'h defined (no NaN)', subst(d, mp))
        frame(u, st, a)
        u.same(st, 'word ratios', oxr)


def supervised(u):
    a = Args(u, True)
    m = a.m
    L = last_word(u, a)
    ev = []

    def ch(ex, st, c, o, args, n):
        X, XR, et, ph = [ex.load(st, x) for x in args[:4]]
        for g, w, nm in ((X, st.heap[m.oX], 'document'), (et, st.heap[m.oeta], 'eta'), (ph, st.heap[a.ophi], 'responsibilities')):
            r, c_ = fresh('r'), fresh('c')
            s = u.idx(st, r, w.rows, c_, w.cols)
            u.eq(s, 'h is computed from the given ' + nm, g.at(r, c_)[0], w.at(r, c_)[0])
        r = fresh('r')
        u.eq(u.idx(st, r, m.W), 'h is computed from the word frequencies', XR.at(r, ZERO)[0], m.X(r) * inv(m.N()))
        t = args[4]
        em.store_view(ex, st, em.as_mat(ex, st, t), lambda s_, i, j: Num(app('hL', i)))
        return VOID

    def lk(ex, st, c, o, args, n):
        if len(args) != 8:
            return NotImplemented
        want = [st.heap[x] for x in (m.oX,)] + [None] + [st.heap[x] for x in (m.oalpha, m.obeta, m.oeta, a.ophi, a.ogamma)]
        for x, w, nm in zip(args, want, ('document', 'label', 'alpha', 'beta', 'eta', 'responsibilities', 'topic weights')):
            g = ex.load(st, x)
            if w is None:
                u.eq(st, 'bound of the given label', g.p, m.y)
                continue
            r, c_ = fresh('r'), fresh('c')
            s = u.idx(st, r, w.rows, c_, w.cols)
            u.eq(s, 'bound of the given ' + nm, g.at(r, c_)[0], w.at(r, c_)[0])
        g = ex.load(st, args[7])
        r = fresh('r')
        u.eq(u.idx(st, r, m.K), 'bound with the computed h', g.at(r, ZERO)[0], app('hL', r))
        u.holds(u.idx(st, r, m.K), 'h initialised', g.at(r, ZERO)[1])
        return Num(V('bound', 'R'))
    f = u.fn(EU + 'compute_supervised_likelihood', ta='double', nparams=7)
    u.ex.contracts[EU + 'compute_supervised_likelihood'] = lk
    u.ex.contracts[EU + 'compute_h'] = ch
    for st, k, v in u.run(f, None, [Ref(m.oX), Num(m.y, 'I'), Ref(m.oalpha), Ref(m.obeta), Ref(m.oeta), Ref(a.ophi), Ref(a.ogamma)]):
        u.eq_num(st, 'returns that bound', v, V('bound', 'R'))
        frame(u, st, a)


def likes(rng, tier):
    r1 = estepconf.run(VS, 'like', 80)(rng, tier)
    if r1['witness']:
        return r1
    T = estepconf.tester()
    for i in range({'quick': 100, 'thorough': 3000, 'deep': 1500}[tier]):
        for var in ('unsup', 'slda', 'sldah', 'multi', 'corr'):
            alpha, beta, eta = O.gen_model(rng, eta_pos=var in ('multi', 'corr'))
            K, W = beta.shape
            X = O.gen_doc(rng, W)
            if X.sum() == 0 and var == 'corr':
                continue
            y = int(rng.integers(eta.shape[1]))
            phi = rng.dirichlet(np.ones(K), W).T
            if rng.random() < .3:
                phi = phi * (rng.random((K, W)) < .8)
            gamma = rng.uniform(.1, 20, K)
            h = rng.uniform(.1, 3, K)
            tau = rng.dirichlet(np.ones(W))
            prior, mu, por = float(np.float32(rng.uniform(.05, 1))), float(rng.uniform(.5, 3)), float(rng.choice([1., .1, 1 / 3]))
            e = O.like(var, X, y, alpha, beta, eta, phi, gamma, h, tau, prior, mu, por)
            if not np.isfinite(e):
                continue
            T.case(('likelihood', var, X, y, alpha, beta, eta, phi, gamma, h, tau, prior, mu, por), tol=(1e-7, 1e-7), v=e, X=X[:, None],
                   alpha=alpha[:, None], beta=beta, eta=eta, phi=phi, gamma=gamma[:, None])
    r2 = T.finish()
    r2['cases'] += r1['cases']
    return r2


NAMES = {'unsup': 'compute_unsupervised_likelihood', 'slda': 'compute_supervised_likelihood', 'fslda': 'compute_supervised_likelihood',
         'multi': 'compute_supervised_multinomial_likelihood', 'corr': 'compute_supervised_correspondence_likelihood'}


def same_mat(u, st, name, g, w):
    r, c = fresh('r'), fresh('c')
    s = u.idx(st, r, w.rows, c, w.cols)
    u.eq(st, name + ' (rows)', g.rows, w.rows)
    u.eq(st, name + ' (cols)', g.cols, w.cols)
    u.eq(s, name, g.at(r, c)[0], w.at(r, c)[0])


def event(var, weight=None, empty=None):
    def unit(u):
        R = variant(u, var, weight, empty)
        m = R.m
        for p in R.paths:
            st = p.st
            ev = one_event(u, st)
            if ev is None:
                continue
            val = st.heap[st.heap[ev].fields['likelihood_']]
            calls = [e for e in st.trace if e[0] == 'likelihood']
            if not calls:
                u.holds(st, 'without a likelihood the event carries NaN', ONE if val.p == V('NaN', 'R') else ZERO)
                u.holds(st, 'a likelihood is left out only when it is not certain to be requested', ONE - ind_le(ONE - V('p_like', 'R')))
                continue
            u.holds(st, 'a likelihood is computed only when it may be requested', ONE - ind_le(V('p_like', 'R')))
            u.holds(st, 'the bound of this variant', ONE if len(calls) == 1 and calls[0][1] == NAMES[var] else ZERO)
            a = calls[-1][2]
            u.eq(st, 'the event carries the bound', val.p, calls[-1][3])
            ms = [('document', st.heap[m.oX])] + ([('label', None)] if var != 'unsup' else []) + [('alpha', st.heap[m.oalpha]), ('beta', st.heap[m.obeta])] + \
                ([('eta', st.heap[m.oeta])] if var != 'unsup' else []) + [('returned responsibilities', p.phi), ('returned topic weights', p.gamma)]
            if var == 'corr':
                ms.append(('returned selection weights', p.tau))
            for (nm, w), g in zip(ms, a):
                if w is None:
                    u.eq(st, 'the bound is for the label of the document', g.p, m.y)
                else:
                    same_mat(u, st, 'the bound is of the ' + nm, g, w)
            if var == 'multi':
                u.eq(st, 'prior of the class', a[-3].p, app('prior', m.y))
            if var in ('multi', 'corr'):
                u.eq(st, 'smoothing', a[-2].p, V('mu', 'R'))
                u.eq(st, 'portion of the eta prior per document', a[-1].p, inv(V('D')))
    return unit


CHECK = Check('C14', tus(*VS), [('compute_unsupervised_likelihood', unsup), ('compute_supervised_likelihood (h given)', h_given),
                                ('compute_h', h_fn), ('compute_supervised_likelihood', supervised), ('compute_supervised_multinomial_likelihood', multi),
                                ('compute_supervised_correspondence_likelihood', corr),
    ('UnsupervisedEStep::doc_e_step event', event('unsup')), ('SupervisedEStep::doc_e_step event', event('slda')), ('FastSupervisedEStep::doc_e_step event', event('fslda', 'const', False)),
    ('MultinomialSupervisedEStep::doc_e_step event', event('multi')), ('CorrespondenceSupervisedEStep::doc_e_step event', event('corr'))], likes)
