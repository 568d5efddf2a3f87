"""C04: sLDA inference -- coordinate updates of the responsibilities and the topic weights."""
from estep import *
import estepconf

FP = V('fp')


class Upd:
    """contract of one pass over the document, as sequences over the words

    Q(n,c)   product over the words that occur of sum_k exp(eta(k,c) X(i)/N) phi(k,i), phi as it is before word n
    PF(n,i,k) fixed point iterates for word n
    GG(n,k)  topic weights before word n"""

    def __init__(self, u, m, ratio, phi0):
        self.u, self.m, self.ratio, self.phi0 = u, m, ratio, phi0
        K, W, C = m.K, m.W, m.C
        E = lambda k, c, n: texp(m.eta(k, c) * ratio(n))
        PF = lambda n, i, k: app('PF', n, i, k)
        Q = lambda n, c: app('Q', n, c)
        GG = lambda n, k: app('GG', n, k)
        occ = lambda n: ONE - ind_eq(m.X(n))
        F0 = lambda c, n: S(K, lambda k: E(k, c, n) * phi0(k, n))
        F1 = lambda c, n: S(K, lambda k: E(k, c, n) * PF(n, FP, k))
        h = lambda n, k: S(C, lambda c: E(k, c, n) * Q(n, c) * inv(F0(c, n)))
        self.E, self.PF, self.Q, self.GG, self.occ, self.F0, self.F1, self.h = E, PF, Q, GG, occ, F0, F1, h

        def q0(c):
            i = fresh('i')
            return mk_prod(varname(i), W, ind_eq(m.X(i)) + occ(i) * F0(c, i))

        def q_step(n, c):
            return ind_eq(m.X(n)) * Q(n, c) + occ(n) * Q(n, c) * inv(F0(c, n)) * F1(c, n)

        def pf_step(n, i, k):
            hp = S(K, lambda j: h(n, j) * PF(n, i, j))
            b = lambda k: m.beta(k, n) * texp(app('digamma', GG(n, k)) + ratio(n) * m.eta(k, m.y) - h(n, k) * inv(hp) * inv(m.X(n)))
            return b(k) * inv(S(K, b))

        def g_step(n, k):
            return GG(n, k) + occ(n) * m.X(n) * (PF(n, FP, k) - phi0(k, n))
        self.q0, self.q_step, self.pf_step, self.g_step = q0, q_step, pf_step, g_step

        def phi_at(n, k, c):
            done = (ONE - ind_le(n - c)) * occ(c)
            return done * PF(c, FP, k) + (ONE - done) * phi0(k, c)
        self.phi_at = phi_at
        # the topic weights before word n, in closed form
        self.closed = lambda n, k: m.alpha(k) + S(W, lambda i: m.X(i) * (ind_le(i + 1 - n) * PF(i, FP, k) + ind_le(n - i) * phi0(k, i)))

    ones = False

    def never_zero(self, s):
        """s = sum over k (and others) of PF(n,i,k) times positive factors (inverses of sum_k .. phi0(k,n) included)"""
        sb = s.data[1].single()
        if not sb or sb[1] <= 0:
            return None
        pf = [a for a, e in sb[0] if a.kind == 'a' and a.data[0] == 'PF' and e == 1]
        if len(pf) != 1:
            return None
        n, i, k = pf[0].data[1]
        if not any(k == V(v) and r == self.m.K for v, r in s.data[0]) or any(v in n.fv or v in i.fv for v, r in s.data[0]):
            return None
        for a, e in sb[0]:
            if a is pf[0] or sign_atom(a) == 'pos':
                continue
            if a.kind == 's' and e < 0:
                t = as_atom(strip_pos(P(a)))
                b = as_atom(t.data[1]) if t is not None and t.kind == 's' and len(t.data[0]) == 1 else None
                if b is not None and b.kind == 'a' and b.data[0] == 'phi0' and b.data[1][0] == V(t.data[0][0][0]) and b.data[1][1] == n and t.data[0][0][1] == self.m.K:
                    continue
            return None
        return n, i

    def install(self):
        u, m = self.u, self.m
        K, W, C = m.K, m.W, m.C
        PF, Q, GG, occ = self.PF, self.Q, self.GG, self.occ

        def rule(a):
            if a.kind == 'a' and a.data[0] == 'PF' and a.data[1][1].const() == 0:
                return self.phi0(a.data[1][2], a.data[1][0])
            if a.kind == 'a' and a.data[0] == 'Q' and a.data[1][0].const() == 0:
                return self.q0(a.data[1][1])
            if a.kind == 'a' and a.data[0] == 'GG' and a.data[1][0].const() == 0:
                return self.closed(ZERO, a.data[1][1])
            if a.kind == 'i' and a.data[0] == 'eq':
                # lemma: the responsibilities of a word that occurs never vanish; neither do sums of them with positive weights
                s = as_atom(a.data[1]) or as_atom(-a.data[1])
                if s is not None and s.kind == 's':
                    n = self.never_zero(s)
                    if n is not None:
                        return ind_eq(m.X(n[0])) * ind_bool('pfz', *n)
            return None
        symex.RULES.append(rule)
        symex.GHOSTS.update(('PF', 'Q', 'GG'))
        # ---- signs and the lemma, by induction
        n, i, k, c = fresh('n'), fresh('i'), fresh('k'), fresh('c')
        s = u.idx(u.st, n, W, k, K)
        s.assume(ind_le(-c)); s.assume(ind_le(c - C + 1)); s.assume(ind_le(-i))
        so = s.clone(); so.assume(occ(n))
        for x in instances(u.st, n):
            so.assume(x)
        declare('PF', 'nonneg'); declare('Q', 'pos')
        u.ob(s, 'contract sequence GG: stays positive', 'pos', self.closed(n + 1, k))
        u.eq(s, 'contract sequence GG: alpha plus the counted responsibilities', self.closed(n, k) + self.g_step(n, k) - GG(n, k), self.closed(n + 1, k))
        declare('GG', 'pos'); declare('GGnext', 'pos')

        def next_rule(a):
            # GG(n) = GG(n+1) - change at word n, and GG(n+1) is positive
            if a.kind == 'a' and a.data[0] == 'GG':
                n, k = a.data[1]
                return app('GGnext', n, k) - occ(n) * m.X(n) * (PF(n, FP, k) - self.phi0(k, n))
        u.lemmas.append(next_rule)
        u.ob(s, 'contract sequence Q: initially positive', 'pos', self.q0(c))
        u.ob(so, 'contract sequence Q: stays positive', 'pos', Q(n, c) * inv(self.F0(c, n)) * self.F1(c, n))
        u.ob(so, 'contract sequence PF: initially nonnegative', 'nonneg', self.phi0(k, n))
        u.ob(so, 'contract sequence PF: stays nonnegative', 'nonneg', self.pf_step(n, i, k))
        if self.ones:
            u.eq(so, 'contract sequence PF: initially sums to one', S(K, lambda j: self.phi0(j, n)), ONE)
        else:
            u.holds(so, 'contract sequence PF: initially some responsibility', ONE - ind_eq(S(K, lambda j: self.phi0(j, n))))
        u.eq(so, 'contract sequence PF: sums to one', S(K, lambda j: self.pf_step(n, i, j)), ONE)
        # ---- invariants
        ex = u.ex
        ex.ghosts.append(loops.Ghost('products', C, ONE, lambda it: Q(P(it), RI), lambda it: self.q_step(it, RI)))
        ex.ghosts.append(loops.Ghost('gamma', K, ONE, lambda it: GG(P(it), RI), lambda it: self.g_step(it, RI)))
        ex.ghosts.append(loops.Ghost('psi_gamma', K, ONE, lambda it: app('digamma', GG(P(it), RI)), lambda it: app('digamma', self.g_step(it, RI))))
        ex.ghosts.append(loops.Ghost('phi', K, W, lambda it: self.phi_at(P(it), RI, CI), lambda it: self.phi_at(it + 1, RI, CI)))

        def inner(n):
            col = ind_eq(CI - n)
            return [loops.Ghost('phi_n', K, W, lambda it: col * PF(n, P(it), RI) + (ONE - col) * self.phi_at(n, RI, CI),
                                lambda it: col * self.pf_step(n, it, RI) + (ONE - col) * self.phi_at(n, RI, CI))]
        ex.ghosts.append(loops.Family(inner))


def possible(m, f):
    """precondition: sum_k f(k, n) is positive for every word n that occurs"""
    def rule(a):
        if a.kind == 'i' and a.data[0] == 'eq':
            s = as_atom(a.data[1]) or as_atom(-a.data[1])
            if s is not None and s.kind == 's' and len(s.data[0]) == 1 and s.data[0][0][1] == m.K:
                b = as_atom(s.data[1])
                if b is not None and b.kind == 'a' and b.data[0] == f and b.data[1][0] == V(s.data[0][0][0]):
                    return ind_eq(m.X(b.data[1][1])) * ind_bool(f + 'z', b.data[1][1])
        return None
    return rule


def sum_rule(m, f, cols, value):
    """S[k < K : f(.., k, ..)] -> value(other arguments); cols tells where the topic index stands"""
    def rule(a):
        if a.kind == 's' and len(a.data[0]) == 1 and a.data[0][0][1] == m.K:
            b = as_atom(a.data[1])
            v = a.data[0][0][0]
            if b is not None and b.kind == 'a' and b.data[0] == f:
                x = list(b.data[1])
                if x[cols] == V(v):
                    del x[cols]
                    if not any(v in y.fv for y in x):
                        return value(*x)
        return None
    return rule


def pass_run(u, ones=False):
    """one pass over the document (compute_supervised_phi_gamma) on symbolic input"""
    m = Model(u, True)
    K, W, C = m.K, m.W, m.C
    oxr = u.mat('XR', W, ONE)
    declare('phi0', 'nonneg')
    ophi, oh = u.mat('phi0', K, W), u.mat('h0', K, ONE)
    u.st.assume(ind_le(-FP))
    phi0 = lambda k, n: app('phi0', k, n)
    symex.RULES.append(sum_rule(m, 'phi0', 0, lambda n: ONE) if ones else possible(m, 'phi0'))
    symex.RULES.append(possible(m, 'beta'))
    c = Upd(u, m, lambda n: app('XR', n), phi0)
    c.ones = ones
    ogam = u.ex.alloc(u.st, MatVal(K, ONE, c.closed(ZERO, RI), ONE, 'R'))
    c.install()
    f = u.fn(EU + 'compute_supervised_phi_gamma', ta='double')
    c.oX, c.oxr, c.ophi, c.ogam = m.oX, oxr, ophi, ogam
    c.paths = u.run(f, None, [Ref(m.oX), Ref(oxr), Num(m.y, 'I'), Ref(m.obeta), Ref(m.oeta), Num(FP, 'I'), Ref(ophi), Ref(ogam), Ref(oh)])
    return c


def pass_unit(u):
    c = pass_run(u)
    m = c.m
    K, W = m.K, m.W
    for st, k, v in c.paths:
        u.eq_mat(st, 'responsibilities: fixed point iterates of every word in turn', st.heap[c.ophi], K, W, lambda r, cc: c.phi_at(W, r, cc))
        u.eq_mat(st, 'topic weights: change of the responsibilities, weighted by the counts', st.heap[c.ogam], K, ONE, lambda r, cc: c.GG(W, r))
        for nm, o in (('document', m.oX), ('beta', m.obeta), ('eta', m.oeta), ('word ratios', c.oxr)):
            u.same(st, nm, o)


def pass_dist(u):
    """C01: the pass maps distributions to distributions"""
    c = pass_run(u, True)
    m = c.m
    # by induction over the fixed point iterates ('sums to one' above)
    pf1 = sum_rule(m, 'PF', 2, lambda n, i: c.occ(n) + ind_eq(m.X(n)) * app('anysum', n, i))
    for st, k, v in c.paths:
        k, n = fresh('k'), fresh('n')
        s = u.idx(st, k, m.K, n, m.W)
        phi = st.heap[c.ophi]
        u.ob(s, 'responsibility non-negative', 'nonneg', phi.at(k, n)[0])
        u.holds(s, 'responsibility defined (no NaN)', phi.at(k, n)[1])
        u.ob(s, 'responsibilities of a word sum to one', 'zero', S(m.K, lambda i: phi.at(i, n)[0]) - 1, rules=[pf1])


def step_dist(u):
    R = variant(u, 'slda')
    m = R.m
    one = sum_rule(m, 'Ph', 1, lambda t, n: ONE)
    for p in R.paths:
        for s, x in zero_or_more(p.st, p.e):
            phi = p.phi if x is p.e else C01at0(p.phi, p.e)
            k, n = fresh('k'), fresh('n')
            s2 = u.idx(s, k, m.K, n, m.W)
            u.eq(s, 'one row per topic', phi.rows, m.K)
            u.eq(s, 'one column per word', phi.cols, m.W)
            u.ob(s2, 'responsibility non-negative', 'nonneg', phi.at(k, n)[0])
            u.holds(s2, 'responsibility defined (no NaN)', phi.at(k, n)[1])
            u.ob(s2, 'responsibilities of a word sum to one', 'zero', S(m.K, lambda i: phi.at(i, n)[0]) - 1, rules=[one])


def C01at0(mv, e):
    return MatVal(mv.rows, mv.cols, subst(mv.p, {varname(e): ZERO}), subst(mv.d, {varname(e): ZERO}), mv.s)


def pass_counts(u):
    """C02: the pass keeps weight = prior + sum of count times responsibility"""
    c = pass_run(u)
    m = c.m
    W = m.W

    def gg(a):
        # GG(n,k) = closed(n,k), by induction (see the contract sequence)
        if a.kind == 'a' and a.data[0] == 'GG':
            return c.closed(*a.data[1])
    for st, k, v in c.paths:
        k = fresh('k')
        s = u.idx(st, k, m.K)
        g, phi = st.heap[c.ogam], st.heap[c.ophi]
        u.ob(s, 'weight = prior + sum of count times responsibility', 'zero',
             g.at(k, ZERO)[0] - m.alpha(k) - S(W, lambda n: m.X(n) * phi.at(k, n)[0]), rules=[gg])
        u.holds(s, 'weight defined (no NaN)', g.at(k, ZERO)[1])
        for nm, o in (('document', m.oX), ('beta', m.obeta), ('eta', m.oeta)):
            u.same(st, nm, o)


def step_counts(u):
    import C02
    R = variant(u, 'slda')
    m = R.m
    for p in R.paths:
        for s, x in zero_or_more(p.st, p.e):
            phi, gam = (C01at0(p.phi, p.e), C01at0(p.gamma, p.e)) if x is not p.e else (p.phi, p.gamma)

            def g(a):
                if a.kind == 'a' and a.data[0] == 'G' and a.data[1][0].const() != 0:
                    t, k = a.data[1]
                    return m.alpha(k) + S(m.W, lambda n: m.X(n) * R.Ph(t, k, n))
            C02.counts(u, s, phi, gam, m, [g])
        C02.frame(u, p.st, m)


def step_unit(u):
    R = variant(u, 'slda')
    post_update(u, R, 'slda')


UNITS = [('compute_supervised_phi_gamma', pass_unit), ('SupervisedEStep::doc_e_step', step_unit)]
CHECK = Check('C04', tus('slda'), UNITS, estepconf.run(['slda'], 'update', 300))
