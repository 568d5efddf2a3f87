"""Contracts of the five inference steps (variational E-steps)."""
from checklib import *
import symex
import loops

NS = 'ldaplusplus::'
EM = NS + 'em::'
EU = NS + 'e_step_utils::'
TUS = {
    'unsup': ['src/ldaplusplus/em/UnsupervisedEStep.cpp'],
    'slda': ['src/ldaplusplus/em/SupervisedEStep.cpp'],
    'fslda': ['src/ldaplusplus/em/FastSupervisedEStep.cpp'],
    'multi': ['src/ldaplusplus/em/MultinomialSupervisedEStep.cpp'],
    'corr': ['src/ldaplusplus/em/CorrespondenceSupervisedEStep.cpp'],
}
COMMON = ['src/ldaplusplus/events/Events.cpp', 'src/ldaplusplus/em/AbstractEStep.cpp', 'src/ldaplusplus/e_step_utils.cpp']
CLS = {'unsup': 'UnsupervisedEStep', 'slda': 'SupervisedEStep', 'fslda': 'FastSupervisedEStep',
       'multi': 'MultinomialSupervisedEStep', 'corr': 'CorrespondenceSupervisedEStep'}


def tus(*vs):
    return [t for v in vs for t in TUS[v]] + COMMON


def S(n, f):
    i = fresh('s')
    return mk_sum(varname(i), n, f(i))


class Model:
    """symbolic document and model: X counts (>=0), alpha>0, beta>=0, eta"""

    def __init__(self, u, supervised=False, eta_pos=False, y_any=False):
        self.u = u
        ex, st = u.ex, u.st
        self.K, self.W = u.size('K'), u.size('W', 0)
        K, W = self.K, self.W
        declare('X', 'nonneg'); declare('alpha', 'pos'); declare('beta', 'nonneg')
        if eta_pos:
            declare('eta', 'pos')
        self.oX = u.mat('X', W, ONE, 'I')
        self.oalpha = u.mat('alpha', K, ONE)
        self.obeta = u.mat('beta', K, W)
        fields = {'alpha': self.oalpha, 'beta': self.obeta}
        self.C = None
        cls = NS + 'parameters::ModelParameters<double>'
        if supervised:
            self.C = u.size('C')
            self.oeta = u.mat('eta', K, self.C)
            fields['eta'] = self.oeta
            cls = NS + 'parameters::SupervisedModelParameters<double>'
            self.y = V('y')
            st.assume(ind_le(-self.y)); st.assume(ind_le(self.y - self.C + 1))
        self.params = ex.alloc(st, Struct(cls, fields))
        self.doc = Opaque('doc', 'Document')
        oX = self.oX
        ex.virtuals[('Document', 'get_words')] = lambda ex, st, o, a, n: Ref(oX)
        if supervised:
            ex.virtuals[('Document', 'get_class')] = lambda ex, st, o, a, n: Num(V('y'), 'I')
            ex.virtuals[('Document', 'get_corpus')] = lambda ex, st, o, a, n: Opaque('corpus', 'Corpus')
            ex.virtuals[('Corpus', 'get_prior')] = lambda ex, st, o, a, n: Num(app('prior', ex.load(st, a[0]).p), 'R')
            declare('prior', 'unit')

        def disp(ex, st, o, a, n):
            p = ex.load(st, a[0])
            st.trace = st.trace + [('dispatch', o.name, p.oid, st.heap[p.oid].cls)]
            return VOID
        ex.virtuals[('Dispatcher', 'dispatch')] = disp

    # documents' quantities
    def X(self, n): return app('X', n, sort='I')
    def beta(self, k, n): return app('beta', k, n)
    def alpha(self, k): return app('alpha', k)
    def eta(self, k, c): return app('eta', k, c)
    def N(self): return S(self.W, lambda n: self.X(n))


def make(u, var, args):
    """construct the step through its real constructor with a recording dispatcher"""
    ex, st = u.ex, u.st
    cls = EM + CLS[var] + '<double>'
    import std_models
    o = std_models.new_object(ex, st, cls, args, ['double'] * len(args))
    f = u.fn(NS + 'events::EventDispatcherComposition::set_event_dispatcher')
    ex.invoke(st, f, Ref(o), [Opaque('disp', 'Dispatcher')])
    return o


def doc_e_step(u, var, o, m):
    f = u.fn(EM + CLS[var] + '<double>::doc_e_step')
    return u.run(f, Ref(o), [m.doc, Ptr(m.params)])


def seq(u, name, rows, cols, init, step, vec, sign=None):
    """contract sequence name(t, ...) with name(0)=init and name(t+1)=step(t)"""
    def ref(t, *ix):
        return app(name, t, *ix)

    def rule(a):
        if a.kind == 'a' and a.data[0] == name and a.data[1][0].const() == 0:
            return init(*a.data[1][1:])
        return None
    symex.RULES.append(rule)
    symex.GHOSTS.add(name)
    if sign:
        # induction: the declared sign holds initially and is preserved
        t, r, c = fresh('t'), fresh('r'), fresh('c')
        s = u.idx(u.st, r, P(rows), c, P(cols))
        s.assume(ind_le(-t))
        i2 = [r] if vec else [r, c]
        u.ob(s, 'contract sequence %s: initially %s' % (name, sign), sign, init(*i2))
        declare(name, sign)
        u.ob(s, 'contract sequence %s: stays %s' % (name, sign), sign, step(t, *i2))
    ix = [RI] if vec else [RI, CI]
    g = loops.Ghost(name, rows, cols, lambda it: init(*ix) if P(it).const() == 0 else ref(it, *ix), lambda it: step(it, *ix))
    u.ex.ghosts.append(g)
    return ref


def split(st, c):
    a, b = st.clone(), st.clone()
    a.assume(c); b.assume(ONE - c)
    return [a, b]


def unfold(name, e, step):
    """definition of the contract sequence at e >= 1: name(e, ...) = step(e-1, ...)"""
    def rule(a):
        if a.kind == 'a' and a.data[0] == name and a.data[1][0] == e:
            return step(e - 1, *a.data[1][1:])
        return None
    return rule


def instances(st, t):
    """instances at t of the universally quantified path facts"""
    out = []
    for h in st.pc:
        s = h.single()
        if s and s[1] == 1:
            for a, e in s[0]:
                if a.kind == 'i' and a.data[0] == 'fa':
                    v, n, c = a.data[1:]
                    # (0<=t<n) -> c(t)
                    g = ind_le(-t) * ind_le(t - n + 1)
                    out.append(ONE - g * (ONE - subst(c, {v: t})))
    return out


def normed(w, K):
    """w(k) divided by its total, unchanged when the total is zero"""
    s = S(K, w)
    z = ind_eq(s)
    return lambda k: z * w(k) + (ONE - z) * w(k) * inv(s)


def pick(u, st, m, rows, cols, at, cands):
    """the exit index among cands at which the stored matrix equals at(e)"""
    r, c = fresh('r'), fresh('c')
    s = u.idx(st, r, P(rows), c, P(cols))
    for e in cands:
        p, _ = m.at(r, c)
        if prove_zero(p - at(e, r, c), s.ctx()):
            return e
    return cands[-1] if cands else None


def zero_or_more(st, e):
    """case split on an iteration index: [e = 0], [e >= 1]"""
    s1 = st.clone()
    lo = ind_le(ONE - e)
    s1.pc = [lo]
    cx = Ctx([ind_le(-e), lo], symex.RULES)
    s1.pc = [lo] + [simp(h, cx) for h in st.pc]
    s1._ctx = None
    out = [(s1, e)]
    if as_atom(e) is not None:
        s0 = st.clone()
        s0.pc = [simp(subst(h, {varname(e): ZERO}), Ctx([], symex.RULES)) for h in st.pc]
        s0._ctx = None
        out.append((s0, ZERO))
    return out


def stop_rule(u, st, m, G, e, N, tol, gold=None):
    """e is the configured maximum or the first converged iteration"""
    K = m.K

    def conv(t):
        prev = lambda k: (ONE - ind_eq(t)) * G(t - 1, k)
        return ONE - ind_le(tol - S(K, lambda k: tabs(prev(k) - G(t, k))) * inv(K))
    u.holds(st, 'never more iterations than configured', ind_le(e - N))
    for s, x in zero_or_more(st, e):
        u.holds(s, 'stops only at the limit or when converged', ONE - (ONE - ind_eq(x - (N if e is x or e != N else x))) * (ONE - conv(x)))
    t = fresh('t')
    s = st.clone()
    s.assume(ind_le(-t)); s.assume(ind_le(t - e + 1))
    for x in instances(st, t):
        s.assume(x)
    for s2, x in zero_or_more(s, t):
        u.holds(s2, 'does not run past convergence', ONE - conv(x))


def one_event(u, st):
    tr = [e for e in st.trace if e[0] != 'likelihood']
    ev = [e for e in tr if e[0] == 'dispatch']
    u.holds(st, 'exactly one event, an ExpectationProgressEvent', ONE if len(ev) == 1 and len(tr) == 1 and
            'ExpectationProgressEvent' in ev[0][3] and ev[0][1] == 'disp' else ZERO)
    return ev[0][2] if ev else None


# ---------------------------------------------------------------- variants with closed-form updates

def likelihood_contracts(u):
    """the likelihood functions are verified on their own (C14); here they are pure functions of their arguments"""
    for nm in ('compute_unsupervised_likelihood', 'compute_supervised_likelihood', 'compute_supervised_multinomial_likelihood',
               'compute_supervised_correspondence_likelihood'):
        def h(ex, st, c, o, a, n, nm=nm):
            vals = [ex.load(st, x) for x in a]
            r = V('like!%d' % next(symex._oid), 'R')
            st.trace = st.trace + [('likelihood', nm, vals, r)]
            return Num(r)
        u.ex.contracts[EU + nm] = h


class Run:
    pass


def variant(u, var, weight=None, empty=None):
    """executes doc_e_step of the variant on a symbolic document and model; returns the paths with their contract"""
    sup = var != 'unsup'
    m = Model(u, sup, eta_pos=var in ('multi', 'corr'))
    K, W, C = m.K, m.W, m.C
    N, tol, pl = V('N_it'), V('tol', 'R'), V('p_like', 'R')
    u.st.assume(ind_le(-N))
    seed = Num(V('seed'), 'I')
    R = Run()
    R.m, R.N, R.tol = m, N, tol
    if empty is not None:
        u.st.assume(ind_eq(m.N()) if empty else ind_le(ONE - m.N()))
        if empty:
            nn = as_atom(m.N())
            symex.RULES.append(lambda a: ZERO if a is nn else None)
    likelihood_contracts(u)
    if sup:
        u.ex.virtuals[('Corpus', 'size')] = lambda ex, st, o, a, n: Num(V('D'), 'I')
        u.st.assume(ind_le(ONE - V('D')))
    Cw, ew, mu = V('Cw', 'R'), V('eta_w', 'R'), V('mu', 'R')
    if var == 'slda':
        u.st.assume(ind_le(-V('fp')))
        args = [Num(N, 'I'), Num(tol), Num(V('fp'), 'I'), Num(pl), seed]
    elif var == 'unsup':
        args = [Num(N, 'I'), Num(tol), Num(pl), seed]
    elif var == 'fslda':
        args = [Num(N, 'I'), Num(tol), Num(Cw), Num(P(enum_value(u.prog, 'ExponentialDecay' if weight == 'exp' else 'Constant')), 'I'), Num(pl), seed]
    elif var == 'multi':
        args = [Num(N, 'I'), Num(tol), Num(mu), Num(ew), Num(pl), seed]
    elif var == 'corr':
        args = [Num(N, 'I'), Num(tol), Num(mu), Num(pl), seed]
    R.step = o = make(u, var, args)
    dg = lambda x: app('digamma', x)
    leta = lambda k: tlog(m.eta(k, m.y))
    G = lambda t, k: app('G', t, k)
    Tau = lambda t, n: app('Tau', t, n)
    Ph = lambda t, k, n: app('Ph', t, k, n)
    nz = ONE - ind_eq(m.N())
    if var == 'slda':
        seq(u, 'Ph', K, W, lambda k, n: inv(K), lambda t, k, n: Ph(t + 1, k, n), False, 'nonneg')
        seq(u, 'G', K, ONE, lambda k: m.alpha(k) + m.N() * inv(K), lambda t, k: G(t + 1, k), True, 'pos')
        R.G, R.Tau, R.Ph = G, None, Ph
        pass_contract(u, m, G, Ph)
        return finish_variant(u, R, var, o)

    def phi_next(t):
        if var == 'unsup':
            w = lambda k, n: m.beta(k, n) * texp(dg(G(t, k)))
        elif var == 'multi':
            w = lambda k, n: m.beta(k, n) * texp(dg(G(t, k)) + ew * leta(k))
        elif var == 'corr':
            w = lambda k, n: m.beta(k, n) * texp(dg(G(t, k)) + Tau(t, n) * leta(k))
        elif var == 'fslda':
            mx = R.maxeta
            big = ONE - ind_le(mx)
            es = lambda k, c: m.eta(k, c) * (big * inv(mx) + ONE - big)
            z = lambda k: S(W, lambda n: m.X(n) * inv(m.N()) * Ph(t, k, n))
            sx = lambda c: texp(S(K, lambda k: m.eta(k, c) * z(k)))
            w = lambda k, n: m.beta(k, n) * texp(dg(G(t, k)) + R.weight * (es(k, m.y) - S(C, lambda c: es(k, c) * sx(c)) * inv(S(C, sx))))

            if empty:
                return lambda k, n: Ph(t, k, n)
        return lambda k, n: normed(lambda k: w(k, n), K)(k)

    def gamma_of(phi):
        return lambda k: m.alpha(k) + S(W, lambda n: m.X(n) * phi(k, n))
    R.phi_next, R.gamma_of = phi_next, gamma_of
    if var == 'fslda':
        # the largest entry of eta, as the verifier names it
        v = em.max_value(u.ex, u.st, u.st.heap[m.oeta])
        R.maxeta = v
        ep = V('epochs')
        u.st.assume(ind_le(-ep))
        # any number of finished epochs
        fe = u.fn(EM + CLS[var] + '<double>::e_step')
        loops.core(u.ex, u.st, None, lambda s, it: u.ex.invoke(s, fe, Ref(o), []), lambda s: None, None, count=ep)
        u.st.exits, u.st.trace = [], []
        R.weight = mk_prod('pw_', ep, Cw) if weight == 'exp' else Cw
        if empty:
            R.G, R.Tau, R.Ph = (lambda t, k: m.alpha(k)), None, (lambda t, k, n: inv(K))
            return finish_variant(u, R, var, o)
        seq(u, 'Ph', K, W, lambda k, n: inv(K), lambda t, k, n: phi_next(t)(k, n), False, 'nonneg')
    if var == 'corr':
        def tau_next(t):
            ph = phi_next(t)
            return normed(lambda n: texp(S(K, lambda k: ph(k, n) * leta(k))), W)
        R.tau_next = tau_next
        seq(u, 'Tau', W, ONE, lambda n: inv(W), lambda t, n: tau_next(t)(n), True, 'nonneg')
    seq(u, 'G', K, ONE, lambda k: m.alpha(k) + m.N() * inv(K), lambda t, k: gamma_of(phi_next(t))(k), True, 'pos')
    R.G, R.Tau, R.Ph = G, Tau, Ph
    return finish_variant(u, R, var, o)


def pass_contract(u, m, G, Ph):
    """compute_supervised_phi_gamma by its contract (verified in C04): the t-th call maps (Ph(t), G(t)) to (Ph(t+1), G(t+1))"""
    def h(ex, st, c, o, a, n):
        if not ex.loop_stack:
            raise Unsupported('compute_supervised_phi_gamma called outside a loop')
        t = ex.loop_stack[-1]
        r, q = fresh('r'), fresh('c')

        def same(nm, x, rows, cols, w):
            s = u.idx(st, r, P(rows), q, P(cols))
            v = em.as_mat(ex, st, x).el(st, r, q)
            ex.oblige(s, 'precondition of the update: ' + nm, 'zero', v.p - w, n.get('l'))
            ex.oblige(s, 'precondition of the update: ' + nm + ' (defined)', 'cond', v.d, n.get('l'))
        # an empty document has no word ratios; none is used
        occ = ONE - ind_eq(m.X(r))
        xr = em.as_mat(ex, st, a[1])
        s = u.idx(st, r, m.W); s.assume(occ)
        ex.oblige(s, 'precondition of the update: the word frequencies', 'zero', xr.el(st, r, ZERO).p - m.X(r) * inv(m.N()), n.get('l'))
        same('the document', a[0], m.W, ONE, m.X(r))
        same('beta', a[3], m.K, m.W, m.beta(r, q))
        same('eta', a[4], m.K, m.C, m.eta(r, q))
        for nm, x, w in (('the label', a[2], m.y), ('the number of fixed point iterations', a[5], V('fp'))):
            ex.oblige(st, 'precondition of the update: ' + nm, 'zero', ex.load(st, x).p - w, n.get('l'))
        z = ind_eq(t)
        same('the responsibilities of the previous iteration', a[6], m.K, m.W, z * inv(m.K) + (ONE - z) * Ph(t, r, q))
        same('the topic weights of the previous iteration', a[7], m.K, ONE, z * (m.alpha(r) + m.N() * inv(m.K)) + (ONE - z) * G(t, r))
        em.store_view(ex, st, em.as_mat(ex, st, a[6]), lambda s_, i, j: Num(Ph(t + 1, i, j)))
        em.store_view(ex, st, em.as_mat(ex, st, a[7]), lambda s_, i, j: Num(G(t + 1, i)))
        f = 'havoc%d' % next(symex._oid)
        em.store_view(ex, st, em.as_mat(ex, st, a[8]), lambda s_, i, j: Num(app(f, i)))
        return VOID
    u.ex.contracts[EU + 'compute_supervised_phi_gamma'] = h


def finish_variant(u, R, var, o):
    m, K, G = R.m, R.m.K, R.G
    R.st0 = u.st.clone()
    R.paths = []
    for st, k, v in doc_e_step(u, var, o, m):
        p = Run()
        p.st, p.kind = st, k
        if k != 'return' and k != 'ok' and k != 'ret' and isinstance(k, str) and 'throw' in k:
            u.holds(st, 'does not throw', ZERO)
            continue
        vp = st.heap[v.oid]
        u.holds(st, 'returns the variational parameters', ONE if 'VariationalParameters' in vp.cls else ZERO)
        p.gamma, p.phi = st.heap[vp.fields['gamma']], st.heap[vp.fields['phi']]
        p.tau = st.heap[vp.fields['tau']] if var == 'corr' else None
        p.e = pick(u, st, p.gamma, K, ONE, lambda e, r, c: G(e, r), st.exits)
        R.paths.append(p)
    return R


def enum_value(prog, name):
    """value of an enumerator of the fast supervised step"""
    v = {int(x) for k, x in prog.enums.items() if k.endswith('::' + name) and 'FastSupervisedEStep<double>' in k}
    if len(v) != 1:
        raise Unsupported('enumerator %s' % name)
    return v.pop()



def phi_at(R, e, r, c, var):
    if var in ('fslda', 'slda'):
        return R.Ph(e, r, c)
    if P(e).const() == 0:
        return inv(R.m.K)
    return R.phi_next(e - 1)(r, c)


def post_update(u, R, var):
    """the documented update sequence, stopping rule and event"""
    m = R.m
    for p in R.paths:
        st, e = p.st, p.e
        u.eq_mat(st, 'topic weights follow the update sequence', p.gamma, m.K, ONE, lambda r, c: R.G(e, r))
        for s, x in zero_or_more(st, e):
            sub = (lambda mv: mv) if x is e else (lambda mv: MatVal(mv.rows, mv.cols, subst(mv.p, {varname(e): ZERO}), subst(mv.d, {varname(e): ZERO}), mv.s))
            u.eq_mat(s, 'responsibilities follow the update', sub(p.phi), m.K, m.W, lambda r, c: phi_at(R, x, r, c, var))
            if var == 'corr':
                u.eq_mat(s, 'selection weights follow the update', sub(p.tau), m.W, ONE, lambda r, c: R.Tau(x, r))
        stop_rule(u, st, m, R.G, e, R.N, R.tol)
        one_event(u, st)
