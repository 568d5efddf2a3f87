"""C13: line searches and gradient descent."""
from estep import *
import mstepconf

OPT = NS + 'optimization::'
PROB = OPT + 'MultinomialLogisticRegression<double>'
PT = '<' + PROB
INST = VERIF + '/harness/inst.cpp'
VAL, GRAD = OPT + 'MultinomialLogisticRegression<double>::value', OPT + 'MultinomialLogisticRegression<double>::gradient'


def F(p, rows, cols):
    """the objective at the matrix with entries p (over RI, CI)"""
    return em.fval('objective', MatVal(rows, cols, p))


def world(u):
    ex, st = u.ex, u.st
    R, C = u.size('R'), u.size('C')
    x0, g, d = u.mat('x0', R, C), u.mat('g', R, C), u.mat('d', R, C)
    problem = Opaque('problem', 'Problem')

    def value(ex, st, c, o, a, n):
        m = em.materialize(ex, st, em.as_mat(ex, st, a[0]))
        same(ex, st, 'the objective is evaluated on an initialised matrix', m.d)
        return Num(em.fval('objective', m))

    def same(ex, st, nm, dd):
        if dd.const() != 1:
            i = st.clone()
            for h in (ind_le(-RI), ind_le(RI - R + 1), ind_le(-CI), ind_le(CI - C + 1)):
                i.assume(h)
            ex.oblige(i, nm, 'cond', dd)
    ex.contracts[VAL] = value
    return R, C, x0, g, d, problem


def cls(u, name):
    fs = [f for f in u.prog.funcs.values() if f['fn'].startswith(OPT + name + '<')]
    if not fs:
        raise Unsupported(name + ' not found')
    return sorted({f['cls'] for f in fs if f.get('cls')}, key=len)[0]


def method(u, name, m):
    fs = [f for f in u.prog.funcs.values() if f['fn'].startswith(OPT + name + '<') and base_name(f['fn']) == m and 'double' in f['cls']]
    if not fs:
        raise Unsupported(name + '::' + m + ' not found')
    return fs[0]


def obj(u, name, args):
    import std_models
    return std_models.new_object(u.ex, u.st, method(u, name, 'search' if 'Line' in name else 'minimize')['cls'], args, ['double'] * len(args))


def constant(u):
    R, C, x0, g, d, pr = world(u)
    o = obj(u, 'ConstantLineSearch', [Num(V('step', 'R'))])
    f = method(u, 'ConstantLineSearch', 'search')
    for st, k, v in u.run(f, Ref(o), [pr, Ref(x0), Ref(g), Ref(d)]):
        new = lambda r, c: app('x0', r, c) - V('step', 'R') * app('d', r, c)
        u.eq_mat(st, 'moves by exactly the step times the direction', st.heap[x0], R, C, new)
        u.eq_num(st, 'returns the objective there', v, F(new(RI, CI), R, C))
        u.same(st, 'gradient', g)
        u.same(st, 'direction', d)


def armijo(u):
    R, C, x0, g, d, pr = world(u)
    b, tau = V('b', 'R'), V('tau', 'R')
    declare('tau', 'pos')
    u.st.assume(ONE - ind_le(ONE - tau) )
    dot = S(R, lambda i: S(C, lambda j: app('g', i, j) * app('d', i, j)))
    u.st.assume(ONE - ind_le(b * dot))           # a descent direction
    o = obj(u, 'ArmijoLineSearch', [Num(b), Num(tau)])
    f = method(u, 'ArmijoLineSearch', 'search')
    f0 = F(app('x0', RI, CI), R, C)
    at = lambda a: (lambda r, c: app('x0', r, c) - a * app('d', r, c))
    fat = lambda a: F(at(a)(RI, CI), R, C)
    ok = lambda a: ind_le(fat(a) - f0 + a * b * dot)
    power = lambda n: mk_prod('pw_', n, tau)
    for st, k, v in u.run(f, Ref(o), [pr, Ref(x0), Ref(g), Ref(d)]):
        e = st.exits[-1] if st.exits else ZERO
        for s, x, n, sub in tries(u, st, e):
            xm = sub(st.heap[x0])
            vv = sub(v)
            # tried before the loop or in it: the exponent is the one the returned value shows
            n = next((q for q in (n, n + 1) if prove_zero(vv.p - fat(power(q)), s.ctx())), n)
            a = power(n)
            u.eq_mat(s, 'moves against the direction by a power of tau', xm, R, C, at(a))
            u.eq_num(s, 'returns the objective there', vv, fat(a))
            u.holds(s, 'sufficient decrease', ok(a))
            s3 = s.clone()
            if prove.prove_nonneg(a, s.ctx(), True) and prove.prove_nonneg(b * dot, s.ctx(), True):
                s3.assume(ONE - ind_le(a * b * dot))      # a product of two positive numbers: a lemma for the solver
            u.ob(s3, 'never above the starting value', 'nonneg', f0 - vv.p)
            # the largest such step: no earlier power satisfies the condition
            t = V('it!%d' % next(symex._oid))
            for q in (ZERO, t + 1):
                s2 = s.clone()
                s2.assume(ind_le(-t)); s2.assume(ind_le(q - n + 1))
                for h in instances(s, q) + instances(s, q + 1):
                    s2.assume(simp(h, s2.ctx()))
                u.holds(s2, 'no larger power of tau would do', ONE - ok(power(q)))
        u.same(st, 'gradient', g)
        u.same(st, 'direction', d)


def tries(u, st, e):
    """the number of reductions is the exit index or one less, whichever the state shows"""
    z = V('it!%d' % next(symex._oid))
    if as_atom(e) is None:
        return [(st, e, e, lambda v: v)]
    out = []
    en = varname(e)
    # e = 0
    s0 = st.clone()
    s0.pc = [subst(h, {en: ZERO}) for h in st.pc]
    s0._ctx = None
    s1 = st.clone()
    s1.pc = [ind_le(-z)]
    s1._ctx = None
    z0 = s1.ctx()
    s1.pc = s1.pc + [simp(subst(h, {en: z + 1}), z0) for h in st.pc]
    s1._ctx = None

    def sub(x):
        def f(v):
            mp, cx = {en: x}, (s0 if x is ZERO else s1).ctx()
            p, d = simp(subst(v.p, mp), cx), simp(subst(v.d, mp), cx)
            return MatVal(v.rows, v.cols, p, d, v.s) if isinstance(v, MatVal) else Num(p, v.s, d)
        return f
    if not s0.ctx().inconsistent():
        out.append((s0, ZERO, ZERO, sub(ZERO)))
    out.append((s1, z + 1, z, sub(z + 1)))
    return out


def descent(u):
    """minimize against the contracts of the objective, of any line search and of any callback.
    Xs(t) is the point before the t-th callback; the line search moves Xs(t) to Xs(t+1) and returns the objective there."""
    R, C, x0, g, d, pr = world(u)
    ex, st = u.ex, u.st
    Xs = lambda t: app('Xs', t, RI, CI)
    ft = lambda t: F(Xs(t), R, C)
    symex.RULES.append(lambda a: app('x0', *a.data[1][1:]) if a.kind == 'a' and a.data[0] == 'Xs' and a.data[1][0].const() == 0 else None)
    st.heap[x0] = MatVal(R, C, Xs(ZERO))
    symex.GHOSTS.add('Xs')
    calls = ex.alloc(st, Num(ZERO, 'I'))
    steps = ex.alloc(st, Num(ZERO, 'I'))
    ex.ghosts.append(loops.Ghost('point', R, C, Xs, lambda it: Xs(it + 1)))
    ex.ghosts.append(loops.Ghost('value', None, None, ft, lambda it: ft(it + 1)))
    stop = ex.alloc(st, Num(ZERO, 'I'))

    def full(st):
        s = st.clone()
        for h in (ind_le(-RI), ind_le(RI - R + 1), ind_le(-CI), ind_le(CI - C + 1)):
            s.assume(h)
        return s

    def grad_at(m):
        return app('gradient', RI, CI, m.rows, m.cols, subst(m.p, {'ri_': V('bi_'), 'ci_': V('bj_')}))

    def gradient(ex, st, c, o, a, n):
        m = em.materialize(ex, st, em.as_mat(ex, st, a[0]))
        em.store_view(ex, st, em.as_mat(ex, st, a[1]), lambda s, r, q: Num(subst(grad_at(m), {'ri_': r, 'ci_': q})))
        return VOID
    ex.contracts[GRAD] = gradient
    symex.GHOSTS.add('gradient')

    def progress(ex, st, o, a, n):
        v, _, it = [ex.load(st, x) for x in a]
        k = st.heap[calls]
        ex.oblige(st, 'consecutive iteration numbers from zero', 'zero', it.p - k.p, n.get('l'))
        ex.oblige(st, 'the callback sees the objective at the current point', 'zero',
                  v.p - em.fval('objective', st.heap[x0]), n.get('l'))
        ex.oblige(st, 'one step per accepted callback', 'zero', st.heap[steps].p - k.p, n.get('l'))
        st.heap[calls] = Num(k.p + 1, 'I')
        return BoolV(ind_bool('accept', k.p))

    def search(ex, st, o, a, n):
        k = st.heap[steps]
        x, gr, di = [em.materialize(ex, st, em.as_mat(ex, st, y)) for y in a[1:4]]
        s = full(st)
        ex.oblige(s, 'the step starts from the current point', 'zero', x.p - st.heap[x0].p, n.get('l'))
        want = grad_at(st.heap[x0])
        ex.oblige(s, 'the line search is given the gradient at the current point', 'zero', gr.p - want, n.get('l'))
        ex.oblige(s, 'the direction is the gradient', 'zero', di.p - want, n.get('l'))
        for m in (gr, di):
            ex.oblige(s, 'the gradient is initialised', 'cond', m.d, n.get('l'))
        ex.oblige(s, 'the points form one chain', 'zero', st.heap[x0].p - Xs(k.p), n.get('l'))
        ex.oblige(st, 'a step only after an accepted callback', 'cond', ind_eq(st.heap[calls].p - k.p - 1) * ind_bool('accept', k.p), n.get('l'))
        em.store_view(ex, st, em.as_mat(ex, st, a[1]), lambda s, r, q: Num(subst(Xs(k.p + 1), {'ri_': r, 'ci_': q})))
        st.heap[steps] = Num(k.p + 1, 'I')
        return Num(ft(k.p + 1))
    ex.virtuals[('Callback', 'operator()')] = progress
    ex.virtuals[('Search', 'search')] = search
    o = obj(u, 'GradientDescent', [Opaque('ls', 'Search'), Opaque('cb', 'Callback')])
    f = method(u, 'GradientDescent', 'minimize')
    for s, k, v in u.run(f, Ref(o), [pr, Ref(x0)]):
        n = s.heap[steps].p
        u.eq(s, 'one more callback than steps', s.heap[calls].p, n + 1)
        u.eq_mat(s, 'ends at the point after the last accepted step', s.heap[x0], R, C, lambda r, c: subst(Xs(n), {'ri_': r, 'ci_': c}))
        u.holds(s, 'stops exactly when the callback refuses', ONE - ind_bool('accept', n))


UNITS = [('ConstantLineSearch', constant), ('ArmijoLineSearch', armijo), ('GradientDescent', descent)]
CHECK = Check('C13', [INST], UNITS, mstepconf.searches)
