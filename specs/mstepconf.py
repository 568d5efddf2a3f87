"""Conformance of the compiled maximisation steps and optimisers with their contracts (bounded; finds failing inputs)."""
from checklib import *
import conf
import oracle as O

SRC = {'unsup': 'UnsupervisedMStep', 'slda': 'SupervisedMStep', 'fslda': 'FastSupervisedMStep', 'multi': 'MultinomialSupervisedMStep',
       'corr': 'CorrespondenceSupervisedMStep', 'semi': 'SemiSupervisedMStep', 'online': 'FastOnlineSupervisedMStep'}
OPTS = ['ldaplusplus/optimization/MultinomialLogisticRegression.cpp', 'ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp']
SRCS = ['ldaplusplus/em/%s.cpp' % s for s in SRC.values()] + ['ldaplusplus/em/SemiSupervisedEStep.cpp', 'ldaplusplus/events/Events.cpp'] + OPTS
N = {'quick': 1, 'thorough': 20, 'deep': 12}


def default_weights(y):
    c = np.bincount(y, minlength=max(y) + 1)
    return len(y) / (c * float(len(c)))


class Loss:
    def __init__(self, X, y, Cy, L, var=None):
        self.X, self.y, self.Cy, self.L, self.var = X, y, Cy, L, var

    def parts(self, e, d):
        t = np.exp(e.T @ self.X[:, d])
        if self.var is None:
            return t, np.ones_like(t)
        return t, 1 + .5 * np.einsum('kc,kl,lc->c', e, self.var[d], e)

    def value(self, e):
        v = self.L * (e ** 2).sum() / 2
        for d, y in enumerate(self.y):
            t, q = self.parts(e, d)
            v -= self.Cy[y] * (self.X[:, d] @ e[:, y] - np.log((t * q).sum()))
        return v

    def gradient(self, e):
        g = self.L * e
        for d, y in enumerate(self.y):
            t, q = self.parts(e, d)
            g[:, y] -= self.Cy[y] * self.X[:, d]
            n = (t * q).sum()
            g = g + self.Cy[y] * np.outer(self.X[:, d], t * q) / n
            if self.var is not None:
                g = g + self.Cy[y] * (.5 * (self.var[d] + self.var[d].T) @ e) * t / n
        return g


class Quartic:
    def __init__(self, q, c, r):
        self.q, self.c, self.r = q, c, r

    def value(self, x):
        d = x - self.c
        return (self.q * d ** 2 + self.r * d ** 4).sum()

    def gradient(self, x):
        d = x - self.c
        return 2 * self.q * d + 4 * self.r * d ** 3


def edge(a, b):
    if not (np.isfinite(a) and np.isfinite(b)) or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-3):
        raise O.Ambiguous()


def armijo(p, x, g, d, beta=.001, tau=.5):
    v0 = p.value(x)
    dec = beta * (g * d).sum()
    v, a = v0, 1 / tau
    for _ in range(60):
        edge(v, v0 - a * dec)
        if not v > v0 - a * dec:
            return x - a * d, v
        a *= tau
        v = p.value(x - a * d)
    raise O.Ambiguous()


def train(p, e, iters, tol):
    """gradient descent as in the batch steps; returns the classifier and the reported log likelihoods"""
    v = p.value(e)
    it, last, seen = 0, np.inf, []
    while True:
        seen.append(-v)
        ri = np.inf if it == 0 else (last - v) / v
        last = v
        if not it < iters:
            break
        if it:
            edge(ri, tol)
        if not ri > tol:
            break
        it += 1
        g = p.gradient(e)
        e, v = armijo(p, e, g, g)
    return e, seen


def simulate(var, S, alpha, beta, eta, ops):
    """per operation: the model and the events announced"""
    K, W = beta.shape
    beta, eta = beta.copy(), eta.copy()
    b = np.zeros((K, W)); h = np.zeros_like(eta); py = 0.
    vel = np.zeros_like(eta)
    Z, Y, V = [], [], []
    res = []
    batch = var in ('slda', 'fslda', 'semi')

    def online():
        nonlocal beta, eta, vel, Z, Y
        beta = S['bw'] * beta + (1 - S['bw']) * O.norm_rows(b)
        L = Loss(np.array(Z).T, Y, S['cw'] if S['exp'] else np.ones(len(S['cw'])), S['reg'])
        vel = S['mom'] * vel - S['lr'] * L.gradient(eta)
        eta = eta + vel
        Z, Y = [], []
        return [-L.value(eta)]
    for op in ops:
        ev = []
        if op[0] == 'd':
            X, y, phi, gamma, tau = op[1:]
            c = phi * X
            if var == 'corr':
                c = c * tau
            b = b + c
            if var in ('multi', 'corr'):
                h[:, y] += c.sum(1)
                py += c.sum(1) @ np.log(eta[:, y])
            if (batch or var == 'online') and not (var == 'semi' and y < 0):
                z = gamma - alpha
                n = X.sum() if var == 'slda' else z.sum()
                if var != 'slda' and X.sum() > 0:
                    edge(n, 0)
                Z.append(z / n if X.sum() != 0 else z)
                Y.append(y)
                V.append(c @ c.T / (n * n) if n else c @ c.T)
            if var == 'online' and len(Y) >= S['mb']:
                ev = online()
        elif var == 'online':
            pass
        else:
            beta = O.norm_rows(b)
            b = np.zeros((K, W))
            if var in ('multi', 'corr'):
                eta = O.norm_rows(h + S['mu'] - 1)
                ev = [py]
                h = np.zeros_like(eta); py = 0.
            if batch and Y:
                L = Loss(np.array(Z).T, Y, default_weights(Y), S['reg'], V if var == 'slda' else None)
                eta, ev = train(L, eta, S['iters'], S['tol'])
                Z, Y, V = [], [], []
        res.append((beta.copy(), eta.copy(), ev))
    return res


def gen_ops(rng, var, S, alpha, K, W, C):
    ops = []
    for e in range(conf.hint(rng, int(rng.integers(1, 4)), .01, 1, 130) if K * W < 100 else 2):
        nd = int(rng.integers(1, 7)) if var != 'semi' else int(rng.integers(1, 6))
        if rng.random() < .03 and K * W < 5000:
            nd = int(rng.choice([16, 33, 70]))
        if K * W < 500:
            nd = conf.hint(rng, nd, .02, 1, 1100)
        for d in range(nd):
            X = O.gen_doc(rng, W)
            if rng.random() < .1:
                X = X * 0
            phi = O.norm_cols(rng.random((K, W)) + 1e-3)
            if rng.random() < .3:
                phi[:, rng.integers(W)] = 0
            if rng.random() < .3:
                phi[rng.integers(K), :] = 0
            tau = O.norm_cols(rng.random((W, 1)))[:, 0]
            y = int(rng.integers(C))
            if var == 'semi' and rng.random() < .5:
                y = -int(rng.integers(1, 4))
            ops.append(('d', X, y, phi, alpha + phi @ X, tau))
        ops.append(('m',))
        if var == 'online' and rng.random() < .3:
            ops.append(('m',))
    if not any(o[0] == 'd' and o[2] >= 0 for o in ops) and var != 'semi':
        return gen_ops(rng, var, S, alpha, K, W, C)
    return ops


def msteps(vs, nq=120, what='all'):
    def conformance(rng, tier):
        T = conf.Tester(['d_mstep.cpp'], SRCS, rtol=1e-6, atol=1e-8)
        for i in range(nq * N[tier]):
            for var in vs:
                alpha, beta, eta = O.gen_model(rng, eta_pos=var in ('multi', 'corr'))
                K, W = beta.shape
                C = eta.shape[1]
                S = dict(iters=int(rng.integers(0, 6)), tol=float(rng.choice([0., 1e-3, 1e-2, .2])), reg=float(rng.choice([0., .01, .5, 3.])),
                         mu=float(rng.choice([1., 1.5, 2., 4.])), mb=int(rng.integers(1, 6)) if rng.random() < .95 else int(rng.integers(6, 40)), mom=float(rng.choice([0., .5, .9])),
                         lr=float(rng.choice([.01, .1, 1.])), bw=float(rng.choice([0., .5, .9, 1.])), exp=int(rng.integers(2)),
                         cw=rng.uniform(.2, 3, C))
                S['iters'], S['mb'] = conf.hint(rng, S['iters'], .02, 1, 130), conf.hint(rng, S['mb'], .03, 1, 130)
                ops = gen_ops(rng, var, S, alpha, K, W, C)
                try:
                    R = simulate(var, S, alpha, beta, eta, ops)
                    # rounding must not matter: long runs with large steps can be chaotic
                    R1 = simulate(var, S, alpha, beta, eta * (1 + 1e-13) + 1e-14, ops)
                    if not all(conf.close(a[1], b[1], 1e-8, 1e-10) and conf.close(np.array(a[2]), np.array(b[2]), 1e-8, 1e-10) for a, b in zip(R, R1)):
                        continue
                except O.Ambiguous:
                    continue
                if not all(np.all(np.isfinite(x)) for r in R for x in (r[0], r[1], np.array(r[2]))):
                    continue
                if any(np.abs(r[1]).sum(0).max() > 300 for r in R):
                    continue        # exponentials near the end of the range of double
                cmd = ('mstep', var, S['iters'], S['tol'], S['reg'], S['mu'], S['mb'], S['mom'], S['lr'], S['bw'], S['exp'], S['cw'],
                       alpha, beta, eta, len(ops)) + tuple(x for o in ops for x in o)
                exp = {'touched': 0}
                for k, (b, e, ev) in enumerate(R):
                    exp['beta%d' % k] = b
                    exp['eta%d' % k] = e
                    exp['ev%d' % k] = len(ev)
                likes = [v for r in R for v in r[2]]
                exp['likes'] = np.array(likes).reshape(-1)

                def check(r, likes=likes):
                    if r['ids'] != b'MaximizationProgressEvent,' * len(likes):
                        return 'events announced: %s' % r['ids']
                T.case(cmd, check=check, **exp)
        if 'semi' in vs:
            for i in range(60 * N[tier]):
                ls = [conf.hint(rng, int(rng.choice([-1000, -1, -2, -5, 0, 1, 2, 7])), .1) for _ in range(int(rng.integers(1, 12)))]
                T.case(('semi', len(ls)) + tuple(ls), who=np.array([0 if l == -1000 else 2 if l < 0 else 1 for l in ls]), ok=np.ones(len(ls)), after=0)
        return T.finish()
    return conformance


def losses(rng, tier):
    T = conf.Tester(['d_opt.cpp'], OPTS, rtol=1e-7, atol=1e-9)
    for i in range(400 * N[tier]):
        K, C, D = int(rng.integers(1, 6)), int(rng.integers(1, 6)), int(rng.integers(1, 9))
        if i % 50 == 49:
            K, C, D = int(rng.integers(1, 20)), int(rng.integers(1, 20)), int(rng.choice([10, 33, 70, 140]))
        if rng.random() < .1:
            i = int(rng.integers(3))
            K, C, D = conf.hint(rng, K, 1. * (i == 0), 1, 130), conf.hint(rng, C, 1. * (i == 1), 1, 130), conf.hint(rng, D, 1. * (i == 2), 1, 1100)
        X = rng.normal(size=(K, D)) * float(rng.choice([.1, 1, 3]))
        if rng.random() < .3:
            X[:, rng.integers(D)] = 0
        y = rng.integers(0, C, D)
        dflt = int(rng.integers(2))
        Cy = default_weights(y) if dflt else rng.uniform(0, 3, C)
        eta = rng.normal(size=(K, C)) * float(rng.choice([0, .1, 1, 3]))
        L = float(rng.choice([0, .01, 1, 5, 10.0 ** rng.uniform(-5, 0)]))
        for kind in ('mlr', 'second'):
            var = None
            if kind == 'second':
                var = [rng.normal(size=(K, K)) * float(rng.choice([.05, 1])) for _ in range(D)]
                if rng.random() < .6:
                    var = [v @ v.T for v in var]
            p = Loss(X, y, Cy, L, var)
            if kind == 'second':
                n = [(lambda t, q: ((t * q).sum(), np.abs(t * q).sum()))(*p.parts(eta, d)) for d in range(D)]
                if min(a - 1e-3 * b for a, b in n) <= 0:
                    continue
            val, g = p.value(eta), p.gradient(eta)
            if not np.isfinite(val) or not np.all(np.isfinite(g)):
                continue

            # the oracle's own gradient is compared with a difference quotient of its value
            dq = np.zeros_like(eta)
            for a in range(K):
                for c in range(C):
                    e = eta.copy(); e[a, c] += 1e-6
                    f = eta.copy(); f[a, c] -= 1e-6
                    dq[a, c] = (p.value(e) - p.value(f)) / 2e-6
            assert np.all(np.abs(dq - g) <= 1e-3 * (1 + np.abs(g))), 'oracle gradient'
            T.case(('loss', kind, dflt, X, y, Cy, L, eta, len(var or [])) + tuple(var or []), value=val, grad=g, touched=0)
    return T.finish()


def searches(rng, tier):
    T = conf.Tester(['d_opt.cpp'], OPTS, rtol=1e-7, atol=1e-9)
    for i in range(400 * N[tier]):
        r, c = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        p = Quartic(rng.uniform(0, 4, (r, c)) * float(rng.choice([.1, 1, 20])), rng.normal(size=(r, c)), rng.uniform(0, 1, (r, c)) * float(rng.choice([0, 1, 5])))
        if rng.random() < .3:
            p.q = -p.q if rng.random() < .3 else p.q * 0 + 1
            p.r = np.abs(p.r) + .5
        x = rng.normal(size=(r, c)) * float(rng.choice([.3, 1, 4]))
        g = p.gradient(x)
        d = g if rng.random() < .5 else np.sign(g) * rng.uniform(0, 3, (r, c))
        if i % 9 == 0:              # steep: many steps back
            d = d * 10.0 ** rng.uniform(2, 9)
        beta, tau = float(rng.choice([.001, .1, .5])), float(rng.choice([.5, .1, .9, .75]))
        al = float(rng.choice([.01, .1, 1., 0.]))
        T.case(('search', 'constant', al, 0., p.q, p.c, p.r, x, g, d), x=x - al * d, value=p.value(x - al * d), touched=0)
        try:
            if beta * (g * d).sum() > 1e-6:
                xx, v = armijo(p, x, g, d, beta, tau)
                T.case(('search', 'armijo', beta, tau, p.q, p.c, p.r, x, g, d), x=xx, value=v, touched=0)
        except O.Ambiguous:
            pass
        n = int(rng.integers(0, 7))
        if i % 7 == 0:              # a stationary point: the callback alone decides when to stop
            z = Quartic(p.q, p.c, p.r * 0)
            n0, n = n, conf.hint(rng, n, .1, 1, 1100)
            T.case(('minimize', 'constant', .01, 0., z.q, z.c, z.r, z.c, n), x=z.c, values=np.full(n + 1, z.value(z.c)), its=np.arange(n + 1), gradients=n)
            T.case(('minimize', 'armijo', beta, tau, z.q, z.c, z.r, z.c, n), x=z.c, values=np.full(n + 1, z.value(z.c)), its=np.arange(n + 1), gradients=n)
            n = n0
        for kind in ('armijo', 'constant'):
            xs, vals = x, [p.value(x)]
            try:
                for _ in range(n):
                    g = p.gradient(xs)
                    if kind == 'constant':
                        xs = xs - .01 * g
                        vals.append(p.value(xs))
                    else:
                        if beta * (g * g).sum() < 1e-6:
                            raise O.Ambiguous()
                        xs, v = armijo(p, xs, g, g, beta, tau)
                        vals.append(v)
            except O.Ambiguous:
                continue
            if not np.all(np.isfinite(vals)) or np.max(np.abs(vals)) > 1e8:
                continue
            T.case(('minimize', kind) + ((beta, tau) if kind == 'armijo' else (.01, 0.)) + (p.q, p.c, p.r, x, n), x=xs, values=np.array(vals),
                   its=np.arange(n + 1), gradients=n)
    return T.finish()
