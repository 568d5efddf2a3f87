"""Conformance of the compiled inference steps with their contracts (bounded; finds failing inputs)."""
from checklib import *
import conf
import oracle as O

SRC = {'unsup': 'UnsupervisedEStep', 'slda': 'SupervisedEStep', 'fslda': 'FastSupervisedEStep', 'multi': 'MultinomialSupervisedEStep',
       'corr': 'CorrespondenceSupervisedEStep'}
SRCS = ['ldaplusplus/em/%s.cpp' % s for s in SRC.values()] + ['ldaplusplus/em/AbstractEStep.cpp', 'ldaplusplus/e_step_utils.cpp',
                                                             'ldaplusplus/events/Events.cpp']
SUPPORT = 'only documents all of whose words are possible under the model (sLDA)'


def tester():
    return conf.Tester(['d_estep.cpp'], SRCS, rtol=1e-7, atol=1e-9, exact=True)


def cases(rng, n, vs):
    for i in range(n):
        for var in vs:
            eta_pos = var in ('multi', 'corr')
            tie = rng.random() < .05        # tolerance equal to the first change, without any rounding
            alpha, beta, eta = O.gen_model(rng, eta_pos=eta_pos, **(dict(K=int(rng.choice([1, 2, 4])), big=0) if tie else {}))
            K, W = beta.shape
            if tie:
                alpha = rng.integers(1, 9, K) / 8.0
            if rng.random() < .04:
                W = 0
                beta = beta[:, :0]
            X = O.gen_doc(rng, W)
            if var == 'slda':
                X = X * (beta.sum(0) > 0)
                if X.sum() == 0 and rng.random() < .8:
                    beta = beta + .01
                    X = O.gen_doc(rng, W)
            y = int(rng.integers(eta.shape[1]))
            S = O.gen_settings(rng)
            if tie:
                S.update(tie=True, tol=float((alpha + X.sum() / K).sum() / K), iters=max(1, S['iters']))
            ep = int(rng.integers(0, 4)) if rng.random() < .9 else int(rng.choice([8, 16, 33, 65, 130, 257, 1025]))
            ep = conf.hint(rng, ep, .05)
            if ep > 3 and S['C'] > 1:
                S['C'] = float(rng.choice([.3, .9, .99, 1.0]))
            if X.sum() == 0:
                S['like'] = 0.0 if var == 'corr' else S['like']
            yield var, S, ep, X, y, float(rng.uniform(.05, 1)), conf.hint(rng, int(rng.integers(1, 50)), .05), alpha, beta, eta


def run(vs, what, nq=300):
    def conformance(rng, tier):
        T = tester()
        for var, S, ep, X, y, prior, D, alpha, beta, eta in cases(rng, nq * {'quick': 1, 'thorough': 20, 'deep': 12}[tier], vs):
            try:
                g, p, t, it, h = O.estep(var, S, X, y, alpha, beta, eta, ep)
            except O.Ambiguous:
                continue
            if not np.all(np.isfinite(g)) or not np.all(np.isfinite(p)):
                continue
            rep = int(rng.integers(1, 3))
            cmd = ('estep', var) + O.settings_args(S) + (ep, X, y, prior, D, alpha, beta, eta, rep)
            exp = {}
            if what == 'update':
                exp = dict(gamma=g, phi=p, events=1)
                if var == 'corr':
                    exp['tau'] = t

            def check(r, X=X, alpha=alpha, beta=beta, eta=eta, var=var, S=S, y=y, prior=prior, D=D, h=h):
                ph, ga = r['phi'], r['gamma'].reshape(-1)
                K, W = beta.shape
                if what == 'update':
                    if r['ids'] != b'ExpectationProgressEvent,':
                        return 'events announced: %s' % r['ids']
                if what == 'dist':
                    if ph.shape != (K, W):
                        return 'responsibilities have shape %s' % (ph.shape,)
                    s = ph.sum(0) if W else np.zeros(0)
                    if not np.all(ph >= 0):
                        return 'negative or undefined responsibility'
                    bad = (np.abs(s - 1) > 1e-6) & ~((beta.sum(0) == 0) & np.all(ph == 0, axis=0))
                    if bad.any():
                        return 'responsibilities of word %d sum to %r' % (int(np.nonzero(bad)[0][0]), float(s[bad][0]))
                    if var == 'corr' and W:
                        t = r['tau'].reshape(-1)
                        if t.shape != (W,) or not np.all(t >= 0) or abs(t.sum() - 1) > 1e-6:
                            return 'selection weights are not a distribution: sum %r' % float(t.sum())
                if what == 'counts':
                    for nm, v in (('X', X), ('alpha', alpha), ('beta', beta), ('eta', eta)):
                        if not conf.close(r[nm].reshape(np.shape(v)), v, 0, 0):
                            return 'inference changed %s' % nm
                    if np.all((X == 0) | (beta.sum(0) > 0)):
                        occ = X > 0
                        if not conf.close(ga, alpha + ph[:, occ] @ X[occ], 1e-7, 1e-9):
                            return 'topic weights %s are not prior plus expected counts %s' % (ga.tolist(), (alpha + ph[:, occ] @ X[occ]).tolist())
                if what == 'like' and (X.sum() > 0 or var in ('slda', 'fslda')):
                    v = float(r['likes'].reshape(-1)[-1])
                    if S['like'] == 0 and v == v:
                        return 'a likelihood was computed although none was requested'
                    if S['like'] == 1:
                        e = O.like('slda' if var in ('slda', 'fslda') else var, X, y, alpha, beta, eta, ph, ga, None,
                                   r['tau'].reshape(-1) if var == 'corr' else None, prior, S['mu'], 1.0 / D)
                        if np.isfinite(e) and not conf.close(v, e, 1e-6, 1e-7):
                            return 'likelihood %r, documented bound %r' % (v, float(e))
            T.case(cmd, check=check, **exp)
        return T.finish()
    return conformance
