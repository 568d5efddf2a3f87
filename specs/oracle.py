"""Numerical oracles of the contracts (written from the property statements), and input generators."""
import numpy as np
import conf
from scipy.special import digamma as psi, gammaln
np.seterr(all='ignore')


def norm_cols(w):
    s = w.sum(0, keepdims=True)
    return np.where(s == 0, w, w / np.where(s == 0, 1, s))


def norm_rows(w):
    return norm_cols(w.T).T


class Ambiguous(Exception):
    """an input at the very edge of a comparison, where rounding decides"""


def softmax_exp(w):
    return np.exp(w)


def estep(var, S, X, y, alpha, beta, eta, epochs=0):
    """the documented updates; returns gamma, phi, tau, iterations, h"""
    K, W = beta.shape
    N = X.sum()
    phi = np.full((K, W), 1.0 / K)
    gamma = alpha + N / K
    tau = np.full(W, 1.0 / W) if W else np.zeros(0)
    old = np.zeros(K)
    h = None
    it = 0
    while it < S['iters']:
        ch = np.abs(old - gamma).sum() / K
        if abs(ch - S['tol']) < 1e-9 * max(1, ch) and not (it == 0 and S.get('tie') and ch == S['tol']):
            raise Ambiguous()
        if ch < S['tol']:
            break
        old = gamma.copy()
        e = np.exp(psi(gamma))[:, None]
        if var == 'unsup':
            phi = norm_cols(beta * e)
        elif var == 'multi':
            phi = norm_cols(beta * e * (eta[:, y] ** S['ew'])[:, None])
        elif var == 'corr':
            le = np.log(eta[:, y])
            phi = norm_cols(beta * e * np.exp(np.outer(le, tau)))
            tau = norm_cols(np.exp(phi.T @ le)[:, None])[:, 0]
        elif var == 'fslda':
            if N > 0:
                z = phi @ (X / N)
                s = np.exp(eta.T @ z)
                s = s / s.sum()
                es = eta / eta.max() if eta.max() > 0 else eta
                c = S['C'] ** epochs if S['wt'] else S['C']
                phi = norm_cols(beta * np.exp(psi(gamma) + c * (es[:, y] - es @ s))[:, None])
        elif var == 'slda':
            occ = np.nonzero(X)[0]
            F = {n: np.exp(eta * (X[n] / N)).T @ phi[:, n] for n in occ}
            for n in occ:
                E = np.exp(eta * (X[n] / N))
                pr = np.ones(eta.shape[1])
                for m in occ:
                    if m != n:
                        pr = pr * F[m]
                h = E @ pr
                o = phi[:, n].copy()
                for _ in range(S['fp']):
                    w = beta[:, n] * np.exp(psi(gamma) + X[n] / N * eta[:, y] - h / (h @ phi[:, n]) / X[n])
                    phi[:, n] = w / w.sum()
                F[n] = E.T @ phi[:, n]
                gamma = gamma + X[n] * (phi[:, n] - o)
        if var != 'slda':
            gamma = alpha + phi[:, X > 0] @ X[X > 0]
        it += 1
    return gamma, phi, tau, it, h


def like(var, X, y, alpha, beta, eta, phi, gamma, h=None, tau=None, prior=None, mu=None, por=None):
    occ = (X != 0).astype(float)
    p2 = phi * occ
    t1 = psi(gamma) - psi(gamma.sum())
    L = ((alpha - 1) * t1).sum() + gammaln(alpha.sum()) - gammaln(alpha).sum()
    L += (p2 * t1[:, None]).sum()
    L += (phi * X * np.log(beta + 1e-44)).sum()
    L += -((gamma - 1) * t1).sum() - gammaln(gamma.sum()) + gammaln(gamma).sum()
    L += -(p2 * np.log(p2 + 1e-44)).sum()
    if var in ('slda', 'sldah') and X.sum() == 0:
        return L - np.log(eta.shape[1])
    if var in ('slda', 'sldah'):
        n = np.nonzero(X > 0)[0][-1]
        N = X.sum()
        if var == 'slda':
            h = np.exp(eta * (X[n] / N)) @ np.prod([np.exp(eta * (X[m] / N)).T @ phi[:, m] for m in np.nonzero(X)[0] if m != n] or
                                                    [np.ones(eta.shape[1])], axis=0)
        L += eta[:, y] @ phi @ X / N - np.log(h @ phi[:, n])
    if var in ('multi', 'corr'):
        w = X if var == 'multi' else X * tau
        L += (phi * w * np.log(eta[:, y])[:, None]).sum()
        C = eta.shape[1]
        L += por * (mu - 1) * np.log(eta).sum() + por * (gammaln(C * mu) - C * gammaln(mu))
        if var == 'multi':
            L -= (X.sum() - 1) * np.log(float(np.float32(prior)) if prior is not None else 1)
        else:
            L += -(tau * X * np.log(tau + 1e-44)).sum() - np.log(X.sum())
    return L


# ---------------------------------------------------------------- generators

def gen_doc(rng, W):
    k = rng.random()
    if k < .08:
        return np.zeros(W, int)
    X = rng.integers(0, 5, W)
    if k < .5:
        X = X * (rng.random(W) < rng.choice([.3, .6]))
    if k > .93:
        X = X * rng.integers(1, 300, W)
    if k > .97 and W:
        X[rng.integers(W)] = rng.integers(30000, 200000)      # N * N does not fit an int
    if W and conf.TIER == 'deep':
        i = rng.integers(W)
        X[i] = conf.hint(rng, X[i], .05, 1, 5000)
    if .85 < k < .93 and W:
        X = np.zeros(W, int)
        X[rng.integers(W)] = rng.integers(1, 20)
    return X


def gen_model(rng, zero=.3, eta_pos=False, K=None, W=None, C=None, big=.04):
    if big and rng.random() < big:
        K = K or int(rng.choice([12, 17, 33, 65]))
        W = W if W is not None else int(rng.choice([33, 65, 130, 260, 1030]))
        C = C or int(rng.choice([2, 11, 20, 40]))
    K = K or int(rng.choice([1, 2, 3, 4, 5, 9], p=[.06, .25, .25, .2, .16, .08]))
    W = W if W is not None else int(rng.choice([1, 2, 3, 5, 8, 20], p=[.05, .1, .25, .25, .25, .1]))
    C = C or int(rng.choice([1, 2, 3, 4, 7], p=[.06, .3, .3, .24, .1]))
    if big and conf.TIER == 'deep':
        i = int(rng.integers(4))
        K, W, C = conf.hint(rng, K, .06 * (i == 0), 1, 300), conf.hint(rng, W, .06 * (i == 1)), conf.hint(rng, C, .06 * (i == 2), 1, 300)
    alpha = rng.uniform(.05, 2, K) if rng.random() < .7 else np.full(K, 1.0 / K)
    beta = rng.dirichlet(np.full(W, rng.choice([.3, 1, 5])), K)
    if rng.random() < zero:
        beta = beta * (rng.random((K, W)) < .7)
        if rng.random() < .5:
            beta[:, rng.integers(W)] = 0
    if rng.random() < .15:
        beta = beta * rng.uniform(.1, 10)       # any non-negative matrix
    if eta_pos:
        eta = rng.dirichlet(np.ones(C), K) * .98 + .02 / C
        if rng.random() < .3:
            eta = rng.uniform(.05, 3, (K, C))
    else:
        eta = rng.normal(size=(K, C)) * rng.choice([0.1, 1, 3])
        k = rng.random()
        if k < .12:
            eta = -np.abs(eta)
        elif k < .2:
            eta = np.zeros((K, C))
    return alpha, beta, eta


SET = ('iters', 'tol', 'like', 'fp', 'C', 'wt', 'mu', 'ew', 'seed')


def gen_settings(rng):
    return dict(iters=conf.hint(rng, int(rng.choice([0, 1, 2, 3, 5, 10, 30, 70], p=[.1, .2, .2, .2, .2, .07, .02, .01])), .03, 1, 130),
                tol=float(rng.choice([0.0, 1e-3, 1e-2, .1, .5, 2, 100], p=[.2, .2, .2, .15, .1, .1, .05])),
                like=float(rng.choice([0, 1, .5])), fp=conf.hint(rng, int(rng.choice([1, 2, 5, 10, 0, 25], p=[.3, .25, .2, .18, .05, .02])), .02, 1, 130),
                C=float(rng.choice([0.0, .3, .9, 1.0, 2.5, rng.uniform(0, 4)])), wt=int(rng.integers(0, 2)),
                mu=float(rng.choice([1.0, 2.0, 1.5])), ew=float(rng.choice([1.0, 0.5, 2.0, 0.0])), seed=int(rng.integers(0, 1000)))


def settings_args(S):
    return tuple(S[k] for k in SET)
