from estep import *
import estepconf

VS = ['unsup', 'slda', 'fslda', 'multi', 'corr']


def at0(mv, e):
    """the value at iteration zero"""
    return MatVal(mv.rows, mv.cols, subst(mv.p, {varname(e): ZERO}), subst(mv.d, {varname(e): ZERO}), mv.s)


def mk(var, weight=None, empty=None):
    def unit(u):
        R = variant(u, var, weight, empty)
        m = R.m
        for p in R.paths:
            for s, x in zero_or_more(p.st, p.e):
                phi = p.phi if x is p.e else at0(p.phi, p.e)
                rules = [unfold('Ph', x, lambda t, k, n: R.phi_next(t)(k, n))] if var == 'fslda' and not empty and x.const() != 0 else []
                for s1 in ([s] if var != 'fslda' or empty else split(s, ind_le(R.maxeta))):
                    dist(u, s1, phi, m, rules)
                if var == 'corr':
                    tau = p.tau if x is p.e else at0(p.tau, p.e)
                    tr = [unfold('Tau', x, lambda t, n: R.tau_next(t)(n))] if x.const() != 0 else []
                    r = fresh('n')
                    s2 = u.idx(s, r, m.W)
                    u.ob(s2, 'selection weight non-negative', 'nonneg', tau.at(r, ZERO)[0], rules=tr)
                    u.holds(s2, 'selection weight defined', tau.at(r, ZERO)[1])
                    u.ob(s2, 'selection weights sum to one', 'zero', S(m.W, lambda i: tau.at(i, ZERO)[0]) - 1, rules=tr)
                    u.eq(s, 'selection weights: one per word', tau.rows, m.W)
    return unit


def dist(u, s, phi, m, rules=[]):
    u.eq(s, 'one row per topic', phi.rows, m.K)
    u.eq(s, 'one column per word', phi.cols, m.W)
    k, n = fresh('k'), fresh('n')
    s2 = u.idx(s, k, m.K, n, m.W)
    v, d = phi.at(k, n)
    tot = S(m.K, lambda i: phi.at(i, n)[0])
    imp = ind_eq(S(m.K, lambda i: m.beta(i, n)))
    u.ob(s2, 'responsibility non-negative', 'nonneg', v, rules=rules)
    u.holds(s2, 'responsibility defined (no NaN)', d)
    u.ob(s2, 'responsibilities of a possible word sum to one', 'zero', (ONE - imp) * (tot - 1), rules=rules)
    u.ob(s2, 'the column sums to one or is entirely zero', 'zero', (tot - 1) * v, rules=rules)


import C04

CHECK = Check('C01', tus(*VS), [
    ('UnsupervisedEStep::doc_e_step', mk('unsup')),
    ('FastSupervisedEStep::doc_e_step (some words)', mk('fslda', 'const', False)),
    ('FastSupervisedEStep::doc_e_step (no words)', mk('fslda', 'const', True)),
    ('MultinomialSupervisedEStep::doc_e_step', mk('multi')),
    ('CorrespondenceSupervisedEStep::doc_e_step', mk('corr')),
    ('compute_supervised_phi_gamma', C04.pass_dist),
    ('SupervisedEStep::doc_e_step', C04.step_dist),
], estepconf.run(VS, 'dist', 100))
