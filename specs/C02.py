from estep import *
import estepconf
from C01 import VS, at0


def mk(var, weight=None, empty=None):
    def unit(u):
        R = variant(u, var, weight, empty)
        m = R.m
        for p in R.paths:
            for s, x in zero_or_more(p.st, p.e):
                z = x.const() == 0
                phi, gam = (at0(p.phi, p.e), at0(p.gamma, p.e)) if x is not p.e else (p.phi, p.gamma)
                rules = []
                if not z and not empty:
                    rules = [unfold('G', x, lambda t, k: R.gamma_of(R.phi_next(t))(k))]
                    if var == 'fslda':
                        rules.append(unfold('Ph', x, lambda t, k, n: R.phi_next(t)(k, n)))
                counts(u, s, phi, gam, m, rules)
            frame(u, p.st, m)
    return unit


def counts(u, s, phi, gam, m, rules=[]):
    k = fresh('k')
    s2 = u.idx(s, k, m.K)
    u.eq(s, 'one weight per topic', gam.rows, m.K)
    u.ob(s2, 'weight = prior + sum of count times responsibility', 'zero',
         gam.at(k, ZERO)[0] - m.alpha(k) - S(m.W, lambda n: m.X(n) * phi.at(k, n)[0]), rules=rules)
    u.holds(s2, 'weight defined (no NaN)', gam.at(k, ZERO)[1])


def frame(u, st, m):
    for nm, o in (('document', m.oX), ('alpha', m.oalpha), ('beta', m.obeta)) + ((('eta', m.oeta),) if m.C is not None else ()):
        u.same(st, nm, o)


import C04

CHECK = Check('C02', tus(*VS), [
    ('UnsupervisedEStep::doc_e_step', mk('unsup')),
    ('FastSupervisedEStep::doc_e_step (some words)', mk('fslda', 'const', False)),
    ('FastSupervisedEStep::doc_e_step (no words)', mk('fslda', 'const', True)),
    ('MultinomialSupervisedEStep::doc_e_step', mk('multi')),
    ('CorrespondenceSupervisedEStep::doc_e_step', mk('corr')),
    ('compute_supervised_phi_gamma', C04.pass_counts),
    ('SupervisedEStep::doc_e_step', C04.step_counts),
], estepconf.run(VS, 'counts', 100))
