from estep import *
import estepconf


def mk(var):
    def unit(u):
        R = variant(u, var)
        post_update(u, R, var)
    return unit


CHECK = Check('C06', tus('multi', 'corr'), [('MultinomialSupervisedEStep::doc_e_step', mk('multi')),
                                            ('CorrespondenceSupervisedEStep::doc_e_step', mk('corr'))], estepconf.run(['multi', 'corr'], 'update'))
