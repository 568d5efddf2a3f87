from estep import *
import estepconf


def mk(weight, empty):
    def unit(u):
        R = variant(u, 'fslda', weight, empty)
        post_update(u, R, 'fslda')
    return unit


CHECK = Check('C05', tus('fslda'), [('FastSupervisedEStep::doc_e_step (%s, %s)' % (w, 'no words' if e else 'some words'), mk(w, e))
                                    for w in ('const', 'exp') for e in (False, True)], estepconf.run(['fslda'], 'update'))
