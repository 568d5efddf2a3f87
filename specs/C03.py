from estep import *
import estepconf


def unsup(u):
    R = variant(u, 'unsup')
    post_update(u, R, 'unsup')


CHECK = Check('C03', tus('unsup'), [('UnsupervisedEStep::doc_e_step', unsup)], estepconf.run(['unsup'], 'update'))
