"""C15: transform does not depend on the schedule."""
#: note All interleavings are covered by rely/guarantee contracts on the queues and locks (worker body, consumer, coordinator) and by frame contracts on the inference steps (the step object all workers share is not written); the step from conservation of document indices to "each extracted once" is a counting argument written in DESIGN.md, not machine-checked. std::mutex, std::thread, condition_variable and list have assumed contracts.
from checklib import *
import lda, ldaconf
import estep, C07


def fields(st, o, nm=''):
    for f, x in sorted(st.heap[o].fields.items()):
        if isinstance(st.heap.get(x), Struct):
            yield from fields(st, x, nm + f + '.')
        else:
            yield nm + f, x


def unwritten(u, st, st0, o):
    """all workers use the step at once, each without a lock"""
    for nm, x in fields(st0, o):
        a, b = st.heap.get(x), st0.heap[x]
        if a is not b and any(e[0] == 'acquire' for e in st.trace):
            raise Unsupported('the step changes under a lock of its own')
        u.holds(st, 'the step, which the workers share, is not written by inference: ' + nm, ONE if a is b else ZERO)


def shared(var, *a):
    def unit(u):
        R = estep.variant(u, var, *a)
        # what inference computes is decided by C01 to C06; here only what it writes
        del u.ex.obls[:], u.extra[:]
        for p in R.paths:
            unwritten(u, p.st, R.st0, R.step)
    return unit


def semi(u):
    o = C07.setup(u)
    st0 = u.st.clone()
    for st, k, v in u.run(u.fn(C07.ES + '::doc_e_step'), Ref(o), [Opaque('doc', 'Document'), Opaque('params', 'Parameters')]):
        unwritten(u, st, st0, o)


UNITS = [('doc_e_step_worker', lda.worker), ('transform', lda.transform),
         ('UnsupervisedEStep::doc_e_step by many workers', shared('unsup')),
         ('FastSupervisedEStep::doc_e_step by many workers', shared('fslda', 'const', False)),
         ('FastSupervisedEStep::doc_e_step by many workers (no words)', shared('fslda', 'const', True)),
         ('SupervisedEStep::doc_e_step by many workers', shared('slda')),
         ('MultinomialSupervisedEStep::doc_e_step by many workers', shared('multi')),
         ('CorrespondenceSupervisedEStep::doc_e_step by many workers', shared('corr')),
         ('SemiSupervisedEStep::doc_e_step by many workers', semi)]
CHECK = Check('C15', lda.TUS + [t for t in estep.tus(*estep.CLS) if t not in lda.TUS] + ['src/ldaplusplus/em/SemiSupervisedEStep.cpp'], UNITS, ldaconf.c15)
