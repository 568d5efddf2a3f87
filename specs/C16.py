"""C16: the protocol of an epoch."""
#: note All interleavings are covered by rely/guarantee contracts on the queues and locks (worker body, consumer, coordinator); the step from conservation of document indices to "each extracted once" is a counting argument written in DESIGN.md, not machine-checked. std::mutex, std::thread, condition_variable and list have assumed contracts.
from checklib import *
import lda, ldaconf

UNITS = [('doc_e_step_worker', lda.worker), ('partial_fit(corpus)', lda.epoch), ('fit(documents, labels), partial_fit(documents, labels)', lda.mk_fit(True)),
         ('fit(documents)', lda.mk_fit(False))]
CHECK = Check('C16', lda.TUS, UNITS, ldaconf.c16)
