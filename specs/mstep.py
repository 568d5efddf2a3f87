"""Contracts of the maximisation steps over arbitrary histories of documents and epochs."""
from estep import *

MCLS = {'unsup': 'UnsupervisedMStep', 'slda': 'SupervisedMStep', 'fslda': 'FastSupervisedMStep', 'multi': 'MultinomialSupervisedMStep',
        'corr': 'CorrespondenceSupervisedMStep', 'semi': 'SemiSupervisedMStep', 'online': 'FastOnlineSupervisedMStep'}
MT = {v: ['src/ldaplusplus/em/%s.cpp' % c for c in [MCLS[v]]] for v in MCLS}
MT['slda'] = MT['slda'] + MT['unsup']
MT['fslda'] = MT['fslda'] + MT['unsup']
MT['semi'] = MT['semi'] + MT['fslda']


def mtus(*vs):
    out = []
    for v in vs:
        for t in MT[v]:
            if t not in out:
                out.append(t)
    return out + ['src/ldaplusplus/events/Events.cpp']


class World:
    """a step object, a model and documents drawn from symbolic histories"""

    def __init__(self, u, var, args=(), supervised=None, types=None):
        self.u, self.var = u, var
        ex, st = u.ex, u.st
        sup = var != 'unsup' if supervised is None else supervised
        self.K, self.W = u.size('K'), u.size('W')
        declare('alpha', 'pos'); declare('beta', 'nonneg')
        self.oalpha, self.obeta = u.mat('alpha', self.K, ONE), u.mat('beta', self.K, self.W)
        fields = {'alpha': self.oalpha, 'beta': self.obeta}
        self.C = None
        if sup:
            self.C = u.size('C')
            self.oeta = u.mat('eta', self.K, self.C)
            fields['eta'] = self.oeta
        self.params = ex.alloc(st, Struct(NS + 'parameters::%sModelParameters<double>' % ('Supervised' if sup else ''), fields))
        ex.virtuals[('Document', 'get_words')] = lambda ex, st, o, a, n: Ref(o.info['X'])
        ex.virtuals[('Document', 'get_class')] = lambda ex, st, o, a, n: Num(o.info['y'], 'I')

        def disp(ex, st, o, a, n):
            p = ex.load(st, a[0])
            ob = st.heap[p.oid]
            val = st.heap[ob.fields['likelihood_']] if 'likelihood_' in ob.fields else None
            st.trace = st.trace + [('dispatch', ob.cls, val)]
            return VOID
        ex.virtuals[('Dispatcher', 'dispatch')] = disp
        import std_models
        self.step = std_models.new_object(ex, st, EM + MCLS[var] + '<double>', list(args), types or ['double'] * len(args))
        f = u.fn(NS + 'events::EventDispatcherComposition::set_event_dispatcher')
        ex.invoke(st, f, Ref(self.step), [Opaque('disp', 'Dispatcher')])
        self.fdoc = u.fn(EM + MCLS[var] + '<double>::doc_m_step')
        self.fm = u.fn(EM + MCLS[{'semi': 'fslda'}.get(var, var)] + '<double>::m_step')

    def epoch_syms(self, e):
        """signs of the symbols of epoch e"""
        for f, s in (('X', 'nonneg'), ('phi', 'nonneg'), ('tau', 'nonneg')):
            declare(f + e, s)

    def document(self, st, e, d):
        """d-th document of epoch e with its variational parameters: (doc, vp)"""
        ex = self.u.ex
        oX = ex.alloc(st, MatVal(self.W, ONE, app('X' + e, d, RI, sort='I'), ONE, 'I'))
        ophi = ex.alloc(st, MatVal(self.K, self.W, app('phi' + e, d, RI, CI), ONE, 'R'))
        # the topic weights of the inference steps: prior plus counted responsibilities (C02)
        og = ex.alloc(st, MatVal(self.K, ONE, app('alpha', RI) + S(self.W, lambda n: app('X' + e, d, n, sort='I') * app('phi' + e, d, RI, n)), ONE, 'R'))
        fields = {'gamma': og, 'phi': ophi}
        cls = 'VariationalParameters'
        if self.var == 'corr':
            cls = 'SupervisedCorrespondenceVariationalParameters'
            fields['tau'] = ex.alloc(st, MatVal(self.W, ONE, app('tau' + e, d, RI), ONE, 'R'))
        vp = ex.alloc(st, Struct(NS + 'parameters::%s<double>' % cls, fields))
        y = app('y' + e, d, sort='I')
        if self.C is not None:
            if self.var != 'semi':
                st.assume(ind_le(-y))
            st.assume(ind_le(y - self.C + 1))
        return Opaque('doc', 'Document', {'X': oX, 'y': y, 'objs': [oX, ophi, og]}), Ptr(vp)

    def doc_step(self, st, e, d):
        doc, vp = self.document(st, e, d)
        self.u.ex.invoke(st, self.fdoc, Ref(self.step), [doc, vp, Ptr(self.params)])

    def m_step(self, st):
        self.u.ex.invoke(st, self.fm, Ref(self.step), [Ptr(self.params)])

    def field(self, st, name):
        return st.heap[st.heap[self.step].fields[name]]

    def count(self, e, d, k, n):
        """expected count of word n in topic k from document d"""
        r = app('X' + e, d, n, sort='I') * app('phi' + e, d, k, n)
        return r * app('tau' + e, d, n) if self.var == 'corr' else r


def explore(u, f):
    return u.ex.explore(f, u.st)


def rest(u, w, s, e, D, first=0):
    """documents first..D-1 of epoch e"""
    loops.core(u.ex, s, None, lambda s2, it: w.doc_step(s2, e, it + first), lambda s2: None, None, count=D - first)


def run_epochs(u, w, sizes, between=None):
    """a fresh step object through epochs of the given symbolic sizes; returns the final states with the per-epoch snapshots"""
    def go(s):
        for i, D in enumerate(sizes):
            e = 'ABC'[i]
            if i == 0:
                w.doc_step(s, e, ZERO)      # the first document ever: the buffers are allocated
                rest(u, w, s, e, D, 1)
            else:
                rest(u, w, s, e, D)
            s.trace = s.trace + [('before', i, dict(s.heap))]
            w.m_step(s)
            s.trace = s.trace + [('after', i, dict(s.heap))]
    return u.ex.explore(go, u.st)


def snap(st, kind, i):
    for e in st.trace:
        if e[0] == kind and e[1] == i:
            return e[2]


def normed_rows(c, K, W):
    """c(k, n) divided by its row total, unchanged when that is zero"""
    def v(k, n):
        s = S(W, lambda j: c(k, j))
        z = ind_eq(s)
        return z * c(k, n) + (ONE - z) * c(k, n) * inv(s)
    return v


def total(w, e, i, D, f):
    """sum over the documents of epoch i (the first document ever is taken out of the range)"""
    return f(ZERO) + S(D - 1, lambda d: f(d + 1)) if i == 0 else S(D, f)
