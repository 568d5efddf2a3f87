"""C07: semi-supervised composition of the inference and maximisation steps."""
from mstep import *
import C10
import mstepconf

ES = EM + 'SemiSupervisedEStep<double>'


def setup(u):
    """the composite built by its real constructor over two arbitrary steps with their own dispatchers"""
    ex, st = u.ex, u.st
    sup, uns = Opaque('sup', 'Step'), Opaque('unsup', 'Step')
    ds = {'sup': Opaque('dsup', 'Dispatcher'), 'unsup': Opaque('dunsup', 'Dispatcher')}
    ex.direct[('Step', 'get_event_dispatcher')] = lambda ex, st, o, a, n: ds[o.name]

    def e_step(ex, st, o, a, n):
        st.trace = st.trace + [('e_step', o.name)]
        return VOID

    def doc(ex, st, o, a, n):
        st.trace = st.trace + [('doc', o.name, [ex.load(st, x) for x in a])]
        return Opaque('result of ' + o.name, 'Parameters')

    def listen(ex, st, o, a, n):
        v = ex.load(st, a[0])
        if not isinstance(v, Ptr):
            import std_models
            v = Ptr(std_models.new_object(ex, st, NS + 'events::FunctionEventListener', [a[0]], ['f']))
        st.trace = st.trace + [('listen', o.name, v.oid)]
        return v

    def unlisten(ex, st, o, a, n):
        st.trace = st.trace + [('unlisten', o.name, ex.load(st, a[0]).oid)]
        return VOID

    def disp(ex, st, o, a, n):
        st.trace = st.trace + [('dispatch', o.name, ex.load(st, a[0]))]
        return VOID
    ex.virtuals[('Step', 'e_step')] = e_step
    ex.virtuals[('Step', 'doc_e_step')] = doc
    ex.virtuals[('Dispatcher', 'add_listener')] = listen
    ex.virtuals[('Dispatcher', 'remove_listener')] = unlisten
    ex.virtuals[('Dispatcher', 'dispatch')] = disp
    ex.virtuals[('Document', 'get_class')] = lambda ex, st, o, a, n: Num(V('y'), 'I')
    import std_models
    o = std_models.new_object(ex, st, ES, [sup, uns], ['p', 'p'])
    return o


def estep_doc(u):
    o = setup(u)
    d, p = Opaque('doc', 'Document'), Opaque('params', 'Parameters')
    u.st.trace = []
    for st, k, v in u.run(u.fn(ES + '::doc_e_step'), Ref(o), [d, p]):
        neg = ind_le(V('y') + 1)
        tr = [e for e in st.trace if e[0] == 'doc']
        u.holds(st, 'exactly one inference', ONE if len(tr) == 1 and len(st.trace) == 1 else ZERO)
        who = tr[0][1] if tr else ''
        u.holds(st, 'negative labels go to the unsupervised step, others to the supervised step', neg if who == 'unsup' else ONE - neg)
        u.holds(st, 'the document and model are passed on', ONE if tr and tr[0][2] == [d, p] else ZERO)
        u.holds(st, 'the result of that step is returned', ONE if v == Opaque('result of ' + who, 'Parameters') else ZERO)


def estep_epoch(u):
    o = setup(u)
    u.st.trace = []
    for st, k, v in u.run(u.fn(ES + '::e_step'), Ref(o), []):
        u.holds(st, 'finishing an epoch reaches both steps exactly once',
                ONE if sorted(e[1] for e in st.trace if e[0] == 'e_step') == ['sup', 'unsup'] and len(st.trace) == 2 else ZERO)


def forwarding(u):
    o = setup(u)
    ls = [e for e in u.st.trace if e[0] == 'listen']
    u.holds(u.st, 'one listener at each of the two dispatchers', ONE if sorted(e[1] for e in ls) == ['dsup', 'dunsup'] and len(ls) == 2 else ZERO)
    u.ex.invoke(u.st, u.fn(NS + 'events::EventDispatcherComposition::set_event_dispatcher'), Ref(o), [Opaque('own', 'Dispatcher')])
    for l in ls:
        st = u.st.clone()
        st.trace = []
        ev = Opaque('event of ' + l[1], 'Event')
        f = u.fn(NS + 'events::FunctionEventListener::on_event')
        for s, k, v in u.run(f, Ref(l[2]), [ev], st):
            tr = [e for e in s.trace]
            u.holds(s, 'an event of %s is forwarded exactly once to the own dispatcher' % l[1],
                    ONE if len(tr) == 1 and tr[0][0] == 'dispatch' and tr[0][1] == 'own' and tr[0][2] == ev else ZERO)
    fs = [f for f in u.prog.funcs.values() if f['fn'] == ES + '::~SemiSupervisedEStep']
    if not fs:
        raise Unsupported('destructor not found')
    st = u.st.clone()
    st.trace = []
    for s, k, v in u.run(fs[0], Ref(o), [], st):
        un = sorted((e[1], e[2]) for e in s.trace if e[0] == 'unlisten')
        u.holds(s, 'nothing is forwarded after destruction', ONE if un == sorted((e[1], e[2]) for e in ls) else ZERO)


def mk_unlabelled(case):
    def unit(u):
        m = V('m') if case != 'first' else ZERO
        cap = ZERO
        if case != 'first':
            u.st.assume(ind_le(-m))
            cap = u.size('cap', 0)
            u.st.assume(ind_le(m - cap))
        w = C10.world(u, 'semi', m, cap)
        d = V('d')
        u.st.assume(ind_le(-d))
        doc, vp = w.document(u.st, 'A', d)
        u.st.assume(ind_le(app('yA', d, sort='I') + 1))
        f0 = dict(u.st.heap[w.step].fields)
        for st, k, _ in u.run(w.fdoc, Ref(w.step), [doc, vp, Ptr(w.params)]):
            f, h = st.heap[w.step].fields, st.heap
            u.eq_mat(st, 'its counts go to the topics', h[f['b_']], w.K, w.W,
                     lambda r, c: (app('b0', r, c) if case != 'first' else ZERO) + w.count('A', d, r, c))
            for nm in ('docs_', 'y_', 'expected_z_bar_'):
                u.same(st, nm + ' (nothing for the classifier)', f0[nm])
            for o in doc.info['objs'] + [w.oalpha, w.obeta, w.oeta]:
                u.same(st, 'inputs and model', o)
    return unit


def mk_labelled(case):
    def unit(u):
        u.label = 'labelled'
        C10.mk_doc('semi', case)(u)
    return unit


def nothing_labelled(u):
    """the end of an epoch without labelled documents updates the topics and leaves the classifier alone"""
    w = C10.world(u, 'semi', ZERO, u.size('cap', 0))
    for st, k, _ in u.run(w.fm, Ref(w.step), [Ptr(w.params)]):
        h, f = st.heap, st.heap[w.step].fields
        u.same(st, 'eta', w.oeta)
        u.eq_mat(st, 'topics: the statistics of the epoch, normalised', h[w.obeta], w.K, w.W, normed_rows(lambda k, n: app('b0', k, n), w.K, w.W))
        u.eq_mat(st, 'afterwards the topic statistics are zero', h[f['b_']], w.K, w.W, lambda r, c: ZERO)
        u.eq_num(st, 'afterwards no document is pending', h[f['docs_']], ZERO)


UNITS = [('inference: routing', estep_doc), ('inference: end of epoch', estep_epoch), ('inference: event forwarding', forwarding)] + \
    [('maximisation: unlabelled document (%s)' % c, mk_unlabelled(c)) for c in ('first', 'later')] + \
    [('maximisation: labelled document (%s)' % c, mk_labelled(c)) for c in ('first', 'room', 'full')] + \
    [('maximisation: end of an epoch without labels', nothing_labelled), ('maximisation: end of epoch', C10.mk_train('semi'))]
CHECK = Check('C07', mtus('semi') + ['src/ldaplusplus/em/SemiSupervisedEStep.cpp'] + ['src/ldaplusplus/optimization/%s.cpp' % c for c in C10.CL.values()], UNITS, mstepconf.msteps(['semi'], 200))
