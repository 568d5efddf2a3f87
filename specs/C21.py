"""C21: saved models and snapshots."""
#: note Obligations for all models, paths, intervals and histories, over the contracts of the array writer and reader (proved by C20). Assumes a file system that keeps what is written (no I/O errors), model parameters of type SupervisedModelParameters, dimensions fitting an int; conformance runs are bounded.
from npy import *
import ioconf

TUS = ['src/applications/lda_io.cpp', 'src/applications/SnapshotEvery.cpp', 'src/ldaplusplus/events/Events.cpp',
       VERIF + '/harness/inst_io.cpp']
PAR = NS + 'parameters::SupervisedModelParameters<double>'
NAMES = ('alpha', 'beta', 'eta')


def model(u, st, pre, dims):
    o = std_models.new_object(u.ex, st, PAR, [], [])
    for nm, (r, c) in zip(NAMES, dims):
        st.heap[field(u, st, o, nm)] = MatVal(r, c, app(pre + nm, CI * r + RI), ONE)
    return o


def field(u, st, o, nm):
    return u.ex.field(st, Ref(o), nm).oid


def sizes(u, eta=True):
    K, W, C = u.size('K', 1), u.size('W', 1), u.size('C', 0)
    for x in (K, W, C, K * W, K * C):
        u.st.assume(ind_le(x - (2 ** 31 - 1)))
    return [(K, ONE), (K, W), (K, C) if eta else (ZERO, ZERO)]


def path(u, st, name='path'):
    return Str([('str', name)])


def saved(u, st, key, m, dims, pre, what):
    segs = st.heap[key].segs if key in st.heap else ()
    ok = len(segs) == 3 and all(isinstance(g, tuple) and g[0] == 'npy' and g[1] == 'f8' and len(g[3]) in (1, 2) for g in segs)
    u.holds(st, what + 'the file holds three arrays of doubles', ONE if ok else ZERO)
    if not ok:
        return
    for g, nm, (r, c) in zip(segs, NAMES, dims):
        sh = list(g[3]) + [ONE] * (2 - len(g[3]))
        u.holds(st, what + 'shape of ' + nm, ind_eq(sh[0] - r) * ind_eq(sh[1] - c))
        i, j = fresh('i'), fresh('j')
        u.eq(u.idx(st, i, r, j, c), what + 'entries of ' + nm, logical(g, i, j), app(pre + nm, j * r + i))


def u_save(eta):
    def unit(u):
        contracts(u)
        dims = sizes(u, eta)
        st = u.st
        m = model(u, st, '', dims)
        key = std_io.file_key(path(u, st))
        st.heap[key] = Content((1, 2, 3))            # an older file of the same name
        for s, k, v in call(u, st, u.fn('io::save_lda'), [Ref(u.ex.alloc(st, path(u, st))), Ptr(m)]):
            u.holds(s, 'saving succeeds', ZERO if k == 'throw' else ONE)
            saved(u, s, key, m, dims, '', '')
            for nm in NAMES:
                u.same(s, 'saved model: ' + nm, field(u, st, m, nm))
            # and back
            for s1, k1, v1 in call(u, s, u.fn('io::load_lda'), [Ref(u.ex.alloc(s, path(u, s)))]):
                u.holds(s1, 'loading succeeds', ZERO if k1 == 'throw' else ONE)
                if k1 == 'throw':
                    continue
                p = u.ex.load(s1, v1)
                u.holds(s1, 'a new model is returned', ONE if p.oid is not None and p.oid != m else ZERO)
                for nm, (r, c) in zip(NAMES, dims):
                    x = s1.heap[field(u, s1, p.oid, nm)]
                    u.eq(s1, 'loaded rows of ' + nm, x.rows, r)
                    u.eq(s1, 'loaded columns of ' + nm, x.cols, c)
                    i, j = fresh('i'), fresh('j')
                    f, d = x.at(i, j)
                    u.eq(u.idx(s1, i, r, j, c), 'loaded entries of ' + nm, f, app(nm, j * r + i))
                    u.eq(u.idx(s1, i, r, j, c), 'loaded entries of %s are set' % nm, d, ONE)
                u.holds(s1, 'loading leaves the file as it is', ONE if s1.heap[key] == s.heap[key] else ZERO)
    return unit


def listener(u, E):
    """a listener after any history: the constructor's state, with its count of epochs replaced by any n"""
    st = u.st
    cls = 'SnapshotEvery'
    o = std_models.new_object(u.ex, st, cls, [Ref(u.ex.alloc(st, path(u, st))), Num(E, 'I')], ['std::string', 'int'])
    ints = [f for f in st.heap[o].fields.values() if isinstance(st.heap[f], Num)]
    cnt = [f for f in ints if st.heap[f].p.const() == 0]
    if len(cnt) != 1 or len(ints) != 2:
        raise Unsupported('the count of epochs is not kept in one counter')
    return o, cnt[0]


def u_start(u):
    """the constructor counts from zero and keeps path and interval (used by u_event)"""
    E = u.size('E', 1)
    o, c = listener(u, E)
    u.eq(u.st, 'no epoch seen yet', u.st.heap[c].p, ZERO)


def u_event(kind):
    def unit(u):
        contracts(u)
        E, n = u.size('E', 1), u.size('n', 0)
        dims = sizes(u)
        st = u.st
        o, cnt = listener(u, E)
        st.heap[cnt] = Num(n, 'I')
        m = model(u, st, '', dims)
        if kind == 'EpochProgressEvent':
            args, types = [Ptr(m)], ['std::shared_ptr<ldaplusplus::parameters::Parameters>']
        else:
            args, types = [Num(V('lik', 'R'), 'R')], ['double']
        ev = std_models.new_object(u.ex, st, NS + 'events::%s<double>' % kind, args, types)
        before = dict(st.heap)
        files = lambda s: {k: v for k, v in s.heap.items() if k.startswith('file!')and not k[5:].isdigit()}
        old = files(st)
        epoch = kind == 'EpochProgressEvent'
        hit = ind_eq(app('imod', n + 1, E, sort='I')) if epoch else ZERO
        for s, k, v in call(u, st, u.fn('SnapshotEvery::on_event'), [Ptr(ev)], Ref(o)):
            u.holds(s, 'the event is handled', ZERO if k == 'throw' else ONE)
            new = {k_: v_ for k_, v_ in files(s).items() if k_ not in old or old[k_] != v_}
            if new:
                u.holds(s, 'saved only in the epochs s, 2s, 3s, ...', hit)
                u.holds(s, 'one file is written', ONE if len(new) == 1 else ZERO)
                want = std_io.file_key(Str([('str', 'path'), 95, ('dec', n + 1, 3, 48)]))
                u.holds(s, 'file name: path, underscore, epoch of three digits at least', ONE if want in new else ZERO)
                if want in new:
                    saved(u, s, want, m, dims, '', 'snapshot: ')
            else:
                u.holds(s, 'every epoch that is a multiple of s is saved', ONE - hit)
            u.eq(s, 'epochs counted', s.heap[cnt].p, n + 1 if epoch else n)
            for f in s.heap[o].fields.values():
                if f != cnt:
                    a, b = before[f], s.heap[f]
                    u.holds(s, 'listener otherwise unchanged', ONE if a is b or a == b or isinstance(a, Num) and a.p == b.p else ZERO)
            for nm in NAMES:
                u.same(s, 'model: ' + nm, field(u, st, m, nm))
    return unit


UNITS = [('save and load a model', u_save(True)), ('save and load a model without eta', u_save(False)), ('listener starts at zero', u_start)] + \
    [('snapshot on ' + k, u_event(k)) for k in ('EpochProgressEvent', 'ExpectationProgressEvent', 'MaximizationProgressEvent')]
CHECK = Check('C21', TUS, UNITS, ioconf.conformance, single='models are saved and loaded in double only')
