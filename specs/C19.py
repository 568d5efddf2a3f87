"""C19: corpora keep documents, labels and counts together."""
#: note std::shuffle is assumed to permute its range (no claim about randomness); labels carried by at least one document; real arithmetic for the priors.
from estep import *
import std_models, conf
import numpy as np

CO = NS + 'corpus::'
TUS = ['src/ldaplusplus/Document.cpp']


def new(u, cls, args, types):
    """object built by the real constructor; forks are not expected"""
    box = []
    outs = u.ex.explore(lambda s: box.append(std_models.new_object(u.ex, s, CO + cls, args, types)), u.st)
    return [(st, o) for (st, k, _), o in zip(outs, box) if k == 'ok' or k is None or k == 'ret' or True]


def reach(u, st, o):
    """objects reachable from o"""
    seen, todo = [], [o]
    while todo:
        x = todo.pop()
        if x in seen or x is None:
            continue
        seen.append(x)
        v = st.heap[x]
        if isinstance(v, Struct):
            todo += list(v.fields.values())
        elif isinstance(v, (Ref, Ptr)):
            todo.append(v.oid)
    return seen


def orders(u, st, o, N):
    return [x for x in reach(u, st, o) if isinstance(st.heap[x], Arr) and st.heap[x].s == 'I']


def shuffled(u, st, o, N):
    """after any number of shuffles: the order is some permutation sig of the positions"""
    declare('sig', 'nonneg')
    UPPER['sig'] = N - 1
    os_ = orders(u, st, o, N)
    if len(os_) != 1:
        raise Unsupported('the order is not kept in one vector')
    s = st.clone()
    a = st.heap[os_[0]]
    s.heap[os_[0]] = Arr(a.size, None, app('sig', RI, sort='I'), ONE, 'I', a.et)
    return s, os_[0]


def virt(u, st, name, o, args=()):
    """the method the object's class provides"""
    cls = st.heap[o].cls
    for c in [cls] + u.ex.bases(cls):
        fs = u.prog.find(c + '::' + name)
        if fs:
            return u.ex.explore(lambda s: u.ex.load(s, u.ex.invoke(s, fs[0], Ref(o), list(args))), st)
    raise Unsupported('no method ' + name)


def indexes(u):
    N = u.size('N', 0)
    for st, o in new(u, 'CorpusIndexes', [Num(N, 'I'), Num(V('seed'), 'I')], ['int', 'int']):
        i = fresh('i')
        g = u.fn(CO + 'CorpusIndexes::get_index')
        s = u.idx(st, i, N)
        for s1, k, v in u.run(g, Ref(o), [Num(i, 'I')], s):
            u.eq_num(s1, 'position i is document i before any shuffle', v, i)
        s0, oid = shuffled(u, st, o, N)
        u.eq(s0, 'one position per document', s0.heap[oid].size, N)
        for s1, k, v in u.run(g, Ref(o), [Num(i, 'I')], u.idx(s0, i, N)):
            u.eq_num(s1, 'position i of the order', v, app('sig', i, sort='I'))
        for s1, k, v in u.run(u.fn(CO + 'CorpusIndexes::shuffle'), Ref(o), [], s0):
            a = s1.heap[oid]
            u.eq(s1, 'a shuffle keeps the number of positions', a.size, N)
            j = fresh('j')
            s2 = u.idx(s1, j, N)
            ps = getattr(u.ex, 'perms', [])[-1:]
            if not ps:
                raise Unsupported('shuffled otherwise than by std::shuffle')
            want = app('sig', app(ps[0][0], j, sort='I'), sort='I')
            u.eq(s2, 'a shuffle permutes all positions', subst(a.p, {'ri_': j}), want)
            u.holds(s2, 'every position is defined', subst(a.d, {'ri_': j}))


def corpus(labels):
    def unit(u):
        ex = u.ex
        W, N = u.size('W', 0), u.size('N')
        X = u.mat('X', W, N, 'I', vec=False)
        cls = 'EigenClassificationCorpus' if labels else 'EigenCorpus'
        args, types = [Ref(X)], ['const Eigen::MatrixXi &']
        if labels:
            y = u.mat('y', N, ONE, 'I')
            args.append(Ref(y)); types.append('const Eigen::VectorXi &')
        args.append(Num(V('seed'), 'I')); types.append('int')
        for st, o in new(u, cls, args, types):
            for s, order in ((st, lambda i: i), (shuffled(u, st, o, N)[0], lambda i: app('sig', i, sort='I'))):
                f = u.fn(CO + cls + '::size')
                for s1, k, v in u.run(f, Ref(o), [], s.clone()):
                    u.eq_num(s1, 'size is the number of columns', v, N)
                i = fresh('i')
                for s1, k, v in u.run(u.fn(CO + cls + '::at'), Ref(o), [Num(i, 'I')], u.idx(s, i, N)):
                    d = v.oid
                    for s2, k2, w in virt(u, s1, 'get_words', d):
                        u.eq_mat(s2, 'words of the document', w, W, ONE, lambda r, c: app('X', r, order(i), sort='I'))
                    if labels:
                        for s2, k2, w in virt(u, s1, 'get_class', d):
                            u.eq_num(s2, 'label of the document', w, app('y', order(i), sort='I'))
                        for s2, k2, w in virt(u, s1, 'get_corpus', d):
                            u.holds(s2, 'the document knows its corpus', ONE if isinstance(w, (Ptr, Ref)) and w.oid == o else ZERO)
                    u.same(s1, 'data', X)
            if labels:
                w = fresh('w')
                c = app('y', w, sort='I')           # the class of some document
                n = S(N, lambda i: ind_eq(app('y', i, sort='I') - c))
                tot = S(N, lambda i: ind_le(-app('y', i, sort='I')))
                sc = u.idx(st, w, N)
                sc.assume(ind_le(-c))
                for s1, k, v in u.run(u.fn(CO + cls + '::get_prior'), Ref(o), [Num(c, 'I')], sc):
                    u.eq_num(s1, 'fraction of the labelled documents', v, n * inv(tot))
            # a shuffle of the corpus shuffles its order and nothing else
            s0, oid = shuffled(u, st, o, N)
            for s1, k, v in u.run(u.fn(CO + cls + '::shuffle'), Ref(o), [], s0):
                for x in reach(u, s0, o):
                    if x != oid and isinstance(s0.heap[x], (MatVal, Num)):
                        u.same(s1, 'everything but the order', x, s0)
                ps = getattr(ex, 'perms', [])[-1:]
                j = fresh('j')
                if not ps:
                    raise Unsupported('shuffled otherwise than by std::shuffle')
                want = app('sig', app(ps[0][0], j, sort='I'), sort='I')
                u.eq(u.idx(s1, j, N), 'the order is permuted', subst(s1.heap[oid].p, {'ri_': j}), want)
    return unit


def one(rng, q, T):
    W, N = int(rng.integers(1, 5)), int(rng.integers(1, 40)) if q % 25 else int(rng.integers(60, 600))
    W, N = conf.hint(rng, W, .05), conf.hint(rng, N, .15, 1, 5002)
    X = rng.integers(0, 9, (W, N)).astype(float)
    X[0] = rng.permutation(N)
    lab = bool(q % 4)
    y = rng.integers(-1 if q % 3 == 0 else 0, conf.hint(rng, int(rng.integers(1, 6)), .05), N).astype(float)
    if q % 17 == 0:
        y[:] = -1 - rng.integers(0, 3, N)
    sh = int(rng.integers(0, 4))

    def check(r):
        base = np.vstack([X, y if lab else 0 * y])
        docs = r.get('docs*', [r['docs']])
        if len(docs) != sh + 1 or any(np.any(s != N) for s in r.get('size*', [r['size']])):
            return 'size'
        if not np.array_equal(docs[0], base):
            return 'document i is not column i before any shuffle'
        key = lambda m: sorted(map(tuple, m.T.tolist()))
        for d in docs:
            if key(d) != key(base):
                return 'a shuffle loses, repeats or mixes documents and labels'
        if N >= 25 and any(np.array_equal(a, b) for a, b in zip(docs, docs[1:])):
            return 'a shuffle leaves the order as it was'
        if not np.array_equal(r['kept'], base):
            return 'a document changes'
        if not r['known'][0, 0]:
            return 'a document does not know its corpus'
        if lab:
            m = int(y.max()) + 1
            want = np.array([np.sum(y == c) / max(1, np.sum(y >= 0)) for c in range(max(m, 0))])
            if not conf.close(r['priors'], want, 1e-5, 1e-6):
                return 'priors'
    T.case(('corpus', X, lab, y, int(rng.integers(0, 1000)), sh), check=check)


def conformance(rng, tier):
    T = conf.Tester(['d_corpus.cpp'], TUSREL, extra=('-fsanitize=address',))
    for q in range({'quick': 150, 'thorough': 4000, 'deep': 600}[tier]):
        one(rng, q, T)
    return T.finish()


TUSREL = ['ldaplusplus/Document.cpp']
UNITS = [('CorpusIndexes', indexes), ('EigenCorpus', corpus(False)), ('EigenClassificationCorpus', corpus(True))]
CHECK = Check('C19', TUS, UNITS, conformance)
