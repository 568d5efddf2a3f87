"""C23: initialisation of the model."""
#: note A uniform real draw of exactly zero (probability below 2^-52) is excluded; draws are otherwise arbitrary values of the requested range; real arithmetic.
from estep import *
from std_conc import Hand
import std_models, conf
import numpy as np

B = NS + 'LDABuilder<double>'
TUS = ['src/ldaplusplus/LDABuilder.cpp', 'src/ldaplusplus/Document.cpp']


def builder(u, K=None, W=None):
    """a builder with any history: the model it holds is arbitrary (or K x W)"""
    ex, st = u.ex, u.st
    f = {}
    K = u.size('K0', 0) if K is None else K
    W = u.size('W0', 0) if W is None else W
    model = None
    for nm, t, _ in ex.class_fields(B):
        if 'Parameters' in t:
            a, b, e = u.mat('alpha0', K, ONE), u.mat('beta0', K, W, vec=False), u.mat('eta0', u.size('R0', 0), u.size('C0', 0), vec=False)
            model = ex.alloc(st, Struct(NS + 'parameters::SupervisedModelParameters<double>', {'alpha': a, 'beta': b, 'eta': e}))
            f[nm] = ex.alloc(st, Ptr(model))
        elif 'shared_ptr' in t:
            f[nm] = ex.alloc(st, Opaque(nm, 'step'))
        elif t == 'bool':
            f[nm] = ex.alloc(st, BoolV(ind_bool(nm + '0')))
        else:
            f[nm] = u.num(u.size(nm + '0', 0), 'I')
    return ex.alloc(st, Struct(B, f)), model


def field(st, model, n):
    return st.heap[st.heap[model].fields[n]]


def parts(u, s, model, o, keep):
    """what an initialiser may not touch"""
    f0 = u.st.heap[o].fields
    for nm, x in f0.items():
        v = s.heap[s.heap[o].fields[nm]]
        if isinstance(v, Ptr) and isinstance(s.heap.get(v.oid), Struct):
            continue
        u.same(s, 'setting ' + nm, x)
    for n in keep:
        u.same(s, n, u.st.heap[model].fields[n])


def returned(u, s, k, v, o):
    u.holds(s, 'returns the builder', ONE if k != 'throw' and isinstance(v, (Ref, Ptr)) and v.oid == o else ZERO)


def run(u, f, o, args):
    return u.ex.explore(lambda s: u.ex.invoke(s, f, Ref(o), args), u.st.clone())


def topics(u, s, model, K, W, positive):
    u.eq_mat(s, 'every prior entry is 1/K', field(s, model, 'alpha'), K, ONE, lambda i, j: inv(K))
    b = field(s, model, 'beta')
    u.eq(s, 'one row per topic', b.rows, K)
    u.eq(s, 'one column per word', b.cols, W)
    i, j = fresh('i'), fresh('j')
    s1 = u.idx(s, i, K, j, W)
    e, d = b.at(i, j)
    u.holds(s1, 'every entry is defined', d)
    u.holds(s1, 'entries are positive' if positive else 'entries are not negative', ONE - ind_le(e) if positive else ind_le(-e))
    u.eq(u.idx(s, i, K), 'rows sum to one', S(W, lambda w: b.at(i, w)[0]), ONE)


def seeds(u):
    """every number is drawn from a generator made in this call from the given seed"""
    for s, p in u.ex.seeds:
        if p is None:
            u.holds(s, 'generators are made from the given seed', ZERO)
        else:
            u.eq(s, 'generators are made from the given seed', p, V('seed'))


def random_(u):
    o, model = builder(u)
    K, W = u.size('K'), u.size('W')
    f = u.fn(B + '::initialize_topics_random')
    for s, k, v in run(u, f, o, [Num(W, 'I'), Num(K, 'I'), Num(V('seed'), 'I')]):
        returned(u, s, k, v, o)
        topics(u, s, model, K, W, False)
        parts(u, s, model, o, ['eta'])
    seeds(u)


def seeded(u):
    ex = u.ex
    o, model = builder(u)
    K, W, D, N = u.size('K'), u.size('W'), u.size('D'), u.size('N', 0)
    declare('X', 'nonneg')
    corpus = Opaque('corpus', 'Corpus')
    ex.virtuals[('Corpus', 'size')] = lambda ex, st, o, a, n: Num(D, 'I')

    def at(ex, st, o, a, n):
        i = ex.load(st, a[0]).p
        ex.oblige(st, 'document index is within the corpus', 'cond', ind_le(-i) * ind_le(i - D + 1), n.get('l'))
        return Hand(i, 'Document')
    ex.virtuals[('Corpus', 'at')] = at
    ex.virtuals[('Document', 'get_words')] = lambda ex, st, o, a, n: MatVal(W, ONE, app('X', RI, o.p, sort='I'), ONE, 'I')
    f = u.fn(B + '::initialize_topics_seeded', pred=lambda f: 'Corpus' in f['params'][0]['t'])
    for s, k, v in run(u, f, o, [corpus, Num(K, 'I'), Num(N, 'I'), Num(V('seed'), 'I')]):
        returned(u, s, k, v, o)
        topics(u, s, model, K, W, True)
        parts(u, s, model, o, ['eta'])
        b = field(s, model, 'beta')
        ds = sorted({x for x in re.findall(r'draw![0-9]+', b.p.key)})
        if len(ds) == 1:
            d = lambda i, r: app(ds[0], i, r, sort='I')
            num = lambda i, w: ONE + S(N, lambda r: app('X', w, d(i, r), sort='I'))
            u.eq_mat(s, 'rows are one plus the counts of the documents drawn, normalised', b, K, W,
                     lambda i, w: num(i, w) * inv(S(W, lambda x: num(i, x))))
        elif ds or 'rnd!' in b.p.key:
            raise Unsupported('documents drawn otherwise')
        else:
            u.holds(s, 'documents are drawn for every topic', ind_le(N))
    seeds(u)


def matrix(u):
    """the overload for a matrix of counts: the columns are the documents"""
    ex = u.ex
    o, model = builder(u)
    K, W, D, N = u.size('K'), u.size('W'), u.size('D'), u.size('N', 0)
    X = u.mat('X', W, D, 'I', vec=False)
    declare('X', 'nonneg')
    f = u.fn(B + '::initialize_topics_seeded', pred=lambda f: 'Corpus' not in f['params'][0]['t'])
    for s, k, v in run(u, f, o, [Ref(X), Num(K, 'I'), Num(N, 'I'), Num(V('seed'), 'I')]):
        returned(u, s, k, v, o)
        topics(u, s, model, K, W, True)
        parts(u, s, model, o, ['eta'])
        u.same(s, 'X', X)
    seeds(u)


def eta(name, value):
    def unit(u):
        K, C = u.size('K', 0), u.size('C')
        o, model = builder(u, K, u.size('W0'))
        f = u.fn(B + '::' + name)
        for s, k, v in run(u, f, o, [Num(C, 'I')]):
            if k != 'throw':
                returned(u, s, k, v, o)
                u.holds(s, 'refused while there are no topics', ONE - ind_le(K))
                u.eq_mat(s, 'classifier parameters', field(s, model, 'eta'), K, C, lambda i, j: value(C))
            else:
                u.holds(s, 'accepted when there are topics', ind_le(K))
                parts(u, s, model, o, ['eta'])
            parts(u, s, model, o, ['alpha', 'beta'])
    return unit


def conformance(rng, tier):
    import builderconf
    return builderconf.c23(rng, tier)


UNITS = [('random topics', random_), ('seeded topics', seeded), ('seeded topics from counts', matrix), ('zero classifier', eta('initialize_eta_zeros', lambda C: ZERO)),
         ('uniform classifier', eta('initialize_eta_uniform', lambda C: inv(C)))]
CHECK = Check('C23', TUS, UNITS, conformance)
