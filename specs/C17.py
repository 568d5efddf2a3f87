"""C17: lock discipline of the shared queues."""
#: note Lock discipline proved on every path of workers, coordinator, dispatchers and generator with assumed contracts for std::mutex, condition_variable, list and set; absence of lost wake-ups follows from publish-then-notify plus a predicate re-checked under the lock (argued in DESIGN.md).
from checklib import *
from std_conc import *
import lda, ldaconf
import C22

TUS = lda.TUS
PRNG = 'ldaplusplus::math_utils::ThreadSafePRNG<'


def walk(tr):
    for e in tr:
        if e[0] in ('loop', 'each'):
            for _, b in e[3]:
                yield from walk(b)
        elif e[0] == 'start':
            yield e
            yield from walk(e[1])
        else:
            yield e


def edges(tr):
    return {(h, m) for e in walk(tr) if e[0] == 'acquire' for h in e[2] for m in e[1]}


def acyclic(es):
    es = set(es)
    while es:
        src = {a for a, _ in es}
        dead = {e for e in es if e[1] not in src}
        if not dead:
            return False
        es -= dead
    return True


def discipline(u, st, tr, guards, after=0):
    """user code runs without locks, shared lists are used with them"""
    for e in walk(tr[after:]):
        if e[0] == 'acc':
            u.holds(st, 'the %s are used under their lock' % e[1], ONE if set(e[3]) & guards.get(e[1], set()) else ZERO)
        elif e[0] in ('infer', 'doc_m_step', 'm_step', 'estep', 'deliver', 'dispatch', 'process', 'join', 'shuffle'):
            held = e[1] if e[0] == 'join' else e[-1]
            u.holds(st, 'no lock is held by the caller of %s' % e[0], ONE if not held else ZERO)
        elif e[0] == 'start':
            u.holds(st, 'no lock is held while a thread is created', ONE if not e[2] else ZERO)
    u.holds(st, 'no lock is kept', ONE if not st.locks else ZERO)


def worker_traces(u, w):
    def queue(ex, st, k):
        n = lda.entered(st)
        c = V('n%s%d' % (k, n))
        st.assume(ind_le(-c))
        return SeqV([Seg(ZERO, c, lambda j: (w.job if k == 'jobs' else w.result)('%s%d' % (k, n), j), None, k)])
    w.interfere(queue)
    u.ex.generic_loops, u.ex.iterations = True, []
    outs = u.run(u.fn(lda.WORKER), Ref(w.o), [])
    u.ex.generic_loops = False
    return [(s, t) for s, t in u.ex.iterations], [(s, s.trace) for s, _, _ in outs]


def extract_traces(u, w):
    def queue(ex, st, k):
        n = lda.entered(st)
        c = V('m%s%d' % (k, n))
        st.assume(ind_le(-c))
        return SeqV([Seg(ZERO, c, lambda j: (w.job if k == 'jobs' else w.result)('r%s%d' % (k, n), j), None, k)])
    w.interfere(queue)
    u.ex.generic_loops, u.ex.iterations = True, []
    outs = u.run(u.fn(lda.LDA + '::extract_vp_from_queue'), Ref(w.o), [])
    u.ex.generic_loops = False
    its = u.ex.iterations
    return outs, its


def queues(u):
    """the worker and the consumer of results"""
    w = lda.World(u)
    w.learn_guards()
    its, ends = worker_traces(u, w)
    outs, waits = extract_traces(u, w)
    allt = its + ends + [(s, s.trace) for s, _, _ in outs] + list(waits)
    g = {}
    for _, tr in allt:
        for e in walk(tr):
            if e[0] == 'acc':
                g[e[1]] = set(e[3]) if e[1] not in g else g[e[1]] & set(e[3])
    for k in ('jobs', 'results'):
        u.holds(u.st, 'one lock protects all uses of the %s' % k, ONE if g.get(k) else ZERO)
    es = set()
    for s, tr in allt:
        discipline(u, s, tr, g)
        es |= edges(tr)
    u.holds(u.st, 'locks are taken in a consistent order', ONE if acyclic(es) else ZERO)
    # wake-ups: the consumer re-checks the queue under the lock of the results and is notified after every publication
    cvs = set()
    wt = [(s, tr) for s, tr in [(s, s.trace) for s, _, _ in outs] + list(waits)]
    for s, tr in wt:
        for e in walk(tr):
            if e[0] == 'wait':
                cvs.add(e[1])
                u.holds(s, 'the consumer waits with the lock of the results', ONE if set(e[2]) <= g['results'] and set(e[3]) == set(e[2]) else ZERO)
    u.holds(u.st, 'the consumer waits for one condition', ONE if len(cvs) == 1 else ZERO)
    for s, tr in its:
        push = [k for k, e in enumerate(tr) if e[0] == 'acc' and e[1] == 'results' and e[2].split('_')[0] in ('push', 'emplace')]
        note = [k for k, e in enumerate(tr) if e[0] == 'notify' and e[1] in cvs]
        if push:
            u.holds(s, 'the consumer is notified after every publication', ONE if note and note[-1] > push[-1] else ZERO)
    i = fresh('i')
    for s, k, v in outs:
        secs = lda.sections(s.trace, 'results')
        ix = lda.index_of(v) if isinstance(v, Tup) else None
        if ix is None:
            u.holds(s, 'the consumer gets a published result', ZERO)
            continue
        u.eq(s, 'exactly the result returned leaves the queue', lda.change(s.trace, 'results', i), -ind_eq(ix - i))
        vp = s.heap[v.items[0].oid] if isinstance(v.items[0], Ref) else v.items[0]
        u.eq(s, 'what was inferred stays with its document', vp.p, app('vpfor', app('docof', V('corpus'), ix, sort='I'), sort='I'))


def coordinate(u):
    """the coordinating thread while workers run"""
    for name in ('partial_fit', 'transform'):
        w = lda.coordinator(u)
        if name == 'transform':
            lda.corpora(u, w)
            X = u.mat('X', V('W'), w.D, 'I')
            outs = u.run(u.fn(lda.LDA + '::transform'), Ref(w.o), [Ref(X)])
        else:
            outs = u.run(u.fn(lda.LDA + '::partial_fit', nparams=1), Ref(w.o), [w.corpus])
        for st, k, _ in outs:
            tr = st.trace
            s0, j0 = lda.flat(tr, 'start'), lda.flat(tr, 'join')
            if not s0 or not j0:
                u.holds(st, 'workers are started and joined', ZERO)
                continue
            # before the start and after the join there is one thread only
            mid = tr[s0[0]:j0[-1] + 1]
            discipline(u, st, mid, w.guards)
            discipline(u, st, [e for e in tr if e[0] != 'acc' and not (e[0] in ('loop', 'each'))], w.guards)
            u.holds(st, 'locks are taken in a consistent order', ONE if acyclic(edges(tr)) else ZERO)


def dispatchers(u):
    es, accs, runs = set(), {}, []
    for name, np, arg in (('add_listener', 1, C22.LI), ('remove_listener', 1, C22.LI), ('dispatch', 1, C22.EV), ('process_events', 0, None)):
        w = C22.World(u, C22.NE + 'ThreadSafeEventDispatcher')
        f = C22.member_fn(u, w.cls, name, np)
        for st, k, _ in u.run(f, Ref(w.o), [Hand(V('x'), arg)] if np else []):
            runs.append((st, st.trace))
            es |= edges(st.trace)
            for e in walk(st.trace):
                if e[0] == 'acc':
                    accs[e[1]] = set(e[3]) if e[1] not in accs else accs[e[1]] & set(e[3])
    for k in ('listeners', 'removed', 'events'):
        u.holds(u.st, 'one lock protects all uses of the %s' % k, ONE if accs.get(k) else ZERO)
    for st, tr in runs:
        discipline(u, st, tr, accs)
    u.holds(u.st, 'locks are taken in a consistent order', ONE if acyclic(es) else ZERO)


def generator(u):
    """the shared random generator is used under its lock"""
    fs = [f for f in u.prog.funcs.values() if f['fn'].startswith(PRNG) and f['fn'].endswith('::operator()') and not f['params']]
    if not fs:
        raise Unsupported('generator not instantiated')
    ex, st = u.ex, u.st
    cls = fs[0]['cls']
    fields = {}
    for nm, t, _ in ex.class_fields(cls):
        if 'std::mutex' in t:
            m = ex.alloc(st, Opaque(nm, 'std::mutex'))
        else:
            m = ex.alloc(st, Opaque(nm, 'Generator'))
        fields[nm] = ex.alloc(st, Ptr(m)) if 'shared_ptr' in t else m
    o = ex.alloc(st, Struct(cls, fields))

    def draw(ex, st, callee, obj, argn, n):
        st.trace = st.trace + [('draw', st.locks)]
        return Num(fresh('draw'), 'I')
    ex.models.insert(0, (re.compile(r'std::(linear_congruential_engine|mersenne_twister_engine)<.*operator\(\)'), draw))
    for s, k, v in u.run(fs[0], Ref(o), []):
        d = [e for e in s.trace if e[0] == 'draw']
        u.holds(s, 'one number is drawn, under the lock', ONE if len(d) == 1 and d[0][1] else ZERO)
        u.holds(s, 'no lock is kept', ONE if not s.locks else ZERO)


UNITS = [('worker and consumer', queues), ('coordinating thread', coordinate), ('event dispatchers', dispatchers), ('shared random generator', generator)]
CHECK = Check('C17', TUS + ['/verif/harness/inst.cpp'], UNITS, ldaconf.c17)
