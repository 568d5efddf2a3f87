"""The trainer's worker pool: shared state, interference of other threads, traces of the coordinating thread."""
from checklib import *
from std_conc import *

NS = 'ldaplusplus::'
LDA = NS + 'LDA<double>'
TUS = ['src/ldaplusplus/LDA.cpp', 'src/ldaplusplus/events/Events.cpp']
WORKER = LDA + '::doc_e_step_worker'


class World:
    def __init__(self, u, jobs=None, results=None):
        ex, st = u.ex, u.st
        self.u = u
        self.D, self.Wk, self.K = u.size('D'), u.size('Wk'), u.size('K')
        self.model = None
        f, self.q, self.sync = {}, {}, []
        for nm, t, _ in ex.class_fields(LDA):
            if re.match(r'std::(__cxx11::)?(list|deque)<', t):
                k = 'jobs' if 'Corpus' in t else 'results'
                if k in self.q:
                    raise Unsupported('two queues of ' + k)
                f[nm] = self.q[k] = ex.alloc(st, (jobs if k == 'jobs' else results) or SeqV(()))
            elif t.startswith(('std::mutex', 'std::condition_variable')):
                f[nm] = ex.alloc(st, Opaque(nm, 'std::mutex'))
            elif t.startswith('std::vector<std::thread'):
                f[nm] = self.pool = ex.alloc(st, SeqV([Seg(ZERO, self.Wk, lambda i: Hand(app('thread', i, sort='I'), 'thread'), None, 'workers')]))
            elif 'Parameters>' in t:
                self.oalpha, self.obeta, self.oeta = u.mat('alpha', self.K, ONE), u.mat('beta', self.K, u.size('W')), u.mat('eta', self.K, u.size('C'))
                self.model = ex.alloc(st, Struct(NS + 'parameters::SupervisedModelParameters<double>',
                                                 {'alpha': self.oalpha, 'beta': self.obeta, 'eta': self.oeta}))
                f[nm] = ex.alloc(st, Ptr(self.model))
            elif 'EStepInterface' in t:
                f[nm] = ex.alloc(st, Opaque('estep', 'EStep'))
            elif 'MStepInterface' in t:
                f[nm] = ex.alloc(st, Opaque('mstep', 'MStep'))
            elif 'EventDispatcher' in t:
                f[nm] = ex.alloc(st, Opaque('disp', 'Dispatcher'))
            elif t in ('unsigned long', 'size_t', 'int', 'unsigned int'):
                f[nm] = self.iterations = u.num(u.size('iterations', 0), 'I')
            else:
                raise Unsupported('member %s of %s' % (nm, t[:60]))
        if set(self.q) != {'jobs', 'results'}:
            raise Unsupported('job and result queues')
        self.o = ex.alloc(st, Struct(LDA, f))
        ex.volatile = {o: k for k, o in self.q.items()}
        self.guards = {}
        ex.unknown_list = lambda o: self.unknown(ex.volatile[o], 'u%d' % next(symex._oid))
        self.corpus = Opaque('corpus', 'Corpus')
        V_ = ex.virtuals

        def ev(*e):
            def h(ex, st, o, a, n):
                st.trace = st.trace + [e + (st.locks,)]
                return VOID
            return h

        def doc(ex, st, o, a, n):
            c = o.p if isinstance(o, Hand) else V('corpus')
            return Hand(app('docof', c, ex.load(st, a[0]).p, sort='I'), 'Document')
        V_[('Corpus', 'at')] = doc
        V_[('Corpus', 'size')] = lambda ex, st, o, a, n: Num(self.D, 'I')
        V_[('Corpus', 'shuffle')] = ev('shuffle')
        V_[('EStep', 'doc_e_step')] = self.infer
        V_[('EStep', 'e_step')] = ev('estep')
        V_[('MStep', 'doc_m_step')] = self.doc_m
        V_[('MStep', 'm_step')] = self.m_step

        def disp(ex, st, o, a, n):
            p = ex.load(st, a[0])
            s = st.heap[p.oid] if isinstance(p, Ptr) else None
            par = [st.heap[x] for x in s.fields.values()] if isinstance(s, Struct) else []
            st.trace = st.trace + [('dispatch', s.cls if s else '?', Ptr(self.model) in par, st.locks)]
            return VOID
        V_[('Dispatcher', 'dispatch')] = disp
        ex.direct[('Dispatcher', 'process_events')] = ev('process')
        V_[('Dispatcher', 'process_events')] = ev('process')

    def is_model(self, v):
        return isinstance(v, Ptr) and v.oid == self.model

    def infer(self, ex, st, o, a, n):
        d, m = [ex.load(st, x) for x in a]
        st.trace = st.trace + [('infer', getattr(d, 'p', None), self.is_model(m), st.locks)]
        return Hand(app('vpfor', d.p, sort='I'), 'VP')

    def doc_m(self, ex, st, o, a, n):
        d, v, m = [ex.load(st, x) for x in a]
        st.trace = st.trace + [('doc_m_step', getattr(d, 'p', None), getattr(v, 'p', None), self.is_model(m), st.locks)]
        return VOID

    def m_step(self, ex, st, o, a, n):
        st.trace = st.trace + [('m_step', self.is_model(ex.load(st, a[0])), st.locks)]
        return VOID

    # ------------------------------------------------------------ what other threads do
    def result(self, f, *ix):
        """a published result: the index of a document and what was inferred for that document"""
        i = app(f, *ix, sort='I')
        c = V('corpus')
        return Tup([Hand(app('vpfor', app('docof', c, i, sort='I'), sort='I'), 'VP',
                         {'gamma': MatVal(self.K, ONE, app('T', RI, i), ONE, 'R')}), Num(i, 'I')])

    def job(self, f, *ix):
        return Tup([Hand(app('corp', app(f, *ix, sort='I'), sort='I'), 'Corpus'), Num(app(f, *ix, sort='I'), 'I')])

    def unknown(self, k, f):
        return SeqV([Seg(ZERO, V(f + '.n'), lambda j: (self.job if k == 'jobs' else self.result)(f, j), None, k)])

    def learn_guards(self):
        """the locks under which the worker uses the queues"""
        u = self.u
        ex = u.ex
        st = u.st.clone()
        st.trace = []
        nj = V('nj')
        st.assume(ind_le(ONE - nj))
        st.heap[self.q['jobs']] = SeqV([Seg(ZERO, nj, lambda j: self.job('jb', j), None, 'jobs')])
        gl, ex.generic_loops = ex.generic_loops, True
        it0 = ex.iterations
        ex.iterations = []
        n_ob, keys = len(ex.obls), set(ex.okeys)
        outs = ex.explore(lambda s: ex.invoke(s, u.fn(WORKER), Ref(self.o), []), st)
        del ex.obls[n_ob:]
        ex.okeys = keys
        trs = [t for _, t in ex.iterations] + [s.trace for s, _, _ in outs]
        ex.generic_loops, ex.iterations = gl, it0
        for tr in trs:
            for e in tr:
                if e[0] == 'acc':
                    g = self.guards.get(e[1])
                    self.guards[e[1]] = set(e[3]) if g is None else g & set(e[3])
        return self.guards

    def interfere(self, fresh_queue):
        """fresh_queue(ex, st, label) -> SeqV: what the queue may hold when its lock is taken"""
        def acq(ex, st, m):
            for k, g in self.guards.items():
                if m not in g or set(ex.held_before) & g or m != min(set(st.locks) & g):
                    continue
                v = fresh_queue(ex, st, k)
                if v is not None:
                    st.heap[self.q[k]] = v
                st.trace = st.trace + [('enter', k, st.heap[self.q[k]])]

        def rel(ex, st, m):
            for k, g in self.guards.items():
                if m in g:
                    st.trace = st.trace + [('leave', k, st.heap[self.q[k]])]
        self.u.ex.on_acquire, self.u.ex.on_release = acq, rel


def index_of(x):
    return x.items[1].p if isinstance(x, Tup) and isinstance(x.items[1], Num) else None


def count(v, i):
    """occurrences of index i in a queue"""
    r = ZERO
    for p in v.parts:
        if isinstance(p, Seg):
            j = fresh('q')
            b = ind_eq(index_of(p.elem(j + p.lo)) - i)
            r = r + mk_sum(varname(j), p.hi - p.lo, b)
        else:
            r = r + ind_eq(index_of(p[1]) - i)
    return r


def sections(tr, k):
    """(state at entry, state at exit) of the critical sections of queue k"""
    out, cur = [], None
    for e in tr:
        if e[0] == 'enter' and e[1] == k:
            cur = e[2]
        elif e[0] == 'leave' and e[1] == k and cur is not None:
            out.append((cur, e[2]))
            cur = None
    return out


def change(tr, k, i):
    """net change of the number of entries for document i in queue k"""
    r = ZERO
    for a, b in sections(tr, k):
        pa, pb = list(a.parts), list(b.parts)
        if pa and pb and isinstance(pa[0], Seg) and isinstance(pb[0], Seg) and pa[0].name == pb[0].name:
            # the same segment without some of its ends (taking an element from an empty queue is an obligation of its own)
            f, t = (pb[0].lo - pa[0].lo).const(), (pa[0].hi - pb[0].hi).const()
            if f is not None and t is not None and f >= 0 and t >= 0:
                g = pa.pop(0)
                pb.pop(0)
                for q in [g.lo + j for j in range(int(f))] + [g.hi - 1 - j for j in range(int(t))]:
                    r = r - ind_eq(index_of(g.elem(q)) - i)
        r = r + count(SeqV(pb), i) - count(SeqV(pa), i)
    return r


def loops_of(tr):
    """(position, variable, lo, hi, cases) of the loops in a trace"""
    out = []
    for k, e in enumerate(tr):
        if e[0] == 'loop':
            out.append((k, V(e[1], 'I'), ZERO, P(e[2]), e[3]))
        elif e[0] == 'each':
            if e[2].keep is not None:
                raise Unsupported('filtered traversal')
            out.append((k, V(e[1], 'I'), e[2].lo, e[2].hi, e[3]))
    return out


def flat(tr, name):
    """does an event of this name occur anywhere?"""
    r = []
    for k, e in enumerate(tr):
        if e[0] == name:
            r.append(k)
        elif e[0] in ('loop', 'each') and any(flat(b, name) for _, b in e[3]):
            r.append(k)
    return r


# ---------------------------------------------------------------- contracts
def entered(st):
    return sum(1 for e in st.trace if e[0] == 'enter')


def worker(u):
    """an iteration of a worker, whatever the other threads did before it took a lock"""
    w = World(u)
    g = w.learn_guards()
    for k in ('jobs', 'results'):
        u.holds(u.st, 'the %s are used under a lock' % k, ONE if g.get(k) else ZERO)

    def queue(ex, st, k):
        n = entered(st)
        c = V('n%s%d' % (k, n))
        st.assume(ind_le(-c))
        return SeqV([Seg(ZERO, c, lambda j: (w.job if k == 'jobs' else w.result)('%s%d' % (k, n), j), None, k)])
    w.interfere(queue)
    u.ex.generic_loops, u.ex.iterations = True, []
    outs = u.run(u.fn(WORKER), Ref(w.o), [])
    if not u.ex.iterations:
        raise Unsupported('no iteration of the worker')
    i = fresh('i')
    for st, tr in u.ex.iterations:
        inf = [e for e in tr if e[0] == 'infer']
        new = [p[1] for a, b in sections(tr, 'results') for p in b.parts if not isinstance(p, Seg)]
        u.holds(st, 'one inference per job', ONE if len(inf) == 1 else ZERO)
        u.holds(st, 'one result per job', ONE if len(new) == 1 else ZERO)
        if len(inf) != 1 or len(new) != 1:
            continue
        ix = index_of(new[0])
        doc = app('docof', app('corp', ix, sort='I'), ix, sort='I')
        u.eq(st, 'the inferred document is the one of the job', inf[0][1], doc)
        u.holds(st, 'inference uses the current model', ONE if inf[0][2] else ZERO)
        u.holds(st, 'no lock is held during inference', ONE if not inf[0][3] else ZERO)
        vp = new[0].items[0]
        u.holds(st, 'the result is the inferred one', ind_eq(vp.p - app('vpfor', doc, sort='I')) if isinstance(vp, Hand) and vp.cls == 'VP' else ZERO)
        u.eq(st, 'exactly this job leaves the queue', change(tr, 'jobs', i), -ind_eq(ix - i))
        u.eq(st, 'exactly this result is published', change(tr, 'results', i), ind_eq(ix - i))
        u.holds(st, 'no lock is kept', ONE if not st.locks else ZERO)
    for st, k, _ in outs:
        tr = st.trace
        last = [e[2] for e in tr if e[0] == 'enter' and e[1] == 'jobs']
        if not last:
            u.holds(st, 'a worker ends only when no job is left', ZERO)
            continue
        u.holds(st, 'a worker ends only when no job is left', ind_le(last[-1].length()))
        u.holds(st, 'an ending worker takes no job along', ONE if not flat(tr, 'infer') else ZERO)
        for q in ('jobs', 'results'):
            u.eq(st, 'an ending worker leaves the %s alone' % q, change(tr, q, i), ZERO)
        u.holds(st, 'no lock is kept at the end', ONE if not st.locks else ZERO)


def coordinator(u):
    """the world of the coordinating thread: workers run from their creation on"""
    w = World(u)
    w.learn_guards()

    def queue(ex, st, k):
        if k != 'results' or not started(st):
            return None
        n = entered(st)
        c = V('nres%d' % n)
        st.assume(ind_le(-c))
        it = ex.loop_stack[-1] if ex.loop_stack else ZERO
        # published indices are those of queued jobs
        for j in (ZERO, c - 1):
            x = app('ix%d' % n, it, j, sort='I')
            st.assume(ind_le(-x))
            st.assume(ind_le(x - w.D + 1))
        return SeqV([Seg(ZERO, c, lambda j: w.result('ix%d' % n, it, j), None, k)])

    def started(st):
        return bool(flat(st.trace, 'start'))
    w.interfere(queue)

    def run_worker(ex, st, c, o, a, n):
        st.trace = st.trace + [('worker', o.oid if isinstance(o, (Ref, Ptr)) else None, st.heap[w.q['jobs']], st.heap[w.q['results']])]
        return VOID
    u.ex.contracts[WORKER] = run_worker
    return w


def pool(u, w, st, tr):
    """one worker per slot, started when every document is queued exactly once; returns (start, join) positions"""
    i = fresh('i')
    pos = {}
    for what in ('start', 'join'):
        ps = flat(tr, what)
        lps = [l for l in loops_of(tr) if l[0] in ps]
        if len(ps) != 1 or len(lps) != 1:
            u.holds(st, 'every worker is handled once (%s)' % what, ZERO)
            return None
        k, v, lo, hi, cases = lps[0]
        pos[what] = k
        u.eq(st, 'every worker (%s)' % what, hi - lo, w.Wk)
        for c, b in cases:
            s = u.idx(st, v, hi)
            s.assume(ind_le(lo - v))
            s.assume(c)
            es = [e for e in b if e[0] == what]
            if len(es) != 1:
                u.holds(s, 'every worker is handled once (%s)' % what, ZERO)
                return None
            e = es[0]
            u.eq(s, 'each worker in its own slot (%s)' % what, e[-1] if what == 'start' else e[2], app('thread', v - lo, sort='I'))
            if what == 'join':
                u.holds(s, 'no lock is held while joining', ONE if not e[1] else ZERO)
                continue
            wk = [x for x in e[1] if x[0] == 'worker']
            if len(wk) != 1 or len(e[1]) != 1:
                u.holds(s, 'the thread runs one worker', ZERO)
                return None
            u.holds(s, 'the worker belongs to this trainer', ONE if wk[0][1] == w.o else ZERO)
            jobs, res = wk[0][2], wk[0][3]
            s2 = u.idx(s, i, w.D)
            u.eq(s2, 'document i is queued exactly once', count(jobs, i), ONE)
            u.eq(s, 'nothing else is queued', jobs.length(), w.D)
            for p in jobs.parts:
                x = p.elem(p.lo) if isinstance(p, Seg) else p[1]
                u.holds(s, 'the jobs belong to this corpus', ONE if x.items[0] == w.corpus else ZERO)
            u.eq(s, 'no result is pending', res.length(), ZERO)
    u.holds(st, 'workers are joined after they were started', ONE if pos['start'] < pos['join'] else ZERO)
    return pos


def extraction(u, w, st, tr, pos, use):
    """after the start exactly one result per document is taken; use(state, events, index) checks what becomes of it"""
    ps = [k for k in flat(tr, 'enter') if k > pos['start']]
    ls = [l for l in loops_of(tr) if l[0] in ps]
    early = [k for k in flat(tr, 'enter') if k < pos['start']]
    if len(ps) != 1 or len(ls) != 1:
        u.holds(st, 'exactly one result per document is taken', ZERO)
        return None
    k, v, lo, hi, cases = ls[0]
    u.eq(st, 'exactly one result per document is taken', hi - lo, w.D)
    i = fresh('i')
    names = set()
    for c, b in cases:
        s = u.idx(st, v, hi)
        s.assume(ind_le(lo - v))
        s.assume(c)
        for h in ns(b):
            s.assume(h)
        ix = popped(sections(b, 'results'))
        if ix is None:
            u.holds(s, 'exactly one result is taken', ZERO)
            continue
        u.eq(s, 'exactly one result is taken', change(b, 'results', i), -ind_eq(ix - i))
        a = as_atom(ix)
        if a is not None and a.kind == 'a':
            names.add(a.data[0])
        use(s, b, ix)
    # the queue itself is used under its lock only
    for e in tr[pos['start'] + 1:]:
        for x in ([e] if e[0] == 'acc' else [y for _, bb in e[3] for y in bb if y[0] == 'acc'] if e[0] in ('loop', 'each') else []):
            u.holds(st, 'the %s are used under their lock while workers run' % x[1], ONE if set(x[3]) & w.guards.get(x[1], set()) or k_after(tr, e, pos) else ZERO)
    return k, names


def k_after(tr, e, pos):
    return tr.index(e) > pos['join']


def ns(b):
    """the queue was found non-empty in the section that removed something"""
    return []


def popped(secs):
    r = None
    for a, b in secs:
        if a is b or not a.parts:
            continue
        p = a.parts[0]
        q = b.parts[0] if b.parts else None
        if isinstance(p, Seg) and isinstance(q, Seg) and q.lo == p.lo + 1 and q.hi == p.hi:
            x = index_of(p.elem(p.lo))
        elif isinstance(p, Seg) and isinstance(q, Seg) and q.lo == p.lo and q.hi == p.hi - 1:
            x = index_of(p.elem(p.hi - 1))
        elif isinstance(p, Seg) and isinstance(q, Seg) and q.lo == p.lo and q.hi == p.hi and len(b.parts) == 1:
            continue
        else:
            return None
        if r is not None:
            return None
        r = x
    return r


def forwards_events(u, st, tr, k):
    """the events of the workers are processed after the last result was taken"""
    e = tr[k]
    ok = bool(flat(tr[k + 1:], 'process'))
    if not ok:
        ok = True
        for c, b in e[3]:
            pr = [j for j, x in enumerate(b) if x[0] == 'process']
            lv = [j for j, x in enumerate(b) if x[0] == 'leave']
            ok = ok and bool(pr) and bool(lv) and pr[-1] > lv[-1]
    u.holds(st, 'the events of the workers are processed on this thread', ONE if ok else ZERO)


def epoch(u):
    w = coordinator(u)
    f = u.fn(LDA + '::partial_fit', nparams=1)
    for st, k, _ in u.run(f, Ref(w.o), [w.corpus]):
        tr = st.trace
        sh = flat(tr, 'shuffle')
        used = flat(tr, 'acc') + flat(tr, 'start')
        u.holds(st, 'the corpus is shuffled once, before its documents are queued', ONE if len(sh) == 1 and tr[sh[0]][0] == 'shuffle' and all(x > sh[0] for x in used) else ZERO)
        pos = pool(u, w, st, tr)
        if pos is None:
            continue

        def use(s, b, ix):
            ms = [e for e in b if e[0] == 'doc_m_step']
            if len(ms) != 1:
                u.holds(s, 'every result reaches the maximisation once', ZERO)
                return
            d = app('docof', V('corpus'), ix, sort='I')
            u.eq(s, 'the document is the one of the result', ms[0][1], d)
            u.eq(s, 'the result is handed on', ms[0][2], app('vpfor', d, sort='I'))
            u.holds(s, 'together with the model', ONE if ms[0][3] else ZERO)
            u.holds(s, 'no lock is held meanwhile', ONE if not ms[0][4] else ZERO)
        r = extraction(u, w, st, tr, pos, use)
        if r is None:
            continue
        forwards_events(u, st, tr, r[0])
        order = [(e[0], j) for j, e in enumerate(tr) if e[0] in ('estep', 'm_step', 'dispatch')]
        u.holds(st, 'inference is finished, then the model is updated, then the epoch is announced, each once',
                ONE if [x[0] for x in order] == ['estep', 'm_step', 'dispatch'] and not any(
                    flat(b, x) for e in tr if e[0] in ('loop', 'each') for _, b in e[3] for x in ('estep', 'm_step', 'dispatch')) else ZERO)
        u.holds(st, 'this happens when all results were used and all workers have ended', ONE if order and order[0][1] > max(pos['join'], r[0]) else ZERO)
        for e in tr:
            if e[0] == 'm_step':
                u.holds(st, 'the current model is updated', ONE if e[1] else ZERO)
            if e[0] == 'dispatch':
                u.holds(st, 'an epoch event is dispatched', ONE if 'EpochProgressEvent' in e[1] else ZERO)
                u.holds(st, 'it carries the model', ONE if e[2] else ZERO)
            if e[0] in ('estep', 'm_step', 'dispatch'):
                u.holds(st, 'no lock is held meanwhile', ONE if not e[-1] else ZERO)
        u.holds(st, 'every result reaches the maximisation exactly once', ONE if flat(tr, 'doc_m_step') == [r[0]] else ZERO)
        u.holds(st, 'no lock is kept', ONE if not st.locks else ZERO)


def corpora(u, w):
    def mk(ex, st, c, o, a, n):
        st.trace = st.trace + [('corpus', tuple(x.oid for x in a))]
        return w.corpus
    u.ex.contracts[LDA + '::get_corpus'] = mk


def transform(u):
    w = coordinator(u)
    corpora(u, w)
    X = u.mat('X', V('W'), w.D, 'I')
    ms = (w.oalpha, w.obeta, w.oeta, X)
    for st, k, v in u.run(u.fn(LDA + '::transform'), Ref(w.o), [Ref(X)]):
        tr = st.trace
        u.holds(st, 'the documents given are transformed', ONE if [e[1] for e in tr if e[0] == 'corpus'] == [(X,)] else ZERO)
        pos = pool(u, w, st, tr)
        if pos is None:
            continue
        r = extraction(u, w, st, tr, pos, lambda s, b, ix: None)
        if r is None:
            continue
        forwards_events(u, st, tr, r[0])
        u.eq(st, 'one row per topic', v.rows, w.K)
        u.eq(st, 'one column per document', v.cols, w.D)
        rr, c, j = fresh('r'), fresh('c'), fresh('j')
        s = u.idx(st, rr, w.K, c, w.D)
        for f in r[1]:
            # every document is taken exactly once (conservation of jobs, shown for the worker and the extraction)
            s.assume(ONE - ind_forall(varname(j), w.D, ONE - ind_eq(c - app(f, j, ZERO, sort='I'))))
        p, d = v.at(rr, c)
        u.eq(s, 'column i holds the topic weights of document i', p, app('T', rr, c))
        u.holds(s, 'column i is assigned', d)
        for o in ms:
            u.same(st, 'model and documents', o)
        u.holds(st, 'nothing else is done to the model', ONE if not any(flat(tr, x) for x in ('doc_m_step', 'm_step', 'estep', 'dispatch', 'shuffle')) else ZERO)
        u.holds(st, 'no lock is kept', ONE if not st.locks else ZERO)


def mk_fit(supervised):
    def unit(u):
        w = World(u)
        corpora(u, w)

        def one(ex, st, c, o, a, n):
            x = ex.load(st, a[0])
            st.trace = st.trace + [('epoch', isinstance(x, Opaque) and x == w.corpus)]
            return VOID
        X, y = u.mat('X', V('W'), w.D, 'I'), u.mat('y', w.D, ONE, 'I')
        args = [Ref(X), Ref(y)] if supervised else [Ref(X)]
        u.ex.contracts[LDA + '::partial_fit'] = lambda ex, st, c, o, a, n: one(ex, st, c, o, a, n) if len(a) == 1 else NotImplemented
        for st, k, _ in u.run(u.fn(LDA + '::fit', nparams=len(args)), Ref(w.o), args):
            u.holds(st, 'one corpus of the given data', ONE if [e[1] for e in st.trace if e[0] == 'corpus'] == [tuple(a.oid for a in args)] else ZERO)
            total = epochs(u, st)
            u.eq(st, 'exactly the configured number of epochs', total, V('iterations'))
        if supervised:
            fs = u.fn(LDA + '::partial_fit', nparams=2)
            for st, k, _ in u.run(fs, Ref(w.o), args):
                u.holds(st, 'one epoch over a corpus of the given data', ONE if [e[1] for e in st.trace if e[0] in ('corpus', 'epoch')] == [(X, y), True] else ZERO)
    return unit


def epochs(u, st):
    tot = ZERO
    for e in st.trace:
        if e[0] == 'epoch':
            u.holds(st, 'every epoch uses the corpus', ONE if e[1] else ZERO)
            tot = tot + 1
    for k, v, lo, hi, cases in loops_of(st.trace):
        for c, b in cases:
            s = u.idx(st, v, hi)
            s.assume(c)
            es = [e for e in b if e[0] == 'epoch']
            u.holds(s, 'every epoch uses the corpus, once per iteration', ONE if len(es) == 1 and es[0][1] else ZERO)
        tot = tot + hi - lo
    return tot
