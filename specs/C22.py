"""C22: event delivery."""
from checklib import *
from std_conc import *
import eventsconf

NE = 'ldaplusplus::events::'
LI, EV = NE + 'EventListenerInterface', NE + 'Event'


def lst(name, cls, n):
    return SeqV([Seg(ZERO, n, lambda i: Hand(app(name, i, sort='I'), cls), None, name)])


class World:
    """a dispatcher with arbitrary registered listeners, pending removals and pending events"""
    def __init__(self, u, cls, havoc=True):
        ex, st = u.ex, u.st
        self.u, self.cls = u, cls
        self.n, self.m = u.size('n', 0), u.size('m', 0)
        f, self.lists = {}, {}
        for nm, t, _ in ex.class_fields(cls):
            if t.startswith(('std::list<', 'std::deque<', 'std::__cxx11::list<')):
                k = 'listeners' if 'EventListenerInterface' in t else 'events'
                v = lst('L', LI, self.n) if k == 'listeners' else lst('E', EV, self.m)
            elif t.startswith(('std::unordered_set<', 'std::set<')):
                k, v = 'removed', SetV(member('D'))
            elif t.startswith(('std::mutex', 'std::recursive_mutex')):
                f[nm] = ex.alloc(st, Opaque(nm, 'std::mutex'))
                continue
            elif t.startswith('std::thread::id'):
                f[nm] = ex.alloc(st, Hand(V('owner'), 'thread-id'))
                continue
            else:
                raise Unsupported('member %s of %s' % (nm, t[:60]))
            if k in self.lists:
                raise Unsupported('two lists of ' + k)
            f[nm] = self.lists[k] = ex.alloc(st, v)
        self.o = ex.alloc(st, Struct(cls, f))
        self.kind = {o: k for k, o in self.lists.items()}
        ex.volatile = dict((o, k) for k, o in self.lists.items())
        # what other threads append between two critical sections, in order
        self.added = {k: [] for k in self.lists}
        ex.unknown_list = lambda o: self.unknown(o)
        ex.virtuals[(LI, 'on_event')] = self.on_event
        self.havoc = havoc
        self.guards = {}

    def unknown(self, o):
        k = self.kind[o]
        i = next(symex._oid)
        if k == 'removed':
            return SetV(member('D%d' % i))
        return SeqV(lst('%s%d' % (k, i), LI if k == 'listeners' else EV, V('%s%d.n' % (k, i))).parts)

    def on_event(self, ex, st, v, args, n):
        st.trace = st.trace + [('deliver', v.p, args[0].p, st.locks)]
        if self.havoc:
            for o in self.lists.values():
                st.heap[o] = self.unknown(o)
        return VOID

    def concurrent(self):
        """other threads may add, remove and dispatch whenever the list concerned is not locked"""
        u = self.u
        for k, fn, arg in (('listeners', 'add_listener', LI), ('removed', 'remove_listener', LI), ('events', 'dispatch', EV)):
            if k not in self.lists:
                raise Unsupported('no list of ' + k)
            f = member_fn(u, self.cls, fn)
            st = u.st.clone()
            st.trace = []
            g = None
            for s, kind, _ in u.ex.explore(lambda s_: u.ex.invoke(s_, f, Ref(self.o), [Hand(V('x'), arg)]), st):
                for e in s.trace:
                    if e[0] == 'acc' and e[1] == k:
                        g = set(e[3]) if g is None else g & set(e[3])
            self.guards[k] = g or set()

        def on_acquire(ex, st, m):
            for k, g in self.guards.items():
                if m not in g or set(ex.held_before) & g or m != min(set(st.locks) & g):
                    continue
                if ('first', k) not in st.trace:
                    # what happened before the first critical section is part of the arbitrary initial state
                    st.trace = st.trace + [('first', k)]
                    continue
                o = self.lists[k]
                i = next(symex._oid)
                if k == 'removed':
                    x = member('D%d' % i)
                    st.heap[o] = SetV(x + (ONE - x) * st.heap[o].p)
                    st.trace = st.trace + [('env', k, x)]
                else:
                    c = V('%s%d.n' % (k, i))
                    st.assume(ind_le(-c))
                    g2 = lst('%s%d' % (k, i), LI if k == 'listeners' else EV, c).parts[0]
                    st.heap[o] = SeqV(st.heap[o].parts + (g2,))
                    st.trace = st.trace + [('env', k, g2)]
        self.u.ex.on_acquire = on_acquire

    def lists_of(self, st, k):
        return st.heap[self.lists[k]]


def member(name):
    return ONE - ind_le(-app(name, V('xi_'), sort='I'))


def member_fn(u, cls, name, nparams=1):
    for c in [cls] + u.ex.bases(cls):
        fs = [f for f in u.prog.by_name.get(c + '::' + name, []) if len(f['params']) == nparams and not f.get('ta')]
        if fs and c != NE + 'EventDispatcherInterface':
            return fs[0]
    raise Unsupported('no method ' + name)


def deliveries(tr):
    """delivery structure of a trace: single deliveries and loops of deliveries"""
    r = []
    for e in tr:
        if e[0] == 'deliver':
            r.append(e)
        elif e[0] in ('each', 'loop'):
            bs = [(c, deliveries(x)) for c, x in e[3]]
            if any(b for _, b in bs):
                r.append((e[0], e[1], e[2], bs))
    return r


def segs(v):
    for p in v.parts:
        if not isinstance(p, Seg):
            raise Unsupported('list with single elements')
    return v.parts


def expect_each(u, st, what, evs, parts, inner):
    """evs is exactly: for every element of the segments parts, in order, inner"""
    parts = [p for p in parts if not (isinstance(p, Seg) and st.ctx().entails(ind_le(p.hi - p.lo)))]
    if len(evs) != len(parts):
        u.holds(st, what + ': every element, each once', ZERO)
        return
    for e, p in zip(evs, parts):
        if not isinstance(p, Seg):
            inner(st, [e], p[1])
            continue
        if e[0] != 'each':
            u.holds(st, what + ': every element, each once', ZERO)
            continue
        g, i = e[2], V(e[1], 'I') if not isinstance(e[1], Poly) else e[1]
        u.holds(st, what + ': the registered ones, in order', ONE if g.name == p.name else ZERO)
        u.eq(st, what + ': from the first', g.lo, p.lo)
        u.eq(st, what + ': to the last', g.hi, p.hi)
        s = st.clone()
        s.assume(ind_le(g.lo - i))
        s.assume(ind_le(i - g.hi + 1))
        kg, kp = [ONE if x.keep is None else x.keep(i) for x in (g, p)]
        u.eq(s, what + ': those not removed', kg, kp)
        s.assume(kp)
        tot = ZERO
        for c, b in e[3]:
            tot = tot + c
            s2 = s.clone()
            s2.assume(c)
            inner(s2, b, p.elem(i))
        u.holds(s, what + ': in every case', tot)


def one_delivery(u, what, ev):
    def f(s, evs, x):
        if len(evs) != 1 or evs[0][0] != 'deliver':
            u.holds(s, what + ': exactly one notification', ZERO)
            return
        u.eq(s, what + ': the listener', evs[0][1], x.p)
        u.eq(s, what + ': the event', evs[0][2], ev.p)
        u.holds(s, what + ': no lock is held', ONE if not evs[0][3] else ZERO)
    return f


def same_parts(u, st, what, got, want):
    got, want = [[p for p in x if not (isinstance(p, Seg) and st.ctx().entails(ind_le(p.length())))] for x in (got, want)]
    if len(got) != len(want):
        u.holds(st, what, ZERO)
        return
    for a, b in zip(got, want):
        if isinstance(a, Seg) != isinstance(b, Seg):
            u.holds(st, what, ZERO)
        elif isinstance(a, Seg):
            u.holds(st, what + ': same elements', ONE if a.name == b.name else ZERO)
            u.eq(st, what + ': first', a.lo, b.lo)
            u.eq(st, what + ': last', a.hi, b.hi)
            i = fresh('q')
            s = u.idx(st, i, b.hi)
            s.assume(ind_le(b.lo - i))
            ka, kb = [ONE if x.keep is None else x.keep(i) for x in (a, b)]
            u.eq(s, what + ': kept', ka, kb)
        else:
            u.eq(st, what + ': element', a[1].p, b[1].p)


def add(cls):
    def unit(u):
        w = World(u, NE + cls)
        x = Hand(V('x'), LI)
        l0 = {k: u.st.heap[o] for k, o in w.lists.items()}
        was = lambda y: ONE - l0['removed'].has(y) if 'removed' in l0 else ONE
        for st, k, _ in u.run(member_fn(u, w.cls, 'add_listener'), Ref(w.o), [x]):
            now = lambda y: ONE - w.lists_of(st, 'removed').has(y) if 'removed' in l0 else ONE
            ps = w.lists_of(st, 'listeners').parts
            q, y = fresh('q'), fresh('y')
            last = isinstance(ps[-1], tuple) if ps else False
            u.holds(st, 'the listener is registered behind the others', ind_eq(ps[-1][1].p - x.p) * now(x.p) if last else ZERO)
            kept = ZERO
            for p in ps[:-1]:
                u.holds(st, 'the others are those registered before', ONE if isinstance(p, Seg) and p.name.split("'")[0] == 'L' else ZERO)
                kept = kept + ind_le(p.lo - q) * ind_le(q - p.hi + 1) * (ONE if p.keep is None else p.keep(q))
            for a, b in zip(ps[:-1], ps[1:-1]):
                u.holds(st, 'in the same order', ind_le(a.hi - b.lo))
            s = u.idx(st, q, w.n)
            e = app('L', q, sort='I')
            # the listener is not registered yet (or its removal is pending): double registration is left open
            s.assume(ONE - ind_eq(e - x.p) * was(e))
            u.eq(s, 'every other listener stays as it was', kept * now(e), was(e))
            if 'removed' in l0:
                s = st.clone()
                s.assume(ONE - ind_eq(y - x.p))
                u.eq(s, 'pending removals of others stay pending', now(y), was(y))
            if 'events' in w.lists:
                u.holds(st, 'pending events are left alone', ONE if w.lists_of(st, 'events') is l0['events'] else ZERO)
            u.holds(st, 'nobody is notified', ONE if not deliveries(st.trace) else ZERO)
    return unit


def remove_plain(u):
    w = World(u, NE + 'EventDispatcher')
    l = V('x')
    at = lambda i: app('L', i, sort='I')
    for st, k, _ in u.run(member_fn(u, w.cls, 'remove_listener'), Ref(w.o), [Hand(l, LI)]):
        ps = segs(w.lists_of(st, 'listeners'))
        q = fresh('q')
        s = u.idx(st, q, w.n)
        kept = ZERO
        for p in ps:
            u.holds(st, 'only registered listeners remain', ONE if p.name.split("'")[0] == 'L' else ZERO)
            kept = kept + ind_le(p.lo - q) * ind_le(q - p.hi + 1) * (ONE if p.keep is None else p.keep(q))
            for b in (p.lo, p.hi):
                # no listener is registered twice
                e = ind_eq(at(q) - at(b))
                s.assume(ONE - e + e * ind_eq(q - b))
        for a, b in zip(ps, ps[1:]):
            u.holds(st, 'in the same order', ind_le(a.hi - b.lo))
        s1 = s.clone()
        s1.assume(ONE - ind_eq(at(q) - l))
        u.eq(s1, 'every other listener stays registered', kept, ONE)
        s2 = s.clone()
        s2.assume(ind_eq(at(q) - l))
        u.eq(s2, 'the listener is no longer registered', kept, ZERO)
        u.holds(st, 'nobody is notified', ONE if not deliveries(st.trace) else ZERO)


def dispatch_plain(u):
    w = World(u, NE + 'EventDispatcher')
    ev = Hand(V('e'), EV)
    l0 = u.st.heap[w.lists['listeners']]
    for st, k, _ in u.run(member_fn(u, w.cls, 'dispatch'), Ref(w.o), [ev]):
        expect_each(u, st, 'delivery', deliveries(st.trace), l0.parts, one_delivery(u, 'delivery', ev))


def remove_safe(u):
    w = World(u, NE + 'ThreadSafeEventDispatcher')
    l = Hand(V('x'), LI)
    l0 = {k: u.st.heap[o] for k, o in w.lists.items()}
    for st, k, _ in u.run(member_fn(u, w.cls, 'remove_listener'), Ref(w.o), [l]):
        y = fresh('y')
        e = ind_eq(y - l.p)
        u.eq(st, 'the removal is pending, besides the earlier ones', w.lists_of(st, 'removed').has(y), e + (ONE - e) * l0['removed'].has(y))
        for q in ('events', 'listeners'):
            u.holds(st, '%s are left alone' % q, ONE if w.lists_of(st, q) is l0[q] else ZERO)
        u.holds(st, 'nobody is notified', ONE if not deliveries(st.trace) else ZERO)


def dispatch_safe(u):
    w = World(u, NE + 'ThreadSafeEventDispatcher')
    ev = Hand(V('e'), EV)
    l0 = {k: u.st.heap[o] for k, o in w.lists.items()}
    for st, k, _ in u.run(member_fn(u, w.cls, 'dispatch'), Ref(w.o), [ev]):
        same_parts(u, st, 'the event is pending behind the others', w.lists_of(st, 'events').parts, l0['events'].parts + (('x', ev),))
        for q in ('removed', 'listeners'):
            u.holds(st, '%s are left alone' % q, ONE if w.lists_of(st, q) is l0[q] else ZERO)
        u.holds(st, 'nobody is notified', ONE if not deliveries(st.trace) else ZERO)


def mk_process(havoc):
    def unit(u):
        w = World(u, NE + 'ThreadSafeEventDispatcher', havoc)
        w.concurrent()
        l0 = {k: u.st.heap[o] for k, o in w.lists.items()}
        for st, k, _ in u.run(member_fn(u, w.cls, 'process_events', 0), Ref(w.o), []):
            env = {k: [e[2] for e in st.trace if e[0] == 'env' and e[1] == k] for k in w.lists}
            evs = deliveries(st.trace)
            dl = [e[2] for e in evs if e[0] == 'each']
            for g in dl:
                u.holds(st, 'events are delivered whole', ONE if g.keep is None else ZERO)
            allev = list(l0['events'].parts) + env['events']
            nd = len(dl)
            # listeners: the registered ones without those removed, then those added meanwhile
            i = fresh('q')
            tot = member('D')
            for x in env['removed']:
                tot = x + (ONE - x) * tot

            def check_listeners(st, what, parts, prefix):
                want = [l0['listeners'].parts[0]] + env['listeners']
                if not parts or (len(parts) != len(want) and not prefix) or len(parts) > len(want):
                    u.holds(st, what, ZERO)
                    return
                for a, b in zip(parts, want):
                    u.holds(st, what + ': the registered ones in order', ONE if isinstance(a, Seg) and a.name == b.name else ZERO)
                    u.eq(st, what + ': first', a.lo, b.lo)
                    u.eq(st, what + ': last', a.hi, b.hi)
                    s = u.idx(st, i, b.hi)
                    ka = ONE if a.keep is None else a.keep(i)
                    has = lambda p: subst(p, {'xi_': b.elem(i).p})
                    if b.name == 'L':
                        s1 = s.clone()
                        s1.assume(has(member('D')))
                        u.eq(s1, what + ': none whose removal was requested before', ka, ZERO)
                    s2 = s.clone()
                    s2.assume(ONE - has(tot))
                    u.eq(s2, what + ': all whose removal was not requested', ka, ONE)
            if not havoc:
                check_listeners(st, 'registered afterwards', list(w.lists_of(st, 'listeners').parts), False)
                rest = w.lists_of(st, 'events').parts
                same_parts(u, st, 'every event is delivered now or stays pending', dl + list(rest), allev)
                y = fresh('y')
                rem = w.lists_of(st, 'removed').has(y)
                s = st.clone()
                new = ZERO
                for x in env['removed']:
                    new = x + (ONE - x) * new
                s.assume(ONE - subst(new, {'xi_': y}))
                u.eq(s, 'no removal stays pending', rem, ZERO)
            if nd < 1:
                u.holds(st, 'the pending events are delivered', ind_le(w.m))
                continue
            same_parts(u, st, 'events delivered in order', dl, allev[:nd])
            for e in evs:
                if e[0] != 'each':
                    u.holds(st, 'the pending events are delivered', ZERO)
                    continue
                j = V(e[1], 'I')
                s = st.clone()
                s.assume(ind_le(e[2].lo - j))
                s.assume(ind_le(j - e[2].hi + 1))
                total = ZERO
                for c, b in e[3]:
                    total = total + c
                    s2 = s.clone()
                    s2.assume(c)
                    gs = [x[2] if x[0] == 'each' else None for x in b]
                    if None in gs:
                        u.holds(s2, 'every listener is notified', ZERO)
                        continue
                    check_listeners(s2, 'notified', gs, True)
                    for x in b:
                        ii = V(x[1], 'I')
                        s3 = s2.clone()
                        s3.assume(ind_le(x[2].lo - ii))
                        s3.assume(ind_le(ii - x[2].hi + 1))
                        if x[2].keep is not None:
                            s3.assume(x[2].keep(ii))
                        t3 = ZERO
                        for c3, b3 in x[3]:
                            t3 = t3 + c3
                            s4 = s3.clone()
                            s4.assume(c3)
                            one_delivery(u, 'notification', e[2].elem(j))(s4, b3, x[2].elem(ii))
                        u.holds(s3, 'every listener is notified, whatever the event', t3)
                # with no listeners left there is nothing to deliver
                u.holds(s, 'every event is delivered', total)
    return unit


def same_thread(u):
    w = World(u, NE + 'SameThreadEventDispatcher')
    ev = Hand(V('e'), EV)
    base = NE + 'ThreadSafeEventDispatcher::'

    def process(ex, st, c, o, a, n):
        st.trace = st.trace + [('process', w.lists_of(st, 'events'), st.locks)]
        return VOID
    u.ex.contracts[base + 'process_events'] = process
    l0 = {k: u.st.heap[o] for k, o in w.lists.items()}
    own = ind_eq(V('this-thread') - V('owner'))
    for st, k, _ in u.run(member_fn(u, w.cls, 'dispatch'), Ref(w.o), [ev]):
        ps = [e for e in st.trace if e[0] == 'process']
        same_parts(u, st, 'the event is pending behind the others', (ps[0][1] if ps else w.lists_of(st, 'events')).parts, l0['events'].parts + (('x', ev),))
        u.eq(st, 'events are processed at once exactly on the owning thread', P(len(ps)), own)
        u.holds(st, 'no lock is held when events are processed', ONE if not any(e[2] for e in ps) else ZERO)
        u.holds(st, 'nobody else is notified', ONE if not deliveries(st.trace) else ZERO)


def same_thread_owner(u):
    """the owning thread is the constructing one"""
    cls = NE + 'SameThreadEventDispatcher'
    fs = [f for f in u.prog.funcs.values() if f.get('ctor') and f.get('cls') == cls and not f['params']]
    if not fs:
        raise Unsupported('constructor')
    w = World(u, cls)
    for st, k, _ in u.run(fs[0], Ref(w.o), []):
        ids = [st.heap[o] for nm, o in st.heap[w.o].fields.items() if isinstance(st.heap[o], Hand) and st.heap[o].cls == 'thread-id']
        if len(ids) != 1:
            raise Unsupported('owner')
        u.eq(st, 'the owner is the constructing thread', ids[0].p, V('this-thread'))


UNITS = [('EventDispatcher::add_listener', add('EventDispatcher')), ('EventDispatcher::remove_listener', remove_plain),
         ('EventDispatcher::dispatch', dispatch_plain), ('ThreadSafeEventDispatcher::add_listener', add('ThreadSafeEventDispatcher')),
         ('ThreadSafeEventDispatcher::remove_listener', remove_safe), ('ThreadSafeEventDispatcher::dispatch', dispatch_safe),
         ('ThreadSafeEventDispatcher::process_events', mk_process(False)),
         ('ThreadSafeEventDispatcher::process_events (listeners that use the dispatcher)', mk_process(True)),
         ('SameThreadEventDispatcher::dispatch', same_thread), ('SameThreadEventDispatcher: owner', same_thread_owner)]
CHECK = Check('C22', ['src/ldaplusplus/events/Events.cpp'], UNITS, eventsconf.events)
