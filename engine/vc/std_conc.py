"""Models of tuples, linked lists as symbolic sequences, sets, locks, condition variables and threads.

Lists: a list is a sequence of parts; a part is a single element or a segment, the elements elem(i) with keep(i), lo <= i < hi.
Traversal rule: a loop over a segment is verified for one arbitrary element, with everything before it already processed.
Shared state: ex.volatile maps the object id of a list to its label; every access is recorded with the locks held, and
ex.on_acquire is told of every acquisition (so that a unit can model what other threads may have done)."""
import re
from terms import *
from prove import *
from symex import *
import symex
import std_models as sm


class Tup:
    __slots__ = ('items', 'tie')

    def __init__(self, items, tie=False):
        self.items, self.tie = list(items), tie

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Hand(Opaque):
    """an object known by a symbolic identity"""
    __slots__ = ('p',)

    def __init__(self, p, cls, info=None):
        Opaque.__init__(self, 'hand:' + P(p).key, cls, info)
        self.p = P(p)


class Seg:
    __slots__ = ('lo', 'hi', 'elem', 'keep', 'name')

    def __init__(self, lo, hi, elem, keep=None, name=''):
        self.lo, self.hi, self.elem, self.keep, self.name = P(lo), P(hi), elem, keep, name

    def length(self):
        if self.keep is None:
            return self.hi - self.lo
        i = fresh('q')
        return mk_sum(varname(i), self.hi - self.lo, subst(self.keep(i), {varname(i): i + self.lo}))

    def sub(self, lo, hi):
        return Seg(lo, hi, self.elem, self.keep, self.name)

    def __repr__(self):
        return 'Seg(%s[%s..%s)%s)' % (self.name, self.lo.key, self.hi.key, '' if self.keep is None else ' filtered')


class SeqV:
    """list value; parts are Seg or ('x', value)"""
    __slots__ = ('parts',)

    def __init__(self, parts=()):
        self.parts = tuple(parts)

    def length(self):
        r = ZERO
        for p in self.parts:
            r = r + (p.length() if isinstance(p, Seg) else ONE)
        return r

    def __eq__(self, o):
        return isinstance(o, SeqV) and len(o.parts) == len(self.parts) and all(
            a is b or (isinstance(a, tuple) and isinstance(b, tuple) and a[1] == b[1]) for a, b in zip(self.parts, o.parts))

    def __hash__(self):
        return hash(len(self.parts))

    def __repr__(self):
        return 'SeqV%r' % (self.parts,)


class SetV:
    """set of hands: membership polynomial over xi_"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = P(p)

    def has(self, x):
        return subst(self.p, {'xi_': P(x)})


class It:
    __slots__ = ('oid', 'k', 'back')

    def __init__(self, oid, k, back=0):
        self.oid, self.k, self.back = oid, k, back

    def __eq__(self, o):
        return isinstance(o, It) and (self.oid, self.k, self.back) == (o.oid, o.k, o.back)

    def __hash__(self):
        return hash((self.oid, self.k))

    def __repr__(self):
        return 'It(%s,%s)' % (self.oid, self.k)


class SetIt:
    __slots__ = ('found',)

    def __init__(self, found):
        self.found = found


class Traverse(Exception):
    def __init__(self, oid, k):
        self.oid, self.k = oid, k


# ---------------------------------------------------------------- tuples
def h_make_tuple(ex, st, callee, obj, argn, n):
    return Tup([ex.convert(st, ex.eval(st, a), strip_type(a['t'])) for a in argn])


def h_tie(ex, st, callee, obj, argn, n):
    return Tup([ex.eval(st, a) for a in argn], True)


def h_tuple(ex, st, callee, obj, argn, n):
    if base_name(callee['fn']).startswith('operator='):
        src = ex.rv(st, argn[0])
        dst = obj if isinstance(obj, Tup) else ex.load(st, obj)
        if isinstance(dst, Tup) and dst.tie:
            vals = [ex.load(st, x) for x in src.items]
            for d, v in zip(dst.items, vals):
                ex.store(st, d, v)
        else:
            ex.store(st, obj, Tup([ex.load(st, x) for x in src.items]))
        return obj
    return NotImplemented


def h_get(ex, st, callee, obj, argn, n):
    m = re.match(r'^(\d+)', callee.get('ta') or '')
    t = ex.rv(st, argn[0])
    if not isinstance(t, Tup) or not m:
        return NotImplemented
    return t.items[int(m.group(1))]


def c_tuple(ex, st, t, callee, args, n):
    if len(args) == 1:
        v = ex.rv(st, args[0])
        if isinstance(v, Tup):
            return Tup([ex.load(st, x) for x in v.items])
    return Tup([ex.rv(st, a) for a in args])


# ---------------------------------------------------------------- lists
def seq_oid(ex, st, obj):
    r = obj
    while isinstance(r, Ref) and isinstance(st.heap[r.oid], (Ref, Ptr)):
        w = st.heap[r.oid]
        r = w if isinstance(w, Ref) else Ref(w.oid)
    if isinstance(r, Ptr):
        r = Ref(r.oid)
    return r.oid if isinstance(r, Ref) else None


def access(ex, st, oid, op):
    if oid in ex.volatile:
        st.trace = st.trace + [('acc', ex.volatile[oid], op, st.locks)]


def pop_first(ex, st, oid, n, what):
    """splits the first element off: returns its value"""
    s = st.heap[oid]
    parts = list(s.parts)
    while parts and isinstance(parts[0], Seg) and st.ctx().entails(ind_le(parts[0].length())):
        parts.pop(0)
    ex.oblige(st, '%s of a non-empty list' % what, 'cond', ind_le(ONE - s.length()), n.get('l'))
    if not parts:
        raise Infeasible()
    if isinstance(parts[0], Seg):
        g = parts[0]
        if g.keep is not None:
            raise Unsupported('first element of a filtered list')
        if not st.ctx().entails(ind_le(ONE - g.length())):
            raise Unsupported('first element of a possibly empty segment')
        return g.elem(g.lo), [g.sub(g.lo + 1, g.hi)] + parts[1:]
    return parts[0][1], parts[1:]


def pop_last(ex, st, oid, n, what):
    s = st.heap[oid]
    parts = list(s.parts)
    while parts and isinstance(parts[-1], Seg) and st.ctx().entails(ind_le(parts[-1].length())):
        parts.pop()
    ex.oblige(st, '%s of a non-empty list' % what, 'cond', ind_le(ONE - s.length()), n.get('l'))
    if not parts:
        raise Infeasible()
    if isinstance(parts[-1], Seg):
        g = parts[-1]
        if g.keep is not None or not st.ctx().entails(ind_le(ONE - g.length())):
            raise Unsupported('last element of a possibly empty segment')
        return g.elem(g.hi - 1), parts[:-1] + [g.sub(g.lo, g.hi - 1)]
    return parts[-1][1], parts[:-1]


def h_list(ex, st, callee, obj, argn, n):
    name = base_name(callee['fn'])
    v = ex.load(st, obj)
    if isinstance(v, Opaque) and v.cls == 'SharedList':
        args = [ex.rv(st, a) for a in argn]
        h = ex.virtuals.get(('SharedList', name))
        if h:
            return h(ex, st, v, args, n)
        raise Unsupported('list operation ' + name)
    oid = seq_oid(ex, st, obj)
    if oid is None and isinstance(v, SeqV):
        oid = ex.alloc(st, v)
    if oid is None or not isinstance(st.heap[oid], SeqV):
        return NotImplemented
    s = st.heap[oid]
    put = lambda parts: st.heap.__setitem__(oid, SeqV(parts))
    if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
        args = [ex.rv(st, a) for a in argn]
        access(ex, st, oid, name)
        s = st.heap[oid]
        x = args[0] if len(args) == 1 else Tup(args)
        put(s.parts + (('x', x),) if name.endswith('back') else (('x', x),) + s.parts)
        return VOID
    if name in ('empty', 'size'):
        access(ex, st, oid, name)
        return BoolV(ind_le(s.length())) if name == 'empty' else Num(s.length(), 'I')
    if name in ('front', 'pop_front'):
        access(ex, st, oid, name)
        x, rest = pop_first(ex, st, oid, n, name)
        if name == 'front':
            put([('x', x)] + list(rest))
            return x
        put(rest)
        return VOID
    if name in ('back', 'pop_back'):
        access(ex, st, oid, name)
        x, rest = pop_last(ex, st, oid, n, name)
        if name == 'back':
            put(list(rest) + [('x', x)])
            return x
        put(rest)
        return VOID
    if name in ('operator[]', 'at') and len(s.parts) == 1 and isinstance(s.parts[0], Seg) and s.parts[0].keep is None:
        i = ex.rv(st, argn[0])
        access(ex, st, oid, name)
        g = s.parts[0]
        ex.oblige(st, 'index within bounds', 'cond', ind_le(-i.p) * ind_le(i.p - (g.hi - g.lo) + 1), n.get('l'))
        return g.elem(g.lo + i.p)
    if name in ('begin', 'cbegin'):
        access(ex, st, oid, name)
        return It(oid, 0)
    if name in ('end', 'cend'):
        return It(oid, 'end')
    if name == 'clear':
        access(ex, st, oid, name)
        put(())
        return VOID
    if name == 'erase' and len(argn) == 1:
        it = ex.rv(st, argn[0])
        access(ex, st, oid, name)
        if not isinstance(it, It) or it.oid != oid or it.k == 'end' or it.back or isinstance(s.parts[it.k], Seg):
            raise Unsupported('erase')
        put(s.parts[:it.k] + s.parts[it.k + 1:])
        for o, v in list(st.heap.items()):
            if isinstance(v, It) and v.oid == oid and not v.back and v.k != 'end' and v.k > it.k:
                st.heap[o] = It(oid, v.k - 1)
        return It(oid, it.k)
    if name == 'operator=':
        w = ex.rv(st, argn[0])
        if not isinstance(w, SeqV):
            raise Unsupported('list assignment')
        src = seq_oid(ex, st, ex.eval(st, argn[0]))
        if src is not None:
            access(ex, st, src, 'copy')
        access(ex, st, oid, 'assign')
        st.heap[oid] = w
        if src is not None and src != oid and moved(argn[0]):
            st.heap[src] = SeqV(())
        return Ref(oid)
    if name == 'swap':
        o2 = seq_oid(ex, st, ex.eval(st, argn[0]))
        return swap(ex, st, oid, o2)
    if name in ('remove', 'remove_if'):
        x = ex.eval(st, argn[0])
        access(ex, st, oid, name)
        parts = []
        for p in s.parts:
            if not isinstance(p, Seg):
                raise Unsupported('remove from a list with single elements')

            k = fresh('k')
            e = p.elem(k)
            if name == 'remove':
                c = ind_eq(e.p - ex.load(st, x).p)
            else:
                c = ex.to_bool(st, ex.pure_call(st, ex.load(st, x), [e])).p     # as the state is now

            def keep(i, p=p, k=k, c=c):
                return (ONE if p.keep is None else p.keep(i)) * (ONE - subst(c, {varname(k): P(i)}))
            parts.append(Seg(p.lo, p.hi, p.elem, keep, p.name))
        put(parts)
        return VOID
    return NotImplemented


def run_set_range(ex, st, var, rng, body, n):
    """for every element of a set, in no particular order: only removals of that element from lists"""
    import loops
    oid = seq_oid(ex, st, rng)
    if oid is None:
        raise Unsupported('range-for over a temporary set')
    access(ex, st, oid, 'iterate')
    s = st.heap[oid]
    x = fresh('x')
    h0, tr, frame = dict(st.heap), list(st.trace), dict(st.frame)
    loops.bind(ex, st, var, Ref(ex.alloc(st, Hand(x, 'element'))))
    ex.stmt(st, body)
    st.frame = frame
    if any(e[0] != 'acc' for e in st.trace[len(tr):]):
        raise Unsupported('range-for over a set with effects')
    for o, v in h0.items():
        w = st.heap.get(o)
        if w is v:
            continue
        if not isinstance(v, SeqV) or not isinstance(w, SeqV) or len(v.parts) != len(w.parts):
            raise Unsupported('range-for over a set')
        parts = []
        for p, q in zip(v.parts, w.parts):
            if not isinstance(p, Seg) or not isinstance(q, Seg) or (p.lo, p.hi) != (q.lo, q.hi):
                raise Unsupported('range-for over a set')
            k = fresh('k')
            k0 = ONE if p.keep is None else p.keep(k)
            k1 = ONE if q.keep is None else q.keep(k)
            e = p.elem(k).p
            if q.elem(k).p != e or k1 != k0 * (ONE - ind_eq(e - x)) or varname(x) in k0.fv:
                raise Unsupported('range-for over a set')
            parts.append(Seg(p.lo, p.hi, p.elem, lambda i, p=p, s=s: (ONE if p.keep is None else p.keep(i)) * (ONE - s.has(p.elem(i).p)), p.name))
        st.heap[o] = SeqV(parts)


def moved(node):
    while node['k'] in ('ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr') and node.get('c'):
        node = node['c'][0]
    return node['k'] == 'CallExpr' and (node.get('callee') or {}).get('fn') == 'std::move'


def swap(ex, st, a, b):
    if a is None or b is None or not isinstance(st.heap[a], SeqV) or not isinstance(st.heap[b], SeqV):
        return NotImplemented
    access(ex, st, a, 'swap')
    access(ex, st, b, 'swap')
    st.heap[a], st.heap[b] = st.heap[b], st.heap[a]
    return VOID


def h_swap(ex, st, callee, obj, argn, n):
    if len(argn) != 2:
        return NotImplemented
    x, y = [ex.eval(st, a) for a in argn]
    a, b = seq_oid(ex, st, x), seq_oid(ex, st, y)
    if a is not None and b is not None and isinstance(st.heap[a], SeqV):
        return swap(ex, st, a, b)
    vx, vy = ex.load(st, x), ex.load(st, y)
    if isinstance(vx, (Num, BoolV, Ptr, Opaque)):
        ex.store(st, x, vy)
        ex.store(st, y, vx)
        return VOID
    return NotImplemented


def c_list(ex, st, t, callee, args, n):
    args = [a for a in args if a['k'] != 'CXXDefaultArgExpr' and not a['t'].startswith('std::allocator')]
    if not args:
        return SeqV(())
    x = ex.eval(st, args[0])
    v = ex.load(st, x)
    if isinstance(v, SeqV):
        src = seq_oid(ex, st, x)
        if src is not None:
            access(ex, st, src, 'copy')
            if moved(args[0]):
                st.heap[src] = SeqV(())
        return v
    raise Unsupported('construct list')


def c_iter(ex, st, t, callee, args, n):
    if not args:
        return It(None, 'none')
    return ex.rv(st, args[0])


def norm(st, it):
    """skips segments known to be empty"""
    s = st.heap[it.oid]
    if it.k == 'end' or it.back:
        return it
    k = it.k
    while k < len(s.parts) and isinstance(s.parts[k], Seg) and st.ctx().entails(ind_le(s.parts[k].length())):
        k += 1
    return It(it.oid, k)


def h_iter(ex, st, callee, obj, argn, n):
    name = base_name(callee['fn'])
    it = ex.load(st, obj)
    if not isinstance(it, It):
        return NotImplemented
    if name in ('operator*', 'operator->'):
        it = norm(st, it)
        s = st.heap[it.oid]
        if it.k == 'end' or it.back or it.k >= len(s.parts) or isinstance(s.parts[it.k], Seg):
            raise Unsupported('dereferencing a list iterator')
        access(ex, st, it.oid, 'element')
        return s.parts[it.k][1]
    if name == 'operator++':
        if it.back:
            new = It(it.oid, it.k, it.back - 1)
        else:
            it = norm(st, it)
            s = st.heap[it.oid]
            if it.k == 'end' or it.k >= len(s.parts) or isinstance(s.parts[it.k], Seg):
                raise Unsupported('advancing a list iterator')
            new = It(it.oid, it.k + 1)
        ex.store(st, obj, new)
        return it if argn else obj
    if name == 'operator--':
        s = st.heap[it.oid]
        k = len(s.parts) if it.k == 'end' else it.k
        before = SeqV(s.parts[:k]).length()
        ex.oblige(st, 'no iterator before the first element', 'cond', ind_le(ONE - before), n.get('l'))
        new = It(it.oid, k - 1) if k and not isinstance(s.parts[k - 1], Seg) else It(it.oid, k, 1)
        ex.store(st, obj, new)
        return it if argn else obj
    if name == 'operator=':
        ex.store(st, obj, ex.rv(st, argn[0]))
        return obj
    return NotImplemented


def cmp_iters(ex, st, a, b):
    """equality of two list iterators as a polynomial"""
    if isinstance(a, SetIt) or isinstance(b, SetIt):
        f = a.found if b.found is None else b.found
        if a.found is not None and b.found is not None:
            raise Unsupported('comparison of set iterators')
        return ONE - f
    if a.oid != b.oid:
        raise Unsupported('iterators of different lists')
    a, b = norm(st, a), norm(st, b)
    s = st.heap[a.oid]
    if b.k != 'end':
        a, b = b, a
    if b.k != 'end':
        if a == b:
            return ONE
        raise Unsupported('comparison of list iterators')
    if a.k == 'end' or a.k >= len(s.parts):
        return ONE
    if a.back:
        raise Unsupported('comparison of list iterators')
    if not isinstance(s.parts[a.k], Seg):
        return ZERO
    raise Traverse(a.oid, a.k)


def h_cmp(ex, st, callee, obj, argn, n):
    ops = re.search(r'operator(==|!=)', callee['fn']).group(1)
    xs = ([ex.load(st, obj)] if obj is not None else []) + [ex.rv(st, a) for a in argn]
    if len(xs) != 2:
        return NotImplemented
    a, b = xs
    if isinstance(a, (It, SetIt)) and isinstance(b, (It, SetIt)):
        e = cmp_iters(ex, st, a, b)
    elif isinstance(a, Hand) and isinstance(b, Hand):
        e = ind_eq(a.p - b.p)
    elif isinstance(a, Opaque) and isinstance(b, Opaque):
        e = ONE if a == b else ZERO
    elif isinstance(a, Hand) and isinstance(b, Ptr) and b.oid is None or isinstance(b, Hand) and isinstance(a, Ptr) and a.oid is None:
        e = ZERO
    else:
        return NotImplemented
    return BoolV(e if ops == '==' else ONE - e)


# ---------------------------------------------------------------- sets
def h_set(ex, st, callee, obj, argn, n):
    name = base_name(callee['fn'])
    oid = seq_oid(ex, st, obj)
    if oid is None or not isinstance(st.heap[oid], SetV):
        return NotImplemented
    s = st.heap[oid]
    if name == 'end' or name == 'cend':
        return SetIt(None)
    args = [ex.rv(st, a) for a in argn]
    access(ex, st, oid, name)
    if name in ('insert', 'emplace', 'erase') and len(args) == 1 and isinstance(args[0], Hand):
        e = ind_eq(V('xi_') - args[0].p)
        had = s.has(args[0].p)
        st.heap[oid] = SetV(e + (ONE - e) * s.p if name != 'erase' else (ONE - e) * s.p)
        return VOID if name != 'erase' else Num(had, 'I')
    if name == 'find':
        return SetIt(s.has(args[0].p))
    if name == 'count':
        return Num(s.has(args[0].p), 'I')
    if name == 'clear':
        st.heap[oid] = SetV(ZERO)
        return VOID
    if name == 'operator=' and isinstance(args[0], SetV):
        st.heap[oid] = args[0]
        return Ref(oid)
    return NotImplemented


# ---------------------------------------------------------------- locks
def label(ex, st, x):
    v = ex.load(st, x)
    if isinstance(v, Ptr):
        v = st.heap[v.oid]
    if isinstance(v, Opaque):
        return v.name
    raise Unsupported('mutex %r' % (v,))


def acquire(ex, st, names):
    for m in names:
        if m in st.locks:
            ex.oblige(st, 'no mutex is locked twice', 'cond', ZERO, None)
    st.trace = st.trace + [('acquire', tuple(names), st.locks)]
    ex.held_before = st.locks
    st.locks = st.locks + tuple(names)
    for m in names:
        if ex.on_acquire:
            ex.on_acquire(ex, st, m)


def release(ex, st, m):
    if m not in st.locks:
        ex.oblige(st, 'only a held mutex is unlocked', 'cond', ZERO, None)
        return
    if ex.on_release:
        ex.on_release(ex, st, m)
    st.trace = st.trace + [('release', m)]
    st.locks = tuple(x for x in st.locks if x != m)


def guard(st, f):
    st.frame['__guards__'] = st.frame.get('__guards__', ()) + (f,)


def c_lock(ex, st, t, callee, args, n):
    args = [a for a in args if a['k'] != 'CXXDefaultArgExpr']
    tag = [a for a in args if re.search(r'(defer|adopt|try_to)_lock', a['t'])]
    ms = [label(ex, st, ex.eval(st, a)) for a in args if a not in tag]
    kind = re.search(r'(defer|adopt|try_to)_lock', tag[0]['t']).group(1) if tag else ''
    if kind == 'try_to' or not ms:
        raise Unsupported('lock construction')
    if not kind:
        acquire(ex, st, ms)
    key = 'lock!%d' % next(symex._oid)
    uniq = t.startswith('std::unique_lock')

    def done(ex_, s):
        if uniq and not s.frame.get(key, kind != 'defer'):
            return
        for m in reversed(ms):
            if m in s.locks:
                release(ex_, s, m)
            elif not uniq:
                ex_.oblige(s, 'only a held mutex is unlocked', 'cond', ZERO, None)
    # ownership is looked up through the locks held: a lock object owns its mutex while the mutex is held by this thread
    def done2(ex_, s):
        for m in reversed(ms):
            if m in s.locks:
                release(ex_, s, m)
    guard(st, done2)
    return Opaque(key, 'lock', {'m': ms})


def h_lock_obj(ex, st, callee, obj, argn, n):
    name = base_name(callee['fn'])
    o = ex.load(st, obj)
    if not isinstance(o, Opaque) or not o.info or 'm' not in o.info:
        return NotImplemented
    if name == 'lock':
        acquire(ex, st, o.info['m'])
        return VOID
    if name == 'unlock':
        for m in o.info['m']:
            release(ex, st, m)
        return VOID
    if name == 'owns_lock':
        return BoolV(ONE if all(m in st.locks for m in o.info['m']) else ZERO)
    return NotImplemented


def h_mutex(ex, st, callee, obj, argn, n):
    name = base_name(callee['fn'])
    if name == 'lock':
        acquire(ex, st, [label(ex, st, obj)])
        return VOID
    if name == 'unlock':
        release(ex, st, label(ex, st, obj))
        return VOID
    return NotImplemented


def h_std_lock(ex, st, callee, obj, argn, n):
    ms = []
    for a in argn:
        o = ex.rv(st, a)
        ms += o.info['m'] if isinstance(o, Opaque) and o.info and 'm' in o.info else [label(ex, st, ex.eval(st, a))]
    acquire(ex, st, ms)
    return VOID


def h_cv(ex, st, callee, obj, argn, n):
    name = base_name(callee['fn'])
    cv = label(ex, st, obj)
    if name in ('notify_one', 'notify_all'):
        st.trace = st.trace + [('notify', cv, name, st.locks)]
        return VOID
    if name == 'wait':
        lk = ex.rv(st, argn[0])
        ms = lk.info['m']
        for m in ms:
            if m not in st.locks:
                ex.oblige(st, 'a waiting thread holds the lock it waits with', 'cond', ZERO, n.get('l'))
        for m in ms:
            if ex.on_release:
                ex.on_release(ex, st, m)
        st.trace = st.trace + [('wait', cv, tuple(ms), st.locks, len(argn) > 1)]
        ex.held_before = tuple(x for x in st.locks if x not in ms)
        for m in ms:
            if ex.on_acquire:
                ex.on_acquire(ex, st, m)
        if len(argn) > 1:
            p = ex.rv(st, argn[1])
            c = ex.to_bool(st, ex.load(st, ex.call_value(st, p, []))).p
            if not ex.choose(st, c):
                raise Infeasible()
        return VOID
    return NotImplemented


# ---------------------------------------------------------------- threads
def h_bind(ex, st, callee, obj, argn, n):
    node = argn[0]
    while node['k'] in ('ImplicitCastExpr', 'UnaryOperator', 'MaterializeTemporaryExpr') and node.get('c'):
        node = node['c'][0]
    d = node.get('d') or node.get('ref') or node
    mg = (node.get('callee') or {}).get('mg') or node.get('mg') or (d.get('mg') if isinstance(d, dict) else None)
    if not mg:
        raise Unsupported('bind')
    return Opaque('bind:%s' % mg, 'bind', {'mg': mg, 'args': [ex.rv(st, a) for a in argn[1:]]})


def c_thread(ex, st, t, callee, args, n):
    if not args:
        return Opaque('no thread', 'thread', {'f': None})
    f = args[0]
    v = None
    node = f
    while node['k'] in ('ImplicitCastExpr', 'UnaryOperator', 'MaterializeTemporaryExpr') and node.get('c'):
        node = node['c'][0]
    if node['k'] == 'DeclRefExpr' and len(args) > 1:
        return Opaque('thread', 'thread', {'f': h_bind(ex, st, callee, None, args, n), 'args': []})
    v = ex.rv(st, f)
    if isinstance(v, Opaque) and v.cls == 'thread':
        return v
    return Opaque('thread', 'thread', {'f': v, 'args': [ex.rv(st, a) for a in args[1:]]})


def start(ex, st, th, who=None):
    """records what the new thread runs"""
    f = th.info['f']
    if f is None:
        return
    s = st.clone()
    s.trace, s.locks = [], ()
    if isinstance(f, Opaque) and f.cls == 'bind':
        fn = ex.prog.funcs.get(f.info['mg'])
        if fn is None:
            raise Unsupported('thread function')
        this = f.info['args'][0]
        c = ex.contracts.get(fn['fn'])
        r = c(ex, s, fn, this, [], None) if c else NotImplemented
        if r is NotImplemented:
            raise Unsupported('thread function %s without contract' % fn['fn'])
    else:
        ex.call_value(s, f, th.info['args'])
    st.trace = st.trace + [('start', tuple(s.trace), st.locks, getattr(who, 'p', None))]


def h_thread(ex, st, callee, obj, argn, n):
    if callee['fn'].endswith('hardware_concurrency'):
        declare('cores', 'nonneg')
        return Num(V('cores', 'I'), 'I')
    name = base_name(callee['fn'])
    if name == 'operator=':
        v = ex.rv(st, argn[0])
        start(ex, st, v, ex.load(st, obj))
        return obj
    if name == 'join':
        st.trace = st.trace + [('join', st.locks, getattr(ex.load(st, obj), 'p', None))]
        return VOID
    if name == 'joinable':
        return BoolV(ONE)
    return NotImplemented


def h_get_id(ex, st, callee, obj, argn, n):
    return Hand(ex.thread_id, 'thread-id')


# ---------------------------------------------------------------- loops
def same_heap(ex, s, base, allowed):
    for o, v in base.items():
        if o in allowed:
            continue
        w = s.heap.get(o)
        if w is not v and not (type(w) is type(v) and isinstance(v, (SeqV, It, Opaque, Ptr)) and w == v) and not (
                isinstance(v, Num) and isinstance(w, Num) and v.p == w.p and v.d == w.d):
            return o
    return None


def paths(outs, s):
    n0 = len(s.pc)
    r = []
    for o in outs:
        c = ONE
        for h in o[0].pc[n0:]:
            c = c * h
        r.append(c)
    return r


def traverse(ex, st, condf, bodyf, incf, n, t):
    """a loop whose condition asks whether an iterator has reached the end, standing at a segment"""
    import loops
    oid, k = t.oid, t.k
    seq = st.heap[oid]
    g = seq.parts[k]
    its = [o for o, v in st.heap.items() if isinstance(v, It) and v.oid == oid and not v.back and v.k == k]
    i = fresh('e')
    s = st.clone()
    s.assume(ind_le(g.lo - i))
    s.assume(ind_le(i - g.hi + 1))
    if g.keep is not None:
        s.assume(g.keep(i))
    done, rest = Seg(g.lo, i, g.elem, g.keep, g.name + "'done"), g.sub(i + 1, g.hi)
    s.heap[oid] = SeqV(seq.parts[:k] + (done, ('x', g.elem(i)), rest) + seq.parts[k + 1:])
    live = []
    for o in its:
        s.heap[o] = It(oid, k + 1)
    base = dict(s.heap)
    n0 = len(s.trace)

    def one(s_):
        c = condf(s_)
        if not ex.choose(s_, c):
            raise Unsupported('loop condition besides the end of the list')
        try:
            bodyf(s_, i)
        except ContinueEx:
            pass
        incf(s_)
    outs = ex.explore(one, s)
    ch = [o for o in ex.volatile if o != oid and any(s_.heap.get(o) is not base.get(o) for s_, _, _ in outs)]
    if ch:
        for o in ch:
            s.heap[o] = base[o] = ex.unknown_list(o)
        outs = ex.explore(one, s)
    normal = [o for o in outs if o[1] == 'normal']
    exits = [o for o in outs if o[1] != 'normal']
    if any(o[1] == 'throw' for o in exits):
        raise Unsupported('throw while traversing a list')
    conds = paths(normal, s)
    keep = ZERO
    evs = []
    for c, (s_, _, _) in zip(conds, normal):
        ps = s_.heap[oid].parts
        pre, post = seq.parts[:k], seq.parts[k + 1:]
        mid = ps[len(pre):len(ps) - len(post)]
        if ps[:len(pre)] != pre or len(mid) < 2 or mid[0] is not done or mid[-1] is not rest:
            raise Unsupported('list changed in an unrecognised way')
        f = mid[1:-1]
        if len(f) > 1 or (f and not (f[0][1] is base[oid].parts[k + 1][1] or f[0][1] == base[oid].parts[k + 1][1])):
            raise Unsupported('list changed in an unrecognised way')
        at = It(oid, k + 1 + len(f))
        moved_ = [o for o in its if isinstance(s_.heap[o], It) and norm_eq(s_.heap[o], at)]
        if not moved_:
            raise Unsupported('iterator not advanced')
        live = moved_ if not live else [o for o in live if o in moved_]
        bad = same_heap(ex, s_, base, set(its) | {oid} | set(ch))
        if bad:
            raise Unsupported('state changed while traversing a list')
        if f:
            keep = keep + c
        evs.append((c, [e for e in s_.trace[n0:]]))
    if not live and normal:
        raise Unsupported('iterator not advanced')
    kf = g.keep
    kp = simp(keep, s.ctx()) if normal else ZERO
    if normal and kp.const() != 1:
        kf = lambda j: (ONE if g.keep is None else g.keep(j)) * subst(keep, {varname(i): P(j)})
    evs = [(c, e) for c, e in evs if e]
    cont = ZERO
    for c in conds:
        cont = cont + c

    for o in ch:
        st.heap[o] = ex.unknown_list(o)

    def finish(hi):
        new = Seg(g.lo, hi, g.elem, kf, g.name) if kf is not g.keep or hi is not g.hi else g
        if evs:
            st.trace = st.trace + [('each', varname(i), Seg(g.lo, hi, g.elem, g.keep, g.name), evs)]
        return new
    if exits:
        b = ind_bool('found!%d' % next(symex._oid))
        if ex.choose(st, b):
            # leaves at element i0
            i0 = fresh('ex')
            st.assume(ind_le(g.lo - i0))
            st.assume(ind_le(i0 - g.hi + 1))
            if g.keep is not None:
                st.assume(g.keep(i0))
            q = fresh('q')
            st.assume(ind_forall(varname(q), i0, ind_le(q - g.lo + 1) + (ONE - ind_le(q - g.lo + 1)) * subst(cont, {varname(i): q})))
            pre = finish(i0)
            st.heap[oid] = SeqV(seq.parts[:k] + (pre, ('x', g.elem(i0)), g.sub(i0 + 1, g.hi)) + seq.parts[k + 1:])
            for o in its:
                st.heap[o] = It(oid, k + 1)
            condf(st)
            try:
                bodyf(st, i0)
            except BreakEx:
                return True
            except ContinueEx:
                pass
            raise Infeasible()
        q = fresh('q')
        st.assume(ind_forall(varname(q), g.hi, ind_le(q - g.lo + 1) + (ONE - ind_le(q - g.lo + 1)) * subst(cont, {varname(i): q})))
    new = finish(g.hi)
    st.heap[oid] = SeqV(seq.parts[:k] + (new,) + seq.parts[k + 1:])
    for o in its:
        st.heap[o] = It(oid, k + 1)
    return False       # go on behind the segment


def norm_eq(a, b):
    return a == b


def run_range(ex, st, var, rng, body, n):
    import loops
    oid = seq_oid(ex, st, rng)
    s0 = ex.load(st, rng)
    if oid is not None:
        access(ex, st, oid, 'traverse')
    for p in s0.parts:
        if not isinstance(p, Seg):
            try:
                loops.bind(ex, st, var, p[1])
                ex.stmt(st, body)
            except ContinueEx:
                pass
            except BreakEx:
                return
            continue
        i = fresh('e')
        s = st.clone()
        s.assume(ind_le(p.lo - i))
        s.assume(ind_le(i - p.hi + 1))
        if p.keep is not None:
            s.assume(p.keep(i))
        n0 = len(s.trace)

        def one(s_):
            loops.bind(ex, s_, var, p.elem(i))
            try:
                ex.stmt(s_, body)
            except ContinueEx:
                pass
        base = dict(s.heap)
        outs = ex.explore(one, s)
        if any(o[1] != 'normal' for o in outs):
            raise Unsupported('leaving a list traversal early')
        ch = [o for o in ex.volatile if any(s_.heap.get(o) is not base.get(o) for s_, _, _ in outs)]
        if ch:
            # earlier iterations may have changed the shared lists too
            for o in ch:
                s.heap[o] = base[o] = ex.unknown_list(o)
            outs = ex.explore(one, s)
        evs = []
        for c, (s_, _, _) in zip(paths(outs, s), outs):
            bad = same_heap(ex, s_, base, set(ex.volatile))
            if bad:
                raise Unsupported('state changed while traversing a list')
            if oid in ex.volatile and s_.heap[oid] is not base[oid]:
                ex.oblige(st, 'a list is not changed while it is traversed', 'cond', ZERO, n.get('l'))
            for o in ex.volatile:
                if s_.heap.get(o) is not base.get(o):
                    st.heap[o] = s_.heap[o]
            if s_.trace[n0:]:
                evs.append((c, s_.trace[n0:]))
        if evs:
            st.trace = st.trace + [('each', varname(i), p, evs)]


def generic(ex, st, condf, bodyf, incf, n):
    """an iteration from an arbitrary state: the variables it assigns are unknown at its start.
    Completed iterations are reported in ex.iterations; the paths that leave the loop go on."""
    def one(s_):
        if not ex.choose(s_, condf(s_)):
            raise BreakEx()
        try:
            bodyf(s_, ZERO)
        except ContinueEx:
            pass
        incf(s_)
    hav = {}
    for _ in range(5):
        s = st.clone()
        for o, v in hav.items():
            s.heap[o] = v
        s.trace = []
        outs = ex.explore(one, s)
        new = {}
        for s_, k, _ in outs:
            if k == 'throw':
                raise Unsupported('throw in a loop')
            for o, v in s.heap.items():
                if o not in hav and o not in ex.volatile and s_.heap[o] is not v:
                    new[o] = Opaque('stale:%s' % o, 'stale') if not isinstance(v, (Num, BoolV)) else (
                        Num(fresh('stale', v.s), v.s, ZERO) if isinstance(v, Num) else BoolV(ind_bool('stale%d' % next(symex._oid)), ZERO))
        if not new:
            break
        hav.update(new)
    else:
        raise Unsupported('loop state')
    for o, v in hav.items():
        st.heap[o] = v
    for o in ex.volatile:
        if any(s_.heap[o] is not s.heap[o] for s_, k, _ in outs):
            st.heap[o] = ex.unknown_list(o)
            st.trace = st.trace + [('enter', ex.volatile[o], st.heap[o])]
    if not ex.quiet:
        ex.iterations += [(s_, s_.trace) for s_, k, _ in outs if k == 'normal']
    st.trace = st.trace + [('iterations',)]
    try:
        one(st)
    except BreakEx:
        return
    raise Infeasible()


def unknown(name):
    n = V(name + '.n')
    return SeqV([Seg(ZERO, n, lambda i: Hand(app(name, i, sort='I'), name), None, name)])


def install(ex, add):
    ex.volatile, ex.on_acquire, ex.iterations, ex.generic_loops, ex.thread_id = {}, None, [], False, V('this-thread')
    ex.on_release = None
    ex.unknown_list = lambda o: unknown('L%d' % next(symex._oid))
    for t in ('std::list', 'std::deque'):
        sm.CTORS[t] = c_list
        sm.DEFAULTS[t] = lambda ex, st, tt: SeqV(())
    sm.CTORS['std::tuple'] = sm.CTORS['std::pair'] = c_tuple
    for t in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock'):
        sm.CTORS[t] = c_lock
    for t in ('std::_List_iterator', 'std::_List_const_iterator', 'std::_Deque_iterator'):
        sm.CTORS[t] = c_iter
    sm.CTORS['std::thread'] = c_thread
    sm.DEFAULTS['std::thread'] = lambda ex, st, tt: Hand(V('no-thread'), 'thread')
    for t in ('std::mutex', 'std::recursive_mutex', 'std::condition_variable'):
        sm.CTORS[t] = lambda ex, st, tt, c, a, n: Opaque('sync!%d' % next(symex._oid), 'std::mutex')
        sm.DEFAULTS[t] = lambda ex, st, tt: Opaque('sync!%d' % next(symex._oid), 'std::mutex')
    sm.CTORS['std::thread::id'] = lambda ex, st, t, c, a, n: ex.rv(st, a[0]) if a else Hand(V('no-thread'), 'thread-id')
    sm.DEFAULTS['std::thread::id'] = lambda ex, st, tt: Hand(V('no-thread'), 'thread-id')
    sm.DEFAULTS['std::unordered_set'] = sm.DEFAULTS['std::set'] = lambda ex, st, tt: SetV(ZERO)
    sm.CTORS['std::unordered_set'] = sm.CTORS['std::set'] = lambda ex, st, t, c, a, n: (
        SetV(ZERO) if not a or a[0]['k'] == 'CXXDefaultArgExpr' else ex.rv(st, a[0]))
    for rx, h in ((r'std::make_(tuple|pair)$', h_make_tuple), (r'std::tie$', h_tie), (r'std::tuple<', h_tuple), (r'std::get$', h_get),
                  (r'std::(list|deque|__cxx11::list|vector)<', h_list), (r'std::swap$', h_swap), (r'std::_(List|Deque)_(const_)?iterator<', h_iter),
                  (r'std::(__detail::)?operator(==|!=)', h_cmp), (r'std::(unordered_)?set<', h_set),
                  (r'std::(lock_guard|unique_lock|scoped_lock)<', h_lock_obj), (r'std::mutex::', h_mutex), (r'std::lock$', h_std_lock),
                  (r'std::condition_variable(_any)?::', h_cv), (r'std::bind$', h_bind), (r'std::thread::', h_thread),
                  (r'std::this_thread::get_id$', h_get_id)):
        ex.models.insert(0, (re.compile(rx), h))
