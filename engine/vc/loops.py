"""Loops: invariant synthesis by solving the recurrences of one symbolic iteration.

The invariant of a loop is `every modified object equals its solved value at
iteration it`.  Base and step of that invariant are emitted as obligations.
"""
import itertools
from terms import *
from prove import *
from symex import *
import symex
import eigen_models as em

_ln = itertools.count()
UNROLL = 40


class Hole:
    """placeholder of one modified object during the generic iteration"""
    __slots__ = ('oid', 'kind', 'name', 'dname', 'v0')

    def __init__(self, oid, kind, name, v0):
        self.oid, self.kind, self.name, self.v0 = oid, kind, name, v0
        self.dname = name + '.d'


def run(ex, st, cond, inc, body, n):
    def condf(s):
        return ONE if cond is None else ex.eval_bool(s, cond)
    condf.always = cond is None or always(cond)

    def bodyf(s, it):
        ex.stmt(s, body)

    def incf(s):
        if inc is not None:
            ex.eval(s, inc)
    core(ex, st, condf, bodyf, incf, n)


UNROLLED = set()


def always(n):
    """a condition written as a true constant: the loop is left from inside only"""
    while n.get('k') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'ConstantExpr') and n.get('c'):
        n = n['c'][0]
    return n.get('k') in ('CXXBoolLiteralExpr', 'IntegerLiteral') and str(n.get('v', n.get('val'))).lower() not in ('0', 'false', 'none')


def run_range(ex, st, var, rng, body, n):
    v = ex.load(st, rng)
    if isinstance(v, Arr):
        if not isinstance(rng, Ref):
            rng = Ref(ex.alloc(st, v))
        r = rng
        while isinstance(st.heap[r.oid], Ref):
            r = st.heap[r.oid]
        if v.items is not None:
            try:
                for k in range(len(v.items)):
                    try:
                        bind(ex, st, var, ArrElem(r.oid, P(k)))
                        ex.stmt(st, body)
                    except ContinueEx:
                        pass
            except BreakEx:
                pass
            return

        def bodyf(s, it):
            bind(ex, s, var, ArrElem(r.oid, it))
            ex.stmt(s, body)
        core(ex, st, None, bodyf, lambda s: None, n, count=v.size)
        return
    import std_conc
    if isinstance(v, std_conc.SeqV):
        return std_conc.run_range(ex, st, var, rng, body, n)
    if isinstance(v, std_conc.SetV):
        return std_conc.run_set_range(ex, st, var, rng, body, n)
    raise Unsupported('range-for over %r' % (v,))


def bind(ex, st, var, x):
    if var.get('isref'):
        st.frame[var['id']] = x
    else:
        st.frame[var['id']] = Ref(ex.alloc(st, ex.load(st, x)))


def core(ex, st, condf, bodyf, incf, n, count=None, it_facts=None):
    import std_conc
    if count is None:
        st0 = st.clone()
        try:
            return core1(ex, st, condf, bodyf, incf, n, count)
        except std_conc.Traverse:
            pass
        st.heap, st.trace, st.locks, st.pc, st._ctx, st.pos = st0.heap, st0.trace, st0.locks, st0.pc, None, st0.pos
        while True:
            s1 = st.clone()
            try:
                c = condf(st)
            except std_conc.Traverse as t:
                st.heap, st.trace = s1.heap, s1.trace
                if std_conc.traverse(ex, st, condf, bodyf, incf, n, t):
                    return
                continue
            if c.const() == 0:
                return
            if c.const() != 1:
                raise Unsupported('loop condition besides the end of a list')
            try:
                bodyf(st, ZERO)
            except BreakEx:
                return
            except ContinueEx:
                pass
            incf(st)
    return core1(ex, st, condf, bodyf, incf, n, count)


def core1(ex, st, condf, bodyf, incf, n, count=None):
    if count is None and ex.generic_loops:
        import std_conc
        return std_conc.generic(ex, st, condf, bodyf, incf, n)
    # ---- bounded unrolling while the condition is a literal constant
    k = 0
    if count is None and getattr(condf, 'always', False) and id(n) not in UNROLLED:
        s0 = st.clone()
        n0 = len(ex.obls)
        try:
            return symbolic(ex, st, condf, bodyf, incf, n, count)
        except Unsupported:
            st.heap, st.trace, st.locks, st.pc, st._ctx, st.pos, st.exits = s0.heap, s0.trace, s0.locks, s0.pc, None, s0.pos, s0.exits
            st.script = s0.script
            del ex.obls[n0:]
            UNROLLED.add(id(n))
    if count is None:
        while k < UNROLL:
            heap0 = dict(st.heap)
            c = condf(st)
            cc = c.const()
            if cc is None:
                st.heap = heap0      # the condition is evaluated again inside the symbolic loop
                break
            if cc == 0:
                return
            try:
                bodyf(st, P(k))
            except BreakEx:
                return
            except ContinueEx:
                pass
            incf(st)
            k += 1
        else:
            raise Unsupported('loop unrolled %d times' % UNROLL)
    elif count.const() is not None and count.const() <= UNROLL:
        for k in range(int(count.const())):
            try:
                bodyf(st, P(k))
            except BreakEx:
                return
            except ContinueEx:
                pass
        return
    symbolic(ex, st, condf, bodyf, incf, n, count)


def mk_hole(v0, oid, ln):
    name = 'h!%s!%d' % (oid, ln)
    if isinstance(v0, Num):
        return Hole(oid, 'num', name, v0)
    if isinstance(v0, BoolV):
        return Hole(oid, 'bool', name, v0)
    if isinstance(v0, MatVal):
        return Hole(oid, 'mat', name, v0)
    if isinstance(v0, Arr) and v0.items is None and v0.mat is None and v0.p is not None:
        return Hole(oid, 'arr', name, v0)
    import std_conc
    if isinstance(v0, std_conc.SeqV):
        return Hole(oid, 'seq', name, v0)
    if isinstance(v0, (Opaque, Ptr, std_conc.Tup)) or type(v0).__name__ == 'UnionV':
        return Hole(oid, 'stale', name, v0)
    raise Unsupported('loop modifies %r' % (v0,))


def hole_rc(v0):
    """indices of a matrix placeholder: the only column of a vector is column 0"""
    return (ZERO if v0.rows.const() == 1 else RI), (ZERO if v0.cols.const() == 1 else CI)


def hole_value(h):
    v0 = h.v0
    d = ONE
    if h.kind == 'stale':
        return Opaque('stale:' + h.name, 'stale', {'union': h.v0} if type(h.v0).__name__ == 'UnionV' else None)
    if h.kind == 'seq':
        import std_conc
        return std_conc.SeqV([std_conc.Seg(ZERO, V(h.name + '.n'), lambda i: Opaque('stale:' + h.name, 'stale'), None, h.name)])
    if h.kind == 'num':
        if v0.d.const() != 1:
            d = ind_bool(h.dname)
        return Num(V(h.name, v0.s), v0.s, d)
    if h.kind == 'bool':
        return BoolV(ind_bool(h.name), ONE)
    if h.kind == 'mat':
        rc = hole_rc(v0)
        if v0.d.const() != 1:
            d = ind_bool(h.dname, *rc)
        return MatVal(v0.rows, v0.cols, app(h.name, *rc, sort=v0.s), d, v0.s)
    if h.kind == 'dyn':
        return MatVal(V(h.name + '.r'), V(h.name + '.c'), app(h.name, RI, CI, sort=v0.s), ZERO, v0.s)
    if h.kind == 'arr':
        if v0.d.const() != 1:
            d = ind_bool(h.dname, RI)
        return Arr(v0.size, None, app(h.name, RI, sort=v0.s), d, v0.s, v0.et)


def fill(p, sol):
    """replace placeholder symbols by their solutions: sol name -> poly over RI, CI"""
    if not sol:
        return p

    def fn(a, args):
        if a.kind == 'v':
            return sol.get(a.data[0])
        nm = a.data[0] if a.kind == 'a' else a.data[1]
        s = sol.get(nm)
        if s is None:
            return None
        mp = {}
        if len(args) > 0:
            mp['ri_'] = args[0]
        if len(args) > 1:
            mp['ci_'] = args[1]
        return subst(s, mp)
    return map_apps(p, fn)


def occurs(p, name):
    return collect(p, lambda a: (a.kind == 'v' and a.data[0] == name) or (a.kind == 'a' and a.data[0] == name) or
                   (a.kind == 'i' and a.data[0] == 'b' and a.data[1] == name))


def split_linear(F, ha):
    """F = A*ha + B at top level"""
    A, B = {}, {}
    for m, c in F.t.items():
        e = dict(m).get(ha, 0)
        if e == 1:
            m2 = tuple((a, x) for a, x in m if a is not ha)
            A[m2] = A.get(m2, 0) + c
        elif e == 0:
            B[m] = c
        else:
            return None
    return Poly(A), Poly(B)


def solve(F, name, hp, x0, it, ctx):
    """closed form X(it) of X(0)=x0, X(it+1)=F ; hp the placeholder poly; None if not found"""
    itn = varname(it)
    ha = as_atom(hp)
    if F == hp:
        return x0
    occ = occurs(F, name)
    if not occ:
        e = ind_eq(it)
        return e * x0 + (ONE - e) * subst(F, {itn: it - 1})
    sp = split_linear(F, ha)
    t = fresh('s')
    if sp is not None:
        A, B = sp
        if not occurs(A, name) and not occurs(B, name):
            if A == ONE:
                return x0 + mk_sum(varname(t), it, subst(B, {itn: t}))
            if not B.t:
                if itn not in A.fv and A.single() and False:
                    pass
                return x0 * mk_prod(varname(t), it, subst(A, {itn: t}))
    if F == hp * hp and sign_syn(x0) == 'pos':
        # repeated squaring of a positive number
        return texp(mk_prod(varname(t), it, P(2)) * tlog(x0))
    # localized update: F differs from hp only where an equality with `it` holds
    for a in p_inds_top(F):
        if a.data[0] != 'eq' or itn not in a.fv:
            continue
        if set_ind(F, a, 0) != hp:
            continue
        p = a.data[1]
        for mm, c in p.t.items():
            if mm == ((as_atom(it), 1),) and abs(c) == 1:
                tau = Poly({k: -v / c for k, v in p.t.items() if k != mm})
                break
        else:
            continue
        if itn in tau.fv or not (tau.fv & {'ri_', 'ci_'}):
            continue
        v = set_ind(F, a, 1)

        def covered(ri, ci):
            tt = subst(tau, {'ri_': ri, 'ci_': ci})
            return ind_le(-tt) * ind_le(tt - it + 1)
        # reads of the object itself inside the update see the initial value
        bad = []

        def fn(b, args):
            nm = b.data[0] if b.kind in ('a', 'v') else b.data[1]
            if nm != name:
                return None
            r = args[0] if len(args) > 0 else RI
            c_ = args[1] if len(args) > 1 else CI
            cov = simp(reduce_with(covered(r, c_), a), ctx)
            if cov.const() == 0:
                return subst(x0, {'ri_': r, 'ci_': c_})
            bad.append(cov)
            return None
        v2 = map_apps(v, fn)
        if bad:
            # own reads at (RI,CI): tau = it there, hence not covered yet
            continue
        cov = covered(RI, CI)
        return cov * subst(v2, {itn: tau}) + (ONE - cov) * x0
    # scattered overwrite: the entry at g(it) receives a value that depends on its place only
    for a in p_inds_top(F):
        if a.data[0] != 'eq' or itn not in a.fv or set_ind(F, a, 0) != hp:
            continue
        v = set_ind(F, a, 1)
        p = a.data[1]
        for place in (CI, RI):
            c = p.t.get(((as_atom(place), 1),))
            if c is None or abs(c) != 1:
                continue
            g = Poly({k: -x / c for k, x in p.t.items() if k != ((as_atom(place), 1),)})
            if as_atom(g) is None or g.fv & {'ri_', 'ci_'}:
                continue
            v2 = replace_poly(v, as_atom(g), place)
            if itn in v2.fv or occurs(v2, name):
                continue
            t = fresh('s')
            hit = ONE - ind_forall(varname(t), it, ONE - subst(P(a), {itn: t}))
            return hit * v2 + (ONE - hit) * x0
    x = running_max(F, name, hp, ha, x0, it)
    if x is not None:
        DEFN.add(name)
        return x
    # conditional overwrite once c(it): F=(1-c)h + c*v, with c independent of h:  last writer wins -> not closed
    return None


DEFN = set()        # placeholders solved by the recursive definition of the first maximum


def running_max(F, name, hp, ha, x0, it):
    """position or value of the first maximum so far (strict comparison, starting from the first entry);
    the closed form is the recursive definition of argmax:  argmax[0,1) = 0,
    argmax[0,n+1) = n if e(n) > e(argmax[0,n)) else argmax[0,n)"""
    import eigen_models as em
    itn = varname(it)
    def orientations():
        tops = p_inds_top(F)
        for a in tops:
            if a.data[0] != 'le':
                continue
            for p, le in ((a.data[1], 0), (-a.data[1], 1)):
                c = set_ind(F, a, le)
                for b in tops:
                    if b.data[0] == 'eq' and b.data[1] in (p, -p):
                        c = set_ind(c, b, 0)
                if not occurs(c, name) and F == c + ind_le(p) * (hp - c):
                    yield p, c              # h' = h if p <= 0 else c
    for p, c in orientations():
        k = (c - it).const()
        t = fresh('q')
        if occurs(p, name) and k in (0, 1) and x0.const() == 0:
            # p = e(c) - e(h)
            own = Poly({m: v for m, v in p.t.items() if occurs(Poly({m: v}), name)})
            e = lambda x: -fill(own, {name: x})
            if e(c) != p - own or itn in own.fv:
                continue
            n = it + 1 if k == 1 else it + ind_eq(it)
            return em.argmax(e(t), varname(t), n)
        if occurs(p, name) and p == c - hp:
            # the value itself: e(it) against the value so far
            if subst(c, {itn: P(-1)}) == x0:
                e = lambda x: subst(c, {itn: x - 1})
                n = it + 1
            elif subst(c, {itn: ZERO}) == x0:
                e = lambda x: subst(c, {itn: x})
                n = it + ind_eq(it)
            else:
                continue
            return e(em.argmax(e(t), varname(t), n))
        if not occurs(p, name) and k in (0, 1) and x0.const() == 0:
            # the position that goes with a value so far
            for m in collect(p, lambda b: b.kind == 'a' and b.data[0] in FAC).values():
                b, n, ps = FAC[m.data[0]]
                mp = dict(zip(ps, m.data[1]))
                e = lambda x: subst(b, dict(mp, am_=x))
                if subst(n, mp) == (it + 1 if k == 1 else it + ind_eq(it)) and p == e(c) - e(P(m)) and itn not in e(ZERO).fv:
                    return P(m)
    return None


def peel(p, it):
    """[for all v < it+1: c] as [for all v < it: c] c(it), at top level (it >= 0)"""
    if not any(a.kind == 'i' and a.data[0] == 'fa' and a.data[2] == it + 1 for m in p.t for a, e in m):
        return p
    acc = ZERO
    for m, c in p.t.items():
        r = P(c)
        for a, e in m:
            x = P(a)
            if a.kind == 'i' and a.data[0] == 'fa' and a.data[2] == it + 1:
                _, v, n, b = a.data
                f = fresh('q')
                b = subst(b, {v: f})
                x = ind_forall(varname(f), it, b) * subst(b, {varname(f): it})
            r = pmul(r, x ** int(e) if e != 1 else x)
        acc = acc + r
    return acc


def replace_poly(p, atom, by):
    """p with an atom replaced, also inside the arguments of functions"""
    return map_apps(p, lambda a, args: by if a.kind == 'a' and a.data[0] == atom.data[0] and len(args) == len(atom.data[1]) and all(
        x == y for x, y in zip(args, atom.data[1])) else None) if atom.kind == 'a' else subst(p, {atom.data[0]: by})


def reduce_with(p, eqatom):
    r = pmul(P(eqatom), p)
    return set_ind(r, eqatom, 1)


def same_value(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, Num):
        return a.p == b.p and a.d == b.d
    if isinstance(a, BoolV):
        return a.p == b.p and a.d == b.d
    if isinstance(a, MatVal):
        return a.p == b.p and a.d == b.d and a.rows == b.rows and a.cols == b.cols
    if isinstance(a, Arr) and a.items is None and b.items is None:
        return a.p == b.p and a.d == b.d and a.size == b.size and a.pins == b.pins and (a.mat is b.mat or (
            a.mat is not None and b.mat is not None and same_value(a.mat, b.mat)))
    if isinstance(a, (Ptr, Opaque, Str, EPtr)) or type(a).__name__ in ('Content', 'Stream', 'UnionV', 'DataPtr'):
        return a == b
    return False


class Iter:
    """result of one generic iteration"""
    pass


def iteration(ex, st, vals, condf, bodyf, incf, count, it):
    """run cond+body+inc at iteration `it` with the heap overridden by vals"""
    r = Iter()
    s = st.clone()
    for o, v in vals.items():
        s.heap[o] = v
    s.assume(ind_le(-it))
    r.base = dict(s.heap)
    if count is not None:
        s.assume(ind_le(it - count + 1))
        c = ONE
    else:
        nt = len(s.trace)
        c = condf(s)
        if len(s.trace) != nt:
            raise Unsupported('observable effect in a loop condition')
    r.cond = c
    # side effects of evaluating the condition
    r.fx = any(s.heap[o] is not v for o, v in r.base.items())
    if c.const() == 0:
        r.dead = True
        return r
    r.dead = False
    s.assume(c)
    r.s0 = s

    def one(s_):
        try:
            bodyf(s_, it)
        except ContinueEx:
            pass
    ex.loop_stack.append(it)
    try:
        outs = ex.explore(one, s)
    finally:
        ex.loop_stack.pop()
    r.normal = [o for o in outs if o[1] == 'normal']
    r.exits = [o for o in outs if o[1] != 'normal']
    if any(o[1] == 'throw' for o in r.exits):
        raise Unsupported('throw inside a symbolic loop')
    npc = len(s.pc)

    def pathcond(s_):
        c_ = ONE
        for h in s_.pc[npc:]:
            c_ = c_ * h
        return c_
    r.cont = ONE
    if r.exits:
        r.cont = ZERO
        for o in r.normal:
            r.cont = r.cont + pathcond(o[0])
    r.bodytr = None
    r.m = None
    if r.normal:
        n0 = len(s.trace)
        trs = [(pathcond(o[0]), o[0].trace[n0:]) for o in r.normal]
        if any(t for _, t in trs):
            r.bodytr = trs
            for o in r.normal:
                o[0].trace = list(s.trace)
        try:
            m, _ = ex.merge(s, [(o[0], o[1], None) for o in r.normal])
        except CannotMerge as e:
            raise Unsupported('loop body paths cannot be merged: %s' % e)
        m.frame = st.frame
        m.pc = list(s.pc)
        m._ctx = s._ctx
        incf(m)
        r.m = m
    r.changed = set()
    if r.m is not None:
        for o in r.base:
            if r.m.heap.get(o) is not r.base[o] and not same_value(r.m.heap.get(o), r.base[o]):
                r.changed.add(o)
    return r


def symbolic(ex, st, condf, bodyf, incf, n, count=None):
    itn = 'it!%d' % next(symex._oid)
    it = V(itn)
    ln = next(_ln)
    mods = {}
    ex.quiet += 1
    try:
        for _ in range(15):
            vals = {o: hole_value(h) for o, h in mods.items()}
            r = iteration(ex, st, vals, condf, bodyf, incf, count, it)
            if r.dead:
                return
            if r.m is None:
                break
            new = r.changed - set(mods)
            dyn = [o for o in mods if mods[o].kind == 'mat' and shape_moves(r.m.heap[o], mods[o].v0, r.s0)]
            for o in dyn:
                mods[o].kind = 'dyn'
            if not new and not dyn:
                break
            for o in new:
                v0, v1 = st.heap[o], r.m.heap[o]
                if isinstance(v0, Arr) and v0.mat is not None and same_value(v1.mat, v0.mat) and v1.size == v0.size and len(v1.pins) > len(v0.pins):
                    # the body refers to elements of a vector of matrices: let them be objects before the loop starts
                    for i, _ in v1.pins:
                        if any(occurs(i, x) for h in mods.values() for x in (h.name, itn)) or occurs(i, itn):
                            raise Unsupported('loop over the elements of a vector of matrices')
                        ex.pin(st, o, i)
                    continue
                mods[o] = mk_hole(st.heap[o], o, ln)
        else:
            raise Unsupported('mod-set does not stabilise')
    finally:
        ex.quiet -= 1
    if r.m is None:
        once(ex, st, condf, bodyf, count)
        return
    sol, pending, comps = close(ex, r, mods, {}, it)
    ghosted = {}
    sol0 = sol
    if pending and ex.ghosts:
        cand = {}
        for c in pending:
            h, nm, hp, x0, F = c
            if nm != h.name or h.kind not in ('mat', 'num'):
                continue
            for fam in ex.ghosts:
                for g in fam.instances(ex):
                    cx = g.fits(h, st)
                    if cx is not None and prove_zero(g.at(ZERO) - x0, cx):
                        cand.setdefault(h.oid, []).append(g)
        ex.quiet += 1
        try:
            for _ in range(20):
                live = {o: gs[0] for o, gs in cand.items() if gs}
                if not live:
                    break
                vals = {}
                for o, h in mods.items():
                    if o in live:
                        v0 = h.v0
                        p = live[o].at(it)
                        vals[o] = MatVal(v0.rows, v0.cols, p, ONE, 'R') if h.kind == 'mat' else Num(p, v0.s)
                    elif h.kind == 'num' and h.name in sol0 and h.v0.d.const() == 1:
                        vals[o] = Num(sol0[h.name], h.v0.s)
                    else:
                        vals[o] = hole_value(h)
                r2 = iteration(ex, st, vals, condf, bodyf, incf, count, it)
                pre = {mods[o].name: live[o].at(it) for o in live}
                for o, h in mods.items():
                    if o not in live and h.kind == 'num' and h.name in sol0 and h.v0.d.const() == 1:
                        pre[h.name] = sol0[h.name]
                sol2, pend2, comps2 = close(ex, r2, mods, pre, it)
                bad = None
                for c in comps2:
                    h, nm, hp, x0, F = c
                    if h.oid in live and nm == h.name:
                        g = live[h.oid]
                        F2 = fill(F, sol2)
                        cx = g.fits(h, r2.s0)
                        if any(occurs(F2, c2[1]) for c2 in pend2) or not prove_zero(F2 - g.step(it), cx):
                            bad = h.oid
                            ex.mismatch.append((ex.cur_fn[-1] if ex.cur_fn else '?', n.get('l') if n else None, g.name,
                                                (F2 - g.step(it)).key[:1500]))
                            break
                if bad is None:
                    r, sol, pending, comps, ghosted = r2, sol2, pend2, comps2, live
                    for g in live.values():
                        ex.used_ghosts.add(g.name)
                    break
                cand[bad].pop(0)
        finally:
            ex.quiet -= 1
    finish(ex, st, condf, bodyf, incf, n, count, it, mods, r, sol, pending, comps, ghosted)


def shape_moves(v1, v0, s0):
    if v1.rows == v0.rows and v1.cols == v0.cols:
        return False
    cx = s0.ctx()
    return not (prove_zero(v1.rows - v0.rows, cx) and prove_zero(v1.cols - v0.cols, cx))


def once(ex, st, condf, bodyf, count):
    c = condf(st) if count is None else ind_le(ONE - count)
    if ex.choose(st, c):
        try:
            bodyf(st, ZERO)
        except ContinueEx:
            pass
        except BreakEx:
            return


def components(mods, m, given):
    comps = []
    for o, h in mods.items():
        v1 = m.heap[o]
        v0 = h.v0
        if h.kind == 'num':
            comps.append((h, h.name, V(h.name, v0.s), v0.p, v1.p))
            if v0.d.const() != 1:
                comps.append((h, h.dname, ind_bool(h.dname), v0.d, v1.d))
        elif h.kind == 'bool':
            comps.append((h, h.name, ind_bool(h.name), v0.p, v1.p))
        elif h.kind == 'mat':
            rc = hole_rc(v0)
            mp = {n: ZERO for n, x in zip(('ri_', 'ci_'), rc) if x is ZERO}
            z = lambda p: subst(p, mp) if mp else p
            comps.append((h, h.name, app(h.name, *rc, sort=v0.s), z(v0.p), z(v1.p)))
            if v0.d.const() != 1:
                comps.append((h, h.dname, ind_bool(h.dname, *rc), z(v0.d), z(v1.d)))
        elif h.kind == 'arr':
            if v1.size != v0.size:
                raise Unsupported('loop resizes a vector')
            comps.append((h, h.name, app(h.name, RI, sort=v0.s), v0.p, v1.p))
            if v0.d.const() != 1:
                comps.append((h, h.dname, ind_bool(h.dname, RI), v0.d, v1.d))
        elif h.kind == 'dyn':
            pass
    return comps


def close(ex, r, mods, pre, it):
    """solve the components in closed form where possible; returns (sol, pending, comps)"""
    comps = components(mods, r.m, pre)
    ctx = r.s0.ctx()
    sol = dict(pre)
    pending = [c for c in comps if c[1] not in sol]
    prog = True
    while prog:
        prog = False
        for c in list(pending):
            h, nm, hp, x0, F = c
            F2 = fill(F, sol)
            if any(c2[1] != nm and occurs(F2, c2[1]) for c2 in pending):
                continue
            idx = []
            if h.kind == 'mat':
                idx = [ind_le(-RI), ind_le(RI - h.v0.rows + 1), ind_le(-CI), ind_le(CI - h.v0.cols + 1)]
            cx = ctx.extend(*idx)
            F2 = simp(F2, cx)
            x = solve(F2, nm, hp, x0, it, cx)
            if x is None:
                continue
            sol[nm] = x
            pending.remove(c)
            prog = True
    return sol, pending, comps


def finish(ex, st, condf, bodyf, incf, n, count, it, mods, r, sol, pending, comps, ghosted):
    itn = varname(it)
    m, s0 = r.m, r.s0
    exits, bodytr = r.exits, r.bodytr
    havoc = []
    for c in pending:
        h, nm, hp, x0, F = c
        f = 'havoc%d' % next(symex._oid)
        if h.kind in ('num', 'bool'):
            sol[nm] = app(f, it, sort=h.v0.s) if h.kind == 'num' and nm == h.name else ind_bool(f, it)
        elif nm == h.name:
            sol[nm] = app(f, it, RI, CI, sort=h.v0.s)
        else:
            sol[nm] = ind_bool(f, it, RI, CI)
        havoc.append(f)
    if havoc and not ex.quiet:
        ex.notes.add('havoc:%s:%s' % (ex.cur_fn[-1] if ex.cur_fn else '?', n.get('l') if n else '?'))
    for o, h in mods.items():
        if h.kind == 'dyn':
            f = 'havoc%d' % next(symex._oid)
            sol[h.name] = app(f, it, RI, CI, sort=h.v0.s)
            sol[h.name + '.r'] = app(f + '.r', it, sort='I')
            sol[h.name + '.c'] = app(f + '.c', it, sort='I')
            sol[h.dname] = ZERO
    # ---- invariant obligations
    for c in comps:
        h, nm, hp, x0, F = c
        s_ = sol[nm]
        if any(occurs(s_, f) for f in havoc) or nm in DEFN:
            continue
        base = subst(s_, {itn: ZERO}) - x0
        if h.oid in ghosted and nm == h.name:
            step = ghosted[h.oid].step(it) - fill(F, sol)
        else:
            step = peel(subst(s_, {itn: it + 1}), it) - fill(F, sol)
        idx = []
        if h.kind == 'mat':
            idx = [ind_le(-RI), ind_le(RI - h.v0.rows + 1), ind_le(-CI), ind_le(CI - h.v0.cols + 1)]
        sb = st.clone()
        for x in idx:
            sb.assume(x)
        ex.oblige(sb, 'loop invariant established', 'zero', base, n and n.get('l'))
        for hyp in s0.pc[len(st.pc):]:
            sb.assume(fill(hyp, sol))
        ex.oblige(sb, 'loop invariant preserved', 'zero', step, n and n.get('l'))
    ex.loop_log.append((ex.cur_fn[-1] if ex.cur_fn else '?', n.get('l') if n else None, {c[1]: sol[c[1]].key[:300] for c in comps}))

    def at(stt, i):
        """install the solved values at iteration i"""
        mp = {itn: i}
        for o, h in mods.items():
            v0 = h.v0
            v1 = m.heap[o]
            if h.kind == 'stale':
                stt.heap[o] = hole_value(h)
                continue
            if h.kind == 'seq':
                stt.heap[o] = grown[o](i)
                continue
            p = subst(sol[h.name], mp)
            if h.kind == 'dyn':
                # unknown shape and contents (0 iterations: unchanged)
                stt.heap[o] = MatVal(subst(sol[h.name + '.r'], mp), subst(sol[h.name + '.c'], mp), p, ZERO, v0.s)
                continue
            if v0.d.const() != 1 and h.dname in sol:
                d = subst(sol[h.dname], mp)
            else:
                g = fill(v1.d, sol)
                d = ONE
                if g.const() != 1:
                    t = fresh('q')
                    d = ind_forall(varname(t), i, subst(g, {itn: t}))
            if h.kind == 'num':
                stt.heap[o] = Num(p, v0.s, d)
            elif h.kind == 'bool':
                stt.heap[o] = BoolV(p, d)
            elif h.kind == 'mat':
                stt.heap[o] = MatVal(v0.rows, v0.cols, p, d, v0.s)
            elif h.kind == 'arr':
                stt.heap[o] = Arr(v0.size, None, p, d, v0.s, v0.et)
        return stt

    # ---- trip count
    condI = ONE if count is not None else simp(fill(r.cond, sol), st.ctx().extend(ind_le(-it)))
    contI = fill(r.cont, sol)
    rest = ONE
    if count is not None:
        N = count
    else:
        N, rest = trip(condI, it, st)
        if N is None:
            # factor the condition before the solved values mix its conjuncts
            parts = [simp(fill(a, sol), st.ctx().extend(ind_le(-it))) for a, _ in literals(r.cond)]
            for i, q in enumerate(parts):
                N1, rest1 = trip(q, it, st) if len(parts) > 1 else (None, q)
                if N1 is not None:
                    N, rest = N1, rest1
                    for q1 in parts[:i] + parts[i + 1:]:
                        rest = rest * q1
                    break
    has_exit = bool(exits) or rest.const() != 1
    grown = {}
    for o, h in mods.items():
        if h.kind == 'seq':
            grown[o] = grows(ex, h, m.heap[o], sol, itn)
    g = st.clone()
    at(g, it)
    g.assume(ind_le(-it))
    if N is not None:
        g.assume(ind_le(it - N + 1))
    if contI.const() != 1 or rest.const() != 1:
        t = fresh('q')
        g.assume(ind_forall(varname(t), it, subst(contI * rest, {itn: t})))
    if not ex.quiet:
        def one(s_):
            c = condf(s_) if count is None else ONE
            s_.assume(c)
            try:
                bodyf(s_, it)
            except ContinueEx:
                pass
            incf(s_)
        ex.loop_stack.append(it)
        try:
            ex.explore(one, g.clone())
        finally:
            ex.loop_stack.pop()

    def trace_upto(i):
        if bodytr is None:
            return []
        return [('loop', itn, i, [(fill(c, sol), [fill_ev(e, sol) for e in evs]) for c, evs in bodytr])]

    if not has_exit:
        if N is None:
            raise Unsupported('loop without recognisable bound')
        at(st, N)
        if r.fx:
            condf(st)
        simp_state(ex, st, mods)
        st.trace = st.trace + trace_upto(N)
        st.exits = st.exits + [N]
        return
    b = ind_bool('exits!%d' % next(symex._oid))
    if N is not None and ex.choose(st, b):
        t = fresh('q')
        st.assume(ind_forall(varname(t), N, subst(contI * rest, {itn: t})))
        at(st, N)
        if r.fx:
            condf(st)
        simp_state(ex, st, mods)
        st.trace = st.trace + trace_upto(N)
        st.exits = st.exits + [N]
        return
    e = fresh('ex')
    st.assume(ind_le(-e))
    if N is not None:
        st.assume(ind_le(e - N + 1))
    t = fresh('q')
    st.assume(ind_forall(varname(t), e, subst(contI * rest, {itn: t})))
    at(st, e)
    simp_state(ex, st, mods)
    st.trace = st.trace + trace_upto(e)
    st.exits = st.exits + [e]
    if rest.const() != 1:
        b2 = ind_bool('exits!%d' % next(symex._oid))
        if not exits or ex.choose(st, b2):
            st.assume(ONE - (condf(st) if r.fx else subst(rest, {itn: e})))
            return
    c = condf(st) if count is None else ONE
    st.assume(c)
    ex.loop_stack.append(e)
    try:
        bodyf(st, e)
    except ContinueEx:
        raise Infeasible()
    except BreakEx:
        return
    finally:
        ex.loop_stack.pop()
    raise Infeasible()


def fill_ev(e, sol):
    return value_map(e, lambda p: fill(p, sol))


def value_map(e, f):
    """applies f to the polynomials inside an event or a value"""
    import std_conc as sc
    if isinstance(e, Poly):
        return f(e)
    if isinstance(e, tuple):
        return tuple(value_map(x, f) for x in e)
    if isinstance(e, list):
        return [value_map(x, f) for x in e]
    if isinstance(e, sc.Hand):
        return sc.Hand(f(e.p), e.cls, e.info)
    if isinstance(e, sc.Tup):
        return sc.Tup([value_map(x, f) for x in e.items], e.tie)
    if isinstance(e, Num):
        return Num(f(e.p), e.s, f(e.d))
    return e


def grows(ex, h, v1, sol, itn):
    """a list that gets one element per iteration, always at the same end"""
    import std_conc as sc
    ps = v1.parts
    hole = [k for k, p in enumerate(ps) if isinstance(p, sc.Seg) and p.name == h.name and p.hi == V(h.name + '.n') and p.lo == ZERO and p.keep is None]
    if len(ps) != 2 or len(hole) != 1 or isinstance(ps[1 - hole[0]], sc.Seg):
        if h.oid in ex.volatile:
            return lambda n: hole_value(h)      # unknown contents
        raise Unsupported('loop changes a list')
    x = value_map(ps[1 - hole[0]][1], lambda p: fill(p, sol))
    at = lambda i: value_map(x, lambda p: subst(p, {itn: P(i)}))
    if hole[0] == 0:
        return lambda n: sc.SeqV(h.v0.parts + (sc.Seg(ZERO, n, at, None, h.name),))
    return lambda n: sc.SeqV((sc.Seg(ZERO, n, lambda i: at(P(n) - 1 - i), None, h.name),) + h.v0.parts)


def simp_state(ex, st, mods):
    for o, h in mods.items():
        v = st.heap[o]
        if isinstance(v, MatVal):
            w = em.settle(st, Num(v.p, v.s, v.d), (RI, v.rows), (CI, v.cols))
            st.heap[o] = MatVal(v.rows, v.cols, w.p, w.d, v.s)
        elif isinstance(v, (Num, BoolV)):
            st.heap[o] = em.settle(st, v)


def simp_it(x, cx):
    return x


def literals(c):
    """conjuncts of a condition as (poly, p) with p <= 0 equivalent to it, or (poly, None)"""
    s = c.single()
    if s and s[1] == 1 and all(a.kind == 'i' for a, e in s[0]):
        return [(P(a), a.data[1] if a.data[0] == 'le' else None) for a, e in s[0]]
    # factor out literals: c = [a] * c', c = (1-[a]) * c'
    out = []
    for a in p_inds_top(c):
        if a.data[0] != 'le' or len(p_inds_top(c)) > 6:
            continue
        if not set_ind(c, a, 0).t:
            out.append((P(a), a.data[1]))
            c = set_ind(c, a, 1)
        elif not set_ind(c, a, 1).t and a.data[1].is_int():
            out.append((ONE - P(a), ONE - a.data[1]))
            c = set_ind(c, a, 0)
    if c.const() != 1:
        out.append((c, None))
    return out


def trip(c, it, st):
    """split the loop condition into a bound on it and the rest: (N or None, rest)"""
    itn = varname(it)
    N = None
    rest = ONE
    for a, p in literals(c):
        k = p.t.get(((as_atom(it), 1),)) if p is not None and N is None else None
        if k is not None and k > 0:
            r = Poly({m: v for m, v in p.t.items() if m != ((as_atom(it), 1),)})
            if itn not in r.fv:
                # k*it + r <= 0  <=> it <= floor(-r/k)
                if k == 1:
                    N = ONE - r
                else:
                    N = app('idiv', -r, P(k), sort='I') + 1
                    if not st.ctx().entails(ind_le(r)):
                        N = N * ind_le(r)
                continue
        rest = rest * a
    if N is not None:
        if not st.ctx().entails(ind_le(-N)):
            N = N * ind_le(-N)
        return N, rest
    # it != N
    q = ONE - c
    a = as_atom(q)
    if a is not None and a.kind == 'i' and a.data[0] == 'eq':
        p = a.data[1]
        k = p.t.get(((as_atom(it), 1),))
        if k is not None and abs(k) == 1:
            r = Poly({m: -v / k for m, v in p.t.items() if m != ((as_atom(it), 1),)})
            if itn not in r.fv and st.ctx().entails(ind_le(-r)):
                return r, ONE
    return None, c


# ---------------------------------------------------------------- contract sequences

class Ghost:
    """contract-level sequence: at(it) is the coefficient (over RI, CI) at iteration it; step(it) its value at it+1"""

    def __init__(self, name, rows, cols, at, step):
        self.name, self.rows, self.cols, self.at, self.step = name, rows, cols, at, step

    def instances(self, ex):
        return [self]

    def fits(self, h, st):
        if h.kind == 'mat':
            if self.rows is None or h.v0.rows != self.rows or h.v0.cols != self.cols:
                return None
            return st.ctx().extend(ind_le(-RI), ind_le(RI - self.rows + 1), ind_le(-CI), ind_le(CI - self.cols + 1))
        if self.rows is not None:
            return None
        return st.ctx()


class Family:
    """ghost sequence of an inner loop, parametrised by the enclosing iterations"""

    def __init__(self, make):
        self.make = make

    def instances(self, ex):
        out = []
        for it in ex.loop_stack:
            out += self.make(it)
        return out
