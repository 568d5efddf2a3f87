"""Discharging obligations: case splitting + normal form + z3."""
import time
import z3
from terms import *

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'nf': 0, 'z3_proved': 0, 'sign': 0}
FAC = {}       # argmax symbol -> (body over am_, range, parameters)
UPPER = {}     # integer function symbol -> inclusive upper bound of every application (a precondition)
SIGN = {}      # function symbol -> 'pos' | 'nonneg' | 'unit' (in [0,1])
ARGSORT = {}   # function symbol -> tuple of z3 sort chars


def declare(sym, sign=None):
    if sign:
        SIGN[sym] = sign


class Z:
    """translation to z3"""

    def __init__(self):
        self.vars = {}
        self.funcs = {}
        self.side = []     # sign facts
        self.seen = set()
        self.maxima, self.entries = {}, {}

    def var(self, name, sort):
        k = (name, sort)
        if k not in self.vars:
            self.vars[k] = z3.Int(name) if sort == 'I' else z3.Real(name)
        return self.vars[k]

    def poly(self, p):
        terms = []
        isint = p.is_int()
        for m, c in p.t.items():
            x = None
            for a, e in m:
                y = self.atom(a)
                if not isint and z3.is_int(y):
                    y = z3.ToReal(y)
                if e < 0:
                    y = self.opaque('inv ' + a.key, 'R')
                    if sign_atom(a) in ('pos',):
                        self.side.append(y > 0)
                    elif sign_atom(a) in ('nonneg', 'unit'):
                        self.side.append(y >= 0)
                    # y*a = 1 unless a=0
                    ya = self.atom(a)
                    if z3.is_int(ya):
                        ya = z3.ToReal(ya)
                    self.side.append(z3.Implies(ya != 0, y * ya == 1))
                    self.side.append(z3.Implies(ya == 0, y == 0))
                    e = -e
                if isinstance(e, Q) and e.denominator != 1:
                    y = self.opaque('pow %s %s' % (a.key, e), 'R')
                    self.side.append(y > 0)
                    e = 1
                for _ in range(int(e)):
                    x = y if x is None else x * y
            cc = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
            if x is None:
                terms.append(cc)
            elif c == 1:
                terms.append(x)
            else:
                terms.append(cc * x)
        if not terms:
            return z3.IntVal(0) if isint else z3.RealVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    def opaque(self, key, sort):
        return self.var('{' + key + '}', sort)

    def atom(self, a):
        k = a.kind
        if k == 'v':
            return self.var(a.data[0], a.sort)
        if k == 'i':
            return z3.If(self.lit(a), z3.IntVal(1), z3.IntVal(0))
        if k == 'a':
            f, args = a.data
            if 'bi_' in a.fv:
                return self.opaque(a.key, a.sort)      # a function of a whole matrix (bound indices bi_, bj_)
            zargs = [self.poly(x) for x in args]
            srt = tuple('I' if z3.is_int(x) else 'R' for x in zargs)
            fk = (f, srt, a.sort)
            if fk not in self.funcs:
                dom = [z3.IntSort() if s == 'I' else z3.RealSort() for s in srt]
                rng = z3.IntSort() if a.sort == 'I' else z3.RealSort()
                self.funcs[fk] = z3.Function('%s/%s' % (f, ''.join(srt)), *dom, rng) if dom else None
            fn = self.funcs[fk]
            y = fn(*zargs) if fn is not None else self.var(f, a.sort)
            if a.key not in self.seen:
                self.seen.add(a.key)
                self.largest(a, y, zargs)
                s = sign_atom(a)
                if s == 'pos':
                    self.side.append(y > 0)
                elif s in ('nonneg', 'unit'):
                    self.side.append(y >= 0)
                if s == 'unit':
                    self.side.append(y <= 1)
                if f in UPPER:
                    self.side.append(y <= self.poly(UPPER[f]))
                if f == 'abs':
                    x = zargs[0]
                    self.side.append(y == z3.If(x >= 0, x, -x))
                if f == 'trunc':
                    x, yr = zargs[0], z3.ToReal(y) if z3.is_int(y) else y
                    if z3.is_int(x):
                        x = z3.ToReal(x)
                    self.side.append(z3.If(x >= 0, z3.And(yr <= x, x < yr + 1), z3.And(yr - 1 < x, x <= yr)))
            return y
        y = self.opaque(a.key, a.sort)
        if a.key not in self.seen:
            self.seen.add(a.key)
            s = sign_atom(a)
            if s == 'pos':
                self.side.append(y > 0)
            elif s == 'nonneg':
                self.side.append(y >= 0)
            if k == 'q':
                x = self.poly(a.data[0])
                if z3.is_int(x):
                    x = z3.ToReal(x)
                self.side.append(z3.Implies(x != 0, y * x == 1))
                self.side.append(z3.Implies(x == 0, y == 0))
        return y

    def largest(self, a, y, zargs):
        """entries of a vector are at most its entry at the position of the maximum"""
        f = a.data[0]
        if f in FAC:
            b, n, ps = FAC[f]
            nn = self.poly(subst(n, dict(zip(ps, a.data[1]))))
            self.side.append(z3.Implies(nn >= 1, z3.And(y >= 0, y <= nn - 1)))
            e = as_atom(b)
            if e is None or e.kind != 'a' or sum('am_' in x.fv for x in e.data[1]) != 1 or e.data[0] in FAC:
                return
            k = [i for i, x in enumerate(e.data[1]) if 'am_' in x.fv][0]
            if e.data[1][k] != V('am_'):
                return
            mp = dict(zip(ps, a.data[1]))
            g = e.data[0]
            top = self.poly(subst(b, dict(mp, am_=P(a))))
            rest = [self.poly(subst(x, mp)) for i, x in enumerate(e.data[1]) if i != k]
            fact = (k, rest, self.poly(subst(n, mp)), top)
            self.maxima.setdefault(g, []).append(fact)
            for z, v in self.entries.get(g, []):
                self.dominate(fact, z, v)
            return
        self.entries.setdefault(f, []).append((zargs, y))
        for fact in self.maxima.get(f, []):
            self.dominate(fact, zargs, y)

    def dominate(self, fact, z, v):
        k, rest, n, top = fact
        if len(z) != len(rest) + 1 or v.eq(top):
            return
        o = [x for i, x in enumerate(z) if i != k]
        if all(x.eq(r) for x, r in zip(o, rest)):
            self.side.append(z3.Implies(z3.And(z[k] >= 0, z[k] < n), v <= top))

    def lit(self, a):
        op = a.data[0]
        if op == 'eq':
            x = self.poly(a.data[1])
            return x == 0
        if op == 'le':
            return self.poly(a.data[1]) <= 0
        return z3.Bool('{' + a.key + '}')

    def cond(self, p):
        """0/1 polynomial -> z3 Bool"""
        c = p.const()
        if c is not None:
            return z3.BoolVal(c != 0)
        s = p.single()
        if s and s[1] == 1:
            return z3.And([self.lit(a) for a, e in s[0]]) if all(a.kind == 'i' for a, e in s[0]) else self.poly(p) == 1
        q = ONE - p
        s = q.single()
        if s and s[1] == 1 and all(a.kind == 'i' for a, e in s[0]):
            return z3.Not(z3.And([self.lit(a) for a, e in s[0]]))
        return self.poly(p) == 1


def sign_atom(a):
    k = a.kind
    if k == 'E':
        return 'pos'
    if k == 'i':
        return 'unit'
    if k == 'a':
        f = a.data[0]
        if f == 'abs':
            return 'nonneg'
        return SIGN.get(f)
    if k == 'v':
        return SIGN.get(a.data[0])
    if k == 's':
        s = sign_syn(a.data[1])
        return 'nonneg' if s in ('pos', 'nonneg', 'unit', 'zero') else None
    if k == 'p':
        s = sign_syn(a.data[2])
        return 'pos' if s == 'pos' else ('nonneg' if s in ('nonneg', 'unit') else None)
    if k == 'q':
        s = sign_syn(a.data[0])
        return s if s in ('pos', 'nonneg') else None
    return None


def sign_syn(p):
    """'pos' / 'nonneg' / None syntactic sign"""
    if not p.t:
        return 'zero'
    pos = False
    for m, c in p.t.items():
        allpos = c > 0
        neg = c < 0
        if neg:
            return None
        for a, e in m:
            s = sign_atom(a)
            if isinstance(e, int) and e % 2 == 0 and a.kind != 'E':
                if s != 'pos':
                    allpos = False
                continue
            if s is None:
                return None
            if s != 'pos':
                allpos = False
        pos = pos or allpos
    return 'pos' if pos else 'nonneg'


class Ctx:
    def __init__(self, hyps=(), rules=(), parent=None):
        self.hyps = [h for h in hyps]
        self.rules = list(rules)
        self._z = None
        self._solver = None
        self._dec = {}
        self._zfs = None

    def zf(self):
        """products known to be zero: from hypotheses stating that a sum of non-negative products is zero"""
        if self._zfs is None:
            self._zfs = []
            for h in self.hyps:
                s = h.single()
                if s and s[1] == 1 and len(s[0]) == 1 and s[0][0][0].kind == 'i':
                    self._zfs += [z for z in zero_factors(s[0][0][0]) if z[1] and all(f.kind == 'a' for f in z[1])]
        return self._zfs

    def extend(self, *hs):
        c = Ctx(self.hyps + [h for h in hs if h.const() != 1], self.rules)
        return c

    def solver(self):
        if self._solver is None:
            self._z = Z()
            self._solver = z3.Solver()
            self._solver.set('timeout', 3000)
            for h in self.hyps:
                self._solver.add(self._z.cond(h))
        return self._solver, self._z

    def check(self, cond_z, extra_side):
        s, z = self.solver()
        t0 = time.time()
        s.push()
        for x in z.side:
            s.add(x)
        s.add(cond_z)
        r = s.check()
        s.pop()
        STATS['z3_calls'] += 1
        STATS['z3_time'] += time.time() - t0
        return r

    def entails(self, p):
        """hyps |- p (0/1 poly)"""
        c = p.const()
        if c is not None:
            return c == 1 or self.inconsistent()
        k = p.key
        if k in self._dec:
            return self._dec[k]
        # syntactic hit
        for h in self.hyps:
            if h == p:
                self._dec[k] = True
                return True
        s, z = self.solver()
        q = z.cond(p)
        r = self.check(z3.Not(q), None) == z3.unsat
        self._dec[k] = r
        return r

    def sat(self, p):
        s, z = self.solver()
        q = z.cond(p)
        return self.check(q, None) != z3.unsat

    def inconsistent(self):
        if not hasattr(self, '_inc'):
            s, z = self.solver()
            self._inc = self.check(z3.BoolVal(True), None) == z3.unsat
        return self._inc

    def decide(self, atom):
        """decide an indicator atom: 1, 0 or None"""
        k = ('d', atom.key)
        if k in self._dec:
            return self._dec[k]
        r = None
        if atom.data[0] == 'fa':
            v, n, c = atom.data[1:]
            f = fresh('q')
            cc = self.extend(ind_le(-f), ind_le(f - n + 1))
            if cc.entails(simp(subst(c, {v: f}), cc)):
                r = 1
        else:
            if atom.data[0] in ('eq', 'le'):
                p = atom.data[1]
                sg = sign_syn(p)
                if sg == 'pos':
                    r = 0
                elif atom.data[0] == 'le' and sign_syn(-p) in ('pos', 'nonneg', 'zero'):
                    r = 1
                elif atom.data[0] == 'eq' and sign_syn(-p) == 'pos':
                    r = 0
                elif witness_pos(p, self):
                    r = 0
            if r is None:
                s, z = self.solver()
                l = z.lit(atom)
                if self.check(z3.Not(l), None) == z3.unsat:
                    r = 1
                elif self.check(l, None) == z3.unsat:
                    r = 0
        self._dec[k] = r
        return r


WITNESS = []   # callables (sum_atom, ctx) -> bool : the sum is strictly positive


def witness_pos(p, ctx):
    """p a positive multiple of a sum of non-negative terms with a strictly positive one (by a registered rule)"""
    s = p.single()
    if not s or s[1] <= 0:
        return False
    for a, e in s[0]:
        sg = sign_atom(a)
        if sg == 'pos':
            continue
        if a.kind == 's':
            if sum_pos(a, ctx):
                continue
        return False
    return True


def sum_pos(a, ctx):
    """strict positivity of a sum: every term positive and every range non-empty, or a registered witness"""
    rs, body = a.data
    if sign_syn(body) == 'pos':
        if all(ctx.entails(ind_le(ONE - n)) for v, n in rs if not any(n.fv & {w for w, _ in rs} for _ in [0])):
            return True
    for w in WITNESS:
        if w(a, ctx):
            return True
    return False


def simp(p, ctx, depth=0):
    """simplify indicators decidable under ctx (descending into sums)"""
    cache = {}

    def go(p, ctx, d):
        if not p.t:
            return p
        k = (p.key, id(ctx))
        if k in cache:
            return cache[k]
        acc = ZERO
        for m, c in p.t.items():
            r = P(c)
            # indicators first: other factors may assume them
            inds = [a for a, e in m if a.kind == 'i']
            dead = False
            kept = []
            for a in inds:
                v = ctx.decide(a)
                if v == 0:
                    dead = True
                    break
                if v is None:
                    kept.append(a)
            if dead:
                continue
            zk = [z for a in kept for z in zero_factors(a) if z[1] and all(f.kind == 'a' for f in z[1])]
            for rs_, fs_ in zk + ctx.zf():
                if _matches(rs_, fs_, m, ctx):
                    dead = True
                    break
            if dead:
                continue
            for a in kept:
                r = pmul(r, goi(a, ctx, d))
            cx = ctx
            if kept and any(a.kind in ('s', 'p', 'q', 'E', 'a') and (has_ind(a) or zk and a.kind in 'spE') for a, e in m):
                cx = ctx.extend(*[P(a) for a in kept])
                if cx.inconsistent():
                    continue
            for a, e in m:
                if a.kind == 'i':
                    continue
                x = goa(a, cx, d)
                if e != 1:
                    if a.kind == 'E':
                        x = texp(go(a.data[0], cx, d) * P(Q(e)))
                    else:
                        x = x ** int(e)
                r = pmul(r, x)
                if not r.t:
                    break
            acc = acc + r
        cache[k] = acc
        return acc

    def goi(a, ctx, d):
        op = a.data[0]
        if op in ('eq', 'le') and (ctx.rules or has_ind_p(a.data[1]) or as_atom(a.data[1]) is not None):
            q = go(a.data[1], ctx, d)
            if op == 'le' and nonneg_sum(q):
                op = 'eq'
            if op == 'eq':
                q = strip_pos(q)
            r = ind_eq(q) if op == 'eq' else ind_le(q)
            ra = as_atom(r)
            if ra is not None and ra.kind == 'i':
                for rl in ctx.rules:
                    x = rl(ra)
                    if x is not None:
                        return go(x, ctx, d)
            if q != a.data[1] and r.const() is None:
                s = r.single()
                if s and s[1] == 1 and len(s[0]) == 1 and s[0][0][0].kind == 'i':
                    v = ctx.decide(s[0][0][0])
                    if v is not None:
                        return P(v)
            return r
        return P(a)

    def goa(a, ctx, d):
        for rl in ctx.rules:
            r = rl(a)
            if r is not None:
                return go(r, ctx, d)
        if not has_ind(a) and not ctx.rules and not ctx.zf():
            return P(a)
        k = a.kind
        if k == 'v':
            return P(a)
        if k == 'a':
            return mk_app(a.data[0], [go(x, ctx, d) for x in a.data[1]], a.sort)
        if k == 'E':
            return texp(go(a.data[0], ctx, d))
        if k == 'q':
            return inv(go(a.data[0], ctx, d))
        if k == 's':
            nr, b = open_sum(a)
            hy = []
            for v, n in nr:
                hy += [ind_le(-V(v)), ind_le(V(v) - n + 1)]
            cx = ctx.extend(*hy)
            r = go(b, cx, d + 1)
            for v, n in reversed(nr):
                r = mk_sum(v, go(n, ctx, d), r)
            return r
        if k == 'p':
            v, n, b = open_prod(a)
            cx = ctx.extend(ind_le(-V(v)), ind_le(V(v) - n + 1))
            return mk_prod(v, go(n, ctx, d), go(b, cx, d + 1))
        return P(a)
    return go(p, ctx, depth)


_hi = {}


def has_ind(a):
    r = _hi.get(a.key)
    if r is None:
        k = a.kind
        if k == 'i':
            r = True
        elif k == 'v':
            r = False
        elif k == 'a':
            r = any(has_ind_p(x) for x in a.data[1])
        elif k in ('E', 'q'):
            r = has_ind_p(a.data[0])
        elif k == 's':
            r = has_ind_p(a.data[1]) or any(has_ind_p(n) for v, n in a.data[0])
        elif k == 'p':
            r = has_ind_p(a.data[2]) or has_ind_p(a.data[1])
        _hi[a.key] = r
    return r


def has_ind_p(p):
    return any(has_ind(a) for m in p.t for a, e in m)


def eq_rewrite(p, ctx):
    """use equational hypotheses P=0 of ctx to rewrite variables"""
    mp = {}
    for h in ctx.hyps:
        s = h.single()
        if s and s[1] == 1:
            for a, e in s[0]:
                if a.kind == 'i' and a.data[0] == 'eq':
                    sv = solve_var(a.data[1])
                    if sv and sv[0] in p.fv and not (sv[1].fv & set(mp)):
                        mp[sv[0]] = subst(sv[1], mp)
    return subst(p, mp) if mp else p


def eq_case(ctx, a):
    """the case in which literal a holds; an equation solved for a variable is substituted in the hypotheses"""
    sv = solve_var(a.data[1]) if a.data[0] == 'eq' else None
    if sv and any(sv[0] in h.fv for h in ctx.hyps):
        return Ctx([h2 for h2 in (subst(h, {sv[0]: sv[1]}) for h in ctx.hyps) if h2.const() != 1] + [P(a)], ctx.rules)
    return ctx.extend(P(a))


def prove_zero(p, ctx, depth=0, budget=None):
    """True if p=0 follows from ctx"""
    if budget is None:
        budget = [200]
    for _ in range(3):
        q = simp(p, ctx)
        if not q.t:
            STATS['nf'] += 1
            return True
        if q == p:
            break
        p = q
    q = eq_rewrite(p, ctx)
    if q is not p:
        p = simp(q, ctx)
        if not p.t:
            STATS['nf'] += 1
            return True
    if ctx.inconsistent():
        return True
    lits = p_inds_top(p)
    if lits and depth < 8 and budget[0] > 0:
        # prefer literal occurring most
        cnt = {a.key: sum(1 for m in p.t if any(b is a for b, e in m)) for a in lits}
        a = max(lits, key=lambda x: (2 if x.data[0] == 'eq' and solve_var(x.data[1]) else x.data[0] == 'eq', cnt[x.key]))
        budget[0] -= 1
        c1 = eq_case(ctx, a)
        if not c1.inconsistent():
            if not prove_zero(zero_from_sum(reduce_eq(set_ind(p, a, 1), a), a, c1), c1, depth + 1, budget):
                return False
        c0 = ctx.extend(ONE - P(a))
        if not c0.inconsistent():
            if not prove_zero(set_ind(p, a, 0), c0, depth + 1, budget):
                return False
        return True
    # positivity-based: literals inside denominators etc were handled; try z3
    try:
        s, z = ctx.solver()
        x = z.poly(p)
        if ctx.check(x != 0, None) == z3.unsat:
            STATS['z3_proved'] += 1
            return True
    except z3.Z3Exception:
        pass
    if depth < 8 and by_points(p, ctx, depth, budget):
        return True
    if depth == 0:
        q = prune(p, ctx)
        if q != p:
            return prove_zero(q, ctx, 1, budget)
    return False


def merge_sums(p):
    """p as rest + groups {range: (index, body)} of its linear single-range sums (same index for one range)"""
    groups, rest = {}, ZERO
    for m, c in p.t.items():
        ss = [a for a, e in m if a.kind == 's' and e == 1 and len(a.data[0]) == 1]
        if len(ss) != 1 or any(a.kind in 's' and a is not ss[0] for a, e in m):
            rest = rest + Poly({m: c})
            continue
        a = ss[0]
        v, n = a.data[0][0]
        g = groups.setdefault(n.key, [fresh('m'), n, ZERO, 0])
        co = Poly({tuple(x for x in m if x[0] is not a): c})
        g[2] = g[2] + co * subst(a.data[1], {v: g[0]})
        g[3] += 1
    return rest, list(groups.values())


def by_points(p, ctx, depth, budget):
    """sums whose difference vanishes except at single indices: sum_i b(i) = b(e) where b(i) = 0 for i != e"""
    rest, groups = merge_sums(p)
    if not any(g[3] > 1 for g in groups):
        return False
    for i, n, b, k in groups:
        inr = ctx.extend(ind_le(-i), ind_le(i - n + 1))
        if k < 2:
            rest = rest + mk_sum(varname(i), n, b)
            continue
        b = simp(b, inr)
        if prove_zero(b, inr, depth + 2, budget):
            continue
        ok = False
        cands = []
        for a in p_inds_top(b):
            if a.data[0] in ('le', 'eq'):
                q = a.data[1]
                c = q.t.get(((as_atom(i), 1),))
                if c in (1, -1):
                    e = Poly({m: -v / c for m, v in q.t.items() if m != ((as_atom(i), 1),)})
                    if varname(i) not in e.fv:
                        for d in ((0,) if a.data[0] == 'eq' else (0, 1, -1)):
                            if e + d not in cands:
                                cands.append(e + d)
        for e in cands[:6]:
            if not (ctx.entails(ind_le(-e)) and ctx.entails(ind_le(e - n + 1))):
                continue
            ne = inr.extend(ONE - ind_eq(i - e))
            if prove_zero(simp(b, ne), ne, depth + 2, budget):
                rest = rest + subst(b, {varname(i): e})
                ok = True
                break
        if not ok:
            return False
    return prove_zero(rest, ctx, depth + 2, budget)


_zf = {}


def nonneg_sum(p):
    a = as_atom(p)
    return a is not None and a.kind == 's' and sign_syn(p) in ('nonneg', 'pos', 'zero')


def strip_pos(p):
    """[p = 0] for a sum of non-negative products does not depend on their strictly positive factors"""
    a = as_atom(p)
    if a is None or a.kind != 's':
        return p
    nr, b = open_sum(a)
    sb = b.single()
    if not sb or sb[1] <= 0:
        return p
    keep = ONE
    for y, e in sb[0]:
        s = sign_atom(y)
        if s == 'pos':
            continue
        if s not in ('nonneg', 'unit') and y.kind != 'i':
            return p
        keep = keep * P(y) ** int(e) if e > 0 else None
        if keep is None:
            return p
    if keep.const() is not None:
        return p
    for v, n in reversed(nr):
        keep = mk_sum(v, n, keep)
    return keep


def zero_factors(a):
    r = _zf.get(a.key)
    if r is None:
        r = _zf[a.key] = zero_factors_(a)
    return r


def zero_factors_(a):
    """for the literal [S=0], S a positive multiple of a sum of non-negative products: list of (ranges, factors) such that
    every instance of the product of the factors is zero"""
    if a.data[0] not in ('eq', 'le'):
        return []
    q = a.data[1]
    out = []
    for m, c in q.t.items():
        if c <= 0:
            return []
        rs, fs = [], []
        for x, e in m:
            sg = sign_atom(x)
            if x.kind == 's':
                nr, b = open_sum(x)
                sb = b.single()
                if not sb or sb[1] <= 0 or e != 1:
                    return []
                rs += nr
                for y, e2 in sb[0]:
                    s2 = sign_atom(y)
                    if s2 == 'pos':
                        continue
                    if s2 not in ('nonneg', 'unit') and y.kind != 'i':
                        return []
                    fs.append(y)
            elif sg == 'pos':
                continue
            elif sg in ('nonneg', 'unit') or x.kind == 'i':
                fs.append(x)
            else:
                return []
        out.append((rs, fs))
    return out


def zero_from_sum(p, a, ctx):
    """drop monomials of p that vanish because a sum of non-negative terms is zero (literal a)"""
    zf = [z for z in zero_factors(a) if len(z[1]) >= 1 and all(f.kind == 'a' for f in z[1])]
    if not zf:
        return p
    acc = {}
    for m, c in p.t.items():
        if not any(_matches(rs, fs, m, ctx) for rs, fs in zf):
            acc[m] = c
    return p if len(acc) == len(p.t) else Poly(acc)


def _matches(rs, fs, m, ctx):
    names = [v for v, n in rs]

    def rec(i, env):
        if i == len(fs):
            for v, n in rs:
                if v not in env:
                    return False
                if not (ctx.entails(ind_le(-env[v])) and ctx.entails(ind_le(env[v] - subst(n, env) + 1))):
                    return False
            return True
        f = fs[i]
        for x, e in m:
            if x.kind != 'a' or x.data[0] != f.data[0] or len(x.data[1]) != len(f.data[1]) or e <= 0:
                continue
            env2 = dict(env)
            ok = True
            for pa, xa in zip(f.data[1], x.data[1]):
                at = as_atom(pa)
                if at is not None and at.kind == 'v' and at.data[0] in names:
                    v = at.data[0]
                    if v in env2:
                        ok = env2[v] == xa
                    else:
                        env2[v] = xa
                else:
                    fv = [v for v in names if v in pa.fv and v not in env2]
                    if len(fv) == 1:
                        va = as_atom(V(fv[0]))
                        if pa.t.get(((va, 1),)) == 1:
                            r_ = Poly({m_: c_ for m_, c_ in pa.t.items() if m_ != ((va, 1),)})
                            if fv[0] not in r_.fv:
                                env2[fv[0]] = xa - subst(r_, env2)
                    ok = subst(pa, env2) == xa
                if not ok:
                    break
            if ok and rec(i + 1, env2):
                return True
        return False
    return rec(0, {})


def reduce_eq(p, a):
    if a.data[0] != 'eq':
        return p
    r = pmul(P(a), p)
    return set_ind(r, a, 1)


def prove_nonneg(p, ctx, strict=False, depth=0):
    p = simp(p, ctx)
    s = sign_syn(p)
    if s == 'pos' or (not strict and s in ('nonneg', 'zero')):
        STATS['sign'] += 1
        return True
    if ctx.inconsistent():
        return True
    if strict and witness_pos(p, ctx):
        return True
    if strict and depth < 2 and counted_pos(p, ctx, depth):
        return True
    if strict and depth < 6 and pos_product(p, ctx, depth):
        STATS['sign'] += 1
        return True
    if depth < 4:
        rest, groups = merge_sums(p)
        if any(g[3] > 1 for g in groups) and sign_syn(rest) in (('pos',) if strict else ('pos', 'nonneg', 'zero')) and \
                all(prove_nonneg(b, ctx.extend(ind_le(-i), ind_le(i - n + 1)), False, depth + 2) for i, n, b, k in groups):
            return True
    lits = p_inds_top(p)
    if lits and depth < 8:
        a = lits[0]
        c1 = ctx.extend(P(a))
        ok = c1.inconsistent() or prove_nonneg(reduce_eq(set_ind(p, a, 1), a), c1, strict, depth + 1)
        if not ok:
            return False
        c0 = ctx.extend(ONE - P(a))
        return c0.inconsistent() or prove_nonneg(set_ind(p, a, 0), c0, strict, depth + 1)
    s_, z = ctx.solver()
    x = z.poly(p)
    if ctx.check(x <= 0 if strict else x < 0, None) == z3.unsat:
        STATS['z3_proved'] += 1
        return True
    return False


def counted_pos(p, ctx, depth):
    """a sum over one range of non-negative terms, one of which is positive at a known index"""
    rest, groups = merge_sums(p)
    if len(groups) != 1:
        return False
    i, n, b, k = groups[0]
    if rest.t:
        # c*n is the sum of c over the range
        sn = n.single()
        m = n.single()[0] if sn and sn[1] == 1 else None
        if m is None or set(rest.t) != {m}:
            return False
        b = b + P(rest.t[m])
    if not prove_nonneg(b, ctx.extend(ind_le(-i), ind_le(i - n + 1)), False, depth + 2):
        return False
    ws = set()
    for h in ctx.hyps:
        ws |= {a.data[0] for a in collect(h, lambda a: a.kind == 'v' and a.sort == 'I').values()}
    for w in sorted(ws - n.fv):
        w = V(w)
        if ctx.entails(ind_le(-w) * ind_le(w - n + 1)) and prove_nonneg(subst(b, {varname(i): w}), ctx, True, depth + 2):
            return True
    return False


def prune(p, ctx):
    """drops the terms of sums whose conditions contradict each other"""
    out = ZERO
    for m, c in p.t.items():
        r = P(c)
        for a, e in m:
            x = P(a)
            if a.kind == 's' and e == 1:
                cx, mp = ctx, {}
                rs, b = open_sum(a)
                for v, n in rs:
                    cx = cx.extend(ind_le(-V(v)), ind_le(V(v) - n + 1))
                keep = {}
                for m2, c2 in b.t.items():
                    inds = [y for y, f in m2 if y.kind == 'i']
                    if len(inds) > 1 and cx.extend(*[P(y) for y in inds]).inconsistent():
                        continue
                    keep[m2] = c2
                if len(keep) != len(b.t):
                    x = Poly(keep)
                    for v, n in reversed(rs):
                        x = mk_sum(v, n, x)
                    r = r * x
                    continue
            r = r * Poly({((a, e),): ONEQ})
        out = out + r
    return out


def pos_product(p, ctx, depth):
    """one product whose factors are all strictly positive"""
    s = p.single()
    if not s or s[1] <= 0:
        return False
    for a, e in s[0]:
        g = sign_atom(a)
        if g == 'pos' or a.kind == 'i' and ctx.entails(P(a)):
            continue
        if a.kind == 'p':
            v = fresh('w')
            b = subst(a.data[2], {a.data[0]: v})
            if prove_nonneg(b, ctx.extend(ind_le(-v), ind_le(v - a.data[1] + 1)), True, depth + 1):
                continue
            return False
        if g not in ('nonneg', 'unit'):
            return False
        z = simp(ind_eq(strip_pos(P(a))), ctx)
        if z.const() != 0 and not ctx.entails(ONE - z):
            return False
    return bool(s[0])


def prove_cond(p, ctx):
    """prove a 0/1 polynomial equals 1"""
    p = simp(p, ctx)
    if p.const() == 1:
        STATS['nf'] += 1
        return True
    if ctx.entails(p):
        STATS['z3_proved'] += 1
        return True
    a = as_atom(p)
    if a is not None and a.kind == 'i' and a.data[0] == 'fa':
        v, n, c = a.data[1:]
        k = fresh('w')
        return prove_cond(subst(c, {v: k}), ctx.extend(ind_le(-k), ind_le(k - n + 1)))
    e = as_atom(ONE - p)
    if e is not None and e.kind == 'i' and e.data[0] == 'eq' and (prove_nonneg(e.data[1], ctx, True) or prove_nonneg(-e.data[1], ctx, True)):
        return True
    return prove_zero(ONE - p, ctx)
