"""Terms and their normal form.

Scalar terms are polynomials (finite maps monomial -> rational coefficient)
over interned atoms, with integer exponents (rational for exp atoms).
Semantics is total: 1/0 = 0 (definedness is tracked separately by the VC
generator).  Atoms:

  v  variable (integer or real)
  a  application of a function symbol (matrix entry, log, digamma, ...)
  i  Iverson indicator of a literal  P=0  or  P<=0  (or an opaque boolean)
  s  multi-index finite sum of a monomial
  p  finite product
  E  exp of a monic monomial
  q  1/P for a non-monomial P

All simplifications below are identities of the reals under this semantics
(exp(log x)=x additionally assumes x>0, which is part of the definedness of
log).  Ranges of sums and products are [0,n) with n>=0.
"""
from fractions import Fraction as Q
import itertools, math

ZEROQ, ONEQ = Q(0), Q(1)
_atoms = {}
_fresh = itertools.count()


class Unsupported(Exception):
    pass


class Atom:
    __slots__ = ('kind', 'data', 'key', 'fv', 'bd', 'sort')

    def __repr__(self):
        return self.key


def _mk(kind, data, key, fv, bd, sort):
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.data, a.key, a.fv, a.bd, a.sort = kind, data, key, fv, bd, sort
        _atoms[key] = a
    return a


class Poly:
    __slots__ = ('t', '_key', '_fv', '_bd')

    def __init__(self, t):
        self.t = t
        self._key = None
        self._fv = None
        self._bd = None

    @property
    def key(self):
        if self._key is None:
            parts = []
            for m in sorted(self.t, key=mono_key):
                c = self.t[m]
                mk = mono_key(m)
                if not m:
                    parts.append(str(c))
                elif c == 1:
                    parts.append(mk)
                elif c == -1:
                    parts.append('-' + mk)
                else:
                    parts.append(str(c) + '*' + mk)
            self._key = '+'.join(parts) if parts else '0'
        return self._key

    @property
    def fv(self):
        if self._fv is None:
            s = frozenset()
            for m in self.t:
                for a, e in m:
                    s = s | a.fv
            self._fv = s
        return self._fv

    @property
    def bd(self):
        if self._bd is None:
            b = -1
            for m in self.t:
                for a, e in m:
                    if a.bd > b:
                        b = a.bd
            self._bd = b
        return self._bd

    def __repr__(self):
        return self.key

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(self.key)

    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v:
                    t[m] = v
                else:
                    del t[m]
        return Poly(t)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        return pmul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * inv(self)

    def __pow__(self, n):
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        if not self.t:
            return ZEROQ
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def is_int(self):
        """syntactically integer valued"""
        for m, c in self.t.items():
            if c.denominator != 1:
                return False
            for a, e in m:
                if a.sort != 'I' or e < 0:
                    return False
        return True

    def is_zero(self):
        return not self.t

    def single(self):
        """(mono, coef) if single monomial"""
        if len(self.t) == 1:
            return next(iter(self.t.items()))
        return None


_mk_cache = {}


def mono_key(m):
    k = _mk_cache.get(m)
    if k is None:
        ps = []
        for a, e in m:
            ps.append(a.key if e == 1 else '%s^%s' % (a.key, e))
        k = '*'.join(ps)
        _mk_cache[m] = k
    return k


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x, 1),): ONEQ})
    if isinstance(x, float):
        x = Q(x)
    x = Q(x)
    return Poly({(): x}) if x else ZERO


ZERO = Poly({})
ONE = Poly({(): ONEQ})


def V(name, sort='I'):
    return P(_mk('v', (name,), name + (':' if sort == 'R' else ''), frozenset([name]), -1, sort))


def fresh(prefix, sort='I'):
    return V('%s!%d' % (prefix, next(_fresh)), sort)


def varname(p):
    (m, c), = p.t.items()
    (a, e), = m
    assert a.kind == 'v' and c == 1 and e == 1
    return a.data[0]


def as_var(p):
    s = p.single()
    if s and s[1] == 1 and len(s[0]) == 1 and s[0][0][1] == 1 and s[0][0][0].kind == 'v':
        return s[0][0][0]
    return None


def as_atom(p):
    s = p.single()
    if s and s[1] == 1 and len(s[0]) == 1 and s[0][0][1] == 1:
        return s[0][0][0]
    return None


def app(f, *args, sort='R'):
    args = tuple(P(a) for a in args)
    key = f + '(' + ','.join(a.key for a in args) + ')'
    fv = frozenset().union(*[a.fv for a in args]) if args else frozenset()
    bd = max([a.bd for a in args], default=-1)
    return P(_mk('a', (f, args), key, fv, bd, sort))


# ------------------------------------------------------------------ monomials

def _norm_atoms(d):
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].key))


_mul_cache = {}


def mmul(m1, m2):
    """product of two monomials as a Poly"""
    if not m1:
        return Poly({m2: ONEQ})
    if not m2:
        return Poly({m1: ONEQ})
    ck = (m1, m2)
    r = _mul_cache.get(ck)
    if r is not None:
        return r
    d = dict(m1)
    extra = []
    for a, e in m2:
        if a in d:
            if a.kind == 'i':
                d[a] = 1
                continue
            s = d[a] + e
            if s == 0 and a.kind != 'E':
                # x^e * x^-e = 1-[x=0]
                del d[a]
                extra.append(a)
            elif s == 0:
                del d[a]
            else:
                d[a] = s
        else:
            d[a] = e
    r = mono_simplify(d)
    for a in extra:
        r = r * (ONE - ind_eq(P(a)))
    _mul_cache[ck] = r
    return r


def mono_simplify(d):
    """apply indicator / inverse rewriting to one monomial (dict atom->exp)"""
    inds = [a for a in d if a.kind == 'i']
    for a in inds:
        op = a.data[0]
        if op == 'eq':
            p = a.data[1]
            sv = solve_var(p)
            if sv is not None:
                name, val = sv
                others = {b: e for b, e in d.items() if b is not a}
                if any(name in b.fv for b in others):
                    r = P(a)
                    for b, e in others.items():
                        r = pmul(r, subst_atom_pow(b, e, {name: val}))
                    return r
                continue
            lm, lc = leading(p)
            if lm and _divides(lm, d):
                # [P=0]*LM = -[P=0]*(P-LM)/lc
                q = dict(d)
                for b, e in lm:
                    q[b] = q[b] - e
                    if q[b] == 0:
                        del q[b]
                rest = Poly({m: -c / lc for m, c in p.t.items() if m != lm})
                if not rest.t:
                    return ZERO
                return pmul(mono_simplify(q), rest)
            # single positive-power monomial p=m : [m=0]*m^-1 = 0
            s = p.single()
            if s and len(s[0]) == 1 and s[0][0][0] in d and d[s[0][0][0]] < 0:
                return ZERO
            qk = 'inv{' + p.key + '}'
            qa = _atoms.get(qk)
            if qa is not None and qa in d:
                return ZERO
    for a in d:
        if a.kind == 'q':
            p = a.data[0]
            lm, lc = leading(p)
            if lm and _divides(lm, d) and d[a] > 0:
                q = dict(d)
                for b, e in lm:
                    q[b] = q[b] - e
                    if q[b] == 0:
                        del q[b]
                # LM/P = (1-[P=0]) /lc - (P-LM)/P
                rest = Poly({m: -c / lc for m, c in p.t.items() if m != lm})
                base = mono_simplify(q)
                if d[a] == 1:
                    q2 = dict(q)
                    del q2[a]
                    first = pmul(pmul(mono_simplify(q2), ONE - ind_eq(p)), P(Q(1) / lc))
                else:
                    q2 = dict(q)
                    q2[a] = d[a] - 1
                    first = pmul(mono_simplify(q2), P(Q(1) / lc))
                return first + pmul(base, rest)
    return Poly({_norm_atoms(d): ONEQ})


def _divides(m, d):
    for a, e in m:
        if a.kind == 'E':
            if d.get(a) != e and not (d.get(a, 0) >= e > 0):
                return False
        elif e < 0 or d.get(a, 0) < e:
            return False
    return True


def leading(p):
    best = None
    for m in p.t:
        if best is None or _mord(m) > _mord(best):
            best = m
    return best, p.t[best]


def _mord(m):
    return (sum(abs(e) for a, e in m if a.kind != 'i'), mono_key(m))


def solve_var(p):
    """P = c*(v - t) with v an integer variable not in t -> (name,t)"""
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'v' and abs(c) == 1 and m[0][0].sort == 'I':
            n = m[0][0].data[0]
            ok = True
            for m2 in p.t:
                if m2 is not m and m2 != m:
                    for a, e in m2:
                        if n in a.fv:
                            ok = False
            if ok and (best is None or _vprio(n) > _vprio(best[0])):
                best = (n, m, c)
    if best is None:
        return None
    n, m, c = best
    rest = Poly({k: -v / c for k, v in p.t.items() if k != m})
    if not rest.is_int():
        return None
    return n, rest


def _vprio(n):
    # prefer eliminating bound / fresh index variables over named ones
    return (n.startswith('#'), '!' in n, n)


_pm_cache = {}


def pmul(p, q):
    if not p.t or not q.t:
        return ZERO
    if len(p.t) == 1 and () in p.t:
        c = p.t[()]
        if c == 1:
            return q
        return Poly({m: v * c for m, v in q.t.items()})
    if len(q.t) == 1 and () in q.t:
        return pmul(q, p)
    acc = {}
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            c = c1 * c2
            r = mmul(m1, m2)
            for m, v in r.t.items():
                s = acc.get(m, ZEROQ) + v * c
                if s:
                    acc[m] = s
                elif m in acc:
                    del acc[m]
    return Poly(acc)


def inv(p):
    p = P(p)
    c = p.const()
    if c is not None:
        if c == 0:
            return ZERO
        return P(Q(1) / c)
    s = p.single()
    if s:
        m, c = s
        d = {}
        for a, e in m:
            if a.kind == 'i':
                d[a] = 1
            elif a.kind == 'q':
                # 1/(1/P)^e = P^e  (total semantics: inv(inv x)=x)
                continue
            else:
                d[a] = -e
        r = pmul(mono_simplify(d), P(Q(1) / c))
        for a, e in m:
            if a.kind == 'q':
                r = r * (a.data[0] ** int(e))
        return r
    # common monomial factor
    cm = None
    for m in p.t:
        dm = {a: e for a, e in m if a.kind != 'i'}
        if cm is None:
            cm = dm
        else:
            cm = {a: (min(e, dm[a]) if e > 0 else max(e, dm[a])) for a, e in cm.items()
                  if a in dm and (dm[a] > 0) == (e > 0)}
    if cm:
        rest = {}
        for m, c in p.t.items():
            d = dict(m)
            for a, e in cm.items():
                d[a] -= e
                if d[a] == 0:
                    del d[a]
            k = _norm_atoms(d)
            rest[k] = rest.get(k, 0) + c
        # x^e factored out is exact except possibly at x=0 for negative powers: there p itself is 0*..; guard
        if all(e > 0 or a.kind == 'E' for a, e in cm.items()):
            return pmul(mono_simplify({a: -e for a, e in cm.items()}), inv(Poly(rest)))
    lits = p_inds_top(p)
    if lits and len(lits) <= 6:
        a = lits[0]
        return P(a) * inv(set_ind(p, a, 1)) + (ONE - P(a)) * inv(set_ind(p, a, 0))
    lm, lc = leading(p)
    pn = Poly({m: c / lc for m, c in p.t.items()})
    a = _mk('q', (pn,), 'inv{' + pn.key + '}', pn.fv, pn.bd, 'R')
    return Poly({((a, 1),): Q(1) / lc})


def p_inds_top(p):
    s = {}
    for m in p.t:
        for a, e in m:
            if a.kind == 'i':
                s[a.key] = a
    return [s[k] for k in sorted(s)]


def set_ind(p, atom, val):
    """replace top-level indicator atom by 0/1"""
    acc = {}
    for m, c in p.t.items():
        if any(a is atom for a, e in m):
            if not val:
                continue
            m = tuple((a, e) for a, e in m if a is not atom)
        s = acc.get(m, ZEROQ) + c
        if s:
            acc[m] = s
        elif m in acc:
            del acc[m]
    return Poly(acc)


# ------------------------------------------------------------------ indicators

def _scale_lead(p, positive_only):
    lm, lc = leading(p)
    if positive_only:
        k = abs(lc)
    else:
        k = lc
    if k == 1:
        return p
    return Poly({m: c / k for m, c in p.t.items()})


def _prim(p):
    """positive scaling to a primitive integer polynomial when possible (keeps int-ness)"""
    from math import gcd
    den = 1
    for c in p.t.values():
        den = den * c.denominator // gcd(den, c.denominator)
    num = 0
    for c in p.t.values():
        num = gcd(num, abs(int(c * den)))
    k = Q(den, num)
    if k == 1:
        return p
    return Poly({m: c * k for m, c in p.t.items()})


def ind_eq(p):
    """[p = 0]"""
    p = P(p)
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    p = _prim(p)
    # integer poly with non-divisible constant etc: skip
    s = p.single()
    if s:
        m, c = s
        # product = 0 iff one factor = 0  (exp factors never)
        fs = [(a, e) for a, e in m if a.kind not in ('E',)]
        if len(fs) < len(m) or len(fs) > 1 or any(e != 1 for a, e in fs) or c != 1:
            r = ONE
            for a, e in fs:
                if a.kind == 'q':
                    r = r * (ONE - ind_eq(a.data[0]))
                elif a.kind == 'i':
                    r = r * P(a)
                else:
                    r = r * (ONE - ind_eq(P(a)))
            return ONE - r
        a = fs[0][0]
        if a.kind == 'i':
            return ONE - P(a)
        if a.kind == 'q':
            return ind_eq(a.data[0])
    lits = p_inds_top(p)
    if lits:
        a = lits[0]
        return P(a) * ind_eq(set_ind(p, a, 1)) + (ONE - P(a)) * ind_eq(set_ind(p, a, 0))
    # common exp factors / E-normalisation: divide by common E factor
    p = _strip_E(p)
    lm, lc = leading(p)
    if lc < 0:
        p = -p
    p = _prim(p)
    return P(_mk('i', ('eq', p), '[' + p.key + '=0]', p.fv, p.bd, 'I'))


def _strip_E(p):
    cm = None
    for m in p.t:
        dm = {a: e for a, e in m if a.kind == 'E'}
        if cm is None:
            cm = dm
        else:
            cm = {a: e for a, e in cm.items() if dm.get(a) == e}
        if not cm:
            return p
    t = {}
    for m, c in p.t.items():
        d = dict(m)
        for a in cm:
            del d[a]
        t[_norm_atoms(d)] = c
    return Poly(t)


def ind_le(p):
    """[p <= 0]"""
    p = P(p)
    c = p.const()
    if c is not None:
        return ONE if c <= 0 else ZERO
    lits = p_inds_top(p)
    if lits:
        a = lits[0]
        return P(a) * ind_le(set_ind(p, a, 1)) + (ONE - P(a)) * ind_le(set_ind(p, a, 0))
    p = _prim(_strip_E(p))
    if p.is_int():
        # tighten constants when all other coefs share a gcd
        from math import gcd
        g = 0
        for m, c in p.t.items():
            if m:
                g = gcd(g, abs(int(c)))
        if g > 1:
            k = p.t.get((), ZEROQ)
            # g*r + k <= 0  <=> r <= floor(-k/g) <=> r + ceil(k/g) <= 0
            t = {m: c / g for m, c in p.t.items() if m}
            kk = -((-int(k)) // g)
            if kk:
                t[()] = Q(kk)
            p = Poly(t)
        lm, lc = leading(Poly({m: c for m, c in p.t.items() if m}))
        if lc < 0:
            # p<=0  <=> not (p>=1) <=> not (1-p<=0)
            return ONE - ind_le_raw(ONE - p)
        return ind_le_raw(p)
    s = p.single()
    if s and len(s[0]) == 1 and s[0][0][0].kind == 'E':
        return ONE if s[1] <= 0 else ZERO
    lm, lc = leading(p)
    if lc < 0:
        q = -p   # q>=0 : 1-[q<=0]+[q=0]
        return ONE - ind_le_raw(q) + ind_eq(q)
    return ind_le_raw(p)


def ind_le_raw(p):
    return P(_mk('i', ('le', p), '[' + p.key + '<=0]', p.fv, p.bd, 'I'))


def ind_bool(name, *args):
    """opaque boolean symbol as an indicator"""
    args = tuple(P(a) for a in args)
    key = '[?' + name + '(' + ','.join(a.key for a in args) + ')]'
    fv = frozenset().union(*[a.fv for a in args]) if args else frozenset()
    return P(_mk('i', ('b', name, args), key, fv, max([a.bd for a in args], default=-1), 'I'))


def ind_forall(v, n, c):
    """[for all v in [0,n): c]  where c is a 0/1 polynomial"""
    if c.const() is not None:
        if c.const() == 1:
            return ONE
        return ind_le(P(n))
    if v not in c.fv:
        # n<=0 or c
        e = ind_le(P(n))
        return e + (ONE - e) * c
    k = max(c.bd, P(n).bd) + 1
    b = V('#%d' % k)
    body = subst(c, {v: b})
    fv = (body.fv - {'#%d' % k}) | P(n).fv
    key = '[forall #%d<%s:%s]' % (k, P(n).key, body.key)
    return P(_mk('i', ('fa', '#%d' % k, P(n), body), key, fv, k, 'I'))


# ------------------------------------------------------------------ exp

def texp(p):
    p = P(p)
    r = ONE
    for m, c in p.t.items():
        inds = [a for a, e in m if a.kind == 'i']
        if inds:
            rest = tuple((a, e) for a, e in m if a.kind != 'i')
            prod = ONE
            for a in inds:
                prod = prod * P(a)
            r = r * (prod * texp(Poly({rest: c})) + (ONE - prod))
            continue
        r = r * _E(m, c)
    return r


def _E(m, c):
    if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'a' and m[0][0].data[0] == 'log' and c.denominator == 1:
        x = m[0][0].data[1][0]
        return x ** int(c)
    mk = mono_key(m)
    a = _mk('E', (Poly({m: ONEQ}),), 'exp{' + (mk or '1') + '}',
            frozenset().union(*[x.fv for x, e in m]) if m else frozenset(),
            max([x.bd for x, e in m], default=-1), 'R')
    return Poly({((a, int(c) if c.denominator == 1 else c),): ONEQ})


def tlog(p):
    p = P(p)
    c = p.const()
    if c == 1:
        return ZERO
    lits = p_inds_top(p)
    if lits:
        a = lits[0]
        return P(a) * tlog(set_ind(p, a, 1)) + (ONE - P(a)) * tlog(set_ind(p, a, 0))
    s = p.single()
    if s and s[1] == 1:
        # log of a product of exps splits; log of other products is left alone
        es = [(a, e) for a, e in s[0] if a.kind == 'E']
        if es:
            rest = tuple((a, e) for a, e in s[0] if a.kind != 'E')
            r = ZERO
            for a, e in es:
                r = r + a.data[0] * P(Q(e))
            if rest:
                r = r + tlog(Poly({rest: ONEQ}))
            return r
        if len(s[0]) == 1 and s[0][0][1] != 1:
            return P(Q(s[0][0][1])) * app('log', P(s[0][0][0]))
        if len(s[0]) > 1:
            # log(xy)=log x+log y for positive factors; split canonical (definedness: all >0)
            r = ZERO
            ok = True
            for a, e in s[0]:
                if a.kind in ('s', 'a', 'v', 'p', 'q') and e == int(e):
                    r = r + P(Q(e)) * (app('log', P(a)) if a.kind != 'q' else -tlog(a.data[0]))
                else:
                    ok = False
            if ok:
                return r
    if len(p.t) > 1:
        q = _strip_E(p)
        if q is not p and q != p:
            # log(E*q) = log E + log q
            m0 = next(iter(p.t))
            # recover common factor
            common = None
            for m in p.t:
                dm = {a: e for a, e in m if a.kind == 'E'}
                common = dm if common is None else {a: e for a, e in common.items() if dm.get(a) == e}
            r = tlog(q)
            for a, e in common.items():
                r = r + a.data[0] * P(Q(e))
            return r
    return app('log', p)


# ------------------------------------------------------------------ sums

def mk_sum(v, n, body):
    """sum over v in [0,n) of body (v: variable name)"""
    body = P(body)
    n = P(n)
    if not body.t:
        return ZERO
    cn = n.const()
    if cn is not None and cn.denominator == 1 and cn <= 8:
        r = ZERO
        for k in range(int(cn)):
            r = r + subst(body, {v: P(k)})
        return r
    # split "iteration variable + constant" bounds
    k = n.t.get((), ZEROQ)
    if k and k.denominator == 1 and k > 0:
        base = n - P(k)
        bv = as_var(base)
        if bv is not None and bv.data[0].startswith('it!'):
            r = mk_sum(v, base, body)
            for d in range(int(k)):
                r = r + subst(body, {v: base + d})
            return r
    r = ZERO
    for m, c in body.t.items():
        r = r + P(c) * _sum_mono(((v, n),), Poly({m: ONEQ}))
    return r


def _sum_mono(ranges, body):
    """sum over all ranges of a poly body; returns Poly"""
    if not body.t:
        return ZERO
    if len(body.t) > 1:
        r = ZERO
        for m, c in body.t.items():
            r = r + P(c) * _sum_mono(ranges, Poly({m: ONEQ}))
        return r
    (m, c), = body.t.items()
    if c != 1:
        return P(c) * _sum_mono(ranges, Poly({m: ONEQ}))
    names = {v for v, n in ranges}
    rng = dict(ranges)
    # independent part
    indep = tuple((a, e) for a, e in m if not (a.fv & names))
    dep = [(a, e) for a, e in m if (a.fv & names)]
    out = Poly({indep: ONEQ})
    # open nested sums
    for idx, (a, e) in enumerate(dep):
        if a.kind == 's' and e > 0:
            rs, b = a.data
            if any(n.fv & names for _, n in rs):
                continue
            rest = dep[:idx] + ([(a, e - 1)] if e > 1 else []) + dep[idx + 1:]
            nr, b2 = open_sum(a)
            prod = b2
            prod = pmul(prod, Poly({tuple(rest): ONEQ}) if not rest else _from_list(rest))
            return out * _sum_mono(tuple(ranges) + tuple(nr), prod)
    # unused binders
    used = set()
    for a, e in dep:
        used |= (a.fv & names)
    for v, n in ranges:
        used |= (n.fv & names)
    un = [v for v, n in ranges if v not in used]
    if un:
        for v in un:
            out = out * rng[v]
        ranges = tuple((v, n) for v, n in ranges if v not in un)
        if not ranges:
            return out * _from_list(dep)
        return out * _sum_mono(ranges, _from_list(dep))
    # delta elimination
    for idx, (a, e) in enumerate(dep):
        if a.kind == 'i' and a.data[0] == 'eq':
            for v in sorted(names & a.fv, key=_vprio):
                t = _solve_for(a.data[1], v)
                if t is not None and not any(v in n.fv for _, n in ranges):
                    rest = _from_list(dep[:idx] + dep[idx + 1:])
                    rest = subst(rest, {v: t})
                    rest = rest * ind_le(-t) * ind_le(t - rng[v] + 1)
                    nr = tuple((w, n) for w, n in ranges if w != v)
                    if not nr:
                        return out * rest
                    return out * _sum_mono(nr, rest)
    # components
    comps = []
    items = [(set(a.fv & names), ('f', (a, e))) for a, e in dep] + \
            [({v} | (n.fv & names), ('r', (v, n))) for v, n in ranges]
    for vs, it in items:
        hit = [cpt for cpt in comps if cpt[0] & vs]
        merged = [set(vs), [it]]
        for h in hit:
            merged[0] |= h[0]
            merged[1] = h[1] + merged[1]
            comps.remove(h)
        comps.append(merged)
    for vs, its in comps:
        fs = [x for k, x in its if k == 'f']
        rs = [x for k, x in its if k == 'r']
        out = out * _sum_atom(rs, fs)
    return out


def _from_list(fs):
    r = ONE
    d = {}
    for a, e in fs:
        d[a] = d.get(a, 0) + e
    return mono_simplify(d)


def _solve_for(p, v):
    cv = None
    for m, c in p.t.items():
        for a, e in m:
            if v in a.fv:
                if len(m) == 1 and a.kind == 'v' and e == 1 and abs(c) == 1 and cv is None:
                    cv = (m, c)
                else:
                    return None
    if cv is None:
        return None
    m, c = cv
    t = Poly({k: -x / c for k, x in p.t.items() if k != m})
    if not t.is_int():
        return None
    return t


def _sum_atom(rs, fs):
    """canonical Sum atom over connected component"""
    bd = -1
    for a, e in fs:
        bd = max(bd, a.bd)
    for v, n in rs:
        bd = max(bd, n.bd)
    k0 = bd + 1
    best = None
    perms = itertools.permutations(rs) if len(rs) <= 4 else [tuple(sorted(rs, key=lambda x: x[1].key))]
    for perm in perms:
        mp = {v: V('#%d' % (k0 + i)) for i, (v, n) in enumerate(perm)}
        names_ok = True
        # a range may only depend on earlier binders
        seen = set()
        for v, n in perm:
            if (n.fv & {w for w, _ in rs}) - seen:
                names_ok = False
            seen.add(v)
        if not names_ok:
            continue
        body = ONE
        for a, e in fs:
            body = pmul(body, subst_atom_pow(a, e, mp))
        rr = tuple(('#%d' % (k0 + i), subst(n, mp)) for i, (v, n) in enumerate(perm))
        key = 'S[' + ','.join('%s<%s' % (v, n.key) for v, n in rr) + ':' + body.key + ']'
        if best is None or key < best[0]:
            best = (key, rr, body)
    if best is None:
        raise Unsupported('sum range dependency')
    key, rr, body = best
    bs = {v for v, n in rr}
    fv = body.fv
    for v, n in rr:
        fv = fv | n.fv
    fv = fv - bs
    sort = 'I' if body.is_int() else 'R'
    return P(_mk('s', (rr, body), key, fv, k0 + len(rr) - 1, sort))


def open_sum(a):
    rs, b = a.data
    mp = {}
    nr = []
    for v, n in rs:
        f = fresh('s')
        nr.append((varname(f), subst(n, mp) if mp else n))
        mp[v] = f
    return nr, subst(b, mp)


def mk_prod(v, n, body):
    body = P(body)
    n = P(n)
    c = n.const()
    if c is not None and c.denominator == 1 and c <= 8:
        r = ONE
        for k in range(int(c)):
            r = r * subst(body, {v: P(k)})
        return r
    k = n.t.get((), ZEROQ)
    if k and k.denominator == 1 and k > 0:
        base = n - P(k)
        bv = as_var(base)
        if bv is not None and bv.data[0].startswith('it!'):
            r = mk_prod(v, base, body)
            for d in range(int(k)):
                r = r * subst(body, {v: base + d})
            return r
    if body.const() == 1:
        return ONE
    if body.const() is not None and 0 < body.const() < 1:
        return inv(mk_prod(v, n, P(1 / body.const())))
    if v not in n.fv:
        # delta: the body is 1 except where v = t
        for a in p_inds_top(body):
            if a.data[0] == 'eq' and v in a.fv and set_ind(body, a, 0).const() == 1:
                t = _solve_for(a.data[1], v)
                if t is not None:
                    return ONE + ind_le(-t) * ind_le(t - n + 1) * (subst(set_ind(body, a, 1), {v: t}) - ONE)
        # the order of nested products is immaterial; nested products in front are taken out
        if len(body.t) > 1:
            com = None
            for m in body.t:
                ps = {a: e for a, e in m if a.kind == 'p' and e > 0}
                com = ps if com is None else {a: min(e, ps[a]) for a, e in com.items() if a in ps}
                if not com:
                    break
            if com:
                rest = {}
                for m, c in body.t.items():
                    d = {a: e - com.get(a, 0) for a, e in m}
                    rest[tuple((a, d[a]) for a, _ in m if d[a])] = c
                r = mk_prod(v, n, Poly(rest))
                for a, e in com.items():
                    r = r * (mk_prod(v, n, P(a)) ** e if e != 1 else mk_prod(v, n, P(a)))
                return r
        s = body.single()
        if s and s[1] == 1 and len(s[0]) == 1 and s[0][0][0].kind == 'p' and s[0][0][1] == 1:
            v2, n2, b2 = open_prod(s[0][0][0])
            if v not in n2.fv and v2 not in n.fv:
                return min(_mk_prod(v, n, body), _mk_prod(v2, n2, _mk_prod(v, n, b2)), key=lambda p: p.key)
    return _mk_prod(v, n, body)


def _mk_prod(v, n, body):
    kb = max(body.bd, n.bd) + 1
    b = '#%d' % kb
    bb = subst(body, {v: V(b)})
    key = 'PI[%s<%s:%s]' % (b, n.key, bb.key)
    fv = (bb.fv - {b}) | n.fv
    return P(_mk('p', (b, n, bb), key, fv, kb, 'R'))


def open_prod(a):
    b, n, body = a.data
    f = fresh('s')
    return varname(f), n, subst(body, {b: f})


# ------------------------------------------------------------------ substitution

_sub_cache = {}


def subst(p, mp):
    """capture free simultaneous substitution of variables by polys"""
    if not mp or not p.t:
        return p
    if not (p.fv & mp.keys()):
        return p
    ck = (p.key, tuple(sorted((k, v.key) for k, v in mp.items())))
    r = _sub_cache.get(ck)
    if r is not None:
        return r
    acc = ZERO
    names = mp.keys()
    for m, c in p.t.items():
        keep = {}
        ch = []
        for a, e in m:
            if a.fv & names:
                ch.append((a, e))
            else:
                keep[a] = e
        if not ch:
            acc = acc + Poly({m: c})
            continue
        r = Poly({_norm_atoms(keep): c}) if keep else P(c)
        for a, e in ch:
            r = pmul(r, subst_atom_pow(a, e, mp))
            if not r.t:
                break
        acc = acc + r
    if len(_sub_cache) > 400000:
        _sub_cache.clear()
    _sub_cache[ck] = acc
    return acc


def subst_atom_pow(a, e, mp):
    r = subst_atom(a, mp)
    if e == 1:
        return r
    if isinstance(e, Q) and e.denominator != 1 or (a.kind == 'E'):
        if a.kind == 'E':
            return texp(subst(a.data[0], mp) * P(Q(e)))
        raise Unsupported('fractional power')
    e = int(e)
    return r ** e


_sa_cache = {}
_open_cache = {}
_aid = itertools.count()


def open_cached(a, mp):
    """open a binder with names that are unique to the atom (hence cacheable) unless mp mentions them"""
    r = _open_cache.get(a.key)
    if r is None:
        if a.kind == 's':
            rs, b = a.data
        else:
            rs, b = ((a.data[0], a.data[1]),), a.data[2]
        m2 = {}
        nr = []
        for v, n in rs:
            f = V('s@%d' % next(_aid))
            nr.append((varname(f), subst(n, m2) if m2 else n))
            m2[v] = f
        r = (tuple(nr), subst(b, m2))
        if len(_open_cache) > 200000:
            _open_cache.clear()
        _open_cache[a.key] = r
    for v, _ in r[0]:
        for x in mp.values():
            if v in x.fv:
                return None
        if v in mp:
            return None
    return r


def subst_atom(a, mp):
    if not (a.fv & mp.keys()):
        return P(a)
    if a.kind == 'v':
        return P(mp[a.data[0]])
    ck = (a.key, tuple(sorted((k, v.key) for k, v in mp.items() if k in a.fv)))
    r = _sa_cache.get(ck)
    if r is None:
        if len(_sa_cache) > 400000:
            _sa_cache.clear()
        r = subst_atom_(a, mp)
        _sa_cache[ck] = r
    return r


def subst_atom_(a, mp):
    k = a.kind
    if k == 'v':
        return P(mp[a.data[0]])
    if k == 'a':
        return mk_app(a.data[0], [subst(x, mp) for x in a.data[1]], a.sort)
    if k == 'i':
        op = a.data[0]
        if op == 'eq':
            return ind_eq(subst(a.data[1], mp))
        if op == 'le':
            return ind_le(subst(a.data[1], mp))
        if op == 'b':
            return ind_bool(a.data[1], *[subst(x, mp) for x in a.data[2]])
        if op == 'fa':
            v, n, c = a.data[1:]
            f = fresh('q')
            return ind_forall(varname(f), subst(n, mp), subst(subst(c, {v: f}), mp))
    if k == 'E':
        return texp(subst(a.data[0], mp))
    if k == 'q':
        return inv(subst(a.data[0], mp))
    if k == 's':
        oc = open_cached(a, mp)
        nr, b = oc if oc is not None else open_sum(a)
        b = subst(b, mp)
        r = _sum_mono(tuple((v, subst(n, mp)) for v, n in nr), b) if all(
            _plain_range(subst(n, mp)) for v, n in nr) else None
        if r is None:
            r = b
            for v, n in reversed(nr):
                r = mk_sum(v, subst(n, mp), r)
        return r
    if k == 'p':
        oc = open_cached(a, mp)
        if oc is not None:
            ((v, n),), b = oc
        else:
            v, n, b = open_prod(a)
        return mk_prod(v, subst(n, mp), subst(b, mp))
    raise AssertionError(k)


def _plain_range(n):
    c = n.const()
    if c is not None:
        return False
    return not n.t.get((), ZEROQ)


RESIMP = {}      # symbol (up to its first underscore) -> function rebuilding the application


def mk_app(f, args, sort='R'):
    """application with interpreted symbols re-simplified"""
    if f == 'log':
        return tlog(args[0])
    if f == 'abs':
        return tabs(args[0])
    h = RESIMP.get(f.split('_')[0])
    if h is not None:
        return h(f, [P(a) for a in args])
    return app(f, *args, sort=sort)


def tabs(x):
    x = P(x)
    c = x.const()
    if c is not None:
        return P(abs(c))
    lits = p_inds_top(x)
    if lits:
        a = lits[0]
        return P(a) * tabs(set_ind(x, a, 1)) + (ONE - P(a)) * tabs(set_ind(x, a, 0))
    lm, lc = leading(x)
    if lc < 0:
        x = -x
    return app('abs', x)


# ------------------------------------------------------------------ generic maps

REGISTRY = {}


def map_apps(p, fn):
    """rebuild p replacing every App atom by fn(atom, newargs) -> Poly or None"""
    cache = {}

    def go(p):
        k = p.key
        if k in cache:
            return cache[k]
        acc = ZERO
        for m, c in p.t.items():
            r = P(c)
            for a, e in m:
                x = goa(a)
                if e != 1:
                    if a.kind == 'E':
                        x = texp(go(a.data[0]) * P(Q(e)))
                    else:
                        x = x ** int(e)
                r = pmul(r, x)
                if not r.t:
                    break
            acc = acc + r
        cache[k] = acc
        return acc

    def goa(a):
        k = a.kind
        if k == 'v':
            r = fn(a, ())
            return P(a) if r is None else r
        if k == 'a':
            args = [go(x) for x in a.data[1]]
            r = fn(a, args)
            return mk_app(a.data[0], args, a.sort) if r is None else r
        if k == 'i':
            op = a.data[0]
            if op == 'eq':
                return ind_eq(go(a.data[1]))
            if op == 'le':
                return ind_le(go(a.data[1]))
            if op == 'b':
                args = [go(x) for x in a.data[2]]
                r = fn(a, args)
                return ind_bool(a.data[1], *args) if r is None else r
            v, n, c = a.data[1:]
            f = fresh('q')
            return ind_forall(varname(f), go(n), go(subst(c, {v: f})))
        if k == 'E':
            return texp(go(a.data[0]))
        if k == 'q':
            return inv(go(a.data[0]))
        if k == 's':
            nr, b = open_sum(a)
            r = go(b)
            for v, n in reversed(nr):
                r = mk_sum(v, go(n), r)
            return r
        if k == 'p':
            v, n, b = open_prod(a)
            return mk_prod(v, go(n), go(b))
    return go(p)


def collect(p, pred, out=None, deep=True):
    """collect atoms satisfying pred (key->atom)"""
    if out is None:
        out = {}
    for m in p.t:
        for a, e in m:
            if pred(a):
                out[a.key] = a
            if not deep:
                continue
            k = a.kind
            if k == 'a':
                for x in a.data[1]:
                    collect(x, pred, out)
            elif k == 'i':
                if a.data[0] in ('eq', 'le'):
                    collect(a.data[1], pred, out)
                elif a.data[0] == 'b':
                    for x in a.data[2]:
                        collect(x, pred, out)
                else:
                    collect(a.data[2], pred, out)
                    collect(a.data[3], pred, out)
            elif k in ('E', 'q'):
                collect(a.data[0], pred, out)
            elif k == 's':
                for v, n in a.data[0]:
                    collect(n, pred, out)
                collect(a.data[1], pred, out)
            elif k == 'p':
                collect(a.data[1], pred, out)
                collect(a.data[2], pred, out)
    return out


# ------------------------------------------------------------------ numeric evaluation

class NumEnv:
    """vars: name->number; funcs: symbol->callable; bools: symbol->callable"""

    def __init__(self, vars=None, funcs=None, bools=None):
        self.vars = dict(vars or {})
        self.funcs = dict(funcs or {})
        self.bools = dict(bools or {})


def num_digamma(x):
    from scipy.special import psi
    return float(psi(x))


BUILTIN = {
    'log': lambda x: math.log(x) if x > 0 else float('nan'),
    'digamma': num_digamma,
    'lgamma': lambda x: math.lgamma(x),
    'abs': abs,
    'sqrt': lambda x: math.sqrt(x) if x >= 0 else float('nan'),
    'trunc': lambda x: int(x),
    'idiv': lambda a, b: int(a / b) if b else 0,
    'imod': lambda a, b: int(math.fmod(a, b)) if b else 0,
    'max': max, 'min': min,
}


def evalp(p, env):
    memo = {}

    def ev(p, b):
        s = 0.0
        exact = 0
        for m, c in p.t.items():
            x = c if c.denominator != 1 else int(c)
            if isinstance(x, Q):
                x = float(x)
            for a, e in sorted(m, key=lambda t: t[0].kind != 'i'):
                y = eva(a, b)
                if y == 0:
                    # total semantics 0^-1=0; zero annihilates
                    x = 0
                    break
                if e == 1:
                    x = x * y
                else:
                    try:
                        x = x * (float(y) ** float(e) if (e < 0 or not isinstance(y, int)) else y ** int(e))
                    except OverflowError:
                        x = float('inf')
            exact = exact + x
        return exact

    def eva(a, b):
        k = a.kind
        if k == 'v':
            n = a.data[0]
            return b[n] if n in b else env.vars[n]
        if not (a.fv & b.keys()):
            if a.key in memo:
                return memo[a.key]
            r = eva2(a, b)
            memo[a.key] = r
            return r
        return eva2(a, b)

    def eva2(a, b):
        k = a.kind
        if k == 'a':
            f = a.data[0]
            args = [ev(x, b) for x in a.data[1]]
            fn = env.funcs.get(f) or BUILTIN.get(f)
            return fn(*args)
        if k == 'i':
            op = a.data[0]
            if op == 'eq':
                x = ev(a.data[1], b)
                return 1 if abs(x) <= 1e-12 else 0
            if op == 'le':
                return 1 if ev(a.data[1], b) <= 0 else 0
            if op == 'b':
                return 1 if env.bools[a.data[1]](*[ev(x, b) for x in a.data[2]]) else 0
            v, n, c = a.data[1:]
            for i in range(int(ev(n, b))):
                b2 = dict(b)
                b2[v] = i
                if ev(c, b2) == 0:
                    return 0
            return 1
        if k == 'E':
            x = ev(a.data[0], b)
            try:
                return math.exp(x)
            except OverflowError:
                return float('inf')
        if k == 'q':
            x = ev(a.data[0], b)
            return 0 if x == 0 else 1.0 / x
        if k == 's':
            rs, body = a.data
            tot = 0

            def rec(i, b):
                nonlocal tot
                if i == len(rs):
                    tot += ev(body, b)
                    return
                v, n = rs[i]
                for x in range(max(0, int(round(ev(n, b))))):
                    b2 = dict(b)
                    b2[v] = x
                    rec(i + 1, b2)
            rec(0, b)
            return tot
        if k == 'p':
            v, n, body = a.data
            r = 1
            for x in range(max(0, int(round(ev(n, b))))):
                b2 = dict(b)
                b2[v] = x
                r *= ev(body, b2)
            return r
        raise AssertionError(k)
    return ev(p, {})
