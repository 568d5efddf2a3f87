"""C25: fast exponential and digamma."""
#: note Real arithmetic (rounding of the squarings and of the series is not modelled); the table is read from the source and every entry is checked with interval arithmetic. Termination of the halving and recurrence loops is not proved. Conformance runs are bounded.
from estep import *
import conf
import numpy as np
MU = NS + 'math_utils::'
INST = VERIF + '/harness/inst.cpp'


def fn(u, name):
    fs = [f for f in u.prog.find(MU + name) if f['params'] and strip_type(f['params'][0]['t']) == 'double']
    if not fs:
        raise Unsupported(name + ' not found')
    return fs[0]


def series(z):
    """asymptotic series of digamma at z + 1/2, as documented"""
    w = inv(z)
    return tlog(z) + P(Q(1, 24)) * w ** 2 - P(Q(7, 960)) * w ** 4 + P(Q(31, 8064)) * w ** 6 - P(Q(127, 30720)) * w ** 8


def digamma(u):
    """psi(x) = series(x+n-1/2) - sum_{k<n} 1/(x+k) with n the least number for which x+n >= 7; hence the recurrence below 7"""
    x = V('x', 'R')
    declare('x', 'pos')
    u.st.assume(ONE - ind_le(x))
    f = fn(u, 'digamma')
    u.ex.contracts.clear()
    for st, k, v in u.run(f, None, [Num(x)]):
        n = st.exits[-1] if st.exits else ZERO
        u.eq_num(st, 'series plus recurrence', v, series(x + n - P(Q(1, 2))) - S(n, lambda k: inv(x + k)))
        u.ob(st, 'the series is used from 7 on only', 'nonneg', x + n - 7)
        t = V('it!%d' % next(symex._oid))
        s = st.clone()
        s.assume(ind_le(-t)); s.assume(ind_le(t - n + 1))
        for h in instances(st, t):
            s.assume(h)
        u.holds(s, 'the recurrence is used below 7 only', ONE - ind_le(7 - x - t))


def bounds(tab):
    """slope, and the largest deviation of the logarithms of the table from the line through the origin (rounded up)"""
    from mpmath import iv, mpf
    iv.prec = 80
    vals = [iv.log(iv.mpf(t.numerator) / iv.mpf(t.denominator)) for t in tab]
    n = len(tab)
    m = Q(int(float(vals[-1].mid) / (n - 1) * 10 ** 12), 10 ** 12)
    e = 0
    for i, x in enumerate(vals):
        d = x - iv.mpf(i) * iv.mpf(m.numerator) / iv.mpf(m.denominator)
        e = max(e, float(abs(d).b))
    return m, Q(int(e * 10 ** 12) + 2, 10 ** 12)


def tables(u, s, p):
    """the table's entries, read from the source, as two linear bounds on their logarithms (checked for every entry)"""
    for a in collect(p, lambda a: a.kind == 'a' and a.data[0] in symex.TABLES).values():
        tab = symex.TABLES[a.data[0]]
        i = a.data[1][0]
        m, e = bounds(tab)
        L = tlog(P(a))
        inside = ind_le(-i) * ind_le(i - len(tab) + 1)
        for c in (ind_le(L - P(m) * i - P(e)), ind_le(P(m) * i - P(e) - L)):
            s.assume(ONE - inside * (ONE - c))


def exitvars(st, p):
    return [e for e in st.exits if as_atom(e) is not None and varname(e) in p.fv]


def fast_exp(u):
    x = V('x', 'R')
    f = fn(u, 'fast_exp')
    u.ex.contracts.clear()
    for st, k, v in u.run(f, None, [Num(x)]):
        u.holds(st, 'defined', v.d)
        u.ob(st, 'positive', 'pos', v.p)
        for sg in (1, -1):
            # magnitude y = sg*x
            y = x * sg
            s = st.clone()
            s.assume(ONE - ind_le(y - 100))
            if not s.ctx().inconsistent():
                u.eq_num(s, 'library exponential beyond 100', v, texp(x))
            s = st.clone()
            s.assume(ind_le(y - 100)); s.assume(ind_le(-y))
            ev = exitvars(st, v.p)
            for n in ev:
                for h in instances(st, n - 1):
                    s.assume(h)
            for zero in (True, False):
                s1 = s.clone()
                lv = tlog(v.p)
                if ev:
                    n = ev[0]
                    if zero:
                        s1.pc = [subst(h, {varname(n): ZERO}) for h in s1.pc]
                        lv = subst(lv, {varname(n): ZERO})
                    else:
                        z = V('it!%d' % next(symex._oid))
                        mp = {varname(n): z + 1}
                        s1.pc = [ind_le(-z)] + [subst(h, mp) for h in s1.pc]
                        lv = subst(lv, mp)
                    s1._ctx = None
                elif not zero:
                    continue
                tables(u, s1, lv)
                if s1.ctx().inconsistent():
                    continue
                for big in (True, False):
                    s2 = s1.clone()
                    s2.assume(ind_le(1 - y) if big else ONE - ind_le(1 - y))
                    b = (y if big else ONE) * P(Q(1, 1000))
                    u.ob(s2, 'logarithm at most max(1,|x|)/1000 above the argument', 'nonneg', b - lv + x)
                    u.ob(s2, 'logarithm at most max(1,|x|)/1000 below the argument', 'nonneg', b + lv - x)
        # reciprocal at the negated argument
        for s2, k2, v2 in u.run(f, None, [Num(-x)], st.clone()):
            if s2.ctx().inconsistent():
                continue
            if s2.ctx().entails(ind_eq(x)):
                continue            # see below
            e1, e2 = exitvars(st, v.p), [e for e in exitvars(s2, v2.p) if e not in st.exits]
            p2 = v2.p
            if e1 and e2:
                s3 = s2.clone()
                for h in instances(s2, e1[0]) + instances(s2, e2[0]):
                    s3.assume(h)
                u.eq(s3, 'as many halvings at the negated argument', e1[0], e2[0])
                p2 = subst(p2, {varname(e2[0]): e1[0]})
                s2.pc = [subst(h, {varname(e2[0]): e1[0]}) for h in s2.pc]
                s2._ctx = None
            u.eq(s2, 'reciprocal of the value at the negated argument', v.p * p2, ONE)
    u0 = u.run(f, None, [Num(ZERO)])
    for st, k, v in u0:
        u.eq_num(st, 'one at zero', v, ONE)


def conformance(rng, tier):

    def psi(x):
        """recurrence up to 7, then the documented series"""
        r = 0.0
        while x < 7:
            r -= 1 / x
            x += 1
        z = x - .5
        return r + (np.log(z) + 1 / 24 / z ** 2 - 7 / 960 / z ** 4 + 31 / 8064 / z ** 6 - 127 / 30720 / z ** 8)
    T = conf.Tester(['d_math.cpp'], [], extra=('-fsanitize=undefined,address', '-fno-sanitize-recover=all'))
    n = {'quick': 400, 'thorough': 20000, 'deep': 6000}[tier]
    edge = [0.0, 1.0, 2.0, 4.0, 64.0, 100.0, 0.5, 1 / 1024, 1023 / 1024, 1e-300, 5e-324, 2.2e-16, 99.99, 700.0, 709.0]
    edge += [np.nextafter(e, 0) for e in edge if e] + [np.nextafter(e, 1e9) for e in edge] + [2.0 ** k for k in range(-5, 7)] + \
        [np.nextafter(2.0 ** k, 0) for k in range(-5, 7)]
    xs = [s * e for e in edge for s in (1, -1)]
    xs += list(rng.uniform(-110, 110, n)) + list(rng.uniform(-2, 2, n)) + list(rng.uniform(-600, 600, n // 4))
    xs += [s * (int(rng.integers(0, 1024)) + d) / 1024 * 2.0 ** int(rng.integers(0, 7)) for d in (0, 1e-9, 1 - 1e-9) for s in (1, -1) for _ in range(n // 4)]

    for i in range(1024):           # both ends of every cell of the table
        xs += [(i + d) / 1024 * (2.0 ** int(rng.integers(0, 7)) if i >= 512 else 1) for d in (1e-9, 1 - 1e-9)]

    def near(x, f):
        def check(r):
            v = r['v'][0, 0]
            if not v > 0:
                return 'not positive'
            if abs(x) > 100:
                return None if abs(np.log(v) - x) <= 1e-9 * abs(x) + (1e-5 if f else 0) else 'not the library exponential'
            if x == 0 and v != 1:
                return 'not one at zero'
            if abs(np.log(v) - x) > max(1, abs(x)) / 1000:
                return 'relative error above the bound'
        return check
    for x in xs:
        x = float(x)
        if abs(x) < 709.5:
            T.case(('fast_exp', x), check=near(x, False))
        x = float(np.float32(x))
        if abs(x) < 87:
            T.case(('fast_exp_f', x), check=near(x, True))
    for x in xs[:200]:
        x = float(x)
        if 0 < abs(x) < 600:
            T.case(('fast_recip', x), tol=(1e-12, 0), v=1.0)
    ys = [10.0 ** rng.uniform(-6, 6) for _ in range(n)] + list(rng.uniform(0.01, 12, n)) + [float(k) for k in range(1, 12)] + [6.999999, 7.0000001, 1e-12]
    for y in ys:
        y = float(y)
        T.case(('digamma', y), v=psi(y), tol=(1e-12, 1e-13))
        y = float(np.float32(y))
        T.case(('digamma_f', y), v=psi(y), tol=(3e-5, 3e-5))
    return T.finish()


UNITS = [('digamma', digamma), ('fast_exp', fast_exp)]
CHECK = Check('C25', [INST], UNITS, conformance)
